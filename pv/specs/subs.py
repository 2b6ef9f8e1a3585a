"""Contracts for protosym.core.tree.SubsFunc.

sub(P, Q, t) is the recursively defined simultaneous substitution of the
trees Q for the (distinct) trees P in t.
"""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from .tree import SetS, sel, ts_facts, EMPTYSET, IS

sub = Function('sub', TS.S, TS.S, TreeS, TreeS)
subk = Function('subk', TS.S, TS.S, TreeS, TS.S)
subx = Function('subx', TS.S, TS.S, TreeS, TreeS)      # marker for the extensionality axiom
subw = Function('subw', TS.S, TS.S, TS.S, TreeS, I)
unaff = Function('unaff', TS.S, TreeS, B)              # no given tree occurs in t
unaffw = Function('unaffw', TS.S, TreeS, I)
P_, Q_, t_, s_, j_ = Const('P', TS.S), Const('Q', TS.S), Const('t', TreeS), Const('s', TS.S), z3.Int('j')
_sk = subk(P_, Q_, t_)
smt.AX.add('sub',
           fa([P_, Q_, t_], Implies(TS.mem(P_, t_), sub(P_, Q_, t_) == TS.at(Q_, TS.idx(P_, t_))), sub(P_, Q_, t_)),
           fa([P_, Q_, t_], Implies(And(Not(TS.mem(P_, t_)), isatom(t_)), sub(P_, Q_, t_) == t_), sub(P_, Q_, t_)),
           fa([P_, Q_, t_], Implies(And(Not(TS.mem(P_, t_)), Not(isatom(t_))), And(sub(P_, Q_, t_) == mk(_sk), TS.len(_sk) == TS.len(kids(t_)))), sub(P_, Q_, t_)))
smt.AX.add('subk',
           fa([P_, Q_, t_, j_], Implies(And(0 <= j_, j_ < TS.len(kids(t_))), TS.at(_sk, j_) == sub(P_, Q_, TS.at(kids(t_), j_))), TS.at(_sk, j_)))
_w = subw(s_, P_, Q_, t_)
smt.AX.add('subx',
           fa([P_, Q_, t_, s_], Or(s_ == _sk, TS.len(s_) != TS.len(_sk), And(0 <= _w, _w < TS.len(s_), TS.at(s_, _w) != TS.at(_sk, _w))),
              (mk(s_), subx(P_, Q_, t_))))
smt.AX.add('unaff',
           fa([P_, t_], Implies(unaff(P_, t_), Not(TS.mem(P_, t_))), unaff(P_, t_)),
           fa([P_, t_, j_], Implies(And(unaff(P_, t_), 0 <= j_, j_ < TS.len(kids(t_))), unaff(P_, TS.at(kids(t_), j_))), (unaff(P_, t_), TS.at(kids(t_), j_))),
           fa([P_, t_], Implies(And(Not(TS.mem(P_, t_)), Not(unaff(P_, t_))),
                                And(0 <= unaffw(P_, t_), unaffw(P_, t_) < TS.len(kids(t_)), Not(unaff(P_, TS.at(kids(t_), unaffw(P_, t_)))))), unaff(P_, t_)))

UNAFF_LEMMA = fa([P_, Q_, t_], Implies(unaff(P_, t_), sub(P_, Q_, t_) == t_), (unaff(P_, t_), sub(P_, Q_, t_)))


class Unaffected(LemmaTask):
    name = 'lemma: a tree without given trees is unchanged by substitution'

    def obligations(self, variant):
        P, Q, x, y = Const('P0', TS.S), Const('Q0', TS.S), Const('x', TreeS), Const('y', TreeS)
        ih = fa(y, Implies(And(height(y) < height(x), unaff(P, y)), sub(P, Q, y) == y), sub(P, Q, y))
        return [('induction on the height', [ih, unaff(P, x), touch(subx(P, Q, x)), touch(mk(kids(x))), touch(sub(P, Q, x)),
                                             touch(TS.at(kids(x), subw(kids(x), P, Q, x)))],
                 sub(P, Q, x) == x)]


def distinct(s, th=TS):
    i, j = z3.Ints('i j')
    return fa([i, j], Implies(And(0 <= i, i < j, j < th.len(s)), th.at(s, i) != th.at(s, j)), (th.at(s, i), th.at(s, j)))


LLI = ListTy(ListTy(INT))
LS = LLI.th


def order_is(P, at, nd, i, t):
    """The i-th value of the prepared substitution belongs to t."""
    np, na = TS.len(P), TS.len(at)
    return And(Implies(i < np, TS.at(P, i) == t),
               Implies(And(np <= i, i < np + na), TS.at(at, i - np) == t),
               Implies(np + na <= i, TS.at(nd, i - np - na) == t))


def ops_facts(P, at, nd, ops, upto):
    k, j = z3.Ints('k j')
    base = TS.len(P) + TS.len(at)
    op = LS.at(ops, k)
    ix = IS.at(op, j)
    rng = And(0 <= k, k < upto)
    jr = And(rng, 0 <= j, j < TS.len(kids(TS.at(nd, k))))
    return [
        ('one operation per node', LS.len(ops) == upto),
        ('one index per child', fa(k, Implies(rng, IS.len(op) == TS.len(kids(TS.at(nd, k)))), op)),
        ('indices point to earlier values', fa([k, j], Implies(jr, And(0 <= ix, ix < base + k)), ix)),
        ('indices point to the children', fa([k, j], Implies(jr, order_is(P, at, nd, ix, TS.at(kids(TS.at(nd, k)), j))), ix)),
    ]


class ScanLoop(LoopSpec):
    def __init__(self):
        super().__init__('scan for affected subexpressions', {
            'has': Role(SetTy(TREE), ('has_args', 'affected')),
            'nc': Role(SetTy(TREE), ('node_children', 'used')),
            'nodes': Role(ListTy(TREE), ('nodes',)),
            'atoms': Role(ListTy(TREE), ('atoms',)),
        }, self.run, kinds=('for',), when=self.match)

    def match(self, E, fr, itv):
        return itv is not None and any(z3.is_app(t) and t.decl().name() == 'tsort' for _, t in itv.base)

    def run(self, S):
        P = S.a.P
        m = next(t for _, t in S.itv.base if t.decl().name() == 'tsort')
        has, nc, nd, at = S.t('has'), S.t('nc'), S.t('nodes'), S.t('atoms')
        i, j, k = z3.Ints('i j k')
        x = Const('x', TreeS)
        E = lambda i: TS.at(m, i)
        N, A = lambda i: TS.at(nd, i), lambda i: TS.at(at, i)
        c = TS.at(kids(N(k)), j)
        return [
            ('marked are affected', fa(x, Implies(sel(has, x), And(Not(unaff(P, x)), Or(TS.mem(P, x), And(TS.mem(m, x), TS.idx(m, x) < S.it)))), sel(has, x))),
            ('given trees are marked', fa(x, Implies(TS.mem(P, x), sel(has, x)), TS.mem(P, x), sel(has, x))),
            ('not marked are unaffected', fa(i, Implies(And(0 <= i, i < S.it, Not(sel(has, E(i)))), unaff(P, E(i))), E(i))),
            ('nodes come from the sort', fa(i, Implies(And(0 <= i, i < TS.len(nd)), And(TS.mem(m, N(i)), TS.idx(m, N(i)) < S.it, sel(has, N(i)), Not(isatom(N(i))))), N(i))),
            ('nodes keep the order', fa([i, j], Implies(And(0 <= i, i < j, j < TS.len(nd)), TS.idx(m, N(i)) < TS.idx(m, N(j))), (N(i), N(j)))),
            ('no node is missing', fa(i, Implies(And(0 <= i, i < S.it, sel(has, E(i))), TS.mem(nd, E(i))), E(i))),
            ('atoms come from the sort', fa(i, Implies(And(0 <= i, i < TS.len(at)), And(TS.mem(m, A(i)), TS.idx(m, A(i)) < S.it, Not(sel(has, A(i))), unaff(P, A(i)))), A(i))),
            ('atoms once', fa([i, j], Implies(And(0 <= i, i < j, j < TS.len(at)), TS.idx(m, A(i)) < TS.idx(m, A(j))), (A(i), A(j)))),
            ('no atom is missing', fa(i, Implies(And(0 <= i, i < S.it, Not(sel(has, E(i)))), TS.mem(at, E(i))), E(i))),
            ('children of nodes are used', fa([k, j], Implies(And(0 <= k, k < TS.len(nd), 0 <= j, j < TS.len(kids(N(k)))), sel(nc, c)), c)),
            ('some subexpression was seen', Implies(S.it > 0, TS.len(nd) + TS.len(at) > 0)),
        ]


class OpsLoop(LoopSpec):
    def __init__(self):
        super().__init__('operations of the substitution', {
            'ops': Role(LLI, ('operations', 'ops')),
            'indices': Role(DictTy(TREE, INT), ('indices', 'index')),
        }, self.run, kinds=('for',), when=self.match)

    def match(self, E, fr, itv):
        return itv is not None and any(h is TS for h, t in itv.base)

    def run(self, S):
        P = S.a.P
        nd = next(t for h, t in S.itv.base if h is TS)
        S.E.ghost['subs_nodes'] = nd
        at = S.a.atoms_now(S)
        d = S.t('indices')
        ty = DictTy(TREE, INT)
        dom, val = (lambda x: sel(ty.dom(d), x)), (lambda x: z3.Select(ty.val(d), x))
        x, i = Const('x', TreeS), z3.Int('i')
        np, na = TS.len(P), TS.len(at)
        return ops_facts(P, at, nd, S.t('ops'), S.it) + [
            ('', touch(TS.at(nd, 0))),
            ('given trees are indexed', fa(i, Implies(And(0 <= i, i < np), And(dom(TS.at(P, i)), val(TS.at(P, i)) == i)), TS.at(P, i))),
            ('atoms are indexed', fa(i, Implies(And(0 <= i, i < na), dom(TS.at(at, i))), TS.at(at, i))),
            ('nodes are indexed', fa(i, Implies(And(0 <= i, i < S.it), And(dom(TS.at(nd, i)), val(TS.at(nd, i)) == np + na + i)), TS.at(nd, i))),
            ('each index leads back', fa(x, Implies(dom(x), And(0 <= val(x), val(x) < np + na + S.it, order_is(P, at, nd, val(x), x))), dom(x), val(x))),
        ]


def inv(P, expr, nargs, at, nd, ops, res):
    """A prepared substitution of P in expr."""
    i = z3.Int('i')
    nn = TS.len(nd)
    return [
        ('number of given trees', nargs == TS.len(P)),
        ('kept parts are unaffected', fa(i, Implies(And(0 <= i, i < TS.len(at)), unaff(P, TS.at(at, i))), TS.at(at, i))),
        ('nodes are compound and not given', fa(i, Implies(And(0 <= i, i < nn), And(Not(isatom(TS.at(nd, i))), Not(TS.mem(P, TS.at(nd, i))))), TS.at(nd, i))),
    ] + ops_facts(P, at, nd, ops, nn) + [
        ('result position', And(0 <= res, res < TS.len(P) + TS.len(at) + nn, order_is(P, at, nd, res, expr)))]


SORT, MKS, (sexpr, sargs) = smt.tupsort([TreeS, TS.S])


def _cls():
    from protosym.core.tree import SubsFunc
    return SubsFunc


def SUBSF():
    return OpaqueTy('SubsFunc', _cls(), SORT)


class SubsNew(Contract):
    target = 'protosym.core.tree:SubsFunc.__new__'
    name = 'SubsFunc'
    loops = (ScanLoop(), OpsLoop())

    def setup(self, E, variant):
        E.ghost.pop('subs_nodes', None)
        return [Con(_cls()), Tm(TREE, Const('expr', TreeS)), E.alloc(ListC(TREE, Const('given', TS.S)))], {}

    def view(self, E, b):
        a = NS(expr=E.term(b['expr'], TREE), P=E.term(b['args'], ListTy(TREE)))
        P = a.P
        x, j = Const('x', TreeS), z3.Int('j')
        # closed under listed children: the unaffected trees
        a.closed = [lambda t: unaff(P, t)]

        def atoms_now(S):
            v = S.frame.vars.get('atoms')
            if v is None:
                raise Unsupported('no list of kept parts')
            return S.E.term(v, ListTy(TREE))
        a.atoms_now = atoms_now
        return a

    def pre(self, E, a):
        return [('given trees are distinct', distinct(a.P))]

    def post(self, E, a, res):
        if not isinstance(res, Ref):
            raise Unsupported('result')
        g = lambda n, ty: E.term(E.getattr(res, n), ty)
        nd = E.ghost.get('subs_nodes')
        if nd is None:
            raise Unsupported('operations loop not found')
        return inv(a.P, a.expr, g('nargs', INT), g('atoms', ListTy(TREE)), nd, g('operations', LLI), g('result', INT))

    def apply(self, E, o, args, kwargs):
        E.calls_used.add(self.name)
        a = self.view(E, self.bind(E, args, kwargs))
        for lab, f in self.pre(E, a):
            E.emit(f, f'precondition of {self.name}: {lab}', 'pre')
            E.assume(f)
        E.assume(UNAFF_LEMMA)
        return Tm(SUBSF(), MKS(a.expr, a.P))


class CallLoop(LoopSpec):
    def __init__(self):
        super().__init__('replay of the substitution', {'stack': Role(ListTy(TREE), ('stack', 'values'))}, self.run,
                         when=lambda E, fr, itv: itv is not None and any(h is LS for h, t in itv.base))

    def run(self, S):
        a = S.a
        s = S.t('stack')
        i = z3.Int('i')
        np, na = TS.len(a.P), TS.len(a.at)
        n = np + na + S.it
        X = lambda t: sub(a.P, a.Q, t)
        return [
            ('one value per entry', TS.len(s) == n),
            ('replacements', fa(i, Implies(And(0 <= i, i < np), TS.at(s, i) == TS.at(a.Q, i)), TS.at(s, i), TS.at(a.Q, i))),
            ('kept parts', fa(i, Implies(And(0 <= i, i < na), TS.at(s, np + i) == TS.at(a.at, i)), TS.at(a.at, i))),
            ('nodes', fa(i, Implies(And(0 <= i, i < S.it), TS.at(s, np + na + i) == X(TS.at(a.nd, i))), TS.at(a.nd, i))),
            ('', touch(subx(a.P, a.Q, TS.at(a.nd, S.it)))),
        ]


class SubsCall(Contract):
    target = 'protosym.core.tree:SubsFunc.__call__'
    name = 'SubsFunc.__call__'
    loops = (CallLoop(),)

    def setup(self, E, variant):
        at, ops, n, r = Const('kept', TS.S), Const('ops', LS.S), z3.Int('num_given'), z3.Int('result_at')
        E.ghost['sub'] = (Const('given', TS.S), Const('expr', TreeS), n, at, Const('nodes', TS.S), ops, r)
        o = E.alloc(ObjC(_cls(), {'nargs': Tm(INT, n), 'atoms': E.alloc(ListC(TREE, at)),
                                  'operations': E.wrap(LLI, ops), 'result': Tm(INT, r)}))
        return self.arguments(E, o), {}

    def arguments(self, E, o):
        return [o, Star(TREE, Const('replacements', TS.S))]

    def view(self, E, b):
        o = b['self']
        Q = E.term(b['args'], SeqTy(TREE))
        if isinstance(o, Tm):
            return NS(expr=sexpr(o.t), P=sargs(o.t), Q=Q)
        if 'sub' not in E.ghost:
            raise Unsupported('unknown prepared substitution')
        P, expr, n, at, nd, ops, r = E.ghost['sub']
        return NS(P=P, expr=expr, Q=Q, at=at, nd=nd, inv=inv(P, expr, n, at, nd, ops, r))

    def pre(self, E, a):
        return [('prepared substitution: ' + l, f) for l, f in a.inv] + [('given trees are distinct', distinct(a.P))] if hasattr(a, 'inv') else []

    def ghost(self, E, a):
        return [('', UNAFF_LEMMA)]

    def raises(self, E, a):
        return [(TypeError, TS.len(a.Q) != TS.len(a.P))]

    def result(self, E, a):
        return Tm(TREE, sub(a.P, a.Q, a.expr))

    def post(self, E, a, res):
        return [('the result is the simultaneous substitution', E.term(res, TREE) == sub(a.P, a.Q, a.expr))]


class SubsCall2(SubsCall):
    target = 'protosym.core.tree:SubsFunc.call'
    name = 'SubsFunc.call'

    def arguments(self, E, o):
        return [o, Tm(SeqTy(TREE), Const('replacements', TS.S))]


class UserFunction(CheckTask):
    """ExprFunction: prepared once, called any number of times with any expressions."""
    name = 'ExprFunction(expr, params)(*args)'
    variants = ('ExprFunction', 'as_function', 'xreplace', 'xreplace with objects')

    def xreplace(self, E, variant):
        from protosym.simplecas.expr import Expr
        from .matrix import ENTRY, conv, okconv
        ET, VT = SymTy(Expr), ENTRY if variant.endswith('objects') else SymTy(Expr)
        D = DictTy(ET, VT)
        e, Q = Const('expr', TreeS), Const('new', TS.S)
        d = E.wrap(D, Const('reps', D.sort))
        r = E.content(d.cell)
        P = E.iterate(d).base[0][1]
        new = (lambda k: conv(z3.Select(r.val, k))) if VT is ENTRY else (lambda k: z3.Select(r.val, k))
        i, x, Q2 = z3.Int('i'), Const('x', TreeS), Const('q', TS.S)
        E.assume(distinct(P))
        if VT is ENTRY:
            E.assume(fa(x, okconv(z3.Select(r.val, x)), z3.Select(r.val, x)))
        E.assume(TS.len(Q) == TS.len(P))
        E.assume(fa(i, Implies(And(0 <= i, i < TS.len(P)), TS.at(Q, i) == new(TS.at(P, i))), TS.at(Q, i)))
        differ = Function('replacements differ at', TS.S, TS.S, I)
        w = differ(Q2, Q)
        E.assume(fa(Q2, Or(Q2 == Q, TS.len(Q2) != TS.len(Q), And(0 <= w, w < TS.len(Q), TS.at(Q2, w) != TS.at(Q, w))), sub(P, Q2, e)))
        E.raises = ()
        res = E.call(E.getattr(Tm(ET, e), 'xreplace'), [d], {})
        E.emit(E.term(res, ET) == sub(P, Q, e), 'the simultaneous substitution', 'post')

    def run(self, E, variant):
        from protosym.simplecas.expr import Expr, ExprFunction
        if variant.startswith('xreplace'):
            return self.xreplace(E, variant)
        ET = SymTy(Expr)
        e, P, Q1, Q2 = Const('expr', TreeS), Const('given', TS.S), Const('args1', TS.S), Const('args2', TS.S)
        E.assume(distinct(P))
        if variant == 'ExprFunction':
            f = E.call(Con(ExprFunction), [Tm(ET, e), Tm(SeqTy(ET), P)], {})
        else:
            f = E.call(E.getattr(Tm(ET, e), 'as_function'), [Star(ET, P)], {})
        E.raises = (TypeError,)
        for k, Q in enumerate((Q1, Q2)):
            try:
                r = E.call(f, [Star(ET, Q)], {})
            except PyExc as ex:
                E.emit(And(BoolVal(issubclass(ex.cls, TypeError)), TS.len(Q) != TS.len(P)), f'call {k + 1}: TypeError only for a wrong number of arguments ({ex.cls.__name__} {ex.why})', 'raises')
                return
            E.emit(TS.len(Q) == TS.len(P), f'call {k + 1}: TypeError for a wrong number of arguments', 'raises')
            E.emit(E.term(r, ET) == sub(P, Q, e), f'call {k + 1}: the simultaneous substitution', 'post')
