"""Contracts for protosym.core.tree."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt

SetS = z3.ArraySort(TreeS, B)
tsort = Function('tsort', TreeS, B, SetS, TS.S)
reach = Function('reach', TreeS, B, SetS, TreeS, B)
EMPTYSET = z3.K(TreeS, BoolVal(False))


def off(heads):
    if isinstance(heads, bool):
        return IntVal(0 if heads else 1)
    return If(heads, IntVal(0), IntVal(1))


def nk(t, heads):
    """Number of listed children."""
    return If(isatom(t), IntVal(0), TS.len(kids(t)) - off(heads))


def kid(t, j, heads):
    return TS.at(kids(t), j + off(heads))


def sel(X, t):
    return z3.Select(X, t)


ENTRY = TupTy(TREE, ListTy(TREE))
SS = SeqTh(ENTRY.sort)
st0, st1 = ENTRY.acc
onst = Function('onst', SS.S, TreeS, B)
stpos = Function('stpos', SS.S, TreeS, I)
_S, _x, _i = Const('S', SS.S), Const('x', TreeS), z3.Int('i')
smt.AX.add('onst', fa([_S, _x], Implies(onst(_S, _x), And(0 <= stpos(_S, _x), stpos(_S, _x) < SS.len(_S),
                                                           st0(SS.at(_S, stpos(_S, _x))) == _x)), onst(_S, _x)),
           fa([_S, _i], Implies(And(0 <= _i, _i < SS.len(_S)), onst(_S, st0(SS.at(_S, _i)))), SS.at(_S, _i)))

# termination: x is a subexpression of e (one of finitely many); how many of them are not yet in the set
within, left = Function('within', TreeS, TreeS, B), Function('subexpressions left', TreeS, SetS, I)
_e, _X = Const('e', TreeS), Const('X', SetS)
smt.AX.add('within', fa(_e, within(_e, _e), within(_e, _e)),
           fa([_e, _x, _i], Implies(And(within(_e, _x), 0 <= _i, _i < TS.len(kids(_x))), within(_e, TS.at(kids(_x), _i))), (within(_e, _x), TS.at(kids(_x), _i))))
smt.AX.add('subexpressions left', fa([_e, _X], left(_e, _X) >= 0, left(_e, _X)),
           fa([_e, _X, _x], Implies(And(within(_e, _x), Not(sel(_X, _x))), left(_e, z3.Store(_X, _x, True)) == left(_e, _X) - 1), left(_e, z3.Store(_X, _x, True))))


def ts_inv(S):
    a = S.a
    X, hd, expr, R = a.X, a.heads, a.expr, a.R
    seen, E, Sk = S.t('seen'), S.t('out'), S.t('stack')
    n, m = SS.len(Sk), TS.len(E)
    st = lambda i: st0(SS.at(Sk, i))
    ch = lambda i: st1(SS.at(Sk, i))
    at = lambda i: SS.at(Sk, i)
    i, j, k = z3.Ints('i j k')
    x = Const('x', TreeS)
    NK = lambda i: nk(st(i), hd)
    off_ = off(hd)
    kd = lambda i, j: kid(st(i), j, hd)
    rng = And(0 <= i, i < n)
    done = lambda i: NK(i) - TS.len(ch(i))
    K = lambda i, j: TS.at(kids(st(i)), j)
    return [
        ('pending lists', fa(i, Implies(rng, And(TS.len(ch(i)) <= NK(i))), at(i))),
        ('pending children', fa([i, j], Implies(And(rng, 0 <= j, j < TS.len(ch(i))), TS.at(ch(i), j) == kd(i, NK(i) - 1 - j)), TS.at(ch(i), j))),
        ('processed children', fa([i, j], Implies(And(rng, off_ <= j, j < off_ + done(i)),
                                                  Or(sel(X, K(i, j)), TS.mem(E, K(i, j)), And(i + 1 < n, st(i + 1) == K(i, j)))), K(i, j))),
        ('heights decrease', fa([i, j], Implies(And(0 <= i, i < j, j < n), height(st(j)) < height(st(i))), (at(i), at(j)))),
        ('excluded are seen', fa(x, Implies(sel(X, x), sel(seen, x)), sel(seen, x), sel(X, x))),
        ('seen are known', fa(x, Implies(sel(seen, x), Or(sel(X, x), TS.mem(E, x), onst(Sk, x))), sel(seen, x))),
        ('listed are seen', fa(i, Implies(And(0 <= i, i < m), Or(TS.at(E, i) == expr, sel(seen, TS.at(E, i)))), TS.at(E, i))),
        ('stacked are seen', fa(i, Implies(And(0 < i, i < n), sel(seen, st(i))), at(i))),
        ('stacked not excluded', fa(i, Implies(rng, Not(sel(X, st(i)))), at(i))),
        ('stacked not listed', fa([i, j], Implies(And(rng, 0 <= j, j < m), TS.at(E, j) != st(i)), (at(i), TS.at(E, j)))),
        ('no repetition', fa([i, j], Implies(And(0 <= i, i < j, j < m), TS.at(E, i) != TS.at(E, j)), (TS.at(E, i), TS.at(E, j)))),
        ('listed not excluded', fa(i, Implies(And(0 <= i, i < m), Not(sel(X, TS.at(E, i)))), TS.at(E, i))),
        ('children first', fa([i, j], Implies(And(0 <= i, i < m, off_ <= j, j < TS.len(kids(TS.at(E, i)))),
                                              Or(sel(X, TS.at(kids(TS.at(E, i)), j)),
                                                 And(TS.mem(E, TS.at(kids(TS.at(E, i)), j)), TS.idx(E, TS.at(kids(TS.at(E, i)), j)) < i))),
                              TS.at(kids(TS.at(E, i)), j))),
        ('reachable: listed', fa(i, Implies(And(0 <= i, i < m), sel(R, TS.at(E, i))), TS.at(E, i))),
        ('reachable: stacked', fa(i, Implies(rng, sel(R, st(i))), at(i))),
        ('stacked are subexpressions', fa(i, Implies(rng, within(expr, st(i))), at(i))),
        ('root', And(Implies(n > 0, st(IntVal(0)) == expr),
                     Implies(n == 0, If(sel(X, expr), m == 0, And(m > 0, TS.at(E, m - 1) == expr))))),
        ('an atom has no parts', Implies(isatom(expr), n + m <= 1)),
        ('root last', fa(i, Implies(And(0 <= i, i < m, n > 0), TS.at(E, i) != expr), TS.at(E, i))),
    ]


posf = [0]


class TSLoop(LoopSpec):
    def __init__(self):
        super().__init__('topological_sort loop', {
            'seen': Role(SetTy(TREE), ('seen', 'visited')),
            'out': Role(ListTy(TREE), ('expressions', 'result', 'output', 'order')),
            'stack': Role(ListTy(ENTRY), ('stack',)),
        }, self.run)

    def run(self, S):
        return ts_inv(S)

    def measure(self, S):
        Sk = S.t('stack')
        return [left(S.a.expr, S.t('seen')), SS.len(Sk), TS.len(st1(SS.at(Sk, SS.len(Sk) - 1)))]


class TopologicalSort(Contract):
    target = 'protosym.core.tree:topological_sort'
    variants = ('exclude=None', 'exclude=set')
    loops = (TSLoop(),)
    fresh_result = True

    def setup(self, E, variant):
        e = Tm(TREE, Const('expr', TreeS))
        h = Tm(BOOL, Const('heads', B))
        x = Con(None)
        if variant == 'exclude=set':
            x = E.alloc(SetC(TREE, Const('exclude', SetS)))
        return [e], {'heads': h, 'exclude': x}

    def view(self, E, b):
        x = b['exclude']
        X = EMPTYSET if isinstance(x, Con) and x.obj is None else E.term(x, SetTy(TREE))
        return NS(expr=E.term(b['expression'], TREE), heads=E.term(b['heads'], BOOL), X=X)

    def ghost(self, E, a):
        # R: any set that contains the root and is closed under listing children
        a.R = Const('R', SetS)
        x, j = Const('x', TreeS), z3.Int('j')
        k = TS.at(kids(x), j)
        return [('', Implies(Not(sel(a.X, a.expr)), sel(a.R, a.expr))),
                ('', fa([x, j], Implies(And(sel(a.R, x), off(a.heads) <= j, j < TS.len(kids(x)), Not(sel(a.X, k))), sel(a.R, k)), k))]

    def result(self, E, a):
        return E.alloc(ListC(TREE, tsort(a.expr, a.heads, a.X)))

    def post(self, E, a, res):
        r = E.term(res, ListTy(TREE))
        out = ts_facts(r, a.expr, a.heads, a.X)
        if hasattr(a, 'R'):
            i = z3.Int('i')
            out.append(('lists only what is reachable', fa(i, Implies(And(0 <= i, i < TS.len(r)), sel(a.R, TS.at(r, i))), TS.at(r, i))))
        elif a.__dict__.get('variant') is None and E.ctx is not None:
            # a caller's own closed set in place of R
            i, j, x = z3.Int('i'), z3.Int('j'), Const('x', TreeS)
            k = TS.at(kids(x), j)
            for R in E.ctx.__dict__.get('closed', ()):
                E.emit(fa([x, j], Implies(And(R(x), off(a.heads) <= j, j < TS.len(kids(x)), Not(sel(a.X, k))), R(k)), k), 'the set is closed under listed children', 'pre')
                out.append(('', fa(i, Implies(And(R(a.expr), Not(sel(a.X, a.expr)), 0 <= i, i < TS.len(r)), R(TS.at(r, i))), TS.at(r, i))))
        return out


def ts_facts(r, expr, heads, X):
    i, j = z3.Ints('i j')
    m = TS.len(r)
    at = lambda i: TS.at(r, i)
    kd = TS.at(kids(at(i)), j)
    return [
        ('each subexpression once', fa([i, j], Implies(And(0 <= i, i < j, j < m), at(i) != at(j)), (at(i), at(j)))),
        ('nothing excluded', fa(i, Implies(And(0 <= i, i < m), Not(sel(X, at(i)))), at(i))),
        ('children listed before their parents', fa([i, j], Implies(And(0 <= i, i < m, off(heads) <= j, j < TS.len(kids(at(i)))),
                                                                    Or(sel(X, kd), And(TS.mem(r, kd), TS.idx(r, kd) < i))), kd)),
        ('the expression is last', If(sel(X, expr), m == 0, And(m > 0, at(m - 1) == expr))),
        ('an atom has no parts', Implies(isatom(expr), m <= 1)),
    ]


class Closed:
    """R: any set that contains the root and is closed under arguments contains all that is listed."""

    def closed_ghost(self, E, a):
        a.R = Const('R', SetS)
        a.closed = [lambda x: sel(a.R, x)]
        x, j = Const('x', TreeS), z3.Int('j')
        k = TS.at(kids(x), j)
        return [('', Implies(Not(sel(a.X, a.expr)), sel(a.R, a.expr))),
                ('', fa([x, j], Implies(And(sel(a.R, x), 1 <= j, j < TS.len(kids(x)), Not(sel(a.X, k))), sel(a.R, k)), k))]

    def closed_post(self, E, a, *seqs):
        i, j, x = z3.Int('i'), z3.Int('j'), Const('x', TreeS)
        k = TS.at(kids(x), j)
        if a.__dict__.get('variant') is not None:
            return [('lists only what is reachable', fa(i, Implies(And(0 <= i, i < TS.len(s)), sel(a.R, TS.at(s, i))), TS.at(s, i))) for s in seqs]
        out = []
        for R in E.ctx.__dict__.get('closed', ()) if E.ctx is not None else ():
            E.emit(fa([x, j], Implies(And(R(x), 1 <= j, j < TS.len(kids(x)), Not(sel(a.X, k))), R(k)), k), 'the set is closed under arguments', 'pre')
            out += [('', fa(i, Implies(And(R(a.expr), Not(sel(a.X, a.expr)), 0 <= i, i < TS.len(s)), R(TS.at(s, i))), TS.at(s, i))) for s in seqs]
        return out


# ---- topological_split ------------------------------------------------------
satoms = Function('satoms', TreeS, SetS, TS.S)
snodes = Function('snodes', TreeS, SetS, TS.S)
sheads = Function('sheads', TreeS, SetS, SetS)
# x is the head of some entry of S
ishead = Function('ishead', TS.S, TreeS, B)
hdpos = Function('hdpos', TS.S, TreeS, I)
_T = Const('T', TS.S)
smt.AX.add('ishead', fa([_T, _x], Implies(ishead(_T, _x), And(0 <= hdpos(_T, _x), hdpos(_T, _x) < TS.len(_T),
                                                              head(TS.at(_T, hdpos(_T, _x))) == _x)), ishead(_T, _x)),
           # (only for sequences asked about: instantiated for every list of children it would never end)
           fa([_T, _i, _x], Implies(And(0 <= _i, _i < TS.len(_T)), ishead(_T, head(TS.at(_T, _i)))), (ishead(_T, _x), TS.at(_T, _i))))


def ordered_selection(m, s, pred, upto=None):
    """s lists exactly the entries of m (the first `upto`) with pred, in the order of m."""
    i, j = z3.Ints('i j')
    n = TS.len(m) if upto is None else upto
    at = lambda i: TS.at(s, i)
    rng = And(0 <= i, i < TS.len(s))
    return [
        ('entries come from the sort', fa(i, Implies(rng, And(TS.mem(m, at(i)), TS.idx(m, at(i)) < n, pred(at(i)))), at(i))),
        ('entries keep the order of the sort', fa([i, j], Implies(And(0 <= i, i < j, j < TS.len(s)), TS.idx(m, at(i)) < TS.idx(m, at(j))), (at(i), at(j)))),
        ('no entry is missing', fa(i, Implies(And(0 <= i, i < n, pred(TS.at(m, i))), TS.mem(s, TS.at(m, i))), TS.at(m, i))),
    ]


NOT_ATOM = lambda t: Not(isatom(t))


def split_facts(m, at, hd, nd, upto=None):
    x = Const('x', TreeS)
    return [('atoms: ' + l, f) for l, f in ordered_selection(m, at, isatom, upto)] + \
           [('nodes: ' + l, f) for l, f in ordered_selection(m, nd, NOT_ATOM, upto)] + \
           [('heads are exactly the heads of the nodes', fa(x, sel(hd, x) == ishead(nd, x), sel(hd, x), ishead(nd, x)))]


def split_summary(expr, X, at, hd, nd):
    """What callers use: consequences of the exact description."""
    i, j = z3.Ints('i j')
    x = Const('x', TreeS)
    na, nn = TS.len(at), TS.len(nd)
    A, N = lambda i: TS.at(at, i), lambda i: TS.at(nd, i)
    c = TS.at(kids(N(i)), j)
    return [
        ('atoms are atoms', fa(i, Implies(And(0 <= i, i < na), isatom(A(i))), A(i))),
        ('nodes are compound', fa(i, Implies(And(0 <= i, i < nn), And(Not(isatom(N(i))), TS.len(kids(N(i))) >= 1)), N(i))),
        ('atoms once', fa([i, j], Implies(And(0 <= i, i < j, j < na), A(i) != A(j)), (A(i), A(j)))),
        ('nodes once', fa([i, j], Implies(And(0 <= i, i < j, j < nn), N(i) != N(j)), (N(i), N(j)))),
        ('arguments precede', fa([i, j], Implies(And(0 <= i, i < nn, 1 <= j, j < TS.len(kids(N(i)))),
                                                Or(sel(X, c), And(isatom(c), TS.mem(at, c)), And(Not(isatom(c)), TS.mem(nd, c), TS.idx(nd, c) < i))), c)),
        ('nothing excluded: atoms', fa(i, Implies(And(0 <= i, i < na), Not(sel(X, A(i)))), A(i))),
        ('nothing excluded: nodes', fa(i, Implies(And(0 <= i, i < nn), Not(sel(X, N(i)))), N(i))),
        ('excluded expression', Implies(sel(X, expr), And(na == 0, nn == 0))),
        ('atomic expression', Implies(And(Not(sel(X, expr)), isatom(expr)), And(nn == 0, na == 1, TS.at(at, 0) == expr))),
        ('compound expression is last', Implies(And(Not(sel(X, expr)), Not(isatom(expr))), And(nn >= 1, TS.at(nd, nn - 1) == expr))),
        ('heads are exactly the heads of the nodes', fa(x, sel(hd, x) == ishead(nd, x), sel(hd, x), ishead(nd, x))),
    ]


SUMMARY_ONLY = ('atoms once', 'nodes once', 'heads are exactly the heads of the nodes', 'lists the heads of the split', 'nothing excluded: atoms', 'nothing excluded: nodes', 'excluded expression')


class SplitLoop(LoopSpec):
    def __init__(self):
        super().__init__('split loop', {
            'atoms': Role(ListTy(TREE), ('atoms', 'leaves')),
            'nodes': Role(ListTy(TREE), ('nodes', 'compounds')),
            'heads': Role(SetTy(TREE), ('heads',)),
        }, self.run, kinds=('for',))

    def run(self, S):
        return split_facts(tsort(S.a.expr, BoolVal(False), S.a.X), S.t('atoms'), S.t('heads'), S.t('nodes'), S.it)


class TopologicalSplit(Closed, Contract):
    target = 'protosym.core.tree:topological_split'
    variants = ('exclude=None', 'exclude=set')
    loops = (SplitLoop(),)
    fresh_result = True

    def setup(self, E, variant):
        x = Con(None)
        if variant == 'exclude=set':
            x = E.alloc(SetC(TREE, Const('exclude', SetS)))
        return [Tm(TREE, Const('expr', TreeS))], {'exclude': x}

    def view(self, E, b):
        x = b['exclude']
        X = EMPTYSET if isinstance(x, Con) and x.obj is None else E.term(x, SetTy(TREE))
        return NS(expr=E.term(b['expr'], TREE), X=X)

    def ghost(self, E, a):
        # the sort the result is compared with
        return ts_facts(tsort(a.expr, BoolVal(False), a.X), a.expr, BoolVal(False), a.X) + self.closed_ghost(E, a)

    def result(self, E, a):
        return TupV([E.alloc(ListC(TREE, satoms(a.expr, a.X))), E.alloc(SetC(TREE, sheads(a.expr, a.X))),
                     E.alloc(ListC(TREE, snodes(a.expr, a.X)))])

    def post(self, E, a, res):
        at, hd, nd = E.tuple_items(res)
        at, hd, nd = E.term(at, ListTy(TREE)), E.term(hd, SetTy(TREE)), E.term(nd, ListTy(TREE))
        f = split_summary(a.expr, a.X, at, hd, nd)
        if a.__dict__.get('variant') is not None:
            f = f + split_facts(tsort(a.expr, BoolVal(False), a.X), at, hd, nd)
        return f + self.closed_post(E, a, at, nd)


# ---- forward_graph ------------------------------------------------------------
OPTY = TupTy(TREE, ListTy(INT))
OS = SeqTh(OPTY.sort)
IS = SeqTh(I)
ophead, opidx = OPTY.acc
fops = Function('fops', TreeS, OS.S)


def order_of(at, nd):
    """i-th value of the forward graph: the atoms, then the nodes."""
    return lambda i: If(i < TS.len(at), TS.at(at, i), TS.at(nd, i - TS.len(at)))


def fg_facts(at, nd, ops, upto=None):
    k, j = z3.Ints('k j')
    n = TS.len(nd) if upto is None else upto
    na = TS.len(at)
    op = OS.at(ops, k)
    ix = IS.at(opidx(op), j)
    rng = And(0 <= k, k < n)
    jr = And(rng, 0 <= j, j < nargs(TS.at(nd, k)))
    return [
        ('one operation per node', OS.len(ops) == n),
        ('each operation names the head of its node', fa(k, Implies(rng, ophead(op) == head(TS.at(nd, k))), op)),
        ('one index per argument', fa(k, Implies(rng, IS.len(opidx(op)) == nargs(TS.at(nd, k))), op)),
        ('indices point to earlier values', fa([k, j], Implies(jr, And(0 <= ix, ix < na + k)), ix)),
        ('indices of atoms', fa([k, j], Implies(And(jr, ix < na), TS.at(at, ix) == arg(TS.at(nd, k), j)), ix)),
        ('indices of nodes', fa([k, j], Implies(And(jr, ix >= na), TS.at(nd, ix - na) == arg(TS.at(nd, k), j)), ix)),
    ]


class FGLoop(LoopSpec):
    def __init__(self):
        super().__init__('forward graph loop', {
            'ops': Role(ListTy(OPTY), ('operations', 'ops')),
            'indices': Role(DictTy(TREE, INT), ('indices', 'index')),
        }, self.run, kinds=('for',))

    def run(self, S):
        e = S.a.expr
        at, nd = satoms(e, EMPTYSET), snodes(e, EMPTYSET)
        na = TS.len(at)
        d = S.t('indices')
        ty = DictTy(TREE, INT)
        dom, val = ty.dom(d), ty.val(d)
        x, i = Const('x', TreeS), z3.Int('i')
        return fg_facts(at, nd, S.t('ops'), S.it) + [
            ('atoms are indexed', fa(i, Implies(And(0 <= i, i < na), And(sel(dom, TS.at(at, i)), z3.Select(val, TS.at(at, i)) == i)), TS.at(at, i))),
            ('each index leads back', fa(x, Implies(sel(dom, x), And(0 <= z3.Select(val, x), z3.Select(val, x) < na + S.it,
                                                                     Implies(z3.Select(val, x) < na, TS.at(at, z3.Select(val, x)) == x),
                                                                     Implies(z3.Select(val, x) >= na, TS.at(nd, z3.Select(val, x) - na) == x))),
                                         sel(dom, x), z3.Select(val, x))),
            ('nodes are indexed', fa(i, Implies(And(0 <= i, i < S.it), And(sel(dom, TS.at(nd, i)), z3.Select(val, TS.at(nd, i)) == na + i)), TS.at(nd, i))),
        ]


class ForwardGraph(Closed, Contract):
    target = 'protosym.core.tree:forward_graph'
    loops = (FGLoop(),)
    fresh_result = True

    def setup(self, E, variant):
        return [Tm(TREE, Const('expr', TreeS))], {}

    def view(self, E, b):
        return NS(expr=E.term(b['expr'], TREE), X=EMPTYSET)

    def ghost(self, E, a):
        return self.closed_ghost(E, a)

    def result(self, E, a):
        from protosym.core.tree import ForwardGraph as FG
        e = a.expr
        return E.alloc(ObjC(FG, {'atoms': E.alloc(ListC(TREE, satoms(e, EMPTYSET))),
                                 'heads': E.alloc(SetC(TREE, sheads(e, EMPTYSET))),
                                 'operations': E.alloc(ListC(OPTY, fops(e)))}))

    def post(self, E, a, res):
        e = a.expr
        F = BoolVal(False)
        at, nd = satoms(e, EMPTYSET), snodes(e, EMPTYSET)
        g = lambda n, ty: E.term(E.getattr(res, n), ty)
        x = Const('x', TreeS)
        out = [
            ('lists the atoms of the split', g('atoms', ListTy(TREE)) == at),
            ('lists the heads of the split', fa(x, sel(g('heads', SetTy(TREE)), x) == ishead(nd, x), sel(g('heads', SetTy(TREE)), x), ishead(nd, x))),
        ] + fg_facts(at, nd, g('operations', ListTy(OPTY)))
        if a.__dict__.get('variant') is None:
            out += split_summary(e, EMPTYSET, at, sheads(e, EMPTYSET), nd)
            # a caller may do without some of the facts
            out = [(l, f) for l, f in out if l not in E.ctx.__dict__.get('skip', ())]
        return out + self.closed_post(E, a, at, nd)


class Rebuild(LemmaTask):
    """Applying each head to the values its indices name rebuilds the sort; the last value is the expression."""
    name = 'lemma: the forward graph rebuilds the expression'

    def obligations(self, variant):
        e = Const('expr', TreeS)
        X, F = EMPTYSET, BoolVal(False)
        m, at, nd, ops = tsort(e, F, X), satoms(e, X), snodes(e, X), fops(e)
        L = Const('L', TS.S)           # any list of values built by forward evaluation
        na, nn = TS.len(at), TS.len(nd)
        i, j, k = z3.Ints('i j k')
        V = Function('built', I, TS.S)    # kids of the k-th rebuilt value
        facts = [f for _, f in split_summary(e, X, at, sheads(e, X), nd) + fg_facts(at, nd, ops)]
        op = OS.at(ops, k)
        build = [TS.len(L) == na + nn,
                 fa(i, Implies(And(0 <= i, i < na), TS.at(L, i) == TS.at(at, i)), TS.at(L, i)),
                 fa(k, Implies(And(0 <= k, k < nn), And(TS.at(L, na + k) == mk(V(k)), TS.len(V(k)) == 1 + IS.len(opidx(op)),
                                                        TS.at(V(k), 0) == ophead(op))), V(k)),
                 fa([k, j], Implies(And(0 <= k, k < nn, 0 <= j, j < IS.len(opidx(op))),
                                    TS.at(V(k), j + 1) == TS.at(L, IS.at(opidx(op), j))), IS.at(opidx(op), j))]
        K = z3.Int('K')
        ih = fa(k, Implies(And(0 <= k, k < K), TS.at(L, na + k) == TS.at(nd, k)), TS.at(nd, k))
        w = z3.Int('w')
        step_ext = smt.seq_ext2(TS, V(K), kids(TS.at(nd, K)), w)
        jj = z3.Int('jj')
        return [
            ('values rebuilt in order (induction step)', facts + build + [ih, 0 <= K, K < nn, step_ext,
             touch(IS.at(opidx(OS.at(ops, K)), w - 1)), touch(TS.at(V(K), 0)), touch(TS.at(nd, K)), touch(TS.at(V(K), w - 1 + 1))],
             TS.at(L, na + K) == TS.at(nd, K)),
            ('the last value is the expression', facts + build + [fa(k, Implies(And(0 <= k, k < nn), TS.at(L, na + k) == TS.at(nd, k)), TS.at(nd, k))],
             TS.at(L, TS.len(L) - 1) == e),
        ]
