"""Contracts for protosym.core.differentiate.

val(t) is the value of t and der(t) the value of its derivative with respect
to `sym`, at an arbitrary point.  Sums and products have their usual meaning,
a head with the distributive property is any map that commutes with
differentiation, any other head any differentiable function with partial
derivatives part(h, n, args).  Valid rules produce expressions whose value is
that partial derivative.
"""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from ..interp import REAL
from .. import smt
from . import tree
from .tree import sel, satoms, snodes, fops, EMPTYSET, SetS
from .evaluate import over

R = z3.RealSort()
RS = SeqTh(R)
val = Function('val', TreeS, R)
der = Function('der', TreeS, R)
times = Function('times', R, R, R)             # the product (only its algebraic laws are used)
part = Function('part', TreeS, I, R)           # partial derivative of t's head in its n-th argument at t's arguments
ctr = Function('ctr', TreeS, I, R)             # contribution of the n-th argument
ps = Function('ps', TreeS, I, R)               # sum of the first n contributions
psw = Function('psw', TreeS, I)
vsum = Function('vsum', TS.S, R)
vprod = Function('vprod', TS.S, R)
vsum1 = Function('vsum1', TS.S, R)             # the same without the first element
vprod1 = Function('vprod1', TS.S, R)
before = Function('before', TreeS, I, R)       # product of the values of the first n arguments
after = Function('after', TreeS, I, R)         # product of the values of the arguments from n on
lin = Function('lin', TreeS, RS.S, R)          # value of a distributive head (the first entry is ignored)
vals = Function('vals', TS.S, RS.S)
ders = Function('ders', TS.S, RS.S)
vdw = Function('vdw', TS.S, TS.S, I)
node = Function('touch:node', TreeS, B)             # marker: t is a node being differentiated
argw = Function('argw', TS.S, TreeS, I)
prew = Function('prew', TS.S, I, TreeS, I)
sufw = Function('sufw', TS.S, I, TreeS, I)
nz = Function('nz', TreeS, B)                  # the derivative may be different from the literal zero
nzw = Function('nzw', TreeS, I)

dfwd = Function('dfwd', TreeS, TreeS, TreeS)     # diff_forward under one set of rules
missing = Function('missing', TreeS, TreeS, B)

FT = FnTy(TREE)
KEY = TupTy(TREE, INT)
RULES = DictTy(KEY, FT)
callrule = Function(f'callstar:{FT.name}:{TREE.name}', FT.sort, TS.S, TreeS)

s_, u_, x_, t_, n_, i_, f_ = Const('s', TS.S), Const('u', TS.S), Const('x', TreeS), Const('t', TreeS), z3.Int('n'), z3.Int('i'), Const('f', FT.sort)
a_, b_, c_ = z3.Reals('a b c')

smt.AX.add('times', fa([a_, b_], times(a_, b_) == times(b_, a_), times(a_, b_)),
           fa([a_, b_, c_], times(times(a_, b_), c_) == times(a_, times(b_, c_)), times(times(a_, b_), c_)),
           fa([a_, b_], And(Implies(a_ == 1, times(a_, b_) == b_), Implies(Or(a_ == 0, b_ == 0), times(a_, b_) == 0)), times(a_, b_)))
for F, F1, op, unit in ((vsum, vsum1, lambda a, b: a + b, 0), (vprod, vprod1, times, 1)):
    smt.AX.add(F.name(),
               F(TS.empty) == unit,
               fa([s_, x_], F(TS.snoc(s_, x_)) == op(F(s_), val(x_)), F(TS.snoc(s_, x_))),
               fa([s_, u_], F(TS.cat(s_, u_)) == op(F(s_), F(u_)), F(TS.cat(s_, u_))),
               fa(s_, Implies(TS.len(s_) == 1, F(s_) == val(TS.at(s_, 0))), (F(s_), TS.at(s_, 0))))
    smt.AX.add(F1.name(),
               fa([s_, x_], F1(TS.snoc(s_, x_)) == If(TS.len(s_) == 0, z3.RealVal(unit), op(F1(s_), val(x_))), F1(TS.snoc(s_, x_))),
               fa([s_, u_], F1(TS.cat(s_, u_)) == If(TS.len(s_) == 0, F1(u_), op(F1(s_), F(u_))), F1(TS.cat(s_, u_))))
for F, g in ((vals, val), (ders, der)):
    smt.AX.add(F.name(),
               fa(s_, RS.len(F(s_)) == TS.len(s_), F(s_)),
               fa([s_, i_], Implies(And(0 <= i_, i_ < TS.len(s_)), RS.at(F(s_), i_) == If(i_ == 0, z3.RealVal(0), g(TS.at(s_, i_)))), RS.at(F(s_), i_)))
_w = vdw(s_, u_)
smt.AX.add('ders', fa([s_, u_], Or(vals(s_) == ders(u_), TS.len(s_) != TS.len(u_),
                                   And(1 <= _w, _w < TS.len(s_), val(TS.at(s_, _w)) != der(TS.at(u_, _w)))), (vals(s_), ders(u_))))
_pw, _sw = prew(s_, n_, t_), sufw(s_, n_, t_)
smt.AX.add('before', fa([s_, n_, t_], Or(vprod(TS.take(s_, n_)) == before(t_, n_), n_ < 0, n_ > TS.len(s_), n_ > nargs(t_),
                                         And(0 <= _pw, _pw < n_, TS.at(s_, _pw) != arg(t_, _pw))), (TS.take(s_, n_), node(t_))))
smt.AX.add('after', fa([s_, n_, t_], Or(vprod(TS.drop(s_, n_)) == after(t_, n_), n_ < 0, n_ > TS.len(s_), TS.len(s_) != nargs(t_),
                                        And(n_ <= _sw, _sw < TS.len(s_), TS.at(s_, _sw) != arg(t_, _sw))), (TS.drop(s_, n_), node(t_))))
smt.AX.add('ps', fa([t_, n_], Implies(n_ >= 0, ps(t_, n_ + 1) == ps(t_, n_) + ctr(t_, n_)), (ps(t_, n_), ctr(t_, n_))),
           fa(t_, ps(t_, 0) == 0, node(t_)),
           fa(t_, Implies(And(Not(isatom(t_)), ps(t_, nargs(t_)) != 0), And(0 <= psw(t_), psw(t_) < nargs(t_), ctr(t_, psw(t_)) != 0)), (node(t_), der(t_))))


class Zeros(LemmaTask):
    name = 'lemma: a sum without contributions is zero'

    def obligations(self, variant):
        t, n = Const('t0', TreeS), z3.Int('n0')
        PS = Function('PS', I, R)
        C = Function('C', I, R)
        j = z3.Int('j')
        d = [PS(0) == 0, fa(j, Implies(j >= 0, PS(j + 1) == PS(j) + C(j)), C(j)), fa(j, Implies(And(0 <= j, j < n), C(j) == 0), C(j))]
        k = z3.Int('k')
        return [('base', d, PS(0) == 0), ('step', d + [0 <= k, k < n, PS(k) == 0, touch(C(k))], PS(k + 1) == 0)]


class VProds(LemmaTask):
    """vsum and vprod are defined by empty and snoc; the other axioms follow."""
    name = 'lemma: sums and products of concatenations'

    def obligations(self, variant):
        out = []
        s, u, x = Const('s0', TS.S), Const('u0', TS.S), Const('x0', TreeS)
        for nm, op, unit in (('sum', lambda a, b: a + b, 0), ('product', times, 1)):
            F = Function('F' + nm, TS.S, R)
            d = [F(TS.empty) == unit, fa([s_, x_], F(TS.snoc(s_, x_)) == op(F(s_), val(x_)), TS.snoc(s_, x_))]
            c1, c2 = TS.cat(s, TS.snoc(u, x)), TS.snoc(TS.cat(s, u), x)
            ext = smt.seq_ext2(TS, c1, c2, z3.Int('w'))
            out += [(f'{nm}: concatenation with the empty sequence', d + [touch(times(1, F(s)))], F(TS.cat(s, TS.empty)) == op(F(s), F(TS.empty))),
                    (f'{nm}: snoc and concatenation commute', d + [ext], c1 == c2),
                    (f'{nm}: concatenation (induction step)', d + [c1 == c2, F(TS.cat(s, u)) == op(F(s), F(u)), touch(TS.snoc(u, x)), touch(times(times(F(s), F(u)), val(x)))], F(c1) == op(F(s), F(TS.snoc(u, x)))),
                    (f'{nm}: one element', d + [TS.len(s) == 1, smt.seq_ext2(TS, s, TS.snoc(TS.empty, TS.at(s, 0)), z3.Int('w')), touch(TS.snoc(TS.empty, TS.at(s, 0)))], F(s) == val(TS.at(s, 0)))]
        return out


class P:
    """The properties object of one differentiator."""

    def __init__(self, zero, one, add, mul, distr, rules):
        self.zero, self.one, self.add, self.mul, self.distr, self.rules = zero, one, add, mul, distr, rules

    def rule(self, h, n):
        return z3.Select(RULES.val(self.rules), KEY.con(h, n))

    def has(self, h, n):
        return sel(RULES.dom(self.rules), KEY.con(h, n))


def fresh_props(E):
    from protosym.core.differentiate import DiffProperties
    t = {k: Const(k, TreeS) for k in ('zero', 'one', 'add', 'mul')}
    o = E.alloc(ObjC(DiffProperties, {**{k: Tm(TREE, v) for k, v in t.items()},
                                      'distributive': E.alloc(SetC(TREE, Const('distributive', SetS))),
                                      'diff_rules': E.wrap(RULES, Const('diff_rules', RULES.sort))}))
    return o


def props_of(E, o):
    g = lambda n, ty: E.term(E.getattr(o, n), ty)
    return P(*[g(n, TREE) for n in ('zero', 'one', 'add', 'mul')], g('distributive', SetTy(TREE)), g('diff_rules', RULES))


def ordinary(p, h):
    return And(Not(sel(p.distr, h)), h != p.add, h != p.mul)


def meaning(p, sym):
    """val and der give expressions over these heads their meaning; the rules are valid."""
    t, n, s, f = Const('t', TreeS), z3.Int('n'), Const('s', TS.S), Const('f', FT.sort)
    comp = Not(isatom(t))
    h, q = head(t), kids(t)
    D = sel(p.distr, h)
    m, h0 = mk(s), TS.at(s, 0)
    aw = argw(s, t)
    zero = z3.RealVal(0)
    return [
        ('', val(p.zero) == 0), ('', val(p.one) == 1),
        ('', fa(t, Implies(isatom(t), der(t) == If(t == sym, z3.RealVal(1), zero)), der(t))),
        ('', fa(s, Implies(And(TS.len(s) >= 1, h0 == p.add), val(m) == vsum1(s)), val(m))),
        ('', fa(s, Implies(And(TS.len(s) >= 1, h0 == p.mul), val(m) == vprod1(s)), val(m))),
        ('', fa(s, Implies(And(TS.len(s) >= 1, sel(p.distr, h0)), val(m) == lin(h0, vals(s))), val(m))),
        ('', fa(t, Implies(And(comp, D), der(t) == lin(h, ders(q))), (node(t), der(t)))),
        ('', fa(t, Implies(And(comp, Not(D)), der(t) == ps(t, nargs(t))), (node(t), der(t)))),
        ('', fa([t, n], Implies(And(comp, Not(D), 0 <= n, n < nargs(t)),
                                ctr(t, n) == If(h == p.add, der(arg(t, n)),
                                                If(h == p.mul, times(times(before(t, n), der(arg(t, n))), after(t, n + 1)),
                                                   times(part(t, n), der(arg(t, n)))))), ctr(t, n))),
        # valid rules
        ('', fa([t, n, s], Or(Not(p.has(h, n)), n < 0, n >= nargs(t), val(callrule(p.rule(h, n), s)) == part(t, n), TS.len(s) != nargs(t),
                              And(0 <= aw, aw < TS.len(s), TS.at(s, aw) != arg(t, aw))),
                (node(t), callrule(p.rule(h, n), s)))),
        # nz: defined recursively
        ('', fa(t, Implies(isatom(t), nz(t) == (t == sym)), nz(t))),
        ('', fa([t, n], Implies(And(comp, 0 <= n, n < nargs(t), nz(arg(t, n))), nz(t)), (node(t), nz(arg(t, n))), (node(t), arg(t, n)))),
        ('', fa(t, Implies(And(comp, D), nz(t)), (node(t), nz(t)))),
        ('', fa(t, Implies(And(comp, nz(t), Not(D)), And(0 <= nzw(t), nzw(t) < nargs(t), nz(arg(t, nzw(t))))), (node(t), nz(t)))),
    ]


def order(expr, i):
    at, nd = satoms(expr, EMPTYSET), snodes(expr, EMPTYSET)
    return If(i < TS.len(at), TS.at(at, i), TS.at(nd, i - TS.len(at)))


MAIN = 'differentiation of the graph'


def like(t, d):
    return And(Not(isatom(d)), TS.len(kids(d)) == TS.len(kids(t)), head(d) == head(t))


def keeps(p, t, d, cond, j):
    return Implies(And(cond, sel(p.distr, head(t))), val(TS.at(kids(d), j)) == der(TS.at(kids(t), j)))


class MainLoop(LoopSpec):
    def __init__(self):
        super().__init__(MAIN, {
            'stack': Role(ListTy(TREE), ('stack',)),
            'dstack': Role(ListTy(TREE), ('diff_stack', 'dstack')),
        }, self.run, kinds=('for',), when=lambda E, fr, itv: over(itv, fops(E.ctx.expr)))

    def run(self, S):
        a = S.a
        at, nd = satoms(a.expr, EMPTYSET), snodes(a.expr, EMPTYSET)
        na = TS.len(at)
        s, d = S.t('stack'), S.t('dstack')
        i, j = z3.Ints('i j')
        A, N = TS.at(at, i), TS.at(nd, i)
        ra, rn = And(0 <= i, i < na), And(0 <= i, i < S.it)
        return [
            ('one entry per subexpression', And(TS.len(s) == na + S.it, TS.len(d) == na + S.it)),
            ('atoms', fa(i, Implies(ra, TS.at(s, i) == A), TS.at(s, i), A)),
            ('nodes', fa(i, Implies(rn, TS.at(s, na + i) == N), N)),
            ('derivatives of atoms', fa(i, Implies(ra, val(TS.at(d, i)) == der(A)), TS.at(d, i), A)),
            ('derivatives of nodes', fa(i, Implies(rn, val(TS.at(d, na + i)) == der(N)), N)),
            ('constant atoms', fa(i, Implies(And(ra, Not(nz(A))), TS.at(d, i) == a.p.zero), TS.at(d, i), A)),
            ('constant nodes', fa(i, Implies(And(rn, Not(nz(N))), TS.at(d, na + i) == a.p.zero), N)),
            ('distributive nodes keep their shape', fa([i, j], keeps(a.p, N, TS.at(d, na + i), And(rn, 1 <= j, j < TS.len(kids(N))), j), TS.at(kids(N), j))),
            ('distributive nodes keep their head', fa(i, Implies(And(rn, sel(a.p.distr, head(N))), like(N, TS.at(d, na + i))), N)),
            ('', node(TS.at(nd, S.it))),
            ('', fa(i, touch(tree.IS.at(tree.opidx(tree.OS.at(fops(a.expr), S.it)), i - 1)), TS.at(kids(TS.at(nd, S.it)), i))),
        ]


class Terms(LoopSpec):
    """Collecting the non-zero terms of the derivative of one node."""

    def __init__(self):
        super().__init__('terms of the derivative', {'acc': Role(ListTy(TREE), ('terms', 'diff_terms'))}, self.run, kinds=('for', 'comp'), when=self.match)

    def match(self, E, fr, itv):
        return itv is not None and any(h is TS for h, _ in itv.base) and any(s.spec is not None and s.spec.name == MAIN for s in E.loopstack)

    def run(self, S):
        m = next(s for s in S.E.loopstack if s.spec is not None and s.spec.name == MAIN)
        t = TS.at(snodes(S.a.expr, EMPTYSET), m.it)
        return [('sum of the terms so far', vsum(S.t('acc')) == ps(t, S.it)),
                ('at most one term per argument', TS.len(S.t('acc')) <= S.it),
                ('no term without a contribution', Implies(Not(nz(t)), TS.len(S.t('acc')) == 0)),
                ('', touch(ctr(t, S.it)))]


class DiffForward(Contract):
    target = 'protosym.core.differentiate:diff_forward'
    name = 'diff_forward'
    loops = (MainLoop(), Terms())

    def setup(self, E, variant):
        return [Tm(TREE, Const('expr', TreeS)), Tm(TREE, Const('sym', TreeS)), fresh_props(E)], {}

    def view(self, E, b):
        if E.ctx is not None and 'own_rules' in E.ctx.__dict__:
            g = lambda n: E.term(E.getattr(b['prop'], n), TREE)
            return NS(expr=E.term(b['expression'], TREE), sym=E.term(b['sym'], TREE), p=NS(add=g('add'), mul=g('mul')), prop=b['prop'])
        return NS(expr=E.term(b['expression'], TREE), sym=E.term(b['sym'], TREE), p=props_of(E, b['prop']), prop=b['prop'], skip=tree.SUMMARY_ONLY)

    def pre(self, E, a):
        p = a.p
        if a.__dict__.get('variant') is None:
            # dfwd stands for the derivative under the one set of rules the caller is about
            own = E.ctx.__dict__.get('own_rules') if E.ctx is not None else None
            if own is None:
                raise Unsupported('derivative')
            same = E.same(a.prop, own)
            return [('the differentiator uses its own rules', same if not isinstance(same, bool) else BoolVal(same)), ('differentiation is by an atom', isatom(a.sym)), ('the head of sums is not the head of products', p.add != p.mul)]
        return [('differentiation is by an atom', isatom(a.sym)), ('the head of sums is not the head of products', p.add != p.mul)]

    def ghost(self, E, a):
        return meaning(a.p, a.sym)

    def may_raise(self, E, a):
        if a.__dict__.get('variant') is None:
            return [(KeyError, missing(a.expr, a.sym))]
        k, j = z3.Ints('k j')
        t = TS.at(snodes(a.expr, EMPTYSET), k)
        return [(KeyError, Not(fa([k, j], Implies(And(0 <= k, k < TS.len(snodes(a.expr, EMPTYSET)), 0 <= j, j < nargs(t), ordinary(a.p, head(t)), nz(arg(t, j))),
                                                  a.p.has(head(t), j)), arg(t, j))))]

    def result(self, E, a):
        return Tm(TREE, dfwd(a.expr, a.sym))

    def post(self, E, a, res):
        if a.__dict__.get('variant') is None:
            return []
        r = E.term(res, TREE)
        j = z3.Int('j')
        D = And(Not(isatom(a.expr)), sel(a.p.distr, head(a.expr)))
        return [('the value is the derivative', val(r) == der(a.expr)),
                ('linear heads keep their shape', Implies(D, like(a.expr, r))),
                ('linear heads are differentiated argument-wise', fa(j, Implies(And(D, 1 <= j, j < TS.len(kids(a.expr))), val(TS.at(kids(r), j)) == der(TS.at(kids(a.expr), j))), TS.at(kids(a.expr), j)))]
