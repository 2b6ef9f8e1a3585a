"""Contracts for SymDifferentiator and Expr.diff."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt, models
from . import subs
from .tree import sel, SetS
from .diff import KEY, dfwd, missing

ND = Function('ND', TreeS, TreeS, I, TreeS)        # n-th derivative
_t, _s, _n = Const('t', TreeS), Const('s', TreeS), z3.Int('n')
smt.AX.add('ND', fa([_t, _s, _n], Implies(_n <= 0, ND(_t, _s, _n) == _t), ND(_t, _s, _n)),
           fa([_t, _s, _n], Implies(_n >= 0, ND(_t, _s, _n + 1) == dfwd(ND(_t, _s, _n), _s)), dfwd(ND(_t, _s, _n), _s)),
           fa([_t, _s, _n], Implies(_n > 0, ND(_t, _s, _n) == dfwd(ND(_t, _s, _n - 1), _s)), ND(_t, _s, _n)))
missw = Function('missw', TreeS, TreeS, I, I)
somemiss = Function('somemissing', TreeS, TreeS, I, B)     # a rule is missing for one of the first n derivatives
_k = z3.Int('k')
smt.AX.add('somemissing', fa([_t, _s, _n, _k], Implies(And(0 <= _k, _k < _n, missing(ND(_t, _s, _k), _s)), somemiss(_t, _s, _n)), (somemiss(_t, _s, _n), missing(ND(_t, _s, _k), _s))),
           fa([_t, _s, _n], Implies(somemiss(_t, _s, _n), And(0 <= missw(_t, _s, _n), missw(_t, _s, _n) < _n, missing(ND(_t, _s, missw(_t, _s, _n)), _s))), somemiss(_t, _s, _n)))


def cls():
    from protosym.core.sym import SymDifferentiator
    return SymDifferentiator


def ET():
    from protosym.simplecas.expr import Expr
    return SymTy(Expr)


def RULES():
    return DictTy(KEY, subs.SUBSF())


def fresh_differentiator(E):
    from protosym.core.differentiate import DiffProperties
    from protosym.simplecas.expr import Expr
    R = RULES()
    p = {k: Tm(TREE, Const(k, TreeS)) for k in ('zero', 'one', 'add', 'mul')}
    p['distributive'] = E.alloc(SetC(TREE, Const('distributive', SetS)))
    p['diff_rules'] = E.wrap(R, Const('diff_rules', R.sort))
    po = E.alloc(ObjC(DiffProperties, p))
    return E.alloc(ObjC(cls(), {'new_sym': Con(Expr), 'diff_props': po}))


def parts_of(E, o):
    p = E.getattr(o, 'diff_props')
    g = lambda n, ty: E.term(E.getattr(p, n), ty)
    return NS(obj=p, zero=g('zero', TREE), one=g('one', TREE), add=g('add', TREE), mul=g('mul', TREE), distr=g('distributive', SetTy(TREE)), rules=g('diff_rules', RULES()))


class SetRule(Contract):
    """diff[f(a1..an), ai] = d"""
    target = 'protosym.core.sym:SymDifferentiator.__setitem__'
    name = 'SymDifferentiator.__setitem__'
    variants = ('pair', 'one', 'single', 'triple', 'none', 'list')
    at_calls = False

    def setup(self, E, variant):
        o = fresh_differentiator(E)
        E.ghost['p0'] = parts_of(E, o)
        x = [Tm(ET(), Const(n, TreeS)) for n in ('pattern', 'symbol', 'third')]
        key = {'pair': TupV(x[:2]), 'one': TupV(x[:1]), 'single': x[0], 'triple': TupV(x), 'none': Con(None)}.get(variant)
        if variant == 'list':
            key = E.alloc(ListL(x[:2]))
        return [o, key, Tm(ET(), Const('rhs', TreeS))], {}

    def view(self, E, b):
        return NS(o=b['self'], p0=E.ghost['p0'], key=b['expr_sym'], pat=Const('pattern', TreeS), sym=Const('symbol', TreeS), rhs=Const('rhs', TreeS))

    def pre(self, E, a):
        i, j = z3.Ints('i j')
        k = kids(a.pat)
        return [('the arguments of the pattern are different', fa([i, j], Implies(And(1 <= i, i < j, j < TS.len(k)), TS.at(k, i) != TS.at(k, j)), (TS.at(k, i), TS.at(k, j))))]

    def raises(self, E, a):
        if not isinstance(a.key, TupV) or len(a.key.items) != 2:
            return [(TypeError, True)]
        return [(TypeError, models.seqcount(TS)(targs(a.pat), a.sym) != 1)]

    def modifies(self, E, a):
        return [E.getattr(a.p0.obj, 'diff_rules').cell]

    def post(self, E, a, res):
        p, q = a.p0, parts_of(E, a.o)
        R = RULES()
        n = z3.Int('argument')
        F = lambda n: z3.Select(R.val(q.rules), KEY.con(head(a.pat), n))
        k = KEY.con(head(a.pat), n)
        return [
            ('the rule is for the head of the pattern and the position of the symbol',
             fa(n, Implies(And(0 <= n, n < nargs(a.pat), arg(a.pat, n) == a.sym),
                           And(R.dom(q.rules) == z3.Store(R.dom(p.rules), k, BoolVal(True)),
                               R.val(q.rules) == z3.Store(R.val(p.rules), k, F(n)),
                               subs.sexpr(F(n)) == a.rhs, subs.sargs(F(n)) == targs(a.pat))))),
            ('the other properties are unchanged', And(q.zero == p.zero, q.one == p.one, q.add == p.add, q.mul == p.mul, q.distr == p.distr)),
            ('the properties object is kept', E.same(p.obj, q.obj) if not isinstance(E.same(p.obj, q.obj), bool) else BoolVal(E.same(p.obj, q.obj))),
        ]

class AddDistributive(Contract):
    target = 'protosym.core.sym:SymDifferentiator.add_distributive_rule'
    name = 'SymDifferentiator.add_distributive_rule'
    at_calls = False

    def setup(self, E, variant):
        o = fresh_differentiator(E)
        E.ghost['p0'] = parts_of(E, o)
        return [o, Tm(ET(), Const('head', TreeS))], {}

    def view(self, E, b):
        return NS(o=b['self'], p0=E.ghost['p0'], h=E.term(b['head'], ET()))

    def modifies(self, E, a):
        return [E.getattr(a.p0.obj, 'distributive').cell]

    def post(self, E, a, res):
        p, q = a.p0, parts_of(E, a.o)
        return [('only this head becomes distributive', q.distr == z3.Store(p.distr, a.h, BoolVal(True))),
                ('the rules are unchanged', q.rules == p.rules),
                ('the other properties are unchanged', And(q.zero == p.zero, q.one == p.one, q.add == p.add, q.mul == p.mul))]


class NTimes(LoopSpec):
    def __init__(self, ty):
        super().__init__('repeated differentiation', {'d': Role(ty, ('d_expr', 'deriv', 'result'))}, self.run, kinds=('for',))

    def run(self, S):
        a = S.a
        return [('the derivative so far', S.t('d') == ND(a.expr, a.sym, S.it))]


class NTimesTree(NTimes):
    def __init__(self):
        super().__init__(TREE)


class NTimesWhile(LoopSpec):
    """The same with a counter that goes down from, or up to, the number of differentiations."""

    def __init__(self, ty):
        super().__init__('repeated differentiation', {'d': Role(ty, ('d_expr', 'deriv', 'result')), 'n': Role(INT, ('ntimes', 'n', 'remaining'))}, self.run, kinds=('while',))

    def up(self, S):
        n0 = z3.simplify(S.entry['n'])
        return z3.is_int_value(n0) and n0.as_long() == 0

    def run(self, S):
        a, n = S.a, S.t('n')
        if self.up(S):
            return [('the counter', And(0 <= n, n <= z3.If(a.n > 0, a.n, 0))), ('the derivative so far', S.t('d') == ND(a.expr, a.sym, n))]
        return [('the counter', Or(And(0 <= n, n <= a.n), And(a.n <= 0, n == a.n))), ('the derivative so far', S.t('d') == ND(a.expr, a.sym, a.n - n))]

    def measure(self, S):
        return [S.a.n - S.t('n') if self.up(S) else S.t('n')]


class CallDiff(Contract):
    """diff(expr, sym, n) is the n-th derivative."""
    target = 'protosym.core.sym:SymDifferentiator.__call__'
    name = 'SymDifferentiator.__call__'
    variants = ('n', 'default')
    loops = (NTimesTree(), NTimesWhile(TREE))

    def setup(self, E, variant):
        o = fresh_differentiator(E)
        args = [o, Tm(ET(), Const('expr', TreeS)), Tm(ET(), Const('sym', TreeS))]
        if variant == 'n':
            args.append(Tm(INT, z3.Int('ntimes')))
        return args, {}

    def view(self, E, b):
        p = E.getattr(b['self'], 'diff_props')
        return NS(expr=E.term(b['expr'], ET()), sym=E.term(b['sym'], ET()), n=E.term(b['ntimes'], INT), own_rules=p, p=p)

    def pre(self, E, a):
        g = lambda n: E.term(E.getattr(a.p, n), TREE)
        out = []
        if a.__dict__.get('variant') is None:
            same = E.same(a.p, E.ctx.own_rules) if E.ctx is not None and 'own_rules' in E.ctx.__dict__ else False
            out = [('the differentiator uses its own rules', same if not isinstance(same, bool) else BoolVal(same))]
        return out + [('differentiation is by an atom', isatom(a.sym)), ('the head of sums is not the head of products', g('add') != g('mul'))]

    def may_raise(self, E, a):
        return [(KeyError, somemiss(a.expr, a.sym, a.n))]

    def result(self, E, a):
        return Tm(ET(), ND(a.expr, a.sym, a.n))

    def post(self, E, a, res):
        return [('the n-th derivative', E.term(res, ET()) == ND(a.expr, a.sym, a.n))]


class NTimesExpr(NTimes):
    def __init__(self):
        super().__init__(ET())


class ExprDiff(Contract):
    """Expr.diff uses the shipped rules."""
    target = 'protosym.simplecas.expr:Expr.diff'
    name = 'Expr.diff'
    variants = ('n', 'default')
    at_calls = False

    def loopspecs(self):
        return [NTimesExpr(), NTimesWhile(ET())]

    def setup(self, E, variant):
        args = [Tm(ET(), Const('expr', TreeS)), Tm(ET(), Const('sym', TreeS))]
        if variant == 'n':
            args.append(Tm(INT, z3.Int('ntimes')))
        return args, {}

    def view(self, E, b):
        import protosym.simplecas.expr as m
        p = Con(m.diff.diff_props)
        return NS(expr=E.term(b['self'], ET()), sym=E.term(b['sym'], ET()), n=E.term(b['ntimes'], INT), own_rules=p, p=p)

    def pre(self, E, a):
        return [('differentiation is by an atom', isatom(a.sym))]

    def may_raise(self, E, a):
        return [(KeyError, somemiss(a.expr, a.sym, a.n))]

    def post(self, E, a, res):
        return [('the n-th derivative', E.term(res, ET()) == ND(a.expr, a.sym, a.n))]


class NewDifferentiator(CheckTask):
    """A new differentiator knows its four expressions, has no rules and shares nothing."""
    name = 'SymDifferentiator()'

    def run(self, E, variant):
        from protosym.simplecas.expr import Expr
        kw = lambda s: {k: Tm(ET(), Const(k + s, TreeS)) for k in ('add', 'mul', 'zero', 'one')}
        k1 = kw('1')
        d1 = E.call(Con(cls()), [Con(Expr)], dict(k1))
        d2 = E.call(Con(cls()), [Con(Expr)], kw('2'))
        p1, p2 = E.getattr(d1, 'diff_props'), E.getattr(d2, 'diff_props')
        for k in ('add', 'mul', 'zero', 'one'):
            E.emit(E.term(E.getattr(p1, k), TREE) == k1[k].t, f'{k} is the given one', 'post')
        ns = E.getattr(d1, 'new_sym')
        E.emit(BoolVal(isinstance(ns, Con) and ns.obj is Expr), 'the class of results is the given one', 'post')
        ok = p1.cell != p2.cell
        for n, key in (('diff_rules', Tm(KEY, Const('k', KEY.sort))), ('distributive', Tm(TREE, Const('t', TreeS)))):
            x, y = E.getattr(p1, n), E.getattr(p2, n)
            ok = ok and isinstance(x, Ref) and isinstance(y, Ref) and x.cell != y.cell
            c = E.contains(x, key)
            E.emit(BoolVal(False) if c is True else BoolVal(True) if c is False else Not(c), f'{n}: empty at first', 'post')
        E.emit(BoolVal(bool(ok)), 'differentiators have their own rules', 'frame')
