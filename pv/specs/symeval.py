"""Contracts for SymEvaluator and the methods of Expr that evaluate."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from . import tree, evaluate as ev
from .tree import sel
from .evaluate import V, VALUES_D, VS


def ET():
    from protosym.simplecas.expr import Expr
    return SymTy(Expr)


def EXPR_VALUES():
    return DictTy(ET(), V)


class Core(ev.Evaluate):
    """Evaluator.__call__ etc. as called from a user-level evaluator: the value
    by the one evaluator and the one assignment the caller is about."""
    variants = ()

    def __init__(self, meth):
        self.target = f'protosym.core.evaluate:Evaluator.{meth}'
        self.name = f'Evaluator.{meth}'
        Contract.__init__(self)

    def view(self, E, b):
        v = b['values']
        none = isinstance(v, Con) and v.obj is None
        return NS(self=b['self'], expr=E.term(b['expr'], TREE), values=None if none else E.term(v, VALUES_D))

    def applicable(self, E, b):
        return E.ctx is not None and 'core' in E.ctx.__dict__

    def pre(self, E, a):
        c = E.ctx
        same = E.same(a.self, c.core)
        t = Const('t', TreeS)
        D = VALUES_D
        empty = z3.K(TreeS, BoolVal(False))
        d1 = empty if a.values is None else D.dom(a.values)
        d2 = empty if c.values is None else D.dom(c.values)
        out = [('its own evaluator', same if not isinstance(same, bool) else BoolVal(same)),
               ('exactly the given atoms have values', fa(t, sel(d1, t) == sel(d2, t), sel(d1, t), sel(d2, t)))]
        if a.values is not None and c.values is not None:
            out.append(('the given values', fa(t, Implies(sel(d2, t), z3.Select(D.val(a.values), t) == z3.Select(D.val(c.values), t)), z3.Select(D.val(a.values), t), z3.Select(D.val(c.values), t))))
        return out

    def post(self, E, a, res):
        return [('the recursively defined value', E.term(res, V) == ev.ev(a.expr))]


class SymCall(Contract):
    """evaluator(expr, values): values are keyed by user-level expressions."""
    target = 'protosym.core.sym:SymEvaluator.__call__'
    name = 'SymEvaluator.__call__'
    variants = ('values', 'no values', 'values=None')

    def setup(self, E, variant):
        import protosym.core.evaluate as m
        from protosym.core.sym import SymEvaluator
        core = ev.fresh_evaluator(E, m.Evaluator)
        obj = E.alloc(ObjC(SymEvaluator, {'name': Con('name'), 'evaluator': core}))
        args = [obj, Tm(ET(), Const('expr', TreeS))]
        if variant == 'values':
            args.append(E.wrap(EXPR_VALUES(), Const('values', EXPR_VALUES().sort)))
        if variant == 'values=None':
            args.append(Con(None))
        return args, {}

    def view(self, E, b):
        v = b['values']
        none = isinstance(v, Con) and v.obj is None
        return NS(self=b['self'], core=E.getattr(b['self'], 'evaluator'), expr=E.term(b['expr'], ET()), values=None if none else E.term(v, EXPR_VALUES()))

    def post(self, E, a, res):
        return [('the value of the underlying expression', E.term(res, V) == ev.ev(a.expr))]

    def apply(self, E, o, args, kwargs):
        """Callers: an unknown function of the evaluator, the expression and the values."""
        E.calls_used.add(self.name)
        E.tick('evaluations')
        a = self.view(E, self.bind(E, args, kwargs))
        return Tm(V, value_by(E, a.self, a.expr, a.values))


def value_by(E, evaluator, expr, values):
    D = VALUES_D
    if not isinstance(evaluator, Con):
        raise Unsupported('evaluator')
    f = Function(f'value_by:{E.ident(evaluator.obj)}', TreeS, D.dom(Const('d', D.sort)).sort(), D.val(Const('d', D.sort)).sort(), V.sort)
    if values is None:
        return f(expr, z3.K(TreeS, BoolVal(False)), Const('no values', D.val(Const('d', D.sort)).sort()))
    return f(expr, D.dom(values), D.val(values))


class Methods(CheckTask):
    """Expr.eval_f64 etc. evaluate with the shipped evaluator of that name."""
    name = 'Expr evaluation methods'

    def __init__(self, *names):
        self.variants = names

    def run(self, E, variant):
        name, _, how = variant.partition(' ')
        import protosym.simplecas.expr as m
        import protosym.simplecas    # registers the rules
        if name == 'to_sympy':
            from protosym.simplecas.sympy_conversions import eval_to_sympy as table
        else:
            table = getattr(m, {'__repr__': 'eval_repr', '__str__': 'eval_repr', '_sympy_': 'eval_to_sympy'}.get(name, name))
        x = Const('x', TreeS)
        args, values = [], None
        if how == 'values':
            values = Const('values', EXPR_VALUES().sort)
            args = [E.wrap(EXPR_VALUES(), values)]
        if how == 'None':
            args = [Con(None)]
        r = E.call(E.getattr(Tm(ET(), x), name), args, {})
        E.emit(E.term(r, V) == value_by(E, Con(table), x, values), f'{name}: the value by the shipped rules', 'post')


def callees():
    return [Core('__call__'), Core('evaluate'), Core('eval_forward')]
