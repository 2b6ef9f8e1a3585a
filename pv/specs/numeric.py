"""The shipped floating-point rules and derivative rules, entry by entry.

The real rule tables of the imported program are read, and every rule is run
symbolically on arbitrary arguments.
"""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from ..interp import REAL
from .. import smt, models
from .arith import fun, integer, app, atom_of, ET

R = z3.RealSort()
LR = ListTy(REAL)
RS = SeqTh(R)
sin, cos = Function('sin', R, R), Function('cos', R, R)
rpow = Function('rpow', R, R, R)
S = lambda: models.seqfold('sum', REAL)
P = lambda: models.seqfold('prod', REAL)


def m():
    import protosym.simplecas.expr as m
    import protosym.simplecas        # registers the rules
    return m


class F64(CheckTask):
    """eval_f64: the value of each supported head and atom over the reals."""
    name = 'eval_f64 rules'
    variants = ('Integer', 'Add', 'Mul', 'Pow', 'sin', 'cos', 'Add 1', 'Add 2', 'Mul 1', 'Mul 2')

    def run(self, E, variant):
        core = Con(m().eval_f64.evaluator)
        kind, _, n = variant.partition(' ')
        xs = z3.Reals('x y')
        if kind == 'Integer':
            k = z3.Int('n')
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, integer(E, k))], {})
            E.emit(E.term(r, REAL) == z3.ToReal(k), 'an integer has its value', 'post')
            return
        op = E.getattr(core, 'eval_operation')
        head = Con(getattr(m(), kind).rep)
        if kind in ('Add', 'Mul'):
            f = (S if kind == 'Add' else P)()
            if n:
                v = E.alloc(ListL([Tm(REAL, x) for x in xs[:int(n)]]))
                want = {'Add1': xs[0], 'Add2': xs[0] + xs[1], 'Mul1': xs[0], 'Mul2': xs[0] * xs[1]}[kind + n]
            else:
                s = Const('args', RS.S)
                v = E.alloc(ListC(REAL, s))
                want = f(s)
            r = E.call(op, [head, v], {})
            E.emit(E.term(r, REAL) == want, 'the sum of the arguments' if kind == 'Add' else 'the product of the arguments', 'post')
            return
        k = 2 if kind == 'Pow' else 1
        r = E.call(op, [head, E.alloc(ListL([Tm(REAL, x) for x in xs[:k]]))], {})
        want = {'Pow': rpow(xs[0], xs[1]), 'sin': sin(xs[0]), 'cos': cos(xs[0])}[kind]
        E.emit(E.term(r, REAL) == want, f'the real function {kind}', 'post')


val = Function('val10', TreeS, R)


def meaning(E):
    """Values of small expressions over the supported heads."""
    x, y, z = (Const(n, TreeS) for n in 'xyz')
    n = z3.Int('n')
    F = lambda h, *a: app(fun(E, h), *a)
    out = [fa(n, val(integer(E, n)) == z3.ToReal(n), integer(E, n))]
    for h, op in (('Add', lambda a, b: a + b), ('Mul', lambda a, b: a * b)):
        for a in ([x], [x, y], [x, y, z]):
            r = val(a[0])
            for q in a[1:]:
                r = op(r, val(q))
            out.append(fa(a, val(F(h, *a)) == r, val(F(h, *a))))
    out += [fa([x, y], val(F('pow', x, y)) == rpow(val(x), val(y)), val(F('pow', x, y))),
            fa(x, val(F('sin', x)) == sin(val(x)), val(F('sin', x))),
            fa(x, val(F('cos', x)) == cos(val(x)), val(F('cos', x)))]
    return out


class Derivatives(CheckTask):
    """diff: each shipped rule is the partial derivative."""
    name = 'shipped derivative rules'
    variants = ('table', 'sin', 'cos', 'base of a power')

    def run(self, E, variant):
        mod = m()
        p = mod.diff.diff_props
        heads = {'sin': (mod.sin, 0, 1), 'cos': (mod.cos, 0, 1), 'base of a power': (mod.Pow, 0, 2)}
        rules = E.getattr(Con(p), 'diff_rules')
        if variant == 'table':
            want = {(h.rep, i) for h, i, _ in heads.values()}
            E.emit(BoolVal(set(rules.obj) == want), 'rules exactly for sine, cosine and the base of a power', 'post')
            E.emit(BoolVal(set(p.distributive) == {mod.List.rep}), 'only lists are differentiated element-wise', 'post')
            for n, e in (('zero', mod.zero), ('one', mod.one), ('add', mod.Add), ('mul', mod.Mul)):
                E.emit(E.term(E.getattr(Con(p), n), TREE) == {'zero': integer(E, IntVal(0)), 'one': integer(E, IntVal(1)), 'add': fun(E, 'Add'), 'mul': fun(E, 'Mul')}[n], f'{n} of the shipped differentiator', 'post')
            return
        h, i, n = heads[variant]
        f = rules.obj.get((h.rep, i))
        if f is None:
            E.emit(BoolVal(False), f'there is a rule for {variant}', 'post')
            return
        for a in meaning(E):
            E.assume(a)
        ts = [Const(k, TreeS) for k in ('x', 'y')][:n]
        r = E.call(Con(f), [Tm(TREE, t) for t in ts], {})
        v = [val(t) for t in ts]
        want = {'sin': lambda: cos(v[0]), 'cos': lambda: -sin(v[0]), 'base of a power': lambda: v[1] * rpow(v[0], v[1] - 1)}[variant]()
        E.emit(val(E.term(r, TREE)) == want, f'the partial derivative of {variant}', 'post')


def tasks():
    return [F64(), Derivatives()]
