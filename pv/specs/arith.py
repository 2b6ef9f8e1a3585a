"""Operators, calls and conversions of simplecas expressions."""
from __future__ import annotations
import ast
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt

FOREIGN = OpaqueTy('AnotherObject', foreign=True)


def ET():
    from protosym.simplecas.expr import Expr
    return SymTy(Expr)


def m():
    import protosym.simplecas.expr as m
    return m


def atom_of(E, kind, val):
    """The tree of the atom of a simplecas atom type with this value term."""
    return mkleaf(mkatom(E.conc_atype(getattr(m(), kind).atom_type), val))


def fun(E, name):
    """The function atom with this name."""
    return atom_of(E, 'Function', vstr(E.strconst(name)))


def integer(E, t):
    return atom_of(E, 'Integer', vint(t))


def app(h, *args):
    return mk(TS.lit([h, *args]))


def foreign(E):
    return {'object': Tm(FOREIGN, Const('another', FOREIGN.sort)), 'float': Con(1.5), 'str': Con('1'), 'None': Con(None),
            'list': E.alloc(ListL([Con(1)])), 'complex': Con(1j)}


OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '**': ast.Pow}


def written(E, op, x, y):
    add, mul, pw, neg = fun(E, 'Add'), fun(E, 'Mul'), fun(E, 'pow'), integer(E, IntVal(-1))
    return {'+': lambda: app(add, x, y), '-': lambda: app(add, x, app(mul, neg, y)), '*': lambda: app(mul, x, y),
            '/': lambda: app(mul, x, app(pw, y, neg)), '**': lambda: app(pw, x, y)}[op]()


def operand(E, kind, name):
    """(value, tree) of an arbitrary operand."""
    if kind == 'Expr':
        t = Const(name, TreeS)
        return Tm(ET(), t), t
    if kind == 'int':
        n = z3.Int(name)
        return Tm(INT, n), integer(E, n)
    if kind == 'bool':
        p = Const(name, B)
        return Tm(BOOL, p), integer(E, If(p, IntVal(1), IntVal(0)))
    return foreign(E)[kind], None


def expect(E, thunk, want, exc, what):
    """thunk() yields the expression of tree `want`, or raises exc when want is None."""
    E.raises = (exc,)
    try:
        r = thunk()
    except PyExc as ex:
        E.emit(BoolVal(want is None and issubclass(ex.cls, exc)), f'{what}: {ex.cls.__name__} ({ex.why})', 'raises')
        return
    if want is None:
        E.emit(BoolVal(False), f'{what}: raises {exc.__name__}', 'raises')
        return
    E.emit(BoolVal(E.typeof(r) == ET()), f'{what}: an expression', 'post')
    E.emit(E.term(r, ET()) == want, f'{what}: exactly the written operation', 'post')


KINDS = ('int', 'bool', 'object', 'float', 'str', 'None', 'list', 'complex')


class Operators(CheckTask):
    name = 'operators'
    variants = tuple(f'{op} {k}' for op in OPS for k in ('Expr',) + KINDS)

    def run(self, E, variant):
        op, kind = variant.split()
        x, xt = operand(E, 'Expr', 'x')
        y, yt = operand(E, kind, 'y')
        w = lambda a, b: None if a is None or b is None else written(E, op, a, b)
        expect(E, lambda: E.binop(OPS[op](), x, y), w(xt, yt), TypeError, f'Expr {op} {kind}')
        if kind != 'Expr':
            expect(E, lambda: E.binop(OPS[op](), y, x), w(yt, xt), TypeError, f'{kind} {op} Expr')


class Unary(CheckTask):
    name = 'unary operators'
    variants = ('+', '-')

    def run(self, E, variant):
        x, xt = operand(E, 'Expr', 'x')
        f = E.class_attr(E.class_of(x), {'+': '__pos__', '-': '__neg__'}[variant], x)
        want = xt if variant == '+' else app(fun(E, 'Mul'), integer(E, IntVal(-1)), xt)
        expect(E, lambda: E.call(f, [], {}), want, TypeError, variant + 'Expr')


class Calls(CheckTask):
    name = 'calling an expression'
    variants = ('expressions', 'mixed', 'none', 'object', 'float', 'str', 'None', 'list', 'complex')

    def run(self, E, variant):
        h, ht = operand(E, 'Expr', 'head')
        if variant == 'expressions':
            s = Const('args', TS.S)
            want = mk(TS.cat(TS.lit([ht]), s))
            expect(E, lambda: E.call(h, [Star(ET(), s)], {}), want, m().ExpressifyError, 'call')
            return
        if variant == 'none':
            return expect(E, lambda: E.call(h, [], {}), app(ht), m().ExpressifyError, 'call')
        ops = [operand(E, 'int', 'i'), operand(E, 'Expr', 'x'), operand(E, 'bool', 'p'), operand(E, 'Expr', 'y')]
        if variant != 'mixed':
            ops.append(operand(E, variant, ''))
        ts = [t for _, t in ops]
        expect(E, lambda: E.call(h, [v for v, _ in ops], {}), None if None in ts else app(ht, *ts), m().ExpressifyError, 'call')


class Convert(CheckTask):
    name = 'expressify'
    variants = ('Expr', 'int', 'bool', 'object', 'float', 'str', 'None', 'list', 'complex')

    def run(self, E, variant):
        v, t = operand(E, variant, 'v')
        expect(E, lambda: E.call(Con(m().expressify), [v], {}), t, m().ExpressifyError, 'expressify')
        E.emit(BoolVal(issubclass(m().ExpressifyError, TypeError)), 'ExpressifyError is a TypeError', 'post')


class Names(CheckTask):
    """The shipped names are the expressions they look like."""
    name = 'shipped names'

    def run(self, E, variant):
        import protosym.simplecas as p
        for n, f in (('Add', 'Add'), ('Mul', 'Mul'), ('Pow', 'pow'), ('sin', 'sin'), ('cos', 'cos'), ('List', 'List'), ('f', 'f'), ('g', 'g')):
            E.emit(E.term(Con(getattr(p, n)), ET()) == fun(E, f), n, 'post')
        for n, k in (('zero', 0), ('one', 1), ('negone', -1)):
            E.emit(E.term(Con(getattr(p, n)), ET()) == integer(E, IntVal(k)), n, 'post')
        for n in 'xy':
            E.emit(E.term(Con(getattr(p, n)), ET()) == atom_of(E, 'Symbol', vstr(E.strconst(n))), n, 'post')
        for kind, v in (('Integer', vint(z3.Int('v'))), ('Symbol', vstr(Const('v', StrS))), ('Function', vstr(Const('v', StrS)))):
            val = Tm(INT, z3.Int('v')) if kind == 'Integer' else Tm(STR, Const('v', StrS))
            E.emit(E.term(E.call(Con(getattr(p, kind)), [val], {}), ET()) == atom_of(E, kind, v), f'{kind}(value)', 'post')


def tasks():
    return [Operators(), Unary(), Calls(), Convert(), Names()]
