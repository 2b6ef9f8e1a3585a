import math
from cas import *
from protosym.core.tree import Tree
from protosym.simplecas import Add, Expr, Function, Integer, List, Mul, Pow, Symbol, cos, sin, diff, bin_expand
from protosym.simplecas import expr as mod

use_simplecas()
HEAD = {'Add': Add, 'Mul': Mul, 'pow': Pow, 'sin': sin, 'cos': cos}


def near(a, b, scale=0.0):
    if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
        return False
    return abs(M(a) - b) <= M(10) ** -11 * (abs(b) + scale)


def check(case):
    k = case['k']
    if k == 'op':
        h, xs = case['h'], [float(x) for x in case['args']]
        syms = [Symbol(f'a{i}') for i in range(len(xs))]
        if not xs:
            e = mod.Expr(Tree(tree('@' + h), *[]))
        try:
            exp = op(h, [M(x) for x in xs])
        except NoValue:
            return
        scale = math.fsum(abs(x) for x in xs) if h == 'Add' else 1.0 if h in ('sin', 'cos') else 0.0
        if abs(exp) > 1e300 or 0 < abs(exp) < 1e-290:
            return
        got = HEAD[h](*syms).eval_f64(dict(zip(syms, xs)))
        want(type(got) is float and near(got, exp, scale), f'{h}{tuple(xs)} evaluates to {got!r}, not {mpmath.nstr(exp, 20)}')
    elif k == 'ieee':
        h, xs = case['h'], [float(x) for x in case['args']]
        syms = [Symbol(f'a{i}') for i in range(len(xs))]
        try:
            got = HEAD[h](*syms).eval_f64(dict(zip(syms, xs)))
        except (ValueError, OverflowError, ZeroDivisionError):
            return        # not a real number
        want(type(got) is float, f'{h}{tuple(xs)} evaluates to {got!r}')
        if h == 'pow':
            return
        exp = 0.0 if h == 'Add' else 1.0
        for x in xs:
            exp = exp + x if h == 'Add' else exp * x
        want(got == exp or got != got and exp != exp, f'{h}{tuple(xs)} evaluates to {got!r}, not {exp!r}')
    elif k == 'int':
        n = int(case['n'])
        got = Integer(n).eval_f64()
        want(type(got) is float and got == float(n), f'{n} evaluates to {got!r}')
    elif k == 'nodiff':
        x = Symbol('x')
        heads = {'pow': lambda: (x ** x).diff(x), 'pow2': lambda: (Integer(2) ** x).diff(x), 'exp': lambda: Function('exp')(x).diff(x),
                 'f': lambda: Function('f')(x).diff(x), 'tan': lambda: Function('tan')(x).diff(x), 'log': lambda: Function('log')(x).diff(x),
                 'pow3': lambda: Pow(Integer(1), Integer(2), x).diff(x)}
        raises(KeyError, heads[case['h']], f'derivative without a rule ({case["h"]})')
    elif k == 'value':
        t = tree(case['e'])
        try:
            exp = value(t, case['vals'])
        except NoValue:
            return
        if isinstance(exp, tuple) or len(parts(t)) > 12:
            return
        lo, hi = M(10) ** -6, M(10) ** 6
        try:       # only well-conditioned expressions
            for u in parts(t):
                v = abs(value(u, case['vals']))
                if not (v == 0 or lo < v < hi):
                    return
        except NoValue:
            return
        try:
            got = Expr(t).eval_f64({Symbol(n): float(v) for n, v in case['vals'].items()})
        except (ValueError, OverflowError, ZeroDivisionError):
            return        # a domain error after rounding
        # only a gross difference can not be rounding
        if abs(exp) > M(10) ** -3:
            want(type(got) is float and abs(M(got) - exp) <= M('1e-3') * (1 + abs(exp)) or sensitive(t, case['vals']), f'{Expr(t)} evaluates to {got!r}, not {mpmath.nstr(exp, 17)}')
    elif k == 'diff':
        t = tree(case['e'])
        try:
            v, d = dual(t, case['vals'], case['sym'])
        except NoValue:
            return
        try:
            r = Expr(t).diff(Symbol(case['sym']))
        except KeyError:
            raise Fail(f'no derivative for {Expr(t)}')
        try:
            got = value(r, case['vals'])
        except NoValue:
            return
        want(close(got, d), f'derivative of {Expr(t)} is {r}: value {got} instead of {d}')
        same(diff(Expr(t), Symbol(case['sym'])), r, 'diff(..)')


def sensitive(t, vals):
    """Does a relative change of 1e-14 of the parts matter (ill-conditioned)?"""
    out = {}
    for u in parts(t):
        if u.children:
            try:
                v = op(u.children[0].value.value, [out[c] for c in u.children[1:]])
            except NoValue:
                return True
            v = v * (1 + M(10) ** -13)
        else:
            v = value(u, vals) * (1 + M(10) ** -13)
        out[u] = v
    e = value(t, vals)
    return abs(out[t] - e) > M('1e-6') * (1 + abs(e))


def cases(rng, deadline):
    for n in list(range(-5, 12)) + [s * v for v in (255, 1000, 2**31, 2**52 + 1, 2**53, 2**53 + 1, 2**60 + 12345, 10**30, 10**300) for s in (1, -1)]:
        yield {'k': 'int', 'n': str(n)}
    for h in ('pow', 'pow2', 'exp', 'f', 'tan', 'log', 'pow3'):
        yield {'k': 'nodiff', 'h': h}
    pts = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.25, -7.5, 1e-3, 12.0, 100.0, 1e6, -3.0]
    for h in ('sin', 'cos'):
        for x in pts:
            yield {'k': 'op', 'h': h, 'args': [x]}
    for x in pts:
        for y in pts:
            for h in ('pow', 'Add', 'Mul'):
                yield {'k': 'op', 'h': h, 'args': [x, y]}
    for x in ('-8', '-1', '-2.5', '0', '-0.0'):
        for y in ('0.5', '0.3333333333333333', '-1.5', '-1', '3', '0'):
            yield {'k': 'ieee', 'h': 'pow', 'args': [x, y]}
    special = ('inf', '-inf', 'nan', '0', '2', '-3')
    for h in ('Add', 'Mul'):
        for x in special:
            for y in special:
                yield {'k': 'ieee', 'h': h, 'args': [x, y]}
                for z in special:
                    yield {'k': 'ieee', 'h': h, 'args': [x, y, z]}
    for h in ('Add', 'Mul'):
        for n in (1, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 64, 100, 200):
            yield {'k': 'op', 'h': h, 'args': [1 + i * 0.03125 for i in range(n)]}
            yield {'k': 'op', 'h': h, 'args': [(-1) ** i * (1 + (i * 7 % 5) * 0.25) for i in range(n)]}
            yield {'k': 'op', 'h': h, 'args': [0.5] * n}
    yield {'k': 'op', 'h': 'Add', 'args': [1e16, 1.0, -1e16]}
    yield {'k': 'op', 'h': 'Add', 'args': [1e16, 1.0, 1.0, 1.0, -1e16]}
    vals = {'x': 1.75, 'y': -2.5, 'z': 0.625}
    for a in ('x', ['@sin', 'x'], ['@pow', 'x', 3], ['@Mul', 'x', 'y'], ['@Add', 'x', 2], ['@cos', ['@Mul', 'x', 'x']]):
        for e in (a, ['@sin', a], ['@cos', a], ['@Add', a, a], ['@Add', a, 'y', a], ['@Mul', a, a], ['@Mul', a, 'y', a, 'x'], ['@List', a, 'y', 'x', a], ['@List', a], ['@List', ['@List', a], a]):
            for v in (vals, {'x': 0.0, 'y': 1.0, 'z': 3.0}, {'x': 3.0, 'y': 0.0, 'z': -1.0}):
                yield {'k': 'diff', 'e': e, 'sym': 'x', 'vals': v}
        for n in (0, 1, 2, 3, -1, -2, 7, 'y', ['@sin', 'y'], ['@pow', 2, -1]):
            yield {'k': 'diff', 'e': ['@pow', a, n], 'sym': 'x', 'vals': vals}
            yield {'k': 'diff', 'e': ['@pow', a, n], 'sym': 'x', 'vals': {'x': 3.0, 'y': 2.0, 'z': 1.0}}
            yield {'k': 'diff', 'e': ['@pow', ['@Add', a, 'y'], n], 'sym': 'x', 'vals': {'x': 3.0, 'y': 2.0, 'z': 1.0}}
    while True:
        vals = {n: round(rng.uniform(-3, 3), 3) for n in 'xyz'} if rng.random() < .6 else {n: round(rng.uniform(0.1, 4), 3) for n in 'xyz'}
        if rng.random() < .3:
            k = rng.randint(1, 30)
            h = rng.choice(['Add', 'Mul'])
            yield {'k': 'op', 'h': h, 'args': [round(rng.uniform(-2, 2), 4) for _ in range(k)]}
        e = rand_expr(rng, rng.randint(1, 9), intexp=rng.random() < .8)
        yield {'k': 'diff', 'e': e, 'sym': rng.choice('xyz'), 'vals': vals}
        yield {'k': 'value', 'e': e, 'vals': vals}


if __name__ == '__main__':
    main(cases, check, 'every shipped head on 13 to 169 points and up to 200 arguments; derivatives of shipped heads of small arguments and of random expressions of at most 9 operations, against dual numbers with 60 digits')
