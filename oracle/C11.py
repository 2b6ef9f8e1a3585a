import operator
from common import *
from protosym.core.tree import Tree
from protosym.simplecas import Add, Expr, Function, Integer, List, Mul, Pow, Symbol, cos, expressify, f, g, negone, one, sin, zero
from protosym.simplecas.exceptions import ExpressifyError
from fractions import Fraction

use_simplecas()
BAD = {'float': 1.5, 'nan': float('nan'), 'str': '1', 'None': None, 'list': [1], 'complex': 1j, 'tuple': (1,), 'frac': Fraction(1, 2),
       'bytes': b'1', 'tree': None, 'atype': Integer, 'type': int, 'obj': object(), 'dict': {}, 'atom': None}
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '**': operator.pow}
I = lambda n: tree(n)
F = lambda n: tree('@' + n)


def written(op, x, y):
    m1 = I(-1)
    return {'+': lambda: Tree(F('Add'), x, y), '-': lambda: Tree(F('Add'), x, Tree(F('Mul'), m1, y)), '*': lambda: Tree(F('Mul'), x, y),
            '/': lambda: Tree(F('Mul'), x, Tree(F('pow'), y, m1)), '**': lambda: Tree(F('pow'), x, y)}[op]()


def operand(o, env):
    if isinstance(o, list) and o and o[0] == 'bad':
        v = {'tree': env[-1] if env else I(1), 'atom': I(1).value}.get(o[1], BAD.get(o[1]))
        return v, None
    if isinstance(o, list) and o and o[0] == 'int':
        n = int(o[1])
        return n, I(n)
    if isinstance(o, list) and o and o[0] == 'bool':
        return bool(o[1]), I(int(bool(o[1])))
    t = tree(o, env)
    return Expr(t), t


def result(f, want_, exc, what):
    if want_ is None:
        return raises(exc, f, what)
    r = f()
    want(type(r) is Expr, f'{what}: not an Expr')
    same(r.rep, want_, what)
    same(r, Expr(want_), what)


def check(case):
    env = []
    for s in case.get('dag', []):
        env.append(tree(s, env))
    if case['k'] == 'op':
        (x, xt), (y, yt) = operand(case['x'], env), operand(case['y'], env)
        if not isinstance(x, Expr) and not isinstance(y, Expr):
            return
        w = None if xt is None or yt is None else written(case['op'], xt, yt)
        result(lambda: OPS[case['op']](x, y), w, TypeError, f'{short(x)} {case["op"]} {short(y)}')
    elif case['k'] == 'neg':
        x, xt = operand(case['x'], env)
        if isinstance(x, Expr):
            result(lambda: -x, Tree(F('Mul'), I(-1), xt), TypeError, 'negation')
            result(lambda: +x, xt, TypeError, 'unary +')
    elif case['k'] == 'call':
        h, ht = operand(case['h'], env)
        if not isinstance(h, Expr):
            return
        a = [operand(o, env) for o in case['args']]
        ts = [t for _, t in a]
        result(lambda: h(*[v for v, _ in a]), None if None in ts else Tree(ht, *ts), ExpressifyError, 'call')
    elif case['k'] == 'conv':
        v, t = operand(case['x'], env)
        result(lambda: expressify(v), t, ExpressifyError, 'expressify')
        want(issubclass(ExpressifyError, TypeError), 'ExpressifyError is a TypeError')
    elif case['k'] == 'names':
        for e, n in ((Add, 'Add'), (Mul, 'Mul'), (Pow, 'pow'), (sin, 'sin'), (cos, 'cos'), (List, 'List'), (f, 'f'), (g, 'g')):
            same(e.rep, F(n), n)
        for e, n in ((zero, 0), (one, 1), (negone, -1)):
            same(e.rep, I(n), str(n))
            eq(e.rep.value.value, n)
        same(Symbol('q').rep, tree('q'))


BIG = [str(s * v) for v in (0, 1, 2, 3, 10, 255, 256, 257, 2**31, 2**53 + 1, 2**63 - 1, 2**64, 10**30 + 7) for s in (1, -1)]


def cases(rng, deadline):
    yield {'k': 'names'}
    base = ['x', 0, 1, -1, '@f', ['@f', 'x'], ['@Add', 'x', 'y'], ['@Add', 'x', 'x', 'x'], ['@Mul', -1, 'x'], ['@pow', 'x', 2], ['@Add'], ['@Mul', 'x', 'y'], '@Add', '@Mul', ['@List', 'x'],
            ['@Mul', -1, ['@Mul', -1, 'x']], ['@pow', 'x', -1], ['@Mul', 'x', ['@pow', 'y', -1]]]
    bad = [['bad', k] for k in BAD]
    ints = [['int', b] for b in BIG] + [['bool', 0], ['bool', 1]]
    for x in base + bad + ints:
        yield {'k': 'conv', 'x': x}
        yield {'k': 'neg', 'x': x}
    for op in OPS:
        for x in base:
            for y in base:
                yield {'k': 'op', 'op': op, 'x': x, 'y': y}
            for y in bad + ints:
                yield {'k': 'op', 'op': op, 'x': x, 'y': y}
                yield {'k': 'op', 'op': op, 'x': y, 'y': x}
    for h in base:
        yield {'k': 'call', 'h': h, 'args': []}
        for x in base + bad + ints:
            yield {'k': 'call', 'h': h, 'args': [x]}
            yield {'k': 'call', 'h': h, 'args': [x, 'y', ['int', '3']]}
            yield {'k': 'call', 'h': h, 'args': ['y', ['bool', 1], x]}
    for n in (3, 10, 40, 100, 300):
        yield {'k': 'call', 'h': '@f', 'args': [f'x{i}' for i in range(n)]}
        yield {'k': 'call', 'h': '@Add', 'args': [['int', str(i % 7 - 3)] for i in range(n)]}
        yield {'k': 'call', 'h': '@Mul', 'args': [['int', str(i)] for i in range(n)] + [['bad', 'float']]}
    while True:
        dag = rand_pool(rng, rng.randint(0, 6), heads=('@f', '@Add', '@Mul', '@pow', '@sin'), ints=(0, 1, -1, 2))
        env = [f'#{i}' for i in range(len(dag))]
        pick = lambda: rng.choice(env) if rng.random() < .8 else rng.choice(ints + bad)
        if rng.random() < .75:
            yield {'k': 'op', 'dag': dag, 'op': rng.choice(list(OPS)), 'x': pick(), 'y': pick()}
        else:
            yield {'k': 'call', 'dag': dag, 'h': rng.choice(env), 'args': [pick() for _ in range(rng.randint(0, 5))]}


if __name__ == '__main__':
    main(cases, check, 'every operator on 18 expressions, 28 integers and 15 other objects on either side; random operands')
