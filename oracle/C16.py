import itertools, copy
from cas import *
from protosym.simplecas import Expr, Integer, Matrix, Symbol

use_simplecas()


def build(case):
    """(input rows, the entries expected)"""
    given, exp = [], []
    for row in case['rows']:
        g, x = [], []
        for s in row:
            e = Expr(tree(s))
            x.append(e)
            g.append(s if isinstance(s, int) else e)
        given.append(g)
        exp.append(x)
    return given, exp


class Odd:
    pass


ODD = {'none': None, 'str': 'x', 'float': 1.5, 'one': 1.0, 'zero': 0.0, 'two': complex(2), 'obj': Odd(), 'tuple': (1,), 'list': [1], 'set': frozenset([1])}


def entries(m, exp):
    nr, nc = len(exp), len(exp[0])
    eq(m.nrows, nr, 'rows')
    eq(m.ncols, nc, 'columns')
    eq(m.shape, (nr, nc), 'shape')
    for i in range(nr):
        for j in range(nc):
            same(m[i, j], exp[i][j], f'entry {i},{j}')
            if i < 2 and j < 2:
                same(m[bool(i), bool(j)], exp[i][j], f'entry {bool(i)},{bool(j)}')
    for i, j in [(-1, 0), (0, -1), (nr, 0), (0, nc), (nr, nc), (-nr, -nc), (nr + 5, nc + 5), (-1, -1), (-nr, 0), (0, -nc), (nr, -1), (10 ** 9, 0), (nc, nr), (-1, nc - 1), (nr - 1, -1), (-1, nc + 1), (nr + 1, -1), (-1, 10 ** 9), *(itertools.product(range(-nr - 2, nr + 3), range(-nc - 2, nc + 3)) if nr * nc < 8 else ())]:
        if not (0 <= i < nr and 0 <= j < nc):
            raises(IndexError, lambda: m[i, j], f'index {i},{j} of a {nr} by {nc} matrix')
    for k in (0, 'ab', None, 1.0, [0, 0], (0,), (0, 0, 0), (), (0, '0'), (0.0, 0), (0, 0.0), (None, 0), (0, slice(None)), slice(None), Odd(), (exp[0][0] if nc else 0, 'x'), (Odd(), 0), '01', {0: 0, 1: 1}, range(2), Integer(0), (Integer(0), Integer(0))):
        raises(TypeError, lambda: m[k], f'index {k!r}')


def listed(m, exp):
    r = m.tolist()
    want(type(r) is list and all(type(x) is list for x in r), 'tolist is no list of lists')
    eq([len(x) for x in r], [len(x) for x in exp], 'row lengths of tolist')
    for i, (x, y) in enumerate(zip(r, exp)):
        for j, (a, b) in enumerate(zip(x, y)):
            same(a, b, f'tolist entry {i},{j}')
    return r


def check(case):
    rows = case['rows']
    if not rows or any(len(r) != len(rows[0]) for r in rows):
        return
    if 'odd' in case:
        given, exp = build(case)
        kind, arg = case['odd']
        if kind == 'entry':
            i, j, what = arg
            given[i][j] = ODD[what]
        elif kind == 'row':
            i, what = arg
            given[i] = ODD[what] if what in ODD and what != 'list' else tuple(given[i])
        elif kind == 'short':
            given[arg] = given[arg][:-1]
        elif kind == 'long':
            given[arg] = given[arg] + [1]
        elif kind == 'swap':
            i, k = arg
            given[i], given[k] = given[i][:-1], given[k] + [2]
        elif kind == 'table':
            given = ODD[arg] if arg in ODD and arg != 'list' else tuple(given)
        elif kind == 'flat':
            given = given[0]
        elif kind == 'iter':
            given = iter(given)
        if kind in ('short', 'long', 'swap') and len({len(r) for r in given}) == 1 or kind == 'flat' and not given:
            return
        before = copy.copy(given) if isinstance(given, list) else None
        raises(TypeError, lambda: Matrix(given), f'Matrix of {given!r}')
        if before is not None:
            want(len(given) == len(before) and all(a is b for a, b in zip(given, before)), 'the input was modified')
        return
    given, exp = build(case)
    before = [list(r) for r in given]
    ids = [id(r) for r in given]
    m = Matrix(given)
    want(type(m) is Matrix, 'no matrix')
    want([id(r) for r in given] == ids and all(len(r) == len(b) and all(x is y for x, y in zip(r, b)) for r, b in zip(given, before)), 'the input lists were modified')
    entries(m, exp)
    r = listed(m, exp)
    for k, row in enumerate(r):
        row[:] = [Symbol(f'changed{k}')] * len(row)
        for k2, row2 in enumerate(r):
            if k2 > k:
                want(all(x is y for x, y in zip(row2, exp[k2])), 'rows of tolist share storage')
    r.append(None)
    entries(m, exp)
    listed(m, exp)
    for row in given:
        for j in range(len(row)):
            row[j] = Symbol('other')
        row.append(7)
    given.append([])
    entries(m, exp)
    listed(m, exp)
    m2 = Matrix(m.tolist())
    entries(m2, exp)


def cases(rng, deadline):
    atoms = [0, 1, 'x', ['@sin', 'x'], -1, ['@Add', 'x', 0], ['@Mul', 0, 'y'], ['@f', 'x'], 2, '0', '@0', '~0', '1', '@x', '~x', -2]
    for nr in (1, 2, 3):
        for nc in (0, 1, 2, 3):
            yield {'rows': [[0] * nc for _ in range(nr)]}
            yield {'rows': [['x'] * nc for _ in range(nr)]}
            yield {'rows': [[f'a{i}{j}' for j in range(nc)] for i in range(nr)]}
            yield {'rows': [[i * nc + j for j in range(nc)] for i in range(nr)]}
            for z in range(min(2 ** (nr * nc), 64)):
                yield {'rows': [[f'a{i}{j}' if z >> (i * nc + j) & 1 else 0 for j in range(nc)] for i in range(nr)]}
    for nr, nc in ((1, 30), (30, 1), (12, 12), (5, 17), (17, 5), (40, 40)):
        yield {'rows': [[rng.choice(atoms) for _ in range(nc)] for _ in range(nr)]}
        yield {'rows': [[f'a{i}_{j}' for j in range(nc)] for i in range(nr)]}
    for a in ('0', '@0', '~0', 0, ['@Add'], ['@Add', 0], -1, -2, 2 ** 61 - 1):
        yield {'rows': [[a, 0, 'x'], ['x', a, a]]}
        yield {'rows': [[a, '0', 0, '@0']]}
    base = [['x', 0, 1], [2, 'y', 0], [0, 0, 'z']]
    for w in ODD:
        for i in range(3):
            yield {'rows': base, 'odd': ['row', [i, w]]}
            for j in range(3):
                yield {'rows': base, 'odd': ['entry', [i, j, w]]}
        yield {'rows': base, 'odd': ['table', w]}
    for i in range(3):
        yield {'rows': base, 'odd': ['short', i]}
        yield {'rows': base, 'odd': ['long', i]}
        for k in range(3):
            if i != k:
                yield {'rows': base, 'odd': ['swap', [i, k]]}
    yield {'rows': [['x'], ['y']], 'odd': ['short', 1]}
    yield {'rows': [['x'], ['y']], 'odd': ['short', 0]}
    yield {'rows': base, 'odd': ['flat', 0]}
    yield {'rows': base, 'odd': ['iter', 0]}
    yield {'rows': [[0, 0], [0, 0]], 'odd': ['short', 1]}
    while True:
        nr, nc = rng.randint(1, 6), rng.randint(0, 6)
        p = rng.random()
        yield {'rows': [[rng.choice(atoms) if rng.random() < p else 0 for _ in range(nc)] for _ in range(nr)]}


if __name__ == '__main__':
    main(cases, check, 'all zero patterns up to 3 by 3 (64 per shape), shapes up to 40 by 40, random matrices up to 6 by 6, every malformed entry, row and table of a 3 by 3 matrix')
