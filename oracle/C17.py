from cas import *
from protosym.simplecas import Add, Expr, Integer, Matrix, Symbol
from protosym.simplecas.expr import zero

use_simplecas()


def build(rows):
    return Matrix([[Expr(tree(s)) for s in r] for r in rows])


def snapshot(m):
    return m.nrows, m.ncols, m.shape, [list(r) for r in m.tolist()], list(getattr(m, 'elements', [])), getattr(m, 'elements_graph', None), dict(getattr(m, 'entrymap', {}))


def unchanged(m, s, what):
    t = snapshot(m)
    want(t[:3] == s[:3] and t[5] is s[5] and t[6] == s[6] and len(t[4]) == len(s[4]) and all(x is y for x, y in zip(t[4], s[4]))
         and all(x is y for r, q in zip(t[3], s[3]) for x, y in zip(r, q)), f'{what} was changed')
    readable(m, what)


def readable(m, what):
    """Every way of reading a matrix shows the same entries."""
    eq(m.shape, (m.nrows, m.ncols), f'shape of {what}')
    L = m.tolist()
    want(len(L) == m.nrows and all(len(r) == m.ncols for r in L), f'shape of the list of {what}')
    for i in range(m.nrows):
        for j in range(m.ncols):
            same(m[i, j], L[i][j], f'entry {i},{j} of {what}')
    raises(IndexError, lambda: m[m.nrows, 0], f'{what}[{m.nrows}, 0]')


def stored(m, i, j):
    return (i, j) in m.entrymap if hasattr(m, 'entrymap') else m[i, j] is not zero


def shared(a, b):
    return getattr(a, 'elements', None) is getattr(b, 'elements', 0)


def values(e, vals):
    try:
        return value(e, vals)
    except NoValue:
        return None


def add(a, b, vals):
    sa, sb = snapshot(a), snapshot(b)
    c = a + b
    want(type(c) is Matrix, 'the sum is no matrix')
    unchanged(a, sa, 'the left operand')
    unchanged(b, sb, 'the right operand')
    eq(c.shape, a.shape, 'shape of the sum')
    readable(c, 'the sum')
    for i in range(a.nrows):
        for j in range(a.ncols):
            x, y = a[i, j], b[i, j]
            if stored(a, i, j) and stored(b, i, j):
                same(c[i, j], Add(x, y), f'entry {i},{j} of the sum')
            elif stored(a, i, j) or stored(b, i, j):
                same(c[i, j], x if stored(a, i, j) else y, f'entry {i},{j} of the sum')
            else:
                same(c[i, j], zero, f'entry {i},{j} of the sum')
            vx, vy = values(x, vals), values(y, vals)
            if vx is not None and vy is not None:
                v = values(c[i, j], vals)
                want(v is not None and close(v, vx + vy), f'value of entry {i},{j} of the sum')
    # writing into the sum's own lists reaches no operand
    want(not shared(c, a) and not shared(c, b), 'the sum shares its elements with an operand')
    return c


def diff(a, sym, vals):
    sa = snapshot(a)
    d = a.diff(Symbol(sym))
    want(type(d) is Matrix, 'the derivative is no matrix')
    unchanged(a, sa, 'the matrix')
    eq(d.shape, a.shape, 'shape of the derivative')
    readable(d, 'the derivative')
    want(not shared(d, a), 'the derivative shares its elements with the matrix')
    for i in range(a.nrows):
        for j in range(a.ncols):
            try:
                v = dual(a[i, j], vals, sym)[1]
            except NoValue:
                continue
            try:
                w = value(d[i, j], vals)
            except NoValue:
                continue
            want(close(w, v), f'entry {i},{j} of the derivative of {short(a[i, j])} by {sym}: {short(d[i, j])} has the value {mpmath.nstr(w)}, not {mpmath.nstr(v)}')
    return d


class Odd:
    pass


def check(case):
    vals = case['vals']
    ms = [build(r) for r in case['ms'] if r and all(len(q) == len(r[0]) for q in r)]
    if not ms:
        return
    first = [snapshot(m) for m in ms]
    for o in (1, 0, None, 'x', [[1]], Odd(), ms[0].tolist(), Integer(1), (1,), 2.0):
        raises(TypeError, lambda: ms[0] + o, f'matrix + {o!r}')
        if not isinstance(o, Expr):
            raises(TypeError, lambda: ms[0].diff(o), f'derivative by {o!r}')
    for a in ms:
        add(a, a, vals)
        for b in ms:
            if a.shape != b.shape:
                raises(TypeError, lambda: a + b, f'sum of shapes {a.shape} and {b.shape}')
            else:
                c = add(a, b, vals)
                for k in ms:
                    if k.shape == c.shape:
                        add(c, k, vals)
                        add(k, c, vals)
    for a, s in zip(ms, first):
        unchanged(a, s, 'a matrix')
    for a in ms:
        for sym in case.get('syms', 'xyz'):
            d = diff(a, sym, vals)
            add(a, d, vals)
            add(d, a, vals)
            add(d, d, vals)
            diff(d, sym, vals)
        for b in ms:
            if b.shape == a.shape and case.get('syms', 'xyz'):
                diff(a + b, case.get('syms', 'xyz')[0], vals)
    for a, s in zip(ms, first):
        unchanged(a, s, 'a matrix')


def cases(rng, deadline):
    vals = {'x': 0.7, 'y': -1.3, 'z': 2.1}
    pats = [[f'{z:04b}'[2 * i:2 * i + 2] for i in range(2)] for z in range(16)]
    for p in pats:
        for q in pats:
            A = [[['@Mul', 2, 'x'] if c == '1' else 0 for c in r] for r in p]
            B = [[n for n in (['@sin', 'x'] if c == '1' else 0 for c in r)] for r in q]
            yield {'ms': [A, B], 'vals': vals, 'syms': 'x' if p == q else ''}
    for nr, nc in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)):
        yield {'ms': [[[0] * nc] * nr, [['x'] * nc] * nr, [['y'] * nc] * nr, [[1] * nc] * nr], 'vals': vals}
        yield {'ms': [[[['@Mul', f'x', i, 'y'] for i in range(nc)] for _ in range(nr)], [[0] * (nc + 1)] * nr, [[0] * nc] * (nr + 1), [['x'] * nr] * nc], 'vals': vals}
        yield {'ms': [[[['@pow', 'x', i * nc + j] for j in range(nc)] for i in range(nr)], [[['@Add', 'x', i, j] for j in range(nc)] for i in range(nr)]], 'vals': vals}
    n = 14
    yield {'ms': [[[['@Mul', 'x', i, j] if (i + j) % 3 else 0 for j in range(n)] for i in range(n)], [[['@sin', ['@Mul', 'y', i]] if (i * j) % 2 else 0 for j in range(n)] for i in range(n)]], 'vals': vals, 'syms': 'x'}
    while True:
        nr, nc = rng.randint(1, 4), rng.randint(1, 4)
        ms = []
        for _ in range(rng.randint(1, 3)):
            p = rng.random()
            pool = [rand_expr(rng, rng.randint(0, 5), intexp=True) for _ in range(4)] + [0, 'x', 'y', 1]
            ms.append([[rng.choice(pool) if rng.random() < p else 0 for _ in range(nc)] for _ in range(nr)])
        if rng.random() < .3:
            ms.append([[rng.choice(['x', 0, 1]) for _ in range(nr)] for _ in range(nc)])
        yield {'ms': ms, 'vals': {s: round(rng.uniform(-2, 2), 3) for s in 'xyz'}, 'syms': rng.choice(['x', 'y', 'xz'])}


if __name__ == '__main__':
    main(cases, check, 'all pairs of 2 by 2 zero patterns, shapes up to 14 by 14, random matrices up to 4 by 4 with entries of at most 5 operations')
