import gc, os
import numpy
from ir import *
from protosym.simplecas import Expr, Matrix, lambdify
from protosym.simplecas.exceptions import LLVMNotImplementedError

use_simplecas()
KEPT = []


def build(case):
    rows = case['rows']
    if not rows or any(len(r) != len(rows[0]) for r in rows):
        return None
    m = Matrix([[Expr(tree(s)) for s in r] for r in rows])
    for step in case.get('then', ()):
        if step == 'double':
            m = m + m
        elif step == 'again':
            m = Matrix(m.tolist())
        elif step[0] == 'plus':
            o = build({'rows': step[1]})
            if o is None or o.shape != m.shape:
                return None
            m = (m + o) if len(step) == 2 else (o + m)
        elif step[0] == 'diff':
            try:
                m = m.diff(Expr(tree(step[1])))
            except KeyError:    # a head without rules
                return None
    return m


def check(case):
    if 'kept' in case:
        return kept(case['kept'])
    ps = [tree(p) for p in case['ps']]
    if len(set(ps)) != len(ps) or any(p.children or not isinstance(p.value.value, str) for p in ps) or len({p.value.value for p in ps}) != len(ps):
        return
    m = build(case)
    if m is None:
        return
    ents = [[e.rep for e in r] for r in m.tolist()]
    flat = [e for r in ents for e in r]
    if not all(wellformed(e) for e in flat):
        return
    nr, nc = len(ents), len(ents[0])
    args = [Expr(p) for p in ps]
    given = list(args)
    if not all(supported(e, ps) for e in flat):
        raises(LLVMNotImplementedError, lambda: m.to_llvm_ir(args), 'to_llvm_ir')
        raises(LLVMNotImplementedError, lambda: lambdify(args, m), 'lambdify')
        return
    text = m.to_llvm_ir(args)
    want(type(text) is str, f'to_llvm_ir gives a {type(text).__name__}')
    code = Code(text, True)
    eq(code.params, [f'%"{p.value.value}"' for p in ps], 'parameters')
    for k, _, _ in code.stores:
        want(0 <= k < nr * nc, f'a store to position {k} of a {nr} by {nc} matrix')
    pts = [([pt[i % 3] + i // 3 for i in range(len(ps))]) for pt in POINTS]
    f = lambdify(args, m) if case.get('run', True) else None
    want(args == given, 'the list of arguments was changed')
    eq(m.to_llvm_ir(args), text, 'the code generated again')
    want([[e.rep for e in r] for r in m.tolist()] == ents and m.shape == (nr, nc), 'the matrix was changed')
    first = None
    for pt in pts:
        vals = dict(zip(ps, pt))
        try:
            v = code.run(pt)
        except NoValue:
            v = None
        mem = {}
        for k, x, _ in code.stores:
            mem[k] = x
        g = f(*pt) if f is not None else None
        if g is not None:
            want(type(g) is numpy.ndarray and g.shape == (nr, nc) and g.dtype == numpy.float64, f'the compiled function gives a {type(g).__name__} of shape {getattr(g, "shape", None)} and type {getattr(g, "dtype", None)}')
        for i in range(nr):
            for j in range(nc):
                e, k = ents[i][j], i * nc + j
                if v is None:
                    continue
                try:
                    r, err = rounded(e, vals)
                except NoValue:
                    continue
                got = v(mem[k]) if k in mem else M(0)
                want(abs(got - r) <= M(10) ** -45 * (1 + abs(r)) + err * M(2) ** -100, f'the code puts {mpmath.nstr(got, 20)} at {i},{j} for {pt}, the entry is {mpmath.nstr(r, 20)}')
                if g is not None:
                    want(near(float(g[i, j]), e, vals), f'the compiled function gives {g[i, j]!r} at {i},{j} for {pt}, the entry is {mpmath.nstr(r, 20)}')
        if g is not None:
            if first is None:
                first = (g, g.copy())
            want(g is first[0] or not numpy.shares_memory(g, first[0]), 'two calls share an array')
            want(numpy.array_equal(first[0], first[1], equal_nan=True), 'a later call changes the array of an earlier one')
            if pt == pts[0]:
                h = f(*pt)
                want(h is not g and not numpy.shares_memory(h, g), 'two calls share an array')
                h[:] = 77.0
                want(numpy.array_equal(first[0], first[1], equal_nan=True) and numpy.array_equal(f(*pt), g, equal_nan=True), 'writing to a result changes another result')
    if f is not None and first is not None:
        KEPT.append((f, pts[0], first[1]))
        if len(KEPT) % 7 == 0:
            for f, pt, g in KEPT[-30::4]:
                want(numpy.array_equal(f(*pt), g, equal_nan=True), f'a function compiled earlier now gives {f(*pt)!r} for {pt} instead of {g!r}')


def kept(n):
    """Compiled functions stay usable (in a child process: dead code may crash)."""
    pid = os.fork()
    if pid == 0:
        try:
            x = Expr(tree('x'))
            fs = [lambdify([x], Matrix([[Expr(tree(['@Add', ['@Mul', 'x', k], k])), 0 * k]])) for k in range(n)]
            gc.collect()
            junk = [bytearray(4096) for _ in range(2000)]
            ok = all(f(2.0)[0, 0] == 3.0 * k for k, f in enumerate(fs))
            os._exit(0 if ok else 3)
        except BaseException:
            os._exit(4)
    _, st = os.waitpid(pid, 0)
    want(st == 0, f'{n} compiled functions do not all stay usable (status {st})')


def cases(rng, deadline):
    for n in (1, 2, 25):
        yield {'kept': n}
    P = [[], ['x'], ['y', 'x'], ['x', 'y', 'z'], ['z', 'x', 'y']]
    a, b, c = ['@sin', 'x'], ['@Add', 'x', 'y', 1], ['@Mul', 'x', 'y', ['@cos', 'x']]
    ents = [0, 1, 'x', 'y', a, b, c]
    for e in ents:
        yield {'ps': ['x', 'y'], 'rows': [[e]]}
        for d in ents:
            yield {'ps': ['y', 'x'], 'rows': [[e, d]]}
            yield {'ps': ['y', 'x'], 'rows': [[e], [d]]}
            yield {'ps': ['x', 'y'], 'rows': [[e, d], [d, e]], 'run': False}
            yield {'ps': ['x', 'y'], 'rows': [[0, e, 0], [d, 0, 0]]}
    for n, k in ((1, 2), (2, 1), (2, 3), (3, 2), (1, 7), (7, 1), (3, 5), (5, 3), (4, 4), (2, 11), (11, 2), (10, 10), (1, 40), (40, 1)):
        for fill in (lambda i, j: i * k + j + 1, lambda i, j: 'x', lambda i, j: ['@Mul', 'x', i + 1, ['@sin', ['@Add', 'y', j]]], lambda i, j: 0, lambda i, j: 'y' if i == j else 0,
                     lambda i, j: a if i + j == k - 1 else 0, lambda i, j: [a, b, c][(i * k + j) % 3], lambda i, j: ['@Add', 'x', j] if (i + 2 * j) % 3 else 0):
            rows = [[fill(i, j) for j in range(k)] for i in range(n)]
            yield {'ps': ['x', 'y'], 'rows': rows, 'run': n * k < 50}
            if n * k < 30:
                yield {'ps': ['y', 'x', 'z'], 'rows': rows, 'then': ['double'], 'run': False}
                yield {'ps': ['y', 'x'], 'rows': rows, 'then': [['diff', 'x']]}
                yield {'ps': ['y', 'x'], 'rows': rows, 'then': [['plus', [['z' if (i * j) % 2 else 0 for j in range(k)] for i in range(n)]]]}
                yield {'ps': ['y', 'z', 'x'], 'rows': rows, 'then': [['plus', [['z' if (i + j) % 2 else 0 for j in range(k)] for i in range(n)], 1], ['diff', 'y']]}
    for n in (10, 17, 65):
        ps = [f'p{i}' for i in range(n)]
        yield {'ps': ps, 'rows': [[p] for p in ps[::-1]], 'run': n < 40}
        yield {'ps': ps[::-1], 'rows': [ps], 'run': n < 40}
        yield {'ps': ps, 'rows': [[['@Mul', p, i + 1], ['@Add'] + ps] for i, p in enumerate(ps)], 'run': n < 40}
    for bad in ('w', '@f', '@sin', ['@f', 'x'], ['@f'], ['@List', 'x'], ['x', 'y'], [['@f', 'x'], 'y'], ['@Pow', 'x', 2], [2, 'x']):
        for ctx in (lambda b: b, lambda b: ['@sin', b], lambda b: ['@Add', 'x', b, 2], lambda b: ['@Mul', ['@cos', ['@Add', b, b]], 'y']):
            yield {'ps': ['x', 'y'], 'rows': [[ctx(bad)]]}
            yield {'ps': ['x', 'y'], 'rows': [['x', 0], [0, ctx(bad)]]}
            yield {'ps': ['x', 'y'], 'rows': [[ctx(bad), 'x', 1]]}
    for bad in ('@x', '~x', '@0', '0', '~0', '2', '~sin', '@sin'):
        for e in (bad, ['@Add', bad, 'x'], ['@sin', bad]):
            yield {'ps': ['x', 'y'], 'rows': [['x', e]]}
            yield {'ps': ['x', 'y'], 'rows': [[0, e], ['x', 'y']]}
    for h in ('sin', '~sin', 'Add', '~Add', '@add'):
        yield {'ps': ['x', 'y'], 'rows': [['x', [h, 'x', 'y'][:2 if 'in' in h else 3]]]}
    for n in (10, 60, 300):
        yield {'ps': ['x'], 'rows': [[0, deep(n, '@sin'), 'x'], [deep(n // 2, '@sin'), 0, 0]], 'run': n < 100}
    for k in (10 ** 15, 2 ** 53 + 1, 10 ** 30, -7, 1024, 65535, 3 ** 40):
        yield {'ps': ['x'], 'rows': [[k, 0, ['@Add', 'x', k]]]}
    while True:
        ps = rng.choice(P[2:])
        heads = HEADS + (('@f',) if rng.random() < .04 else ())
        n, k = rng.randint(1, 4), rng.randint(1, 4)
        pool = [rand_expr(rng, rng.randint(1, 6), heads=heads, intexp=rng.random() < .9, syms=tuple(ps), ints=(0, 1, 2, -1, 3, 7)) for _ in range(rng.randint(1, 5))] + [0] * rng.randint(0, 3) + ['x', 2]
        case = {'ps': ps, 'rows': [[rng.choice(pool) for _ in range(k)] for _ in range(n)], 'run': rng.random() < .5}
        then = []
        while rng.random() < .4:
            then.append(rng.choice(['double', 'again', ['diff', rng.choice('xy')], ['plus', [[rng.choice(pool) for _ in range(k)] for _ in range(n)]]]))
        if then:
            case['then'] = then[:2]
        yield case


if __name__ == '__main__':
    main(cases, check, 'up to 100 entries in 14 shapes, all pairs of 7 entries, sums and derivatives, random matrices of at most 4 by 4 entries of at most 6 operations at 7 points')
