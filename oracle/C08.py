from common import *
from protosym.core.differentiate import DiffProperties, diff_forward
from protosym.core.tree import SubsFunc, Tree, Tr

M = (1 << 61) - 1
# head -> polynomial {exponents: coefficient}; 'f_01' is the partial of 'f' in its argument 0 then 1
POLY = {'f': {(3,): 2, (1,): 5, (0,): 1}, 'g': {(2, 1): 3, (0, 1): 7, (1, 0): 1, (0, 3): 1},
        'h': {(1, 1, 1): 2, (2, 0, 1): 1, (0, 2, 0): 4, (0, 0, 1): 9}}
POLY['c'] = {(2, 2): 1, (1, 0): 3, (0, 1): 2}     # named by the compound head k(x)
AR = {'f': 1, 'g': 2, 'h': 3, 'c': 2, 'E': 1}      # E is its own derivative


def apply(name, xs):
    return pow(7, xs[0], M) if name[0] == 'E' else peval(poly(name), xs)


def poly(name):
    base, _, idx = name.partition('_')
    p = POLY[base]
    for i in map(int, idx):
        q = {}
        for e, c in p.items():
            if e[i]:
                k = e[:i] + (e[i] - 1,) + e[i + 1:]
                q[k] = q.get(k, 0) + c * e[i]
        p = q
    return p


def peval(p, xs):
    s = 0
    for e, c in p.items():
        t = c
        for x, n in zip(xs, e):
            t = t * pow(x, n, M) % M
        s += t
    return s % M


def hname(t):
    if t.children:
        return 'c'
    return t.value.value


def atomval(t):
    a = t.value
    if isinstance(a.value, int):
        return a.value % M
    return (sum(map(ord, str(a.value))) * 7919 + 13 + {'F': 1, 'S': 0, 'Z': 2}.get(next((k for k, T in types().items() if T is a.atom_type), None), 3) * 1000003) % M


def lin(i):
    return 3 * i + 2


def value(t, sym=None):
    """-> (value, derivative) by dual numbers."""
    out = {}
    for u in parts(t):
        if not u.children:
            out[u] = (atomval(u), int(u == sym))
            continue
        h, a = hname(u.children[0]), [out[c] for c in u.children[1:]]
        v = [x for x, _ in a]
        if h == 'add':
            r = (sum(v), sum(d for _, d in a))
        elif h == 'mul':
            x, d = 1, 0
            for w, e in a:
                x, d = x * w % M, (d * w + x * e) % M
            r = (x, d)
        elif h.startswith('L'):
            r = (sum(lin(i) * w for i, w in enumerate(v)), sum(lin(i) * d for i, (_, d) in enumerate(a)))
        elif h == 'u':
            r = (sum(v), 0)              # no rule: only used where its derivative is not needed
        else:
            r = (apply(h, v), sum(apply(h if h == 'E' else h + ('' if '_' in h else '_') + str(i), v) * d for i, (_, d) in enumerate(a)))
        out[u] = tuple(x % M for x in r)
    return out[t]


def nonzero(t, sym):
    """Subexpressions whose derivative is not the literal zero."""
    out = set()
    for u in parts(t):
        if (not u.children and u == sym) or any(c in out for c in u.children[1:]) or (u.children and hname(u.children[0]).startswith('L')):
            out.add(u)
    return out


def setup():
    zero, one, add, mul = tree(0), tree(1), tree('@add'), tree('@mul')
    prop = DiffProperties(zero=zero, one=one, add=add, mul=mul)
    ws = [tree(f'_w{i}') for i in range(3)]
    prop.add_diff_rule(tree('@E'), 0, SubsFunc(tree('@E')(ws[0]), ws[:1]))
    for name, n in AR.items():
        if name == 'E':
            continue
        heads = [('', tree(['@k', 'x']) if name == 'c' else tree('@' + name))]
        heads += [(s, tree(f'@{name}_{s}')) for s in [str(i) for i in range(n)] + [f'{i}{j}' for i in range(n) for j in range(n)]]
        for s, h in heads:
            if len(s) < 2:
                for i in range(n):
                    prop.add_diff_rule(h, i, SubsFunc(tree(f'@{name}_{s}{i}')(*ws[:n]), ws[:n]))
    for L in ('L', 'L2'):
        prop.add_distributive(tree('@' + L))
    return prop


def check(case):
    prop = setup()
    e, sym = tree(case['expr']), tree(case['sym'])
    rules = dict(prop.diff_rules)
    d = e
    for n in range(case.get('n', 1)):
        exp = value(d, sym)[1]
        nz = nonzero(d, sym)
        need = any(hname(u.children[0]) == 'u' and any(c in nz for c in u.children[1:]) for u in parts(d) if u.children)
        if need:
            raises(KeyError, lambda: diff_forward(d, sym, prop), 'differentiating, rule missing')
            return
        r = diff_forward(d, sym, prop)
        if value(r)[0] != exp:
            raise Fail(f'derivative {n + 1} of {short(d)} is {short(r)}: its value is not the derivative')
        if e.children and hname(e.children[0]).startswith('L'):
            want(r.children and r.children[0] is e.children[0] and len(r.children) == len(e.children), 'shape of a linear head')
        d = r
    want(prop.diff_rules == rules, 'rules unchanged')


def rand(rng, n, u=False):
    dag = ['x', 'y', 'z', 0, 1, 2, -1]
    for _ in range(n):
        m = len(dag)
        pick = lambda: f'#{rng.randrange(m)}' if rng.random() < 0.4 else f'#{rng.randrange(max(0, m - 4), m)}'
        h = rng.choice(['@add', '@add', '@mul', '@mul', '@f', '@g', '@h', '@E', '@L', '@L2', ['@k', 'x']] + (['@u'] if u else []))
        k = AR.get(h[1:] if isinstance(h, str) else 'c', rng.choice([0, 1, 2, 2, 3, 4]))
        dag.append([h] + [pick() for _ in range(k)])
    return {'dag': dag}


def cases(rng, deadline):
    import itertools
    at = ['x', 'y', 0, 1, 2]
    for h in ('@add', '@mul', '@L'):
        for k in range(0, 4):
            for a in itertools.product(['x', 'y', ['@f', 'x'], 1] if k > 1 else at, repeat=k):
                yield {'expr': [h, *a], 'sym': 'x'}
    E = ['@E', 'x']
    for a in (['@mul', E, E], ['@mul', E, E, E], ['@add', E, E], ['@mul', E, 'x', E], ['@mul', ['@mul', E, 'y'], ['@mul', E, 'y']], ['@g', E, E], ['@L', E, E], ['@mul', 'x', 1], ['@mul', 1, 'x', 'x'], ['@add', 'x', ['@mul', 'x', 1]]):
        for n in (1, 2):
            yield {'expr': a, 'sym': 'x', 'n': n}
    for h, k in (('@f', 1), ('@E', 1), ('@g', 2), ('@h', 3), (['@k', 'x'], 2)):
        for a in itertools.product(['x', 'y', ['@add', 'x', 'y'], ['@add', 'y', 'y'], ['@L', 'y', 'y']], repeat=k):
            yield {'expr': [h, *a], 'sym': 'x'}
            yield {'expr': ['@mul', [h, *a], 'x', [h, *a]], 'sym': 'x'}
    for at in (['x', '~x', '@x'], [1, '1', '~1', '@1'], [-1, -2, '-1'], [0, '0', 2 ** 61 - 1]):
        for a, b in itertools.permutations(at, 2):
            for s in (a, b):
                if isinstance(s, str):
                    for e in (['@mul', a, b, a], ['@add', a, b], ['@g', a, b], ['@mul', ['@f', a], ['@f', b]], ['@L', a, b], ['@add', ['@mul', a, 'y'], ['@mul', b, 'y']]):
                        yield {'expr': e, 'sym': s}
                else:
                    yield {'expr': ['@mul', 'x', ['@add', 'x', a], ['@add', 'x', b]], 'sym': 'x'}
    yield {'expr': ['@u', 'x', 'y'], 'sym': 'x'}
    yield {'expr': ['@u', 'y', 'y'], 'sym': 'x'}
    yield {'expr': ['@mul', ['@u', 'y', ['@L', 'y']], 'y'], 'sym': 'x'}
    for n in (5, 12, 40, 90):
        yield {'expr': ['@mul'] + [f'x{i % 7}' for i in range(n)], 'sym': 'x3'}
        yield {'expr': ['@add'] + [['@mul', f'x{i % 7}', 'x'] for i in range(n)], 'sym': 'x'}
        yield {'expr': ['@add'] + ['x'] * n, 'sym': 'x', 'n': 2}
        yield {'expr': deep(n, '@f'), 'sym': 'x'}
        yield {'expr': deep(n, '@g', both=True), 'sym': 'x'}
        yield {'expr': deep(n * 10, '@add', both=True), 'sym': 'x'}
    while True:
        if rng.random() < .1:
            r = rand(rng, rng.randint(1, 10))
            yield {'expr': {'dag': alike(rng, r['dag'][:7], .5) + r['dag'][7:]}, 'sym': rng.choice(['x', '~x', '@x'])}
        yield {'expr': rand(rng, rng.randint(1, 14), rng.random() < 0.15), 'sym': rng.choice('xxxyzw'), 'n': rng.choice([1, 1, 1, 2])}


if __name__ == '__main__':
    main(cases, check, 'all sums, products and linear heads with at most 3 arguments and every rule head over small arguments; random graphs of at most 14 compound expressions, derivatives to order 2; values compared exactly modulo a prime')
