from cas import *
from protosym.simplecas import Expr

use_simplecas()


def check(case):
    t = tree(case['e'])
    ps = parts(t)
    n = {}
    for u in ps:
        n[u] = 1 + sum(n[c] for c in u.children[1:])
    e = Expr(t)
    for _ in range(2):
        g, k = e.count_ops_graph(), e.count_ops_tree()
        want(type(g) is int and g == len(ps), f'graph count of {short(e)} is {g!r}, it has {len(ps)} distinct subexpressions')
        want(type(k) is int and k == n[t], f'tree count of {short(e)} is {str(k)[:60]}, it has {str(n[t])[:60]} subexpressions with multiplicity')


def cases(rng, deadline):
    for h in ('@Add', '@Mul', '@f', '@List', '@pow', '@sin', '@cos'):
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 100):
            yield {'e': wide(n, h)}
            yield {'e': [h] + ['x'] * n}
            yield {'e': ['@f', wide(n, h), [h] + ['x'] * n, wide(n, h)]}
        yield {'e': [h, h, 'x', '@f']}
        yield {'e': [[h, 'x'], 'x', [h, 'x']]}
        yield {'e': deep(400, h, True)}
        yield {'e': h}
    for v in ('x', 1, 0, -3, 10**30, '@f'):
        yield {'e': v}
    for e in small_specs(('@Add', '@f'), ('x', 2), depth=2, maxar=2)[:3000:3]:
        yield {'e': e}
    for e in lookalikes():
        yield {'e': e}
    for e in big_specs():
        yield {'e': e}
    yield {'e': {'dag': ['x'] + [s for i in range(100) for s in (['@pow', f'#{2 * i}', 2], ['@Add', f'#{2 * i + 1}', f'#{2 * i}'])]}}
    while True:
        yield {'e': alike(rng, rand_pool(rng, rng.randint(1, 12))[-1])}
        yield {'e': rand_pool(rng, rng.randint(1, 20), heads=('@Add', '@Mul', '@pow', '@f', '@sin', '@List'))[-1]}
        yield {'e': rand_expr(rng, rng.randint(1, 15))}


if __name__ == '__main__':
    main(cases, check, 'up to 100 arguments and depth 1500, a third of all expressions of depth 2 over 2 heads, random expressions of at most 20 operations')
