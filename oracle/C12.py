from cas import *
from protosym.core.tree import Tree
from protosym.simplecas import Add, Expr, Mul, bin_expand

use_simplecas()


def expanded(t):
    out = {}
    for u in parts(t):
        if not u.children:
            out[u] = u
            continue
        h, a = u.children[0], [out[c] for c in u.children[1:]]
        if h in (Add.rep, Mul.rep):
            r = a[0]
            for x in a[1:]:
                r = Tree(h, r, x)
        else:
            r = Tree(h, *a)
        out[u] = r
    return out[t]


def check(case):
    t = tree(case['e'])
    if any(len(u.children) == 1 and u.children[0] in (Add.rep, Mul.rep) for u in parts(t)):
        return
    exp = expanded(t)
    e = Expr(t)
    r = e.bin_expand()
    want(type(r) is Expr, f'bin_expand returned a {type(r).__name__}')
    same(r.rep, exp, f'binary expansion of {short(e)}')
    same(r.bin_expand(), r, f'binary expansion of the expanded {short(e)}')
    same(bin_expand(t), exp, 'the transformer')
    same(e.rep, t, 'the expression afterwards')
    if 'vals' in case:
        try:
            v = value(t, case['vals'])
        except NoValue:
            return
        want(close(value(r, case['vals']), v), f'value of the expanded {short(e)}')


def cases(rng, deadline):
    H = ('@Add', '@Mul', '@f')
    for h in H + ('@List', '@pow', '@sin'):
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 100):
            yield {'e': wide(n, h)}
            yield {'e': [h] + ['x'] * n}
            yield {'e': ['@f', wide(n, h), [h] + ['x'] * n]}
            for h2 in H:
                yield {'e': [h, [h2, 'x', 'y', 'z', 'x']] + ['y'] * (n - 1)}
                yield {'e': [h2] + [[h, 'x', 'y', 1]] * n}
    for e in small_specs(('@Add', '@Mul', '@f'), ('x', 2), depth=1, maxar=3):
        yield {'e': e}
        yield {'e': ['@Add', e, 'y', e]}
        yield {'e': [e, e, 'x']}
        yield {'e': [['@Add', 'x', 'y', 'z'], e]}
    for e in lookalikes():
        yield {'e': e}
    for h in ('Add', '~Add', 'Mul', '~Mul', '@mul', '@Sum', ['@Add', 'x']):
        yield {'e': ['@f', [h, 'x', 'y', 'z'], ['@Add', 'x', 'y', 'z'], [h, 'x'], ['@Mul', 'x', 'y', 'z']]}
    for e in big_specs():
        yield {'e': e}
    for h in ('@Add', '@Mul'):
        yield {'e': deep(400, h, True)}
        yield {'e': {'dag': ['x', 'y', 'z'] + [[h, f'#{i}', f'#{i + 1}', f'#{i + 2}', f'#{i}'] for i in range(60)]}}
    while True:
        if rng.random() < .5:
            vals = {n: round(rng.uniform(-3, 3), 3) for n in 'xyz'}
            yield {'e': rand_expr(rng, rng.randint(1, 12)), 'vals': vals}
        else:
            yield {'e': rand_pool(rng, rng.randint(1, 15), heads=('@Add', '@Mul', '@Add', '@Mul', '@pow', '@f', '@List'), comp_heads=rng.random() < .3)[-1]}


if __name__ == '__main__':
    main(cases, check, 'sums and products of up to 100 arguments, all expressions of depth 1 over 3 heads with up to 3 arguments, random expressions of at most 15 operations')
