from common import *
from protosym.core.tree import topological_sort


def listed(t, heads):
    c = kids(t)
    return c if heads else c[1:]


def ref_reach(t, heads, X):
    seen, todo = set(), [] if t in X else [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        todo.extend(c for c in listed(u, heads) if c not in X)
    return seen


def check(case):
    t = tree(case['expr'])
    heads = case['heads']
    X = None if case['exclude'] is None else {tree(s) for s in case['exclude']}
    X0 = None if X is None else set(X)
    r = topological_sort(t, heads=heads, exclude=X) if X is not None else topological_sort(t, heads=heads)
    r2 = topological_sort(t, heads=heads, exclude=X)
    want(isinstance(r, list), 'result is not a list')
    want(r is not r2, 'the same list is returned twice')
    eq(r, r2, 'second call')
    eq(X, X0, 'excluded set after the call')
    X = X or set()
    eq(len(set(r)), len(r), 'number of distinct entries')
    eq(set(r), ref_reach(t, heads, X), 'listed expressions')
    pos = {u: n for n, u in enumerate(r)}
    for u in r:
        for c in listed(u, heads):
            if c not in X:
                want(pos[c] < pos[u], 'a part is listed after the expression that contains it')
    if t not in X:
        same(r[-1], t, 'last entry')
    else:
        eq(r, [], 'list of an excluded expression')
    r.append('junk')
    r3 = topological_sort(t, heads=heads, exclude=X0)
    eq(r3, r2, 'call after modifying an earlier result')


def cases(rng, deadline):
    for s in big_specs():
        for h in (False, True):
            yield {"expr": s, "heads": h, "exclude": None}
    sm = small_specs(depth=2, heads=('@f',), maxar=2)
    for s in sm:
        for h in (False, True):
            yield {'expr': s, 'heads': h, 'exclude': None}
            yield {'expr': s, 'heads': h, 'exclude': [s]}
            yield {'expr': s, 'heads': h, 'exclude': ['x', '@f']}
            yield {'expr': s, 'heads': h, 'exclude': []}
    for s in lookalikes():
        for h in (False, True):
            yield {'expr': s, 'heads': h, 'exclude': None}
            for e in s[1:]:
                yield {'expr': s, 'heads': h, 'exclude': [e]}
    while True:
        pool = rand_pool(rng, rng.randint(1, 14))
        e = alike(rng, pool[-1]) if rng.random() < .3 else pool[-1]
        for h in (False, True):
            ex = None if rng.random() < 0.4 else [rng.choice(pool) for _ in range(rng.randint(0, 3))]
            if rng.random() < 0.1:
                ex = (ex or []) + [e]
            yield {'expr': e, 'heads': h, 'exclude': ex}


if __name__ == '__main__':
    main(cases, check, 'random expressions of at most 15 compound parts; all over {f; x,y} to depth 2')
