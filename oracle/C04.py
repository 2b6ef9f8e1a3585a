from common import *
from protosym.core.tree import SubsFunc, Tree


def ref(t, m):
    out = {}
    for u in parts(t, heads=True):
        if u in m:
            out[u] = m[u]
        elif not u.children:
            out[u] = u
        else:
            out[u] = Tree(*[out[c] for c in u.children])
    return out[t]


def check(case):
    env = []
    for s in case['dag']:
        env.append(tree(s, env))
    g = lambda k: env[k % len(env)]
    e = g(case['expr'])
    P = []
    for k in case['given']:
        if g(k) not in P:
            P.append(g(k))
    given = list(P)
    f = SubsFunc(e, P)
    eq(P, given, 'list of given expressions after preparing')
    prev = []
    for n, reps in enumerate(case['calls']):
        Q = [g(reps[i % len(reps)]) if reps else g(i) for i in range(len(P))]
        exp = ref(e, dict(zip(P, Q)))
        r = f.call(tuple(Q)) if case.get('via') == 'call' else f(*Q)
        same(r, exp, f'substitution, call {n + 1}')
        prev.append((Q, exp))
        raises(TypeError, lambda: f(*(Q + [e])), 'one replacement too many')
        if Q:
            raises(TypeError, lambda: f(*Q[:-1]), 'one replacement too few')
    for Q, exp in prev:
        same(f(*Q), exp, 'later call with the same replacements')
        same(SubsFunc(e, P)(*Q), exp, 'fresh preparation')
    if case.get('user'):
        from protosym.simplecas.expr import Expr, ExprFunction, expressify
        for fn in (ExprFunction(Expr(e), tuple(Expr(p) for p in P)), Expr(e).as_function(*[Expr(p) for p in P])):
            for Q, exp in prev:
                same(fn(*[Expr(q) for q in Q]).rep, exp, 'user-level function')
            raises(TypeError, lambda: fn(*[Expr(e)] * (len(P) + 1)), 'user-level function, too many arguments')
        for Q, exp in prev:
            reps = {Expr(p): Expr(q) for p, q in zip(P, Q)}
            given = dict(reps)
            same(Expr(e).xreplace(reps).rep, exp, 'xreplace')
            eq(list(reps.items()), list(given.items()), 'the dictionary given to xreplace')
        for n in (0, -1, 7, 1):
            Q = [Expr(g(i)) if i % 2 else n + i for i in range(len(P))]
            exp = ref(e, dict(zip(P, [expressify(q).rep for q in Q])))
            same(Expr(e).xreplace({Expr(p): q for p, q in zip(P, Q)}).rep, exp, 'xreplace by numbers')
            same(Expr(e).as_function(*[Expr(p) for p in P])(*Q).rep, exp, 'user-level function of numbers')


def cases(rng, deadline):
    for n in (1, 3, 40, 1500):
        ch = ['x', 'y'] + [['@f', f'#{i + 1}', f'#{i}'] for i in range(n)]
        for gv in ([0], [1], [0, 1], [n + 1], [n], []):
            yield {'dag': ch, 'expr': n + 1, 'given': gv, 'calls': [[1, 0], [n, n + 1], [0, 1]]}
    for n in (1, 2, 9, 33, 80):
        yield {'dag': ['@f', 'x', 'y'] + [f'x{i}' for i in range(n)] + [['#0'] + [f'#{3 + i % max(1, n - 2)}' for i in range(n)]],
               'expr': n + 3, 'given': list(range(3, 3 + n)), 'calls': [[1, 2, 5, 7, 0], [2]]}
    # exhaustive over small graphs
    import itertools
    base = ['@f', 'x', 'y', ['#0', '#1'], ['#0', '#3', '#2'], ['#3', '#1'], ['#0', '#4', '#5']]
    for e in range(len(base)):
        for r in (1, 2):
            for gv in itertools.permutations(range(len(base)), r):
                yield {'dag': base, 'expr': e, 'given': list(gv), 'calls': [[2, 1], [4, 6], [1, 1]]}
    look = ['x', '@x', '~x', '@f', 'f', 1, '1', -1, -2, ['#3', '#0', '#1', '#2'], ['#4', '#9', '#0'], ['#3', '#5', '#6', '#7', '#8'], ['#3', '#9', '#10', '#11', '#3'], ['#3', '#0'], ['#3', '#1'], ['#4', '#0'], ['#3', '#13', '#14', '#15']]
    for e in (9, 10, 11, 12, 16):
        for r in (1, 2):
            for gv in itertools.permutations(range(16), r):
                yield {'dag': look, 'expr': e, 'given': list(gv), 'calls': [[5, 0], [1, 2]]}
    n = 0
    while True:
        n += 1
        k = rng.randint(2, 16)
        dag = ['@f', '@g', 'x', 'y', 'z', 1]
        for _ in range(k):
            m = len(dag)
            pick = lambda: f'#{rng.randrange(m)}' if rng.random() < 0.5 else f'#{rng.randrange(max(2, m - 4), m)}'
            h = pick() if rng.random() < 0.15 else rng.choice(['#0', '#1'])
            dag.append([h] + [pick() for _ in range(rng.choice([0, 1, 2, 2, 3]))])
        m = len(dag)
        yield {'dag': dag, 'expr': m - 1 if rng.random() < 0.8 else rng.randrange(m), 'given': [rng.randrange(m) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))],
               'calls': [[rng.randrange(m) for _ in range(4)] for _ in range(rng.randint(1, 3))], 'via': rng.choice(['call', '']), 'user': n % 3 == 0}


if __name__ == '__main__':
    main(cases, check, 'all small graphs over 7 expressions with one or two given expressions; random graphs of at most 16 compound expressions; chains to depth 1500')
