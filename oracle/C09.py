from common import *
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import Tree
from protosym.simplecas.expr import Add, Expr, Mul, one, zero

use_simplecas()
M = (1 << 61) - 1


def X(s, env=()):
    return Expr(tree(s, env))


def h(*a):
    v = 1469598103
    for x in a:
        v = (v * 1099511628211 + x * 31 + 7) % M
    return v


def atomval(t):
    v = t.value.value
    if isinstance(v, int):
        return v % M
    return h({'F': 1, 'S': 2, 'Z': 3}.get(next((k for k, T in types().items() if T is t.value.atom_type), None), 4), *map(ord, str(v)))


def value(t):
    """Value with an arbitrary function for each head other than sum and product."""
    out, hv = {}, {}
    for u in parts(t, heads=True):
        if not u.children:
            out[u] = atomval(u)
            hv[u] = h(5, out[u])
            continue
        a = [out[c] for c in u.children[1:]]
        f = u.children[0]
        if f is Add.rep:
            out[u] = sum(a) % M
        elif f is Mul.rep:
            r = 1
            for x in a:
                r = r * x % M
            out[u] = r
        else:
            out[u] = h(out[f], len(a), *a)
    return out[t]


def subst(t, m):
    out = {}
    for u in parts(t, heads=True):
        out[u] = m[u] if u in m else u if not u.children else Tree(*[out[c] for c in u.children])
    return out[t]


class Missing(Exception):
    pass


class Bad(Exception):
    pass


def deriv(t, sym, rules, dist):
    out, nz, errs, lists = {}, {}, set(), False
    for u in parts(t):
        if not u.children:
            out[u], nz[u] = int(u is sym), u is sym
            continue
        f, a = u.children[0], u.children[1:]
        if f in dist:
            out[u], nz[u] = None, True       # has no numeric meaning here
            continue
        nz[u] = any(nz[x] for x in a)
        s = 0
        for i, x in enumerate(a):
            if not nz[x]:
                continue
            if out[x] is None:
                lists = True
                continue
            if f is Add.rep:
                c = 1
            elif f is Mul.rep:
                c = 1
                for j, y in enumerate(a):
                    if j != i:
                        c = c * value(y) % M
            else:
                if (f, i) not in rules:
                    errs.add(KeyError)
                    continue
                pat, rhs = rules[f, i]
                if len(pat) != len(a):
                    errs.add(TypeError)
                    continue
                c = value(subst(rhs, dict(zip(pat, a))))
            s += c * out[x]
        out[u] = s % M
    if lists:
        raise Missing
    if errs:
        raise Bad(tuple(errs))
    return out[t]


def check(case):
    d = SymDifferentiator(Expr, add=Add, mul=Mul, zero=zero, one=one)
    other = SymDifferentiator(Expr, add=Add, mul=Mul, zero=zero, one=one)
    env = []
    for s in case['dag']:
        env.append(tree(s, env))
    g = lambda k: env[k % len(env)]
    rules, dist = {}, set()
    for op in case['ops']:
        if op[0] == 'rule':
            head, args, i, rhs = g(op[1]), [], op[3], g(op[4])
            for k in op[2]:
                if g(k) not in args:
                    args.append(g(k))
            if not args:
                continue
            i %= len(args)
            d[Expr(Tree(head, *args)), Expr(args[i])] = Expr(rhs)
            rules[head, i] = (args, rhs)
            got = d.diff_props.diff_rules
            eq(set(got), set(rules), 'registered rules')
        elif op[0] == 'dist':
            d.add_distributive_rule(Expr(g(op[1])))
            dist.add(g(op[1]))
        elif op[0] == 'bad':
            p, s, r = Expr(g(op[1])), Expr(g(op[2])), Expr(g(op[3]))
            before = dict(d.diff_props.diff_rules)
            for key in ((p,), (p, s, s), p, [p, s], None):
                raises(TypeError, lambda: d.__setitem__(key, r), 'pattern that is not a pair')
            if p.rep.children[1:].count(s.rep) != 1:
                raises(TypeError, lambda: d.__setitem__((p, s), r), f'pattern {short(p)} with symbol {short(s)}')
            eq(d.diff_props.diff_rules, before, 'rules after a rejected registration')
        elif op[0] == 'diff':
            e, sym, n = g(op[1]), g(op[2]), op[3]
            if sym.children:
                continue
            same(d(Expr(e), Expr(sym), 0), Expr(e), 'zero derivatives')
            x = e
            for k in range(1, n + 1):
                if max(treesize(x), 0) > 3000:
                    break
                try:
                    exp = deriv(x, sym, rules, dist)
                except Bad as err:
                    raises(err.args[0], lambda: d(Expr(x), Expr(sym)), 'missing rule, or rule for another number of arguments')
                    break
                except Missing:
                    break
                r = d(Expr(x), Expr(sym))
                if exp is not None and value(r.rep) != exp:
                    raise Fail(f'derivative of {short(Expr(x))} by {short(Expr(sym))}: got {short(r)}')
                if x.children and x.children[0] in dist:
                    want(r.rep.children[:1] == x.children[:1], 'a distributive head keeps its shape')
                same(d(Expr(e), Expr(sym), k), r, f'derivative {k} at once')
                x = r.rep
            else:
                same(d(Expr(e), Expr(sym)), d(Expr(e), Expr(sym), 1), 'one derivative by default')
    eq(set(d.diff_props.distributive), dist, 'distributive heads')
    want(not other.diff_props.diff_rules and not other.diff_props.distributive, 'another differentiator is unaffected')
    if case.get('builtin'):
        e, sym = X(case['builtin']), X('x')
        r = e
        for n in range(4):
            same(e.diff(sym, n), r, f'Expr.diff, {n} times')
            r = r.diff(sym)


def cases(rng, deadline):
    import itertools
    base = ['@f', '@Add', '@Mul', 'x', 'y', 'a', 'b', 'c', 1, ['#0', '#5', '#6'], ['#0', '#5', '#6', '#7'], ['#0', '#3', '#4'], ['#0', '#3', ['#2', '#3', '#4']], ['#0', '#4', '#3', '#3'], ['#0', '#5']]
    bi = ['@Add', ['@sin', ['@Mul', 'x', 'x']], ['@pow', ['@cos', 'x'], 3], ['@List', 'x', ['@sin', 'x']]]
    yield {'dag': base, 'ops': [], 'builtin': bi}
    yield {'dag': base, 'ops': [], 'builtin': ['@Mul', 'x', ['@sin', ['@cos', 'x']]]}
    # every right-hand side over small pieces, every position
    for i in range(3):
        for rhs in range(len(base)):
            for e in (11, 12, 13):
                yield {'dag': base, 'ops': [['rule', 0, [5, 6, 7][: 2 if e < 13 else 3], i, rhs], ['rule', 0, [6, 5, 7][: 2 if e < 13 else 3], i + 1, 4], ['rule', 0, [5, 6, 7][: 2 if e < 13 else 3], i + 2, 8], ['diff', e, 3, 2], ['diff', e, 4, 1]]}
    for p in range(len(base)):
        for s in range(len(base)):
            yield {'dag': base, 'ops': [['rule', 0, [5, 6], 0, 8], ['bad', p, s, 8]]}
    look = ['@f', 'a', '~a', '@a', 'x', '1', 1, ['#0', '#1', '#2'], ['#0', '#2', '#3', '#1'], -1, -2]
    for ar in itertools.permutations([1, 2, 3, 5, 6, 9, 10], 2):
        for i in (0, 1):
            for rhs in (ar[0], ar[1], 8):
                yield {'dag': look + [['#0', '#4', '#6'], ['#0', '#5', '#4'], ['#0', '#4', '#2']], 'ops': [['rule', 0, ar, i, rhs], ['diff', 11, 4, 1], ['diff', 12, 4, 1], ['diff', 13, 4, 1], ['diff', 13, 2, 1]]}
    n = 0
    while True:
        dag = ['@f', '@g', '@Add', '@Mul', 'x', 'y', 'a', 'b', 'c', 1, 2, -1]
        heads = ['#0', '#0', '#1', '#2', '#3']
        for _ in range(rng.randint(2, 10)):
            m = len(dag)
            pick = lambda: f'#{rng.randrange(4, m)}'
            dag.append([rng.choice(heads)] + [pick() for _ in range(rng.choice([1, 2, 2, 3]))])
        m = len(dag)
        ops = []
        for _ in range(rng.randint(2, 9)):
            k = rng.random()
            if k < 0.55:
                n_ = rng.choice([1, 2, 2, 3])
                ar = rng.sample([6, 7, 8, 4, 5], n_) if rng.random() < 0.85 else [rng.randrange(m) for _ in range(n_)]
                ops.append(['rule', rng.choice([0, 1]), ar, rng.randrange(3), rng.randrange(4, m)])
            elif k < 0.62:
                ops.append(['dist', rng.choice([0, 1, 8])])
            elif k < 0.72:
                ops.append(['bad', rng.randrange(m), rng.randrange(m), rng.randrange(m)])
            else:
                ops.append(['diff', rng.randrange(4, m), rng.choice([4, 4, 5]), rng.choice([1, 2, 3])])
        ops.append(['diff', m - 1, 4, 2])
        n += 1
        if rng.random() < .2:
            dag = dag[:4] + alike(rng, dag[4:])
        yield {'dag': dag, 'ops': ops}


if __name__ == '__main__':
    main(cases, check, 'every right-hand side and position over 14 small expressions; random histories of at most 9 registrations and derivatives to order 3, values compared exactly modulo a prime')
