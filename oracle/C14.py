import gc, os
from ir import *
from protosym.simplecas import Expr, lambdify
from protosym.simplecas.exceptions import LLVMNotImplementedError

use_simplecas()
KEPT = []


def check(case):
    if 'kept' in case:
        return kept(case['kept'])
    if 'bad' in case:
        for b in (1.5, None, 'x', [1], (1,), object(), int):
            raises(TypeError, lambda: lambdify([Expr(tree(p)) for p in case['bad']], b), f'lambdify of {b!r}')
        return
    ps, t = [tree(p) for p in case['ps']], tree(case['e'])
    if len(set(ps)) != len(ps) or any(p.children or not isinstance(p.value.value, str) for p in ps) or len({p.value.value for p in ps}) != len(ps):
        return
    if not wellformed(t):
        return
    e, args = Expr(t), [Expr(p) for p in ps]
    given = list(args)
    if not supported(t, ps):
        raises(LLVMNotImplementedError, lambda: e.to_llvm_ir(args), 'to_llvm_ir')
        raises(LLVMNotImplementedError, lambda: lambdify(args, e), 'lambdify')
        return
    text = e.to_llvm_ir(args)
    want(type(text) is str, f'to_llvm_ir gives a {type(text).__name__}')
    code = Code(text, False)
    eq(code.params, [f'%"{p.value.value}"' for p in ps], 'parameters')
    pts = [([pt[i % 3] + i // 3 for i in range(len(ps))]) for pt in POINTS]
    f = lambdify(args, e) if case.get('run', True) else None
    want(args == given, 'the list of arguments was changed')
    eq(e.to_llvm_ir(args), text, 'the code generated again')
    for pt in pts:
        vals = dict(zip(ps, pt))
        try:
            r, err = rounded(t, vals)
            got = code.run(pt)(code.ret)
        except NoValue:
            continue
        want(abs(got - r) <= M(10) ** -45 * (1 + abs(r)) + err * M(2) ** -100, f'the code computes {mpmath.nstr(got, 20)} at {pt}, the expression is {mpmath.nstr(r, 20)}')
        if f is not None:
            g = f(*pt)
            want(type(g) is float and near(g, t, vals), f'the compiled function gives {g!r} at {pt}, the expression is {mpmath.nstr(r, 20)}')
    if f is not None:
        KEPT.append((f, t, ps))
        if len(KEPT) % 7 == 0:
            for f, t, ps in KEPT[-30::4]:
                pt = [pts[0][0] if pts[0] else 0.5] * len(ps)
                try:
                    ok = near(f(*pt), t, dict(zip(ps, pt)))
                except NoValue:
                    continue
                want(ok, f'the function compiled earlier for {short(Expr(t))} now gives {f(*pt)!r} at {pt}')


def kept(n):
    """Compiled functions stay usable (in a child process: dead code may crash)."""
    pid = os.fork()
    if pid == 0:
        try:
            x = Expr(tree('x'))
            fs = [lambdify([x], Expr(tree(['@Add', ['@Mul', 'x', k], k]))) for k in range(n)]
            gc.collect()
            junk = [bytearray(4096) for _ in range(2000)]
            ok = all(f(2.0) == 3.0 * k for k, f in enumerate(fs))
            os._exit(0 if ok else 3)
        except BaseException:
            os._exit(4)
    _, st = os.waitpid(pid, 0)
    want(st == 0, f'{n} compiled functions do not all stay usable (status {st})')


def cases(rng, deadline):
    for n in (1, 2, 25):
        yield {'kept': n}
    yield {'bad': []}
    yield {'bad': ['x']}
    P = [[], ['x'], ['y', 'x'], ['x', 'y', 'z'], ['z', 'x', 'y']]
    small = ['x', 'y', 2, -3, 0]
    for a in small:
        for ps in P:
            yield {'ps': ps, 'e': a, 'run': len(ps) < 3}
        for h in ('@sin', '@cos', '@f', '@List', '@Add', '@Mul'):
            yield {'ps': ['x', 'y'], 'e': [h, a]}
            yield {'ps': ['x'], 'e': [h, [h, a]], 'run': False}
        for b in small:
            for h in ('@Add', '@Mul', '@pow', '@f', '@List'):
                yield {'ps': ['y', 'x'], 'e': [h, a, b]}
                yield {'ps': ['x', 'y'], 'e': ['@sin', ['@Add', [h, a, b], [h, a, b], [h, b, a]]], 'run': False}
    for k in (10 ** 15, 2 ** 53 + 1, -(2 ** 53 + 1), 10 ** 30, -7, 255, 256, 1023, 1024, 65535, 3 ** 40):
        yield {'ps': [], 'e': k}
        yield {'ps': ['x'], 'e': ['@Add', 'x', k]}
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 200):
        for h in ('@Add', '@Mul'):
            yield {'ps': ['x', 'y', 'z'], 'e': [h] + [['x', 'y', 'z'][i % 3] for i in range(n)], 'run': n < 40}
            yield {'ps': ['x', 'y'], 'e': [h] + [['@sin', ['@Add', 'x', i]] for i in range(n)], 'run': n < 40}
        ps = [f'p{i}' for i in range(n)]
        yield {'ps': ps, 'e': ['@Add'] + ps, 'run': n < 40}
        yield {'ps': ps[::-1], 'e': ['@Add'] + [['@Mul', p, i + 1] for i, p in enumerate(ps)], 'run': n < 40}
    for nm in ('alpha', 'x1', 'X', 'a_b', 'jit_func1', 'double', 'p0', 'e'):
        yield {'ps': [nm, 'x'], 'e': ['@Add', nm, ['@Mul', 2, 'x']]}
    yield {'ps': ['@f', 'x'], 'e': ['@Mul', '@f', 'x']}
    for bad in ('w', '@f', '@sin', ['@f', 'x'], ['@f'], ['@List', 'x'], ['x', 'y'], [['@f', 'x'], 'y'], ['@Pow', 'x', 2], ['@tan', 'x'], [2, 'x']):
        for ctx in (lambda b: b, lambda b: ['@sin', b], lambda b: ['@Add', 'x', b, 2], lambda b: ['@Mul', ['@cos', ['@Add', b, b]], 'y'], lambda b: ['@pow', 'x', b]):
            yield {'ps': ['x', 'y'], 'e': ctx(bad)}
    for bad in ('@x', '~x', '@y', '~y', '@2', '2', '~2', '~sin', 'sin'):
        for e in (bad, ['@Add', bad, 'x'], ['@sin', bad], ['@Mul', 2, ['@cos', 'x'], bad]):
            yield {'ps': ['x', 'y'], 'e': e}
    for h in ('sin', '~sin', 'Add', '~Add', '@add', '@Sin', '~pow', '@sum', '@log'):
        yield {'ps': ['x', 'y'], 'e': [h, 'x', 'y'][:2 if 'in' in h else 3]}
        yield {'ps': ['x', 'y'], 'e': ['@Add', 'x', [h, 'x', 'y'][:2 if 'in' in h else 3]]}
    for n in (10, 60, 300):
        yield {'ps': ['x'], 'e': deep(n, '@sin'), 'run': n < 100}
        yield {'ps': ['x'], 'e': deep(n, '@Add', True), 'run': n < 100}
        yield {'ps': ['x', 'y'], 'e': {'dag': ['x', 'y'] + [[('@Add', '@Mul')[i % 2], f'#{i}', f'#{i + 1}'] for i in range(n)]}, 'run': n < 100}
    while True:
        ps = rng.choice(P[2:])
        syms = tuple(ps) + ((rng.choice('wv'),) if rng.random() < .03 else ())
        heads = HEADS + (('@f', '@List') if rng.random() < .1 else ())
        yield {'ps': ps, 'e': rand_expr(rng, rng.randint(1, 12), heads=heads, intexp=rng.random() < .8, syms=syms, ints=(0, 1, 2, -1, 3, 7, 10 ** 17 + 1)), 'run': rng.random() < .6}


if __name__ == '__main__':
    main(cases, check, 'up to 200 terms or parameters, depth 300, all pairs of 5 atoms under 5 heads, random expressions of at most 12 operations at 7 points')
