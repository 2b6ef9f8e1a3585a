"""Concrete cross-checks of the real code, and replay of failing inputs.

An oracle module defines  cases(rng, deadline) -> iterator of JSON-able cases
and  check(case) which raises Fail when the real code breaks the property.
"""
import argparse, json, os, random, signal, sys, time, traceback


class Fail(Exception):
    pass


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang('no result after 60 s')


signal.signal(signal.SIGALRM, _hang)


def limited(check, case):
    signal.alarm(60)
    try:
        return check(case)
    except Hang as e:
        raise Fail(str(e))
    finally:
        signal.alarm(0)


def want(cond, msg):
    if not cond:
        raise Fail(msg)


def eq(a, b, what='value'):
    if not (a == b):
        raise Fail(f'{what}: got {short(a)}, expected {short(b)}')


def same(a, b, what='object'):
    if a is not b:
        raise Fail(f'{what}: got {short(a)}, expected the object {short(b)}')


def raises(exc, f, what=''):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Fail(f'{what}: raised {type(e).__name__} instead of {getattr(exc, "__name__", exc)}: {e}')
    raise Fail(f'{what}: returned {short(r)} instead of raising {getattr(exc, "__name__", exc)}')


def short(x):
    try:
        t = getattr(x, 'rep', x)
        if hasattr(t, 'children') and treesize(t) > 300:
            return f'<{type(x).__name__} with {len(parts(t))} parts>'
        return repr(x)[:300]
    except Exception as e:
        return f'<{type(x).__name__}>'


def treesize(t):
    n = {}
    for u in parts(t, heads=True):
        n[u] = 1 + sum(n[c] for c in u.children)
    return n[t]


def main(cases, check, bound=''):
    ap = argparse.ArgumentParser()
    ap.add_argument('--budget', type=float, default=15)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        case = rec.get('failing_input')
        try:
            limited(check, case)
        except Exception as e:
            print('FAILS:', f'{type(e).__name__}: {e}')
            sys.exit(1)
        print('holds')
        sys.exit(0)
    rng = random.Random(a.seed)
    t0 = time.time()
    n, seen = 0, set()
    res = None
    for case in cases(rng, t0 + a.budget):
        n += 1
        key = json.dumps(case, sort_keys=True)
        seen.add(key)
        case = json.loads(key)
        try:
            limited(check, case)
        except Fail as e:
            res = {'status': 'failed', 'case': case, 'observed': str(e)}
            break
        except Exception as e:
            res = {'status': 'failed', 'case': case, 'observed': f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]}
            break
        if time.time() - t0 > a.budget:
            break
    if res is not None:
        small = shrink(res['case'], check, t0 + a.budget + 20)
        if small is not None:
            res['case'], res['observed'] = small
    else:
        res = {'status': 'ok'}
    res.update(cases=n, distinct=len(seen), bound=bound, wall=time.time() - t0)
    if a.out:
        with open(a.out + '.tmp', 'w') as fh:
            json.dump(res, fh, default=str)
        os.replace(a.out + '.tmp', a.out)
    print(json.dumps(res, default=str)[:2000])
    sys.exit(1 if res['status'] == 'failed' else 0)


def shrink(case, check, deadline):
    """Drop list elements / replace sublists while the case still fails the same way."""
    best = None
    cur = case
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for cand in variants(cur):
            if time.time() > deadline:
                break
            try:
                limited(check, cand)
            except Fail as e:
                cur, best, progress = cand, (cand, str(e)), True
                break
            except Exception:
                continue
    return best


def size(x):
    return 1 + sum(map(size, x)) if isinstance(x, list) else 1 + sum(map(size, x.values())) if isinstance(x, dict) else 1


def variants(c):
    if isinstance(c, list):
        for n, x in enumerate(c):
            if isinstance(x, list) and n > 0:
                for y in x[1:]:
                    yield c[:n] + [y] + c[n + 1:]
            for v in variants(x):
                yield c[:n] + [v] + c[n + 1:]
        for n in range(1, len(c)):
            if len(c) > 2:
                yield c[:n] + c[n + 1:]
    elif isinstance(c, dict):
        for k in c:
            for v in variants(c[k]):
                d = dict(c)
                d[k] = v
                yield d


# ---- core trees ------------------------------------------------------------
_types = {}


def types():
    if not _types:
        from protosym.core.atom import AtomType
        _types['Z'] = AtomType('Symbol', str)
        _types['F'] = AtomType('Function', str)
        _types['S'] = AtomType('Symbol', str)
        _types['I'] = AtomType('Integer', int)
    return _types


def use_simplecas():
    from protosym.simplecas import expr as m
    types()
    _types.update(F=m.Function.atom_type, S=m.Symbol.atom_type, I=m.Integer.atom_type)


def tree(s, env=()):
    """'@f' function atom, 'x' symbol, int integer, [head, args...] compound,
    {'dag': [spec, ...]} a list of specs where '#k' is the k-th earlier one."""
    from protosym.core.tree import Tree, Tr
    T = types()
    if isinstance(s, dict):
        env = []
        for e in s['dag']:
            env.append(tree(e, env))
        return env[-1]
    if isinstance(s, int):
        return Tr(T['I'](s))
    if isinstance(s, str):
        if s.startswith('#'):
            return env[int(s[1:])]
        if s.startswith('~'):
            return Tr(T['Z'](s[1:]))
        return Tr(T['F'](s[1:])) if s.startswith('@') else Tr(T['S'](s))
    return Tree(*[tree(x, env) for x in s])


def parts(t, heads=False, stop=()):
    """Distinct subexpressions, arguments first (reference implementation)."""
    out, seen, todo = [], set(), [(t, False)]
    while todo:
        u, done = todo.pop()
        if done:
            out.append(u)
            continue
        if u in seen or u in stop:
            continue
        seen.add(u)
        todo.append((u, True))
        todo.extend((c, False) for c in (u.children if heads else u.children[1:]))
    return out


def wide(n, head='@f'):
    """An expression with n arguments, some repeated."""
    return [head] + [f'x{i % max(1, n - 3)}' for i in range(n)]


def deep(n, head='@f', both=False):
    """A chain of n applications (with sharing when both)."""
    return {'dag': ['x'] + [[head, f'#{i}', f'#{i}'] if both else [head, f'#{i}'] for i in range(n)]}


def big_specs():
    for n in (0, 1, 2, 5, 9, 17, 33, 65, 130):
        yield wide(n)
        yield ['@g', wide(n), ['@h', wide(n), 'x0']]
    for n in (3, 30, 300, 1500):
        yield deep(n)
        yield deep(n, both=True)
    yield {'dag': ['x', 'y'] + [['@f', f'#{i}', f'#{i + 1}'] for i in range(200)]}


LIKE = {'x': ['x', '@x', '~x'], 'f': ['@f', 'f', '~f'], 1: [1, '1', '@1', '~1'], -1: [-1, -2], 0: [0, 2 ** 61 - 1, '0']}


def alike(rng, s, p=.15):
    """The spec with some atoms replaced by atoms of another type that print alike."""
    if isinstance(s, dict):
        return {'dag': [alike(rng, e, p) for e in s['dag']]}
    if isinstance(s, list):
        return [alike(rng, e, p) for e in s]
    if isinstance(s, str) and s.startswith('#') or rng.random() > p:
        return s
    n = str(s).lstrip('@~')
    return rng.choice([n, '@' + n, '~' + n])


def lookalikes():
    """Expressions with different parts that print alike or whose hashes agree."""
    import itertools
    for k, v in LIKE.items():
        yield ['@f'] + v
        yield ['@f', ['@g'] + v, ['@g'] + v[::-1]]
        for a, b in itertools.permutations(v, 2):
            yield ['@f', a, b]
            yield [a, b]
            yield ['@f', ['@g', a], ['@g', b], ['@g', a, b]]
            yield ['@f', [a, 'y'], [b, 'y']]
            yield ['@f', ['@f', a, 'y'], ['@f', b, 'y']]
    yield ['@f', ['@g', 'x'], '@g(x)', 'g(x)']
    yield ['@f', [['@g', 'x'], 'y'], ['@g', 'x', 'y']]
    yield ['@f', ['@g', -1, -2], ['@g', -2, -1], ['@g', -1, -1]]


def kids(t):
    return tuple(t.children)


def rand_pool(rng, n, heads=('@f', '@g', '@h'), syms=('x', 'y', 'z', 'w'), ints=(0, 1, 2, -1), maxar=3, comp_heads=True, arity=None, atom_heads=True):
    """A pool of n specs with much sharing."""
    pool = list(syms) + list(ints)
    for _ in range(n):
        h = rng.choice(heads)
        if comp_heads and rng.random() < 0.12:
            h = rng.choice(pool)
        k = rng.choice([0, 1, 1, 2, 2, 2, 3][: (maxar + 4)]) if arity is None else arity(h, rng)
        recent = pool[-6:] if rng.random() < 0.6 else pool
        pool.append([h] + [rng.choice(recent) for _ in range(k)])
    return pool


def small_specs(heads=('@f', '@g'), atoms=('x', 'y'), depth=2, maxar=2):
    """All specs up to a depth (exhaustive, for tiny alphabets)."""
    level = list(atoms)
    import itertools
    allv = list(level)
    for _ in range(depth):
        new = []
        for h in list(heads):
            for k in range(0, maxar + 1):
                for args in itertools.product(allv, repeat=k):
                    new.append([h, *args])
        allv = allv + [v for v in new if v not in allv]
        if len(allv) > 3000:
            break
    return allv
