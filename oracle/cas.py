"""Reference meaning of user-level expressions (60-digit reals and dual numbers)."""
import mpmath
from common import *

mpmath.mp.dps = 60
M = mpmath.mpf


class NoValue(Exception):
    pass


def op(h, v):
    if h == 'Add':
        return mpmath.fsum(v)
    if h == 'Mul':
        return mpmath.fprod(v)
    if h == 'pow' and len(v) == 2:
        b, e = v
        if abs(e) > 60 or b == 0 and e <= 0 or b < 0 and e != int(e) or abs(b) > 1e30:
            raise NoValue
        return b ** (int(e) if e == int(e) else e)
    if h in ('sin', 'cos') and len(v) == 1:
        if abs(v[0]) > 1e12:
            raise NoValue
        return getattr(mpmath, h)(v[0])
    if h == 'List':
        return tuple(v)
    raise NoValue


def value(t, vals):
    """Value of a tree (or user-level expression) by structural definition."""
    t = getattr(t, 'rep', t)
    out = {}
    for u in parts(t):
        if u.children:
            h = u.children[0]
            if h.children or h.value.atom_type is not types()['F']:
                raise NoValue
            out[u] = op(h.value.value, [out[c] for c in u.children[1:]])
            if not isinstance(out[u], tuple) and abs(out[u]) > M(10) ** 200:
                raise NoValue
        elif u.value.atom_type is types()['I']:
            out[u] = M(u.value.value)
        elif u.value.value in vals and u.value.atom_type is types()['S']:
            out[u] = M(vals[u.value.value])
        else:
            raise NoValue
    return out[t]


def dual(t, vals, sym):
    """(value, derivative): only powers with an exponent free of sym."""
    t = getattr(t, 'rep', t)
    out = {}
    for u in parts(t):
        if not u.children:
            if u.value.atom_type is types()['I']:
                out[u] = (M(u.value.value), M(0))
            else:
                out[u] = (M(vals[u.value.value]), M(int(u.value.value == sym)))
            continue
        h, a = u.children[0].value.value, [out[c] for c in u.children[1:]]
        v = [x for x, _ in a]
        r = op(h, v)
        if h == 'Add':
            d = mpmath.fsum(e for _, e in a)
        elif h == 'Mul':
            d = mpmath.fsum(e * mpmath.fprod(v[:i] + v[i + 1:]) for i, (_, e) in enumerate(a))
        elif h == 'pow':
            if any(not w.children and w.value.value == sym for w in parts(u.children[2])):
                raise NoValue
            d = a[1][0] * op('pow', [v[0], v[1] - 1]) * a[0][1]
        elif h == 'sin':
            d = mpmath.cos(v[0]) * a[0][1]
        elif h == 'cos':
            d = -mpmath.sin(v[0]) * a[0][1]
        elif h == 'List':
            d = tuple(e for _, e in a)
        out[u] = (r, d)
        if h != 'List' and max(abs(r), abs(d)) > M(10) ** 100:
            raise NoValue
    return out[t]


def close(a, b, tol=M(10) ** -25):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


HEADS = ('@Add', '@Mul', '@Add', '@Mul', '@pow', '@sin', '@cos')


def arity(h, rng):
    return 2 if h == '@pow' else 1 if h in ('@sin', '@cos') else rng.choice([1, 2, 2, 2, 3, 3, 4])


def rand_expr(rng, n, heads=HEADS, intexp=False, arity=arity, syms=('x', 'y', 'z'), ints=(0, 1, 2, -1, 3)):
    pool = list(syms) + list(ints)
    for _ in range(n):
        h = rng.choice(heads)
        recent = pool[-5:] if rng.random() < .6 else pool
        a = [rng.choice(recent) for _ in range(arity(h, rng))]
        if h == '@pow' and intexp:
            a[1] = rng.choice([2, 3, -1, -2, 1, 0, 5])
        pool.append([h] + a)
    return pool[-1]
