import sympy, warnings
from cas import *
from protosym.simplecas import Expr, Matrix
from protosym.simplecas import expr as em

use_simplecas()
warnings.simplefilter('ignore')
OPS = {'Add': lambda a: sympy.Add(*a), 'Mul': lambda a: sympy.Mul(*a), 'pow': lambda a: sympy.Pow(*a), 'sin': lambda a: sympy.sin(*a), 'cos': lambda a: sympy.cos(*a), 'List': lambda a: sympy.Tuple(*a)}


def headstr(h):
    if not h.children:
        return str(h.value.value)
    return headstr(h.children[0]) + '(' + ', '.join(headstr(c) for c in h.children[1:]) + ')'


def to(t):
    """Reference conversion to SymPy."""
    out = {}
    for u in parts(t):
        if u.children:
            h = u.children[0]
            name = h.value.value if not h.children and h.value.atom_type is types()['F'] else None
            n = len(u.children) - 1
            if name == 'pow' and n != 2 or name in ('sin', 'cos') and n != 1:
                raise NoValue
            a = [out[c] for c in u.children[1:]]
            if name in ('Add', 'Mul', 'pow', 'sin', 'cos') and not all(isinstance(x, sympy.Expr) for x in a) or not all(isinstance(x, sympy.Basic) for x in a):
                raise NoValue
            if name == 'pow' and (a[1].is_number and abs(a[1]) > 50 or a[0].is_number and abs(a[0]) > 10 ** 20):
                raise NoValue
            out[u] = OPS[name](a) if name in OPS else sympy.Function(headstr(h))(*a)
            if out[u].has(sympy.nan, sympy.zoo, sympy.oo):
                raise NoValue
        else:
            k, v = u.value.atom_type, u.value.value
            out[u] = sympy.Integer(v) if k is types()['I'] else sympy.Symbol(v) if k is types()['S'] else sympy.Function(v)
    return out[t]


def back(e, memo):
    """Reference conversion from SymPy; None when something is not supported."""
    if e in memo:
        return memo[e]
    F = em.Function
    if isinstance(e, sympy.Integer):
        r = em.Integer(int(e))
    elif isinstance(e, sympy.Symbol):
        r = em.Symbol(e.name)
    else:
        if isinstance(e, sympy.core.function.AppliedUndef):
            h = F(e.func.__name__)
        else:
            h = {sympy.Add: F('Add'), sympy.Mul: F('Mul'), sympy.Pow: F('pow'), sympy.sin: F('sin'), sympy.cos: F('cos'), sympy.Tuple: F('List')}.get(type(e))
        a = [back(x, memo) for x in e.args] if h is not None else []
        r = None if h is None or any(x is None for x in a) else h(*a)
    memo[e] = r
    return r


def sp(s):
    """SymPy object of a spec: {'sp': name, 'a': [...]}, int, str symbol, '@f' class."""
    if isinstance(s, bool):
        return sympy.true if s else sympy.false
    if isinstance(s, int):
        return sympy.Integer(s)
    if isinstance(s, str):
        return sympy.Symbol(s)
    k, a = s[0], s[1:]
    if k == 'const':
        return {'pi': sympy.pi, 'E': sympy.E, 'I': sympy.I, 'half': sympy.Rational(1, 2), 'float': sympy.Float(1.5), 'onef': sympy.Float(1.0), 'true': sympy.true, 'oo': sympy.oo, 'big': sympy.Integer(10 ** 40),
                'dummy': sympy.Dummy('x'), 'pos': sympy.Symbol('x', positive=True), 'wild': sympy.Wild('w'), 'set': sympy.FiniteSet(1), 'interval': sympy.Interval(0, 1), 'lambda': sympy.Lambda(sympy.Symbol('x'), sympy.Symbol('x')),
                'matsym': sympy.MatrixSymbol('M', 2, 2), 'imat': sympy.ImmutableMatrix([[1]])}[a[0]]
    b = [sp(x) for x in a]
    if k[0] == '@':
        if not all(isinstance(x, sympy.Basic) for x in b):
            raise NoValue
        return sympy.Function(k[1:])(*b)
    if k not in ('List', 'Eq') and not all(isinstance(x, sympy.Expr) for x in b):
        raise NoValue
    f = {'Add': sympy.Add, 'Mul': sympy.Mul, 'pow': sympy.Pow, 'sin': sympy.sin, 'cos': sympy.cos, 'List': sympy.Tuple, 'tan': sympy.tan, 'exp': sympy.exp, 'asin': sympy.asin, 'Abs': sympy.Abs, 'Eq': sympy.Eq, 'sinh': sympy.sinh, 'sec': sympy.sec,
         'Max': sympy.Max, 'Derivative': sympy.Derivative, 'log': sympy.log, 'gamma': sympy.gamma, 'csc': sympy.csc, 'cosh': sympy.cosh}[k]
    return f(*b, evaluate=False) if k in ('Add', 'Mul', 'pow', 'sin', 'cos', 'exp', 'Abs', 'tan', 'Eq', 'Max') else f(*b)


def show(s):
    try:
        return sympy.srepr(s)[:200]
    except Exception:
        return repr(s)[:200]


def same_sympy(a, b):
    return type(a) is type(b) and a == b


def check(case):
    if 'to' in case:
        t = tree(case['to'])
        try:
            ref = to(t)
        except (NoValue, TypeError, ValueError):
            return
        e = Expr(t)
        for what, f in (('to_sympy', e.to_sympy), ('_sympy_', e._sympy_), ('to_sympy', e.to_sympy)):
            r = f()
            want(same_sympy(r, ref), f'{what} of {short(e)}: got {str(r)[:200]}, expected {str(ref)[:200]}')
        if isinstance(ref, sympy.Basic):
            want(same_sympy(sympy.sympify(e) if isinstance(ref, sympy.Expr) else ref, ref), f'sympify of {short(e)}')
            case = {'from_obj': ref}
        else:
            return
    if 'from' in case or 'from_obj' in case:
        try:
            s = case['from_obj'] if 'from_obj' in case else sp(case['from'])
        except Exception:
            return
        ref = back(s, {})
        from protosym.simplecas.sympy_conversions import from_sympy
        for f in (Expr.from_sympy, from_sympy):
            if ref is None:
                raises(NotImplementedError, lambda: f(s), f'from_sympy of {show(s)}')
            else:
                r = f(s)
                want(r is ref, f'from_sympy of {show(s)}: got {short(r)}, expected {short(ref)}')
    if 'rows' in case:
        rows = case['rows']
        nc = len(rows[0]) if rows else 0
        if not rows or any(not isinstance(r, list) or len(r) != nc for r in rows):
            return
        try:
            refs = [[to(tree(e)) for e in r] for r in rows]
        except (NoValue, TypeError, ValueError):
            return
        if not all(isinstance(x, sympy.Expr) for r in refs for x in r):
            return
        m = Matrix([[Expr(tree(e)) for e in r] for r in rows])
        for i in range(2):
            M_ = m.to_sympy()
            want(isinstance(M_, sympy.MatrixBase) and M_.shape == (len(rows), nc), f'to_sympy: shape {getattr(M_, "shape", None)}, expected {(len(rows), nc)}')
            for i, r in enumerate(refs):
                for j, x in enumerate(r):
                    want(M_[i, j] == x, f'to_sympy: entry {i}, {j} is {M_[i, j]}, expected {x}')
        for S in (sympy.Matrix(len(rows), nc, [x for r in refs for x in r]), sympy.ImmutableMatrix(len(rows), nc, [x for r in refs for x in r]), sympy.SparseMatrix(len(rows), nc, [x for r in refs for x in r])):
            copy = S.copy() if hasattr(S, 'copy') else S
            memo = {}
            exp = [[back(x, memo) for x in r] for r in refs]
            if any(x is None for r in exp for x in r):
                raises(NotImplementedError, lambda: Matrix.from_sympy(S), f'from_sympy of {str(S)[:200]}')
                continue
            m = Matrix.from_sympy(S)
            want(m.shape == (len(rows), nc) and m.nrows == len(rows) and m.ncols == nc, f'from_sympy: shape {m.shape}, expected {(len(rows), nc)}')
            for i, r in enumerate(exp):
                for j, x in enumerate(r):
                    want(m[i, j] is x, f'from_sympy: entry {i}, {j} is {short(m[i, j])}, expected {short(x)}')
            want(m.tolist() == exp, 'from_sympy: tolist')
            want(m.elements_graph is em.List(*m.elements) and len(m.elements) >= len(m.entrymap), 'from_sympy: internal graph')
            want(S == copy, 'from_sympy changes its argument')
            want(m.to_sympy() == S, 'conversion there and back')


CONST = ('pi', 'E', 'I', 'half', 'float', 'onef', 'true', 'oo', 'big', 'dummy', 'pos', 'wild', 'set', 'interval', 'lambda', 'matsym', 'imat')


def cases(rng, deadline):
    for v in ('x', 1, 0, -3, 10**30, '@f', '@sin', '@Add', 'alpha', 'x + 1', 'f(x)', 'x y'):
        yield {'to': v}
        if not isinstance(v, str) or v[0] != '@':
            yield {'from': v}
    for c in CONST:
        yield {'from': ['const', c]}
        for h in ('Add', 'Mul', 'pow', 'sin', 'List', '@f'):
            yield {'from': [h, ['const', c]] if h in ('sin', '@f') else [h, 'x', ['const', c]]}
            yield {'from': ['List', 1, [h, ['const', c]] if h in ('sin', '@f') else [h, ['const', c], 'x']]}
        yield {'from': ['List', 1, ['const', c], 1, ['const', 'onef']]}
    for k in ('tan', 'exp', 'asin', 'Abs', 'sinh', 'sec', 'log', 'gamma', 'csc', 'cosh'):
        yield {'from': [k, 'x']}
        yield {'from': ['Add', 'y', [k, 'x']]}
        yield {'from': ['@f', ['List', [k, ['sin', 'x']]]]}
    yield {'from': ['Eq', 'x', 'y']}
    yield {'from': ['Max', 'x', 'y']}
    yield {'from': ['Derivative', ['@f', 'x'], 'x']}
    yield {'from': ['List', 'x + 1', ['Add', 'x', 1], 'f(x)', ['@f', 'x'], ['@f'], 'f', ['@x'], 'x', ['@sin2', 'x']]}
    yield {'from': ['List', ['@f', 'x'], ['@f', 'x', 'x'], ['@f'], ['@g', 'x'], ['@g']]}
    yield {'from': ['List', ['const', 'dummy'], ['const', 'pos'], 'x']}
    for h in ('Add', 'Mul', 'List', '@f', '@sinus'):
        for n in (0, 1, 2, 3, 4, 5, 6, 9, 17, 33, 100):
            yield {'from': [h] + [f'x{i}' for i in range(n)]}
            yield {'from': [h] + list(range(2, n + 2))}
            yield {'from': ['List', [h] + [f'x{n - i}' for i in range(n)], [h, 'x'], [h]]}
            yield {'to': wide(n, h if h[0] == '@' else '@' + h)}
            yield {'to': [h if h[0] == '@' else '@' + h] + [f'x{n - i}' for i in range(n)]}
    for a in ('x', 2, -2, ['Add', 'x', 'y'], ['Mul', 'x', 'y'], ['pow', 'x', 2], ['sin', 'x'], ['@f'], ['List', 'x', 1]):
        for b in ('y', 3, -1, 0, ['Add', 'y', 'x'], ['Mul', 2, 'y'], ['pow', 'y', -1], ['cos', 'x'], ['@g', 'y'], ['List']):
            for h in ('Add', 'Mul', 'pow', '@f', 'List'):
                yield {'from': [h, a, b]}
                yield {'from': ['@f', [h, a, b], a, [h, b, a]]}
    for a in ('x', 2, -2, ['@Add', 'x', 'y'], ['@Mul', 'x', 'y'], ['@pow', 'x', 2], ['@pow', 2, 'x'], ['@sin', 'x'], ['@f']):
        for b in ('y', 3, -1, ['@Add', 'y', 'x'], ['@pow', 'y', -1], ['@cos', 'x'], ['@g', 'y']):
            for h in ('@Add', '@Mul', '@pow', '@f', '@List'):
                yield {'to': [h, a, b]}
    for e in ([['@f', 'x'], 'y'], [['@f', 'x', 2], 'y', 'z'], ['@undefined', 'x', 'x'], ['@List'], ['@List', ['@List', 'x'], ['@List']], ['@f'], ['@f', ['@List', 'x']]):
        yield {'to': e}
    for n in (1, 2, 3, 5):
        for m in (1, 2, 3, 5):
            yield {'rows': [[0] * m for _ in range(n)]}
            yield {'rows': [[i * m + j + 1 for j in range(m)] for i in range(n)]}
            yield {'rows': [[f'x{i}{j}' for j in range(m)] for i in range(n)]}
            yield {'rows': [[f'x{i}{j}' if (i + j) % 2 else 0 for j in range(m)] for i in range(n)]}
            yield {'rows': [['x' if i == j else 0 for j in range(m)] for i in range(n)]}
            yield {'rows': [[['@sin', 'x'] if i < j else 0 for j in range(m)] for i in range(n)]}
            yield {'rows': [[0 if j else ['@f', i] for j in range(m)] for i in range(n)]}
    for n in (30, 150):
        yield {'to': deep(n)}
        yield {'to': deep(n, '@sin')}
    while True:
        yield {'to': rand_expr(rng, rng.randint(1, 7), heads=HEADS + ('@f',), intexp=rng.random() < .7)}
        yield {'from': rand_sp(rng, rng.randint(1, 8))}
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        yield {'rows': [[rng.choice([0, 0, 'x', 1, ['@sin', 'x'], ['@Add', 'x', 'y'], ['@pow', 'x', 2]]) for _ in range(m)] for _ in range(n)]}


def rand_sp(rng, n):
    pool = ['x', 'y', 1, 2, -1, 'z']
    if rng.random() < .2:
        pool.append(['const', rng.choice(CONST)])
    for _ in range(n):
        h = rng.choice(('Add', 'Mul', 'Add', 'Mul', 'pow', 'sin', 'cos', '@f', '@g', 'List') + (('tan',) if rng.random() < .05 else ()))
        k = 2 if h == 'pow' else 1 if h in ('sin', 'cos', 'tan') else rng.choice([0, 1, 2, 2, 3, 4])
        pool.append([h] + [rng.choice(pool[-5:] if rng.random() < .6 else pool) for _ in range(k)])
    return pool[-1]


if __name__ == '__main__':
    main(cases, check, 'up to 100 arguments and depth 150, matrices up to 5 x 5, random expressions of at most 8 operations')
