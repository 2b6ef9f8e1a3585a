import ast
from cas import *
from protosym.simplecas import Expr

use_simplecas()
LATEX = {'Add': ' + ', 'Mul': ' \\times '}
TEXT = {'Add': ' + ', 'Mul': '*'}


def headstr(h):
    if not h.children:
        return str(h.value.value)
    return headstr(h.children[0]) + '(' + ', '.join(headstr(c) for c in h.children[1:]) + ')'


def show(u, out, latex):
    """What u prints as, from what its arguments print as."""
    if not u.children:
        return str(u.value.value)
    h, a = u.children[0], [out[c] for c in u.children[1:]]
    name = h.value.value if not h.children and h.value.atom_type is types()['F'] else None
    if name in TEXT:
        return '(' + (LATEX if latex else TEXT)[name].join(a) + ')'
    if name == 'pow':
        return a[0] + '^{' + a[1] + '}' if latex else a[0] + '**' + a[1]
    if latex and name in ('sin', 'cos'):
        return '\\' + name + '(' + a[0] + ')'
    return headstr(h) + '(' + ', '.join(a) + ')'


def ok(t):
    for u in parts(t, heads=True):
        if u.children:
            h, n = u.children[0], len(u.children) - 1
            name = h.value.value if not h.children else None
            if name == 'pow' and n != 2 or name in ('sin', 'cos') and n != 1:
                return False
    return True


def read(n):
    """Structure of a Python expression."""
    if isinstance(n, ast.Expression):
        return read(n.body)
    if isinstance(n, ast.BinOp):
        return ({ast.Add: '+', ast.Mult: '*', ast.Pow: '**'}[type(n.op)], read(n.left), read(n.right))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        return -n.operand.value
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Call):
        return ('call', read(n.func), *map(read, n.args))
    raise Fail(f'reads as {ast.dump(n)[:200]}')


def meant(t):
    if not t.children:
        return t.value.value
    h, a = t.children[0], [meant(c) for c in t.children[1:]]
    name = h.value.value if not h.children and h.value.atom_type is types()['F'] else None
    if name in TEXT:
        r = a[0]
        for x in a[1:]:
            r = ({'Add': '+', 'Mul': '*'}[name], r, x)
        return r
    if name == 'pow':
        return ('**', *a)
    return ('call', headmeant(h), *a)


def headmeant(h):
    if not h.children:
        return h.value.value
    return ('call', *map(headmeant, h.children))


def readable(t):
    for u in parts(t, heads=True):
        if not u.children:
            if isinstance(u.value.value, str) and not u.value.value.isidentifier():
                return False
            continue
        h = u.children[0]
        name = h.value.value if not h.children else None
        if isinstance(name, int) or name in TEXT and len(u.children) < 2:
            return False
        if name == 'pow':
            b = u.children[1]
            if b.children and b.children[0] is h or not b.children and isinstance(b.value.value, int) and b.value.value < 0:
                return False
    return True


def check(case):
    t = tree(case['e'])
    if not ok(t):
        return
    ps = parts(t)
    if sum(1 for u in ps if u.children) > 3000:
        return
    text, latex = {}, {}
    for u in ps:
        text[u], latex[u] = show(u, text, False), show(u, latex, True)
        if len(text[u]) > 10 ** 6:
            return
    e = Expr(t)
    for _ in range(2):
        for what, got, exp in (('eval_repr', e.eval_repr(), text[t]), ('str', str(e), text[t]), ('repr', repr(e), text[t]),
                               ('eval_latex', e.eval_latex(), latex[t]), ('_repr_latex_', e._repr_latex_(), '$' + latex[t] + '$')):
            want(type(got) is str and got == exp, f'{what}: got {got[:200]!r}, expected {exp[:200]!r}')
    if readable(t) and len(ps) < 40 and len(text[t]) < 2000:
        try:
            r = read(ast.parse(text[t], mode='eval'))
        except SyntaxError as ex:
            raise Fail(f'{text[t][:200]!r} is not a Python expression: {ex}')
        want(r == meant(t), f'{text[t][:200]!r} reads as {str(r)[:200]}, the expression is {str(meant(t))[:200]}')


def cases(rng, deadline):
    for v in ('x', 'alpha', 1, 0, -3, 10**30, '@f', '@sin', '@Add', '@pow', 'a_b', 'x10'):
        yield {'e': v}
    for h in ('@Add', '@Mul', '@f', '@g', '@List', '@undefined'):
        for n in (0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 20, 21, 33, 64, 100, 300):
            yield {'e': wide(n, h)}
            yield {'e': [h] + ['x'] * n}
            yield {'e': [h] + [-i for i in range(n)]}
            yield {'e': ['@f', wide(n, h), ['@pow', wide(n, h), 2]]}
    for a in ('x', 2, -2, 0, ['@Add', 'x', 'y'], ['@Add', 'x'], ['@Mul', 'x', 'y'], ['@Mul', -1, 'x'], ['@pow', 'x', 2], ['@pow', 2, 'x'], ['@sin', 'x'], ['@f'], ['@f', 'x', 'y'], ['@List', 'x', 1]):
        for b in ('y', 3, -1, 0, ['@Add', 'y', 'x'], ['@Mul', 2, 'y'], ['@pow', 'y', -1], ['@cos', 'x'], ['@g', 'y']):
            for h in ('@Add', '@Mul', '@pow', '@f', '@List'):
                yield {'e': [h, a, b]}
                yield {'e': ['@sin', [h, a, b]]}
                yield {'e': ['@cos', [h, b, a]]}
    for h in ('x', 2, ['@f', 'x'], ['@Add', 'x', 'y'], ['@pow', 'x', 2], [['@f', 'x'], 'y'], ['@sin', 'x']):
        for a in ([], ['x'], ['y', 'x'], [['@Add', 'x', 1], 2, 'z']):
            yield {'e': [h] + a}
            yield {'e': ['@Mul', [h] + a, 'x']}
    for n in (10, 100, 1500):
        yield {'e': deep(n)}
        yield {'e': deep(n, '@sin')}
        yield {'e': deep(n, '@Add')}
    for n in (4, 10, 14):
        yield {'e': deep(n, '@Add', True)}
        yield {'e': deep(n, '@Mul', True)}
        yield {'e': deep(n, '@pow', True)}
    while True:
        yield {'e': rand_expr(rng, rng.randint(1, 10), heads=HEADS + ('@f', '@List'))}
        yield {'e': rand_pool(rng, rng.randint(1, 10), heads=('@Add', '@Mul', '@f', '@g', '@List'))[-1]}


if __name__ == '__main__':
    main(cases, check, 'up to 300 arguments and depth 1500, all pairs of 14 and 9 small expressions under 5 heads, random expressions of at most 10 operations')
