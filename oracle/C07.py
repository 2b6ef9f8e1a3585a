from common import *
from protosym.core import sym as S
from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
from protosym.core.tree import Tree, Tr

T = types()


class Ex(S.Sym):
    pass


AT = {'I': Ex.new_atom('Int', int), 'S': Ex.new_atom('Sy', str), 'I2': Ex.new_atom('Int', int)}
T['I'], T['S'] = AT['I'].atom_type, AT['S'].atom_type
INTERN = {}


def K(*key):
    return INTERN.setdefault(key, (len(INTERN) + 1, key))


def ex(s):
    """Expression of a spec: '?a' is a wild, ['*', s] is star(s)."""
    return Ex(tr(s))


def tr(s):
    if isinstance(s, str) and s.startswith('?'):
        return Ex.new_wild(s[1:]).rep
    if isinstance(s, list):
        if s[0] == '*':
            return S.star(ex(s[1])).rep
        return Tree(*[tr(x) for x in s])
    return tree(s)


OPS = {'PyOp1': S.PyOp1, 'PyOp2': S.PyOp2, 'PyOpN': S.PyOpN, 'PyFunc1': S.PyFunc1, 'AtomFunc': S.AtomFunc, 'HeadOp': S.HeadOp}
NARG = {'PyOp1': 1, 'PyOp2': 2, 'PyOpN': 1, 'PyFunc1': 1, 'AtomFunc': 1, 'HeadOp': 2}


def func(kind, n):
    if kind in ('PyOp1', 'PyOp2'):
        return lambda *a: K(kind, n, a)
    if kind == 'PyOpN':
        return lambda *a: K(kind, n, len(a), tuple(a[0]))
    if kind == 'HeadOp':
        return lambda *a: K(kind, n, len(a), a[0], tuple(a[1]))
    return lambda *a: K(kind, n, a)


def fits(p, c):
    """The key of the rule that the assignment registers, or None when it is to be refused."""
    k, kind = p[0], c[0]
    if kind not in OPS:
        return None
    args = [tr(x) for x in c[1:]]
    if k == 'expr':
        t = tr(p[1])
        if kind not in ('PyOp1', 'PyOp2', 'PyOpN') or not t.children:
            return None
        if kind == 'PyOpN':
            args = [S.star(ex(c[1])).rep]
        return ('op', t.children[0], kind == 'PyOpN') if list(t.children[1:]) == args else None
    want_kind = {'val': 'PyFunc1', 'atom': 'AtomFunc', 'head': 'HeadOp'}[k]
    pargs = [tr(x) for x in (p[2:] if k == 'val' else p[1:])]
    if kind != want_kind or pargs != args:
        return None
    return ('val', AT[p[1]].atom_type) if k == 'val' else (k,)


PROBES = [['@f'], ['@f', 'x'], ['@f', 'x', 1], ['@f', 'x', 1, 'y'], ['@g', 'x'], ['@g', 'x', 'y'], ['@h', 'x'], [['@f', 'x'], 'x', 1], ['?a', 'x'], ['x', 'y'], ['@Star', 'x'], ['*', 'x'], ['*', '?a']]
ATOMS = ['x', 'y', 1, 2, '@f', '?a', '@Star']
WHAT = {'none': None, 'int': 3, 'func': abs, 'class': int, 'str': 'x', 'list': [], 'tuple': (), 'wildclass': S.WildCall}


def refused(f, what):
    try:
        f()
    except NoEvaluationRuleError:
        return
    except TypeError:
        return      # a rule of another arity
    raise Fail(f'{what}: a rule applies')


def audit(ev, rules, what):
    def atom_value(t):
        r = rules.get(('val', t.value.atom_type))
        if r is not None:
            return K('PyFunc1', r[0], (t.value.value,))
        if ('atom',) in rules:
            return K('AtomFunc', rules['atom',][0], (t,))
        return None
    for s in ATOMS:
        t = tr(s)
        v = atom_value(t)
        if v is None:
            refused(lambda: ev(Ex(t)), f'{what}: atom {s}')
        else:
            eq(ev(Ex(t)), v, f'{what}: atom {s}')
    for s in PROBES:
        t = tr(s)
        vals = [K('value of', str(x)) for x in s[1:]]
        h = t.children[0]
        r = rules.get(('op', h))
        core = ev.evaluator
        if r is not None:
            n, kind = r
            if kind == 'PyOpN':
                exp = K(kind, n, 1, tuple(vals))
            elif len(vals) == NARG[kind]:
                exp = K(kind, n, tuple(vals))
            else:
                continue
        elif ('head',) in rules:
            exp = K('HeadOp', rules['head',][0], 2, h, tuple(vals))
        else:
            refused(lambda: core.eval_operation(h, list(vals)), f'{what}: operation {s}')
            continue
        eq(core.eval_operation(h, list(vals)), exp, f'{what}: operation {s}')


def check(case):
    ev = Ex.new_evaluator('e', object)
    other = Ex.new_evaluator('o', object)
    rules = {}
    for n, (p, c) in enumerate(case['steps']):
        if c[0] == 'raw':
            call = WHAT[c[1]]
        elif c[0] == 'expr':
            call = ex(c[1])
        else:
            call = OPS[c[0]](func(c[0], n))(*[ex(x) for x in c[1:]])
        pat = {'expr': lambda: ex(p[1]), 'val': lambda: AT[p[1]][ex(p[2])], 'atom': lambda: S.AtomRule[ex(p[1])],
               'head': lambda: S.HeadRule(*map(ex, p[1:]))}[p[0]]()
        k = fits(p, c)
        what = f'after {p} = {c}'
        if k is None:
            def assign():
                ev[pat] = call
            raises(BadRuleError, assign, f'{p} = {c}')
        else:
            try:
                ev[pat] = call
            except BadRuleError as e:
                raise Fail(f'{p} = {c} is refused: {e}')
            rules[k[:2] if k[0] == 'op' else k] = (n, c[0])
        audit(ev, rules, what)
    audit(other, {}, 'another evaluator')


ARGS = [['?a'], ['?b'], ['?a', '?b'], ['?b', '?a'], [['*', '?a']], [['*', '?b']], [['*', ['*', '?a']]], [], ['?a', '?a'], ['?a', '?b', '?c'], [['*', '?a'], '?b'], ['?a', ['*', '?b']], ['x'], [['*', '?a'], ['*', '?b']], ['a'], ['@a'], ['~a'], ['?a', 'a'], ['a', '?a'], ['~a', '?a']]


def patterns():
    for h in ('@f', '@g', ['@f', 'x'], '?a', 'x', '@Star'):
        for a in ARGS:
            yield ['expr', [h] + a]
    for s in ('x', '?a', '@f', 1):
        yield ['expr', s]
    for w in ('?a', '?b', ['*', '?a'], 'x', 'a', '~a'):
        yield ['atom', w]
        for t in AT:
            yield ['val', t, w]
        for v in ('?a', '?b', ['*', '?b'], ['*', '?a'], 'a'):
            yield ['head', w, v]


def calls():
    for k in OPS:
        for a in ([['?a'], ['?b'], [['*', '?a']], ['x'], ['a'], ['~a']] if NARG[k] == 1 else [['?a', '?b'], ['?b', '?a'], ['?a', '?a'], [['*', '?a'], '?b'], ['?a', ['*', '?b']], [['*', '?a'], ['*', '?b']], ['?a', 'a'], ['a', '?a']]):
            yield [k] + a
    for w in WHAT:
        yield ['raw', w]
    yield ['expr', '?a']
    yield ['expr', ['@f', '?a']]


def cases(rng, deadline):
    P, C = list(patterns()), list(calls())
    for p in P:
        for c in C:
            yield {'steps': [[p, c]]}
    good = [[p, c] for p in P for c in C if fits(p, c)]
    for s in good:
        yield {'steps': [s, rng.choice(good), s]}
    while True:
        yield {'steps': [rng.choice(good) if rng.random() < .7 else [rng.choice(P), rng.choice(C)] for _ in range(rng.randint(2, 8))]}


if __name__ == '__main__':
    main(cases, check, 'all combinations of 110 patterns and 34 right-hand sides as a single assignment; random histories of at most 8 assignments')
