from common import *
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.tree import Tree

from protosym.core.atom import AtomType
from protosym.core.tree import Tr

INTERN = {}
T = dict(types())
T['I2'] = AtomType('Integer', int)
T['S2'] = AtomType('Symbol', int)
ATOMS = {'x': None, 'y': None, 1: None, 2: None, '@f': None, '@g': None, 'I2(1)': Tr(T['I2'](1)), 'S2(1)': Tr(T['S2'](1))}
RET = {'None': None, 'NotImplemented': NotImplemented, 'False': False, 'zero': 0, 'empty': (), 'Ellipsis': ..., 'str': ''}
UNDEF = object()
HEADS = ['@f', '@g', 'x', ['@f', 'x'], 1]


def K(*key):
    return INTERN.setdefault(key, (len(INTERN) + 1, key))


def ret(step):
    return len(step) > 2 and step[2] in RET or len(step) > 1 and step[0].startswith('any') and step[1] in RET


def do(ev, step, n):
    k = step[0]
    if ret(step):
        r = RET[step[-1]]
        if k == 'atom':
            ev.add_atom(T[step[1]], lambda v: r)
        elif k == 'anyatom':
            ev.add_atom_generic(lambda t: r)
        elif k == 'anyop':
            ev.add_op_generic(lambda h, a: r)
        else:
            getattr(ev, 'add_' + k)(tree(step[1]), lambda *a: r)
        return
    if k == 'atom':
        ev.add_atom(T[step[1]], lambda *a: K('atom', n, a))
    elif k == 'op1':
        ev.add_op1(tree(step[1]), lambda *a: K('op', n, a))
    elif k == 'op2':
        ev.add_op2(tree(step[1]), lambda *a: K('op', n, a))
    elif k == 'opn':
        ev.add_opn(tree(step[1]), lambda *a: K('opn', n, len(a), tuple(a[0])))
    elif k == 'anyatom':
        ev.add_atom_generic(lambda *a: K('anyatom', n, a))
    elif k == 'anyop':
        ev.add_op_generic(lambda *a: K('anyop', n, len(a), a[0], tuple(a[1])))


def expect_atom(hist, cls, t):
    r = None
    for n, s in enumerate(hist):
        if s[0] == 'atom' and T[s[1]] is t.value.atom_type:
            r = n
    if r is not None:
        if ret(hist[r]):
            return RET[hist[r][-1]]
        return K('atom', r, (t.value.value,))
    for n, s in enumerate(hist):
        if s[0] == 'anyatom':
            r = n
    if r is not None:
        if ret(hist[r]):
            return RET[hist[r][-1]]
        return K('anyatom', r, (t,))
    return t if cls == 'Transformer' else UNDEF


def expect_op(hist, cls, h, args):
    r = None
    for n, s in enumerate(hist):
        if s[0] in ('op1', 'op2', 'opn') and tree(s[1]) is h:
            r = n
    if r is not None:
        if ret(hist[r]):
            return RET[hist[r][-1]]
        return K('opn', r, 1, tuple(args)) if hist[r][0] == 'opn' else K('op', r, tuple(args))
    for n, s in enumerate(hist):
        if s[0] == 'anyop':
            r = n
    if r is not None:
        if ret(hist[r]):
            return RET[hist[r][-1]]
        return K('anyop', r, 2, h, tuple(args))
    return 'default' if cls == 'Transformer' else UNDEF


def verify(ev, hist, cls):
    for a, t in ATOMS.items():
        if t is None:
            t = tree(a)
        e = expect_atom(hist, cls, t)
        if e is UNDEF:
            raises(NoEvaluationRuleError, lambda: ev.eval_atom(t), f'atom {a} without rule')
        else:
            eq(ev.eval_atom(t), e, f'value of atom {a}')
            eq(ev(t), e, f'value of expression {a}')
    for hs in HEADS:
        h = tree(hs)
        for args in ([], ['u'], ['u', 'v'], ['u', 'v', 'w'], list('abcdefghijkl')):
            if cls == 'Transformer':
                args = [tree(a) for a in args]
            e = expect_op(hist, cls, h, args)
            if e is UNDEF:
                raises(NoEvaluationRuleError, lambda: ev.eval_operation(h, args), f'operation {hs} without rule')
            elif isinstance(e, str) and e == 'default':
                same(ev.eval_operation(h, args), Tree(h, *args), f'unregistered operation {hs}')
            else:
                keep = list(args)
                eq(ev.eval_operation(h, args), e, f'operation {hs} on {len(args)} values')
                eq(args, keep, 'argument values after the operation')
    # through whole expressions
    for sp in (['@f', 'x', 1], ['@g', ['@f', 'x'], 'x'], [['@f', 'x'], 'y'], ['@f', 'I2', 1]):
        t = tree(sp) if 'I2' not in sp else tree('@f')(ATOMS['I2(1)'], tree(1))
        out = {}
        for u in parts(t):
            e = expect_atom(hist, cls, u) if not u.children else UNDEF
            if u.children:
                args = [out.get(c) for c in u.children[1:]]
                if not any(a is UNDEF for a in args):
                    e = expect_op(hist, cls, u.children[0], args)
                    if e == 'default':
                        e = Tree(u.children[0], *args) if all(isinstance(a, Tree) for a in args) else UNDEF
            out[u] = e
        if not any(v is UNDEF for v in out.values()):
            eq(ev(t), out[t], f'value of {sp}')


def check(case):
    cls = {'Evaluator': Evaluator, 'Transformer': Transformer}
    evs = [(cls[c](), c, []) for c in case['cls']]
    for k, step in enumerate(case['steps']):
        ev, c, hist = evs[step[0]]
        do(ev, step[1:], len(hist))
        hist.append(step[1:])
        if k % 3 == 2 or k == len(case['steps']) - 1:
            for ev, c, hist in evs:
                verify(ev, hist, c)
    for ev, c, hist in evs:
        verify(ev, hist, c)


def cases(rng, deadline):
    while True:
        cls = [rng.choice(['Evaluator', 'Transformer']) for _ in range(rng.randint(1, 3))]
        steps = []
        for _ in range(rng.randint(0, 9)):
            k = rng.choice(['atom', 'atom', 'op1', 'op2', 'opn', 'opn', 'anyatom', 'anyop'])
            s = [rng.randrange(len(cls)), k]
            if k == 'atom':
                s.append(rng.choice(['F', 'S', 'I', 'I2', 'S2']))
            elif k.startswith('op'):
                s.append(rng.choice(HEADS))
            if rng.random() < .15:
                s.append(rng.choice(list(RET)))
            steps.append(s)
        yield {'cls': cls, 'steps': steps}


if __name__ == '__main__':
    main(cases, check, 'histories of at most 9 registrations over up to 3 evaluators')
