from common import *
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.tree import Tree
from protosym.core.sym import Sym, SymEvaluator

INTERN = {}
NOTHING = object()            # a rule is missing or has another number of arguments


def K(*key):
    return INTERN.setdefault(key, len(INTERN) + 1)


class Seq:
    """The value of a rule that keeps the very sequence it was given."""

    def __init__(self, args):
        self.args = args


def freeze(v):
    return ('seq', tuple(freeze(a) for a in v.args)) if isinstance(v, Seq) else v


def build(case, ev=None):
    if ev is None:
        ev = Transformer() if case.get('cls') == 'Transformer' else Evaluator()
    T = types()
    for a in case['atoms']:
        ev.add_atom(T[a], lambda v, a=a: K('atom', a, v))
    if case['anyatom']:
        ev.add_atom_generic(lambda t: K('any', t))
    for h, kind in case['ops']:
        ht = tree(h)
        if kind == 'n':
            ev.add_opn(ht, lambda args, ht=ht: K('op', ht, tuple(map(freeze, args))))
        elif kind == 'keep':
            ev.add_opn(ht, Seq)
        elif kind == 'none':
            ev.add_opn(ht, lambda args: None)
        elif kind == 1:
            ev.add_op1(ht, lambda x, ht=ht: K('op', ht, (freeze(x),)))
        elif kind == 2:
            ev.add_op2(ht, lambda x, y, ht=ht: K('op', ht, (freeze(x), freeze(y))))
        else:
            ev.add_op2(ht, lambda *xs, ht=ht: K('op', ht, tuple(map(freeze, xs))))
    if case['anyop']:
        ev.add_op_generic((lambda h, args: Seq(args)) if case.get('anykeep') else lambda h, args: K('op', h, tuple(map(freeze, args))))
    return ev


def ref(ev, case, t, vals):
    T = types()
    known = {tree(h): k for h, k in case['ops']}
    out = {}
    for u in parts(t):
        if not u.children:
            if u in vals:
                out[u] = vals[u]
                continue
            a = u.value
            if a.atom_type in [T[x] for x in case['atoms']]:
                n = next(x for x in case['atoms'] if T[x] is a.atom_type)
                out[u] = K('atom', n, a.value)
            elif case['anyatom']:
                out[u] = K('any', u)
            else:
                return NOTHING
        else:
            h, args = u.children[0], tuple(out[c] for c in u.children[1:])
            if h in known:
                k = known[h]
                if k in (1, 2) and len(args) != k:
                    return NOTHING
                out[u] = ('seq', args) if k == 'keep' else None if k == 'none' else K('op', h, args)
            elif case['anyop']:
                out[u] = ('seq', args) if case.get('anykeep') else K('op', h, args)
            else:
                return NOTHING
    return out[t]


def check(case):
    ev = build(case)
    t = tree(case['expr'])
    vals = {tree(k): v for k, v in case['values']}
    exp = ref(ev, case, t, vals)
    if exp is NOTHING:
        return
    before = dict(vals)
    r = ev(t, vals)
    eq(freeze(r), exp, 'value')
    eq(vals, before, 'values after evaluation')
    eq(freeze(ev.evaluate(t, vals)), exp, 'evaluate')
    eq(freeze(ev.eval_forward(t, vals)), exp, 'eval_forward')
    if case.get('rec', True):
        eq(freeze(ev.eval_recursive(t, vals)), exp, 'eval_recursive')
    sev = SymEvaluator('test')
    if hasattr(sev, 'evaluator'):
        build(case, sev.evaluator)
        svals = {Sym(k): v for k, v in vals.items()}
        eq(freeze(sev(Sym(t), svals)), exp, 'user-level evaluator')
        eq(svals, {Sym(k): v for k, v in vals.items()}, 'values after user-level evaluation')
        e0 = ref(ev, case, t, {})
        if e0 is not NOTHING:
            eq(freeze(sev(Sym(t))), e0, 'user-level evaluator without values')
            eq(freeze(sev(Sym(t), None)), e0, 'user-level evaluator with None')
            eq(freeze(sev(Sym(t), {})), e0, 'user-level evaluator with no values')
    if not vals:
        eq(freeze(ev(t)), exp, 'value without values')
        eq(freeze(ev(t, None)), exp, 'value with None')
    else:
        e0 = ref(ev, case, t, {})
        if e0 is not NOTHING:
            eq(freeze(ev(t)), e0, 'value without values after values')
            eq(freeze(ev(t, {})), e0, 'value with an empty assignment')
        v2 = {k: 7 * (v or 0) + 1 for k, v in vals.items()}
        eq(freeze(ev(t, v2)), ref(ev, case, t, v2), 'value for other values')
        eq(freeze(ev(t, vals)), exp, 'value again')


def cases(rng, deadline):
    for s in big_specs():
        yield {'expr': s, 'atoms': ['S'], 'anyatom': True, 'ops': [['@f', 'n'], ['@h', 0]], 'anyop': True, 'values': [['x0', 5], ['x', 0]], 'rec': False}
    for s in lookalikes():
        for at in (['S'], ['I', 'F'], ['F', 'S', 'I']):
            yield {'expr': s, 'atoms': at, 'anyatom': True, 'ops': [['@f', 'n'], ['x', 'n'], ['@1', 0]], 'anyop': True, 'values': [['x', 5], ['1', 0], [-2, 7]]}
    while True:
        pool = rand_pool(rng, rng.randint(1, 12))
        e = rng.choice(pool) if rng.random() < 0.1 else pool[-1]
        if rng.random() < .3:
            e = alike(rng, e)
        yield {'expr': e, 'atoms': [a for a in 'FSI' if rng.random() < 0.6], 'anyatom': rng.random() < 0.8,
               'ops': [[h, rng.choice(['n', 'n', 0, 0, 1, 2, 'keep', 'none'])] for h in ('@f', '@g', '@h') if rng.random() < 0.6],
               'anyop': rng.random() < 0.9, 'anykeep': rng.random() < 0.2,
               'values': [[a, rng.choice([0, 0, 1, -3, 0.0, 2.5, None])] for a in ('x', 'y', 'z', 1, 0, '@f') if rng.random() < 0.4]}


if __name__ == '__main__':
    main(cases, check, 'random rule sets and expressions of at most 13 compound parts')
