"""Table sizes and weak references after everything was dropped."""
import importlib.util, os, sys
import C20 as H
from C20 import *
from protosym.core import atom as matom, tree as mtree
from protosym.core.atom import AtomType
from protosym.core.sym import Sym
from protosym.core.tree import Tr
from protosym.simplecas import x as X0
from protosym.simplecas import expr as m

TABLES = (('atoms', matom._all_atoms), ('trees', mtree._all_trees), ('user-level expressions', Sym._all_expressions))


def keys():
    gc.collect()
    return [(n, {id(v): repr(type(v)) for v in list(t.values())}, len(t.data)) for n, t in TABLES]


VALUES = (None, '', 0, False, (), 'x', -1, 10 ** 30, 2.5, (None, 1), frozenset([5]), NotImplemented, ...)


def typed():
    return [AtomType('None', type(None))(None), AtomType('Int', int)(-77), AtomType('Str', str)('unused'), AtomType('T', tuple)(())] + [t.atom_type(v) for t, v in ((m.Integer, -7777), (m.Symbol, 'unused name'), (m.Function, 'unused name'))]


def construct(k, n):
    """Constructions, dropped at once; the last ones are rejected."""
    T = AtomType('Released', object)
    f = Tr(T('f'))
    t = Tree(f, *[Tr(T(v)) for v in VALUES], *[Tr(v) for v in typed()])
    for i in range(n % 40 + 1):
        t = Tree(f, t, Tr(T(i)), t) if i % 2 else f(t)
    e = Expr(t)
    e = e * 2 + e ** e
    refs = [weakref.ref(o) for o in (f, t, e, f.value, e.rep, *typed(), *[T(v) for v in VALUES])]
    if k == 'rejected':
        for bad in (lambda: Tree(f, t, 3), lambda: Expr(e), lambda: Tr(t), lambda: e + 'x', lambda: e(object()), lambda: Tree(e), lambda: Matrix([[e], [e, 1]]), lambda: Matrix([[e, 'x']]), lambda: e.eval_f64({}), lambda: e.diff(Expr(f)), lambda: lambdify([], e),
                    lambda: Matrix([[e]]).to_llvm_ir([]), lambda: SubsFunc(t, [f])(), lambda: Evaluator()(t), lambda: e.as_function(e)()):
            try:
                bad()
            except Exception:
                pass
    elif k == 'again':
        for i in range(5):
            Expr(Tree(t, t, f))
            Matrix([[e, i], [i, e]]) + Matrix([[i, e], [0, e]])
    return refs


WARM = []


def check(case):
    if not WARM:
        w = {'e': ['@Add', ['@f', 'x', 'y'], 'z'], 'u': ['@g', 'x']}
        for n in list(OPS) + list(EVS):
            try:
                H.release({**w, 'release': [n]})
            except Fail:
                pass        # the cases below report it
        for k in ('plain', 'rejected', 'again'):
            construct(k, 3)
        WARM.append(1)
    before = keys()
    if 'build' in case:
        refs = construct(case['build'], case['n'])
        gc.collect()
        want(not any(r() is not None for r in refs), f'{sum(r() is not None for r in refs)} of {len(refs)} objects are kept')
    else:
        H.release(case)
    H.release({'e': ['@f', 'x'], 'u': 'y', 'release': ['sort']})     # whatever was kept must not depend on the last call
    after = keys()
    for (n, b, lb), (_, a, la) in zip(before, after):
        want(set(a) <= set(b) and la <= lb, f'{len(set(a) - set(b))} unused {n} are still in their table ({la} entries, {lb} before)')


def cases(rng, deadline):
    for n in (0, 1, 2, 7, 30):
        for k in ('plain', 'rejected', 'again'):
            yield {'build': k, 'n': n}
    for c in H.cases(rng, deadline):
        if 'release' in c:
            yield c
        elif rng.random() < .3:
            yield {'build': rng.choice(['plain', 'rejected', 'again']), 'n': rng.randint(0, 40)}


if __name__ == '__main__':
    main(cases, check, 'every operation on 10 pairs of expressions, random histories of at most 4 operations, constructions of up to 80 objects, rejected calls')
