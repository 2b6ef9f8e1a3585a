"""Threads that build the same parts at the same time."""
import sys, threading, gc
from common import *
from protosym.core.atom import Atom, AtomType
from protosym.core.sym import Sym
from protosym.core.tree import Tr, Tree
from protosym.simplecas import Expr, Function, Integer, Symbol, sin, x

KINDS = ['atom', 'leaf', 'tree', 'call', 'sym', 'expr', 'symbol', 'sum', 'wild', 'mixed']


class SubExpr(Expr):
    pass


T = AtomType('Threaded', object)
H = Tr(AtomType('Function', str)('threaded'))


def build(kind, key, say):
    """Build the objects of a description; check each as soon as it is received."""
    out = []

    def atom(v):
        a = T(v)
        say(type(a) is Atom and a.atom_type is T and a.value == v, 'the atom reads back its parts')
        out.append(a)
        return a

    def leaf(v):
        a = atom(v)
        t = Tr(a)
        say(type(t) is Tree and t.value is a and t.children == (), 'the atomic tree reads back its atom')
        out.append(t)
        return t

    def tree(*ch):
        t = Tree(*ch)
        say(t.children == ch, 'the tree reads back its children')
        out.append(t)
        return t
    if kind == 'atom':
        atom(key)
    elif kind == 'leaf':
        leaf(key)
    elif kind == 'tree':
        a = leaf(key)
        tree(H, tree(H, a), a)
    elif kind == 'call':
        a = leaf(key)
        t = H(a, a)
        say(t.children == (H, a, a), 'the call reads back its children')
        out.append(t)
    elif kind == 'sym':
        t = tree(H, leaf(key))
        for c in (Sym, Expr, SubExpr):
            e = c(t)
            say(type(e) is c and e.rep is t, 'the user-level expression reads back its tree')
            out.append(e)
    elif kind == 'expr':
        e = Expr(leaf(key))
        out.append(e)
        out.append(sin(e) + e ** 2)
    elif kind == 'symbol':
        out.append(Symbol(repr(key)))
        out.append(Function(repr(key))(out[-1]))
    elif kind == 'sum':
        out.append(x + (hash(key) % 10 ** 12))
        out.append(out[-1] * out[-1] - 1)
    elif kind == 'wild':
        out.append(Expr.new_wild(repr(key)))
    else:
        for k in KINDS[:-1]:
            out.extend(build(k, key, say))
    return out


_round = [0]


def check(case):
    kind, threads, n, rounds = case['kind'], max(2, int(case['threads'])), max(1, int(case['n'])), max(1, int(case['rounds']))
    if kind not in KINDS:
        return
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-7)
    try:
        for _ in range(rounds):
            _round[0] += 1
            bar = threading.Barrier(threads)
            res, errs = [None] * threads, []

            def work(i, base=_round[0]):
                def say(ok, what):
                    if not ok:
                        errs.append(f'thread {i}: {what}: no')
                try:
                    bar.wait(30)
                    r = []
                    for k in range(n):
                        if case.get('drop') and i % 2:
                            build(kind, (base, k), say)      # dropped at once
                        r.append(build(kind, (base, k), say))
                    res[i] = r
                except Exception as e:
                    errs.append(f'thread {i}: {type(e).__name__}: {e}')
            ts = [threading.Thread(target=work, args=(i,)) for i in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            want(not errs, errs[0] if errs else '')
            for k, row in enumerate(zip(*res)):
                for j, objs in enumerate(zip(*row)):
                    want(all(o is objs[0] for o in objs), f'{len(set(map(id, objs)))} different objects for object {j} of description {k}, a {type(objs[0]).__name__}')
                again = build(kind, (_round[0], k), lambda ok, what: want(ok, what))
                want(all(a is b for a, b in zip(row[0], again)), 'building it once more afterwards gives another object')
            res = None
    finally:
        sys.setswitchinterval(old)


def cases(rng, deadline):
    while True:
        for kind in KINDS:
            yield {'kind': kind, 'threads': rng.choice([2, 3, 4, 8]), 'n': rng.choice([3, 30, 100]), 'rounds': 10, 'drop': rng.random() < 0.3}


if __name__ == '__main__':
    main(cases, check, 'schedules of 2 to 8 threads building up to 100 descriptions, thread switches forced')
