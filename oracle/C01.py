import gc, weakref
from decimal import Decimal
from fractions import Fraction
from common import *
from protosym.core import atom as matom, tree as mtree
from protosym.core.atom import Atom, AtomType
from protosym.core.sym import Sym
from protosym.core.tree import Tr, Tree
from protosym.simplecas import Expr

AT = [AtomType('Integer', int), AtomType('Symbol', str), AtomType('Symbol', str), AtomType('Any', object)]


class SubSym(Sym):
    pass


class SubExpr(Expr):
    pass


class SameName(Sym):
    pass


Twin = type('SameName', (Sym,), {})
CLS = [Sym, Expr, SubSym, SubExpr, SameName, Twin]


class Quiet:
    """Equal by number, printed without it."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Quiet and self.n == other.n

    def __hash__(self):
        return hash(('quiet', self.n))

    def __repr__(self):
        return 'Quiet'


class Plain:
    """Compared by identity, all printed alike and hashed alike."""

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Plain'


class Loud:
    """Equal objects that print differently."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Loud and self.n % 3 == other.n % 3

    def __hash__(self):
        return self.n % 3


SAME = [(Loud(1), Loud(4)), (frozenset([8, 0]), frozenset([0, 8])), (Quiet(1), Quiet(1)), (Fraction(5, 3), Fraction(10, 6)), (10 ** 20, int('1' + '0' * 20)), ('pro' + 'tosym', ''.join(['proto', 'sym'])), ((1, 2), tuple([1, 2])), (Decimal('7'), Decimal('7.00'))]
VALS = [0, 1, 2, -1, -2, 'x', 'y', '', '1', 'Integer', 10 ** 30, 2.5, (1, 'x'), (1, ('x',)), None, b'x', frozenset([1, 2]), 3, -3, 1000, 'xy', (), ('x',), ((),), Ellipsis, Quiet(1), Quiet(2), Plain(), Plain(), Loud(1), Loud(2), Fraction(5, 3), Decimal('7')]


def sizes():
    gc.collect()
    return len(matom._all_atoms), len(mtree._all_trees), len(Sym._all_expressions)


class Odd:
    pass


KEPT = []


def bad(f, what):
    """Rejected, and again while the exception of the first attempt is alive."""
    for again in ('', ' (second attempt)'):
        try:
            f()
        except TypeError as e:
            KEPT.append(e)
        except Exception as e:
            raise Fail(f'{what}{again}: {type(e).__name__} instead of TypeError')
        else:
            raise Fail(f'{what}{again}: accepted')


class World:
    def __init__(self):
        self.slots = {}          # slot -> (object, description)

    def get(self, kind, n):
        c = [k for k, (o, d) in sorted(self.slots.items()) if d[0] in kind]
        return self.slots[c[n % len(c)]] if c else None

    def op(self, o):
        k, s = o[0], o[1]
        new = None
        if k == 'atom':
            t, v = AT[o[2] % len(AT)], VALS[o[3] % len(VALS)]
            new = (t(v) if o[4] else Atom(t, v), ('A', o[2] % len(AT), o[3] % len(VALS)))
            want(type(new[0]) is Atom and new[0].atom_type is t and new[0].value == v and type(new[0].value) is type(v), f'parts of the atom {t}({v!r})')
        elif k == 'leaf':
            a = self.get('A', o[2])
            if a is None:
                return
            new = (Tr(a[0]) if o[3] else Tree.atom(a[0]), ('L', a[1]))
            want(type(new[0]) is Tree and new[0].value is a[0] and new[0].children == (), 'parts of the atomic tree')
        elif k == 'tree':
            ch = [self.get('LT', n) for n in o[2]]
            if not ch or ch[0] is None:
                return
            xs = [c[0] for c in ch]
            new = (xs[0](*xs[1:]) if o[3] else Tree(*xs), ('T',) + tuple(c[1] for c in ch))
            want(type(new[0]) is Tree and type(new[0].children) is tuple and len(new[0].children) == len(xs) and all(a is b for a, b in zip(new[0].children, xs)), 'children of the tree')
            want(not hasattr(new[0], 'value'), 'a compound tree has a value')
        elif k == 'sym':
            t = self.get('LT', o[2])
            if t is None:
                return
            c = CLS[o[3] % len(CLS)]
            new = (c(t[0]), ('S', o[3] % len(CLS), t[1]))
            e = new[0]
            want(type(e) is c and e.rep is t[0], 'parts of the user-level expression')
            if t[1][0] == 'T':
                same(e.head, c(t[0].children[0]), 'head')
                want(len(e.args) == len(t[0].children) - 1 and all(a is c(b) for a, b in zip(e.args, t[0].children[1:])), 'args')
        elif k == 'drop':
            self.slots.pop(s, None)
        elif k == 'gc':
            gc.collect()
        elif k == 'bad':
            odd = [Odd(), 1, 'x', None, (), AT[0](5), 2.5, Tree, AT[1], [1]]
            x = odd[o[2] % len(odd)]
            del odd
            t = self.get('LT', o[3])
            xs = [] if t is None else [t[0]]
            e = Expr(xs[0]) if xs else None
            KEPT.clear()
            before = sizes()
            if not isinstance(x, Atom):
                bad(lambda: Tree.atom(x), f'Tree.atom({x!r})')
                bad(lambda: Tr(x), f'Tr({x!r})')
            for args in ([x], xs + [x], [x] + xs, xs * 4 + [x], xs * 3 + [x] + xs * 2, [x, x]):
                bad(lambda: Tree(*args), f'Tree with {x!r} among {len(args)} children')
            if xs:
                bad(lambda: xs[0](x), f'application to {x!r}')
                bad(lambda: Tree(xs[0], e), 'Tree of a user-level expression')
                for c in CLS:
                    bad(lambda: c(e), f'{c.__name__} of a user-level expression')
            for c in CLS:
                bad(lambda: c(x), f'{c.__name__}({x!r})')
            eq(sizes(), before, 'table sizes after rejected constructions')
            KEPT.clear()
        if new is not None:
            self.slots[s] = new

    def verify(self):
        by, ids = {}, {}
        for s, (o, d) in self.slots.items():
            d = canon(d)
            if d in by:
                want(by[d] is o, f'two objects for one description: {short(o)}')
            by[d] = o
            if id(o) in ids:
                want(ids[id(o)] == d, f'one object for two descriptions: {short(o)} is {ids[id(o)]} and {d}')
            ids[id(o)] = d
        os_ = list(by.values())
        for i, a in enumerate(os_[:12]):
            for b in os_:
                want((a == b) == (a is b) and (a != b) == (a is not b), '== is identity')
                if a is b:
                    want(hash(a) == hash(b), 'hash')
            want(a in {b: 0 for b in os_}, 'lookup in a dictionary')
            want(len({b for b in os_}) == len(os_), 'distinct objects in a set')


def canon(d):
    """Values that are equal give one atom."""
    if d[0] == 'A':
        return d
    return tuple(canon(x) if isinstance(x, tuple) else x for x in d)


def check(case):
    for a, b in SAME if case.get('equal') else ():
        for t in AT:
            x = t(a)
            want(t(b) is x and Atom(t, b) is x, f'equal values {a!r} and {b!r}')
            want(x.value == a, 'value of the atom')
            del x
            want(t(b).value is not None and t(b).value == a, 'value of the atom')
    w = World()
    for o in case['ops']:
        w.op(o)
        if o[0] != 'drop':
            w.verify() if len(w.slots) < 30 else None
    w.verify()
    # everything can be built again and is the same object; children keep their parents' parts alive
    again = {}
    for s, (o, d) in list(w.slots.items()):
        same(rebuild(d), o, 'building it again')
    gc.collect()
    w.verify()
    for s, (o, d) in list(w.slots.items()):
        same(rebuild(d), o, 'building it again after a collection')


def rebuild(d, memo=None):
    if d[0] == 'A':
        return AT[d[1]](VALS[d[2]])
    if d[0] == 'L':
        return Tr(rebuild(d[1]))
    if d[0] == 'T':
        return Tree(*[rebuild(x) for x in d[1:]])
    return CLS[d[1]](rebuild(d[2]))


def rand_ops(rng, n, slots=14):
    ops = []
    for _ in range(n):
        k = rng.choice(['atom', 'atom', 'leaf', 'leaf', 'tree', 'tree', 'tree', 'tree', 'sym', 'sym', 'drop', 'drop', 'gc' if rng.random() < .1 else 'drop', 'bad' if rng.random() < .1 else 'tree'])
        s = rng.randrange(slots)
        ops.append({'atom': lambda: [k, s, rng.randrange(3), rng.randrange(len(VALS)) if rng.random() < .3 else rng.randrange(3), rng.random() < .5],
                    'leaf': lambda: [k, s, rng.randrange(9), rng.random() < .5],
                    'tree': lambda: [k, s, [rng.randrange(9) for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 6]))], rng.random() < .5],
                    'sym': lambda: [k, s, rng.randrange(9), rng.randrange(len(CLS))],
                    'drop': lambda: [k, s], 'gc': lambda: [k, 0], 'bad': lambda: [k, 0, rng.randrange(10), rng.randrange(9)]}[k]())
    return ops


def cases(rng, deadline):
    allv = [['atom', i * 40 + j, i, j, True] for i in range(4) for j in range(len(VALS))]
    yield {'ops': allv, 'equal': 1}
    yield {'ops': allv + [['leaf', 500 + i, i, True] for i in range(4 * len(VALS))] + [['sym', 900 + i, i, i] for i in range(60)]}
    base = [['atom', 0, 0, 0, True], ['atom', 1, 0, 1, False], ['leaf', 2, 0, True], ['leaf', 3, 1, False]]
    import itertools
    shapes = [list(c) for k in (1, 2, 3, 4, 5) for c in itertools.product((0, 1), repeat=k)]
    yield {'ops': base + [['tree', 10 + i, s, i % 2] for i, s in enumerate(shapes)]}
    yield {'ops': base + [['tree', 4, [0, 1], 0], ['tree', 5, [2, 0], 0], ['tree', 6, [0, 2], 0], ['tree', 7, [2, 2], 1], ['tree', 8, [3, 2, 0], 0]] + [['sym', 20 + 6 * i + c, i, c] for i in range(6) for c in range(6)]}
    for n in (10, 100, 1000):
        yield {'ops': base + [['tree', 4, [0] + [i % 2 for i in range(n)], 0], ['tree', 5, [0] + [i % 2 for i in range(n)], 1], ['tree', 6, [0] + [i % 2 for i in range(n + 1)], 0], ['tree', 7, [0] + [(i + (i == n - 1)) % 2 for i in range(n)], 0], ['tree', 8, [0] + [(i + (i == 0)) % 2 for i in range(n)], 0]]}
    for ns in (list(range(1, 70)), list(range(70, 0, -1))):
        for f in (lambda i: 0, lambda i: i % 2, lambda i: int(i > 40), lambda i: int(i < 3)):
            yield {'ops': base + [['tree', 4 + n, [f(i) for i in range(n)], n % 2] for n in ns]}
            yield {'ops': base + [['tree', 4 + n, [f(70 - i) for i in range(n)], n % 2] for n in ns]}
    for b in range(10):
        yield {'ops': base + [['bad', 0, b, 0], ['tree', 4, [0, 1], 1], ['bad', 0, b, 2]]}
    # objects that die and come back
    for r in (1, 5, 40):
        yield {'ops': (base + [['tree', 4, [0, 1], 0], ['sym', 5, 2, 1], ['drop', 4], ['sym', 6, 0, 1], ['drop', 5], ['drop', 2], ['gc', 0], ['drop', 0], ['drop', 6]]) * r}
    while True:
        yield {'ops': rand_ops(rng, rng.randint(5, 60))}


if __name__ == '__main__':
    main(cases, check, 'all trees of up to 5 children over two atoms, atoms of 4 types with 33 values, up to 1000 children, random histories of at most 60 constructions, drops and collections over 14 variables')
