"""The constructors and their weak tables (C01).

Objects of one class form an uninterpreted sort.  desc(o) is the description an
object was built from.  The state of a table is dom/val (its entries) and live
(the objects of the class that are alive and were handed out).  Invariant: the
entries are exactly  desc(o) -> o  for the live o.  Between any two accesses the
garbage collector may end any object this frame does not hold.
"""
from __future__ import annotations
import inspect
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from ..interp import Star

RECORD = []         # (table, locks held) of every change, for the lock discipline
FOREIGN = OpaqueTy('AnotherObject', foreign=True)


def mods():
    import protosym.core.atom as a
    import protosym.core.tree as t
    import protosym.core.sym as s
    return a, t, s


# ---- object-level sorts -------------------------------------------------------------
def objty(name, cls, handlers):
    ty = OpaqueTy(name, cls)
    ty.handlers = handlers
    ty.inject = lambda E, v: E.ghost.get('new', {}).get(v.cell) if isinstance(v, Ref) and isinstance(E.heap.get(v.cell), ObjC) and E.heap[v.cell].cls is cls else None
    return ty


def _mk():
    a, t, s = mods()
    G = {}
    AO = G['AO'] = OpaqueTy('AtomObj', a.Atom)
    TO = G['TO'] = OpaqueTy('TreeObj', t.Tree)
    SO = G['SO'] = OpaqueTy('SymObj', s.Sym)
    G['CLS'] = z3.DeclareSort('SymClass')
    th = SeqTh(TO.sort)
    AK = z3.Datatype('AtomDesc')
    AK.declare('atom', ('atom_type', ATypeS), ('value', ValS))
    AK.declare('other', ('what', I))
    TK = z3.Datatype('TreeDesc')
    TK.declare('kid', ('children', th.S))
    TK.declare('leaf', ('leaf_value', AO.sort))
    TK.declare('other', ('what', I))
    SK = z3.Datatype('SymDesc')
    SK.declare('sym', ('cls', G['CLS']), ('rep', TreeS))
    SK.declare('other', ('what', I))
    G['AK'], G['TK'], G['SK'] = AK.create(), TK.create(), SK.create()
    G['desc'] = {'Atom': Function('desc:Atom', AO.sort, G['AK']), 'Tree': Function('desc:Tree', TO.sort, G['TK']), 'Sym': Function('desc:Sym', SO.sort, G['SK'])}
    G['th'] = th
    # any Python object in the place of a child
    CH = G['CH'] = OpaqueTy('Child', sort=TO.sort)
    istree = G['istree'] = Function('istree', TO.sort, B)

    def isinst(E, v, cls):
        if cls is object:
            return True
        if cls is t.Tree:
            return E.branch(istree(v.t))
        raise Unsupported('class test of a child')
    CH.handlers = {'isinstance': isinst}
    return G


_g = {}


def G():
    if not _g:
        _g.update(_mk())
    return _g


def classterm(c):
    return Const(f'K!class!{c.__module__}.{c.__qualname__}', G()['CLS'])


class Table:
    """One weak table and the live objects of its class."""

    def __init__(self, E, kind, table, shared=False):
        g = G()
        self.kind, self.table = kind, table
        self.oty = {'Atom': g['AO'], 'Tree': g['TO'], 'Sym': g['SO']}[kind]
        self.K = {'Atom': g['AK'], 'Tree': g['TK'], 'Sym': g['SK']}[kind]
        self.desc = g['desc'][kind]
        self.held = []
        self.news = {}
        self.shared = shared        # other threads run between accesses
        self.state = self.fresh(E)

    def fresh(self, E):
        n = E.name(f'table:{self.kind}')
        return (Function(n + ':has', self.K, B), Function(n + ':get', self.K, self.oty.sort), Function(n + ':live', self.oty.sort, B))

    def inv(self, st=None):
        dom, val, live = st or self.state
        k, o = Const('k', self.K), Const('o', self.oty.sort)
        extra = []
        if self.kind == 'Tree':
            i = z3.Int('i')
            ch = self.K.children(self.desc(o))
            extra = [('children are trees', fa([o, i], Implies(And(live(o), self.K.is_kid(self.desc(o)), 0 <= i, i < G()['th'].len(ch)), G()['istree'](G()['th'].at(ch, i))), G()['th'].at(ch, i)))]
        return extra + [('entries describe live objects', fa(k, Implies(dom(k), And(live(val(k)), self.desc(val(k)) == k)), dom(k))),
                ('descriptions consist of parts of the right type', fa(o, Implies(live(o), Not(self.K.is_other(self.desc(o)))), live(o))),
                ('every live object is found under its description', fa(o, Implies(live(o), And(dom(self.desc(o)), val(self.desc(o)) == o)), live(o)))]

    def collect(self, E):
        """The garbage collector runs: only objects nobody here holds may go."""
        if self.shared and not E.locks:
            return self.interfere(E)
        dom, val, live = self.state
        self.state = d2, v2, l2 = self.fresh(E)
        k, o = Const('k', self.K), Const('o', self.oty.sort)
        E.assume(fa(o, Implies(l2(o), live(o)), l2(o)))
        for h in self.held:
            E.assume(Implies(live(h), l2(h)))
        E.assume(fa(k, And(d2(k) == And(dom(k), l2(val(k))), v2(k) == val(k)), d2(k)))
        E.assume(fa(k, Implies(And(dom(k), l2(val(k))), d2(k)), dom(k)))

    def waited(self, E):
        self.collect(E)

    def interfere(self, E):
        """Other threads run: they keep the invariant and, since somebody holds
        them, the objects held here; they cannot reach objects made here and not
        published yet."""
        old = self.state[2]
        self.state = d2, v2, l2 = self.fresh(E)
        for _, f in self.inv():
            E.assume(f)
        for h in self.held:
            E.assume(l2(h) == old(h) if any(h is c for c in self.news.values()) else Implies(old(h), l2(h)))

    def guarantee(self, E, k, o, v):
        """What every access that changes the table owes the other threads."""
        RECORD.append((self.kind, tuple(E.locks)))
        E.emit(BoolVal(bool(E.locks)), f'the table of {self.kind} objects changes only while a lock is held', 'guarantee')
        E.emit(Implies(self.state[0](k), self.state[1](k) == o), 'the entry of an object somebody may hold is not replaced', 'guarantee')
        if isinstance(v, Ref):
            rb = readback(E, self, v)
            E.emit(BoolVal(False) if rb is None else rb == k, 'an object is complete before other threads can see it', 'guarantee')

    def obj(self, E, v):
        """Object term of a value of this class."""
        if isinstance(v, Tm) and v.ty == self.oty:
            return v.t
        if isinstance(v, Ref):
            r = E.content(v.cell)
            if isinstance(r, ObjC) and issubclass(r.cls, self.oty.pycls):
                if v.cell not in self.news:
                    c = Const(f'new!{self.kind}!{v.cell}', self.oty.sort)
                    o = Const('o', self.oty.sort)
                    self.news[v.cell] = c
                    # a new object is none of those that were alive
                    E.assume(Not(self.state[2](c)))
                    E.assume(Not(self.entry[2](c)))
                    self.held.append(c)
                return self.news[v.cell]
        return None

    def key(self, E, k):
        g = G()
        items = list(k.items) if isinstance(k, TupV) else None
        try:
            if self.kind == 'Atom' and items is not None and len(items) == 2:
                return self.K.atom(E.term(items[0], ATYPE), E.term(items[1], VAL))
            if self.kind == 'Tree':
                if isinstance(k, Tm) and k.ty == g['AO']:
                    return self.K.leaf(k.t)
                if items is not None and all(isinstance(x, Tm) and x.ty == g['TO'] for x in items):
                    return self.K.kid(g['th'].lit([x.t for x in items]))
                if isinstance(k, Tm) and isinstance(k.ty, SeqTy) and k.ty.t in (g['TO'], g['CH']):
                    return self.K.kid(k.t)
                if isinstance(k, Tm) and isinstance(k.ty, SeqTy) and getattr(k.ty.t, 'foreign', False) and E.valid(k.ty.th.len(k.t) >= 1):
                    return self.K.other(E.fresh('key', I))
            if self.kind == 'Sym' and items is not None and len(items) == 2 and isinstance(items[0], Con) and isinstance(items[0].obj, type):
                return self.K.sym(classterm(items[0].obj), E.term(items[1], TREE))
        except Unsupported:
            pass
        if self.kind == 'Tree' and items is not None and any(isinstance(x, Con) or isinstance(x, Tm) and isinstance(x.ty, OpaqueTy) and x.ty != g['TO'] for x in items):
            return self.K.other(E.fresh('key', I))       # equal to no description
        raise Unsupported(f'key of the {self.kind} table')

    def lookup(self, E, k):
        self.collect(E)
        dom, val, _ = self.state
        if E.branch(dom(k)):
            o = val(k)
            self.held.append(o)
            return Tm(self.oty, o)
        return None

    def put(self, E, k, v):
        o = self.obj(E, v)
        if o is None:
            raise Unsupported('stored object')
        if self.shared:
            self.guarantee(E, k, o, v)
        dom, val, live = self.state
        self.state = d2, v2, l2 = self.fresh(E)
        x, y = Const('k', self.K), Const('o', self.oty.sort)
        # a weak table keeps the entry while the object lives; the object is held here
        E.assume(fa(x, And(d2(x) == Or(x == k, dom(x)), v2(x) == If(x == k, o, val(x))), d2(x)))
        E.assume(fa(x, Implies(dom(x), d2(x)), dom(x)))
        E.assume(And(d2(k), v2(k) == o))
        E.assume(fa(y, l2(y) == Or(y == o, live(y)), l2(y)))
        E.assume(fa(y, Implies(live(y), l2(y)), live(y)))
        E.assume(l2(o))

    # operations of the real table
    def attr(self, E, v, name):
        ops = {'get': self.m_get, 'setdefault': self.m_setdefault, '__getitem__': lambda E, s, a, kw: self.getitem(E, a[0]),
               '__setitem__': lambda E, s, a, kw: self.store(E, a[0], a[1]), '__contains__': lambda E, s, a, kw: self.contains(E, a[0])}
        if name not in ops:
            raise Unsupported(f'{name} of a weak table')
        return Bound(('h', ops[name]), v)

    def m_get(self, E, s, args, kw):
        d = kw.get('default', args[1] if len(args) > 1 else Con(None))
        r = self.lookup(E, self.key(E, args[0]))
        return d if r is None else r

    def m_setdefault(self, E, s, args, kw):
        d = kw.get('default', args[1] if len(args) > 1 else Con(None))
        k = self.key(E, args[0])
        if self.obj(E, d) is None:
            raise Unsupported('stored object')
        r = self.lookup(E, k)
        if r is not None:
            return r
        if self.shared:
            # the library's setdefault looks up first and stores later
            self.collect(E)
        self.put(E, k, d)
        return d

    def getitem(self, E, idx):
        r = self.lookup(E, self.key(E, idx))
        if r is None:
            raise PyExc(KeyError, 'no entry')
        return r

    def contains(self, E, x):
        # a test holds nothing: the entry may be gone afterwards
        k = self.key(E, x)
        self.collect(E)
        return E.branch(self.state[0](k))

    def store(self, E, idx, val):
        self.collect(E)
        self.put(E, self.key(E, idx), val)


def readback(E, tab, v):
    """Description of a new object from the attributes it was given: (term, problems)."""
    g = G()
    f = E.content(v.cell).fields
    try:
        if tab.kind == 'Atom':
            if set(f) != {'atom_type', 'value'}:
                return None
            return tab.K.atom(E.term(f['atom_type'], ATYPE), E.term(f['value'], VAL))
        if tab.kind == 'Tree':
            ch = f.get('children')
            if 'value' in f:
                n = E.tuple_items(ch) if ch is not None and isinstance(ch, (TupV, Con)) else None
                return tab.K.leaf(f['value'].t) if n == [] and isinstance(f['value'], Tm) and f['value'].ty == g['AO'] else None
            if isinstance(ch, Tm) and isinstance(ch.ty, SeqTy) and ch.ty.t == g['CH']:
                return tab.K.kid(ch.t)
            return tab.K.kid(E.term(ch, SeqTy(g['TO']))) if ch is not None else None
        if tab.kind == 'Sym':
            return tab.K.sym(classterm(E.content(v.cell).cls), E.term(f['rep'], TREE))
    except (Unsupported, KeyError):
        return None


class Make(CheckTask):
    """Run one constructor from any table state satisfying the invariant."""
    kind = None
    shared = False

    def table(self):
        raise NotImplementedError

    def call(self, E, variant):
        """-> (thunk, description of the arguments or None when they must be rejected)"""
        raise NotImplementedError

    def run(self, E, variant):
        tab = Table(E, self.kind, self.table(), self.shared)
        entry = tab.entry = tab.state
        E.weak[id(self.table())] = tab
        for _, f in tab.inv():
            E.assume(f)
        thunk, d, cls = self.call(E, variant)
        ok = BoolVal(d is not None) if 'ok' not in E.ghost else E.ghost['ok']
        E.raises = (TypeError,)
        k, o = Const('k', tab.K), Const('o', tab.oty.sort)
        try:
            res = thunk()
        except PyExc as ex:
            E.loc = f'{self.name} (exceptional exit)'
            E.emit(And(Not(ok), BoolVal(issubclass(ex.cls, TypeError))), f'{ex.cls.__name__} only when the parts have the wrong type ({ex.why})', 'raises')
            if self.shared:
                E.emit(BoolVal(not E.locks), 'no lock is kept', 'guarantee')
                return
            E.emit(fa(k, Implies(tab.state[0](k), And(entry[0](k), tab.state[1](k) == entry[1](k))), tab.state[0](k)), 'a rejected construction leaves no trace', 'frame')
            E.emit(fa(o, Implies(tab.state[2](o), entry[2](o)), tab.state[2](o)), 'a rejected construction leaves no object', 'frame')
            return
        E.emit(ok, 'parts of the wrong type are rejected with TypeError', 'raises')
        if d is None:
            return
        E.assume(ok)
        r = tab.obj(E, res)
        if r is None:
            E.emit(BoolVal(False), f'the result is a {self.kind}', 'post')
            return
        for cell, c in tab.news.items():
            rb = readback(E, tab, Ref(cell))
            if rb is None:
                if E.valid(Not(tab.state[2](c))):
                    continue        # never handed out
                E.emit(BoolVal(False), 'a new object stores exactly the parts it was built from', 'post')
                return
            E.assume(tab.desc(c) == rb)
        if self.shared:
            E.emit(BoolVal(not E.locks), 'no lock is kept', 'guarantee')
            E.emit(tab.state[2](r), 'the object is alive and in the table when it is returned', 'post')
            for lab, f in tab.inv():
                E.emit(f, 'when it returns ' + lab, 'invariant')
            # other threads go on; the caller holds the result
            tab.held.append(r)
            tab.interfere(E)
        dom, val, live = tab.state
        E.emit(tab.desc(r) == d, 'the object reads back the parts it was built from', 'post')
        # the caller holds the result
        E.emit(live(r), 'the object is alive and in the table', 'post')
        if self.shared:
            E.emit(And(dom(d), val(d) == r), 'it stays the object of that description', 'post')
            if isinstance(res, Ref):
                E.emit(BoolVal(E.content(res.cell).cls is cls), 'the object has the class asked for', 'post')
            return
        for lab, f in tab.inv():
            E.emit(f, 'afterwards ' + lab, 'invariant')
        E.emit(fa(o, Implies(live(o), Or(entry[2](o), o == r)), live(o)), 'no other object is made', 'frame')
        E.emit(Implies(And(entry[0](d), live(entry[1](d))), r == entry[1](d)), 'the object of that description that is still alive is returned', 'post')
        if isinstance(res, Ref):
            E.emit(BoolVal(E.content(res.cell).cls is cls), 'the object has the class asked for', 'post')


class MakeAtom(Make):
    kind, name = 'Atom', 'Atom.__new__'
    variants = ('Atom(atom_type, value)', 'atom_type(value)')

    def table(self):
        return mods()[0]._all_atoms

    def call(self, E, variant):
        A = mods()[0]
        t, v = Tm(ATYPE, Const('atom_type', ATypeS)), Tm(VAL, Const('value', ValS))
        d = G()['AK'].atom(t.t, v.t)
        if variant == 'atom_type(value)':
            return (lambda: E.call(t, [v], {})), d, A.Atom
        return (lambda: E.call(Con(A.Atom), [t, v], {})), d, A.Atom


class Checked(LoopSpec):
    """A loop over the children: those before the current one are trees."""

    def __init__(self):
        super().__init__('checked children', {}, self.run, kinds=('for',), when=lambda E, fr, itv: self.of(E, itv) is not None)

    @staticmethod
    def of(E, itv):
        try:
            v = itv.get(Const('probe', I))
        except Exception:
            return None
        v = next((x for x in v.items if isinstance(x, Tm) and x.ty == G()['CH']), None) if isinstance(v, TupV) else v
        return v if isinstance(v, Tm) and v.ty == G()['CH'] else None

    def run(self, S):
        th, i = G()['th'], z3.Int('i')
        xs = Const('children', th.S)
        return [('children so far are trees', fa(i, Implies(And(0 <= i, i < S.it), G()['istree'](th.at(xs, i))), th.at(xs, i)))]


class NoSuch(LoopSpec):
    """A loop over objects that are not trees never gets past the first."""

    def __init__(self):
        super().__init__('other objects', {}, lambda S: [('nothing was accepted', S.it == 0)], kinds=('for',), when=self.match)

    @staticmethod
    def match(E, fr, itv):
        try:
            v = itv.get(Const('probe', I))
        except Exception:
            return False
        v = next((x for x in v.items if isinstance(x, Tm) and x.ty == FOREIGN), None) if isinstance(v, TupV) else v
        return isinstance(v, Tm) and v.ty == FOREIGN


class CheckedWhile(LoopSpec):
    def __init__(self):
        super().__init__('checked children', {'i': Role(INT, ('i', 'n', 'index'))}, self.run, kinds=('while',))

    def run(self, S):
        th, i = G()['th'], z3.Int('i')
        xs = S.E.ghost.get('children')
        if xs is None:
            return [('', S.t('i') == 0)]
        return [('index', And(0 <= S.t('i'), S.t('i') <= th.len(xs))), ('children so far are trees', fa(i, Implies(And(0 <= i, i < S.t('i')), G()['istree'](th.at(xs, i))), th.at(xs, i)))]


class MakeTree(Make):
    kind, name = 'Tree', 'Tree.__new__'

    def loopspecs(self):
        return [Checked(), NoSuch(), CheckedWhile()]

    variants = ('any number of trees', 'any objects', 'head(args)', 'two trees', 'another object', 'a tree and another object', 'another object and trees', 'an atom', 'a sequence of other objects', 'a user-level expression', 'None')

    def table(self):
        return mods()[1]._all_trees

    def call(self, E, variant):
        T = mods()[1].Tree
        g = G()
        TO, th = g['TO'], g['th']
        xs, x, y = Const('children', th.S), Const('x', TO.sort), Const('y', TO.sort)
        f = Tm(FOREIGN, Const('another', FOREIGN.sort))
        X, Y = Tm(TO, x), Tm(TO, y)
        i = z3.Int('i')
        all_trees = fa(i, Implies(And(0 <= i, i < th.len(xs)), g['istree'](th.at(xs, i))), th.at(xs, i))
        if variant in ('any objects', 'any number of trees'):
            E.ghost['children'] = xs
        if variant == 'any objects':
            E.ghost['ok'] = all_trees
            return (lambda: E.call(Con(T), [Star(g['CH'], xs)], {})), g['TK'].kid(xs), T
        E.assume(all_trees)
        E.assume(And(g['istree'](x), g['istree'](y)))
        if variant == 'head(args)':
            return (lambda: E.call(X, [Star(TO, xs)], {})), g['TK'].kid(th.cat(th.lit([x]), xs)), T
        args, d = {
            'any number of trees': ([Star(TO, xs)], xs), 'two trees': ([X, Y], th.lit([x, y])),
            'another object': ([f], None), 'a tree and another object': ([X, f], None), 'another object and trees': ([f, X, Y], None),
            'an atom': ([Tm(g['AO'], Const('a', g['AO'].sort))], None), 'None': ([Con(None)], None),
            'a sequence of other objects': ([f, Star(FOREIGN, Const('others', SeqTh(FOREIGN.sort).S))], None),
            'a user-level expression': ([X, Tm(g['SO'], Const('s', g['SO'].sort))], None)}[variant]
        return (lambda: E.call(Con(T), args, {})), None if d is None else g['TK'].kid(d), T


class MakeLeaf(Make):
    kind, name = 'Tree', 'Tree.atom'
    variants = ('Tree.atom(atom)', 'Tr(atom)', 'another object', 'a tree', 'a user-level expression', 'None', 'str', 'Tr(another object)')
    table = MakeTree.table

    def call(self, E, variant):
        m = mods()[1]
        g = G()
        a = Const('a', g['AO'].sort)
        A, f = Tm(g['AO'], a), Tm(FOREIGN, Const('another', FOREIGN.sort))
        v = {'Tree.atom(atom)': A, 'Tr(atom)': A, 'a tree': Tm(g['TO'], Const('t', g['TO'].sort)), 'a user-level expression': Tm(g['SO'], Const('s', g['SO'].sort)),
             'None': Con(None), 'str': Con('x')}.get(variant, f)
        fn = Con(m.Tr) if variant.startswith('Tr(') else E.getattr(Con(m.Tree), 'atom')
        return (lambda: E.call(fn, [v], {})), g['TK'].leaf(a) if v is A else None, m.Tree


class MakeSym(Make):
    kind, name = 'Sym', 'Sym.__new__'
    variants = ('Sym(tree)', 'Expr(tree)', 'subclass(tree)', 'subclass of Expr(tree)', 'another object', 'an atom', 'a user-level expression', 'None', 'int', 'Expr(int)', 'Expr(user-level expression)', 'subclass(another object)')

    def table(self):
        return mods()[2].Sym._all_expressions

    def call(self, E, variant):
        S = mods()[2].Sym
        from protosym.simplecas.expr import Expr
        g = G()
        t = Const('t', TreeS)
        cls = Expr if variant.startswith('Expr') else Sub if variant.startswith('subclass(') else Sub2 if variant.startswith('subclass of') else S
        v = {'another object': Tm(FOREIGN, Const('another', FOREIGN.sort)), 'an atom': Tm(ATOM, Const('a', AtomS)), 'a user-level expression': Tm(g['SO'], Const('s', g['SO'].sort)),
             'Expr(user-level expression)': Tm(SymTy(Expr), t), 'subclass(another object)': Tm(FOREIGN, Const('another', FOREIGN.sort)), 'None': Con(None), 'int': Con(3), 'Expr(int)': Con(3)}.get(variant)
        d = None if v is not None else g['SK'].sym(classterm(cls), t)
        for c in (S, Expr, Sub, Sub2):
            if c is not cls:
                E.assume(classterm(c) != classterm(cls))
        return (lambda: E.call(Con(cls), [v if v is not None else Tm(TREE, t)], {})), d, cls


def _subclasses():
    global Sub, Sub2
    from protosym.core.sym import Sym
    from protosym.simplecas.expr import Expr
    if 'Sub' not in globals():
        Sub = type('Sub', (Sym,), {'__doc__': 'any subclass of Sym'})
        Sub2 = type('Sub2', (Expr,), {'__doc__': 'any subclass of Expr'})


class Identity(CheckTask):
    """== and hash are identity for the canonical classes; nothing makes objects behind the constructors' back."""
    name = 'identity'

    def run(self, E, variant):
        a, t, s = mods()
        from protosym.simplecas.expr import Expr
        for c in (a.AtomType, a.Atom, t.Tree, s.Sym, Expr, s.SymAtomType):
            for m in ('__eq__', '__ne__', '__hash__', '__setattr__', '__getattribute__', '__delattr__'):
                E.emit(BoolVal(getattr(c, m) is getattr(object, m)), f'{c.__name__}.{m} is that of object', 'identity')
        for c in (a.Atom, t.Tree, s.Sym, Expr):
            for m in ('__bool__', '__len__', '__getattr__', '__init__', '__del__'):
                own = next((k.__dict__[m] for k in c.__mro__ if m in k.__dict__ and k is not object), None)
                E.emit(BoolVal(own is None or m == '__init__' and own is object.__init__), f'{c.__name__} has no {m}', 'identity')
        E.emit(BoolVal(len({id(a._all_atoms), id(t._all_trees), id(s.Sym._all_expressions)}) == 3), 'the three tables are separate', 'identity')
        for c in (s.Sym, Expr):
            E.emit(BoolVal(c._all_expressions is s.Sym._all_expressions), f'{c.__name__} uses the one table of user-level expressions', 'identity')


class Parts(CheckTask):
    """The tables are weak; an object holds nothing but its own parts."""
    name = 'weak tables, own parts only'

    def run(self, E, variant):
        import weakref
        a, t, s = mods()
        from protosym.simplecas.expr import Expr
        for n, table in (('atoms', a._all_atoms), ('trees', t._all_trees), ('user-level expressions', s.Sym._all_expressions)):
            E.emit(BoolVal(type(table) is weakref.WeakValueDictionary), f'the table of {n} refers to them weakly', 'frame')
        for c, parts in ((a.Atom, {'__weakref__', 'atom_type', 'value'}), (t.Tree, {'__weakref__', 'value', 'children'})):
            E.emit(BoolVal(set(c.__slots__) == parts and '__dict__' not in dir(c)), f'a {c.__name__} holds nothing but its parts', 'frame')
        for c in (a.Atom, t.Tree, s.Sym, Expr):
            E.emit(BoolVal(not hasattr(c, '__del__')), f'{c.__name__} has no __del__', 'frame')


TABLES = ('_all_atoms', '_all_trees', '_all_expressions')
PARTS = ('children', 'value', 'rep', 'atom_type')


class Ownership(CheckTask):
    """Only the code verified above touches the tables, the parts of the objects, or makes such objects."""
    name = 'ownership of tables and parts'

    def run(self, E, variant):
        import ast
        from ..contract import explore_task
        from .. import src
        a, t, s = mods()
        verified = set()
        cons = [Only(c) for c in __import__('pv.specs.canon', fromlist=['x']).constructors()]
        for task in (MakeAtom(), MakeTree(), MakeLeaf(), MakeSym()):
            for v in task.variants:
                verified |= set(explore_task(task, v, cons)['inlined'])
        canonical = {'Atom', 'Tree', 'Sym', 'Expr', 'AtomType'}
        for fname, qual, cls, node in src.functions():
            if qual in verified:
                continue
            problems = []
            own = cls is None or cls in canonical
            for n in ast.walk(node):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    nm = n.id if isinstance(n, ast.Name) else n.attr
                    if nm in TABLES:
                        problems.append(f'uses {nm} in line {n.lineno}')
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in PARTS:
                    if own or not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'obj')):
                        problems.append(f'stores .{n.attr} in line {n.lineno}')
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    if nm in ('setattr', 'delattr', '__setattr__', '__delattr__'):
                        problems.append(f'{nm} in line {n.lineno}')
                    if nm == '__new__' and (own or any(isinstance(x, ast.Name) and x.id in canonical for x in n.args)):
                        problems.append(f'__new__ in line {n.lineno}')
            E.emit(BoolVal(not problems), f'{qual} leaves the tables and the parts of objects alone' + (': ' + '; '.join(problems) if problems else ''), 'frame')


# ---- user-level access, over canonical trees ----------------------------------------------
class SymArgs(CheckTask):
    name = 'Sym: head, args, atoms'
    variants = ('head', 'args', 'SymAtomType', 'new_wild', 'Tree.children')

    def run(self, E, variant):
        a, t, s = mods()
        from protosym.simplecas.expr import Expr
        _subclasses()
        x = Const('x', TreeS)
        for cls in (s.Sym, Expr, Sub):
            ty = SymTy(cls)
            X = Tm(ty, x)
            E.raises = ()
            if variant == 'head':
                E.assume(Not(isatom(x)))
                E.emit(E.term(E.getattr(X, 'head'), ty) == head(x), f'{cls.__name__}.head is the first child', 'post')
            if variant == 'args':
                E.assume(Not(isatom(x)))
                r = E.getattr(X, 'args')
                i = z3.Int('i')
                rs = E.term(r, SeqTy(ty))
                E.emit(TS.len(rs) == TS.len(kids(x)) - 1, f'{cls.__name__}.args has one entry per argument', 'post')
                E.emit(fa(i, Implies(And(0 <= i, i < TS.len(rs)), TS.at(rs, i) == TS.at(kids(x), i + 1)), TS.at(rs, i)), f'{cls.__name__}.args are the arguments in order', 'post')
            if variant == 'SymAtomType':
                at = Const('at', ATypeS)
                o = E.alloc(ObjC(s.SymAtomType, {'name': Con('N'), 'sym': Con(cls), 'atom_type': Tm(ATYPE, at)}))
                v = Const('v', ValS)
                E.emit(E.term(E.call(o, [Tm(VAL, v)], {}), ty) == mkleaf(mkatom(at, v)), f'an atom type of {cls.__name__} makes the atom', 'post')
                o2 = E.call(E.getattr(Con(cls), 'new_atom'), [Con('N'), Con(str)], {})
                ok = isinstance(o2, Ref) and E.content(o2.cell).cls is s.SymAtomType
                E.emit(BoolVal(ok), f'{cls.__name__}.new_atom makes an atom type', 'post')
                if ok:
                    fs = E.content(o2.cell).fields
                    E.emit(BoolVal(isinstance(fs.get('sym'), Con) and fs['sym'].obj is cls), f'of {cls.__name__}', 'post')
                    at2 = fs.get('atom_type')
                    E.emit(BoolVal(isinstance(at2, Ref) and E.content(at2.cell).cls is a.AtomType), 'with an atom type of its own', 'post')
            if variant == 'new_wild':
                v = Const('n', StrS)
                E.emit(E.term(E.call(E.getattr(Con(cls), 'new_wild'), [Tm(STR, v)], {}), ty) == mkleaf(mkatom(E.conc_atype(s.Wild), vstr(v))), f'{cls.__name__}.new_wild makes the wild atom', 'post')
            if variant == 'Tree.children':
                E.emit(E.term(E.getattr(X, 'rep'), TREE) == x, f'{cls.__name__}.rep', 'post')


def tasks():
    _subclasses()
    return [MakeAtom(), MakeTree(), MakeLeaf(), MakeSym(), Identity(), Ownership()]


def tasks2():
    return [SymArgs()]


class Only(Contract):
    """A constructor's contract where objects are their descriptions; its body where the tables are modelled."""

    def __init__(self, c):
        self.c, self.target, self.name = c, c.target, c.name
        super().__init__()

    def apply(self, E, o, args, kwargs):
        if E.weak:
            return E.call_fn(o, args, kwargs)
        return self.c.apply(E, o, args, kwargs)


# ---- C22: the same constructors while other threads run ---------------------------------
def share(task):
    task.shared = True
    task.name += ' among threads'
    return task


class OneLock(CheckTask):
    """All changes of one table hold one common lock, an object that existed before."""
    name = 'one lock per table'

    def run(self, E, variant):
        from ..contract import explore_task
        RECORD.clear()
        cons = [Only(c) for c in __import__('pv.specs.canon', fromlist=['x']).constructors()]
        for task in shared_tasks():
            for v in task.variants:
                explore_task(task, v, cons)
        for kind in ('Atom', 'Tree', 'Sym'):
            sets = [ls for k, ls in RECORD if k == kind]
            common = [l for l in (sets[0] if sets else ()) if all(any(x is l for x in ls) for ls in sets)]
            E.emit(BoolVal(bool(sets)), f'the table of {kind} objects is filled', 'guarantee')
            E.emit(BoolVal(bool(common)), f'one lock is held at every change of the table of {kind} objects', 'guarantee')


class Agree(LemmaTask):
    """Two threads that hold objects of one description hold the same object."""
    name = 'two threads agree'
    variants = ('Atom', 'Tree', 'Sym')

    def obligations(self, variant):
        from ..execu import Exec
        E = Exec({}, None)
        tab = Table(E, variant, None, True)
        p, q = Const('p', tab.oty.sort), Const('q', tab.oty.sort)
        live = tab.state[2]
        hy = [f for _, f in tab.inv()] + [live(p), live(q), tab.desc(p) == tab.desc(q)]
        return [(f'two {variant} objects of one description that are alive are one object', hy, p == q)]


def shared_tasks():
    _subclasses()
    return [share(MakeAtom()), share(MakeTree()), share(MakeLeaf()), share(MakeSym())]


def thread_tasks():
    return shared_tasks() + [OneLock(), Agree(), Identity(), Ownership()]
