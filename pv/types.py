"""Engine types (each has an SMT sort) and engine values."""
from __future__ import annotations
import z3
from . import smt
from .smt import SeqTh, TreeS, AtomS, ATypeS, ValS, StrS, I, B


class Unsupported(Exception):
    """The construct is outside the verified subset (never treated as success)."""


class Ty:
    container = False

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class PTy(Ty):
    def __init__(self, name, sort, pycls=None):
        self.name, self.sort, self.pycls = name, sort, pycls


INT = PTy('int', I, int)
BOOL = PTy('bool', B, bool)
STR = PTy('str', StrS, str)
TREE = PTy('Tree', TreeS)
ATOM = PTy('Atom', AtomS)
ATYPE = PTy('AtomType', ATypeS)
VAL = PTy('PyVal', ValS)


class OpaqueTy(Ty):
    """An uninterpreted Python value; `pycls` its real class if it has one."""

    def __init__(self, name, pycls=None, sort=None, handlers=None, foreign=False, nullable=False):
        self.name = name
        self.nullable = nullable          # may be None
        self.sort = sort if sort is not None else z3.DeclareSort(name)
        self.pycls = pycls
        self.handlers = handlers or {}
        self.foreign = foreign


class FnTy(Ty):
    """An unknown pure callable returning `res`."""

    def __init__(self, res):
        self.res = res
        self.name = f'Fn<{res.name}>'
        self.sort = z3.DeclareSort(self.name)


class SymTy(Ty):
    """Instances of a Sym subclass; determined by their tree (property C01)."""

    def __init__(self, cls):
        self.cls = cls
        self.name = f'Sym:{cls.__qualname__}'
        self.sort = TreeS


class TupTy(Ty):
    def __init__(self, *ts):
        self.ts = ts
        self.name = '(' + ','.join(t.name for t in ts) + ')'
        self.sort, self.con, self.acc = smt.tupsort([t.sort for t in ts])
        self.container = any(t.container for t in ts)


class SeqTy(Ty):
    """Immutable tuple of unknown length."""

    def __init__(self, t):
        self.t = t
        self.th = SeqTh(t.sort)
        self.sort = self.th.S
        self.name = f'tuple<{t.name}>'
        self.container = t.container


class ListTy(Ty):
    container = True

    def __init__(self, t):
        self.t = t
        self.th = SeqTh(t.sort)
        self.sort = self.th.S
        self.name = f'list<{t.name}>'


class SetTy(Ty):
    container = True

    def __init__(self, t):
        self.t = t
        self.sort = z3.ArraySort(t.sort, B)
        self.name = f'set<{t.name}>'


class DictTy(Ty):
    container = True

    def __init__(self, k, v):
        self.k, self.v = k, v
        self.sort, self.con, self.dom, self.val = smt.dictsort(k.sort, v.sort)
        self.name = f'dict<{k.name},{v.name}>'


class OptTy(Ty):
    def __init__(self, t):
        self.t = t
        self.D = smt.optsort(t.sort)
        self.sort = self.D
        self.name = f'opt<{t.name}>'


class NoneTyC(Ty):
    name = 'None'
    sort = None


NONE = NoneTyC()


class EmptyTy(Ty):
    """Element type of a list/set/dict nothing was put into yet."""
    name = '?'
    sort = None


EMPTY = EmptyTy()


class ConstTy(Ty):
    def __init__(self, obj):
        self.obj = obj
        self.name = f'const@{id(obj)}'
        self.sort = None


def join(a, b):
    """Least common engine type or None."""
    if a == b:
        return a
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    L, S_, D, T = (ListTy, ListTy2), (SetTy, SetTy2), (DictTy, DictTy2), (TupTy, TupTy2)
    if isinstance(a, L) and isinstance(b, L):
        t = join(a.t, b.t)
        return ListTy2(t) if t is not None else None
    if isinstance(a, S_) and isinstance(b, S_):
        t = join(a.t, b.t)
        return SetTy2(t) if t is not None else None
    if isinstance(a, D) and isinstance(b, D):
        k, v = join(a.k, b.k), join(a.v, b.v)
        return DictTy2(k, v) if k is not None and v is not None else None
    if isinstance(a, T) and isinstance(b, T) and len(a.ts) == len(b.ts):
        ts = [join(x, y) for x, y in zip(a.ts, b.ts)]
        return TupTy2(ts) if all(t is not None for t in ts) else None
    if isinstance(a, SeqTy) and isinstance(b, T) or isinstance(b, SeqTy) and isinstance(a, T):
        s, o = (a, b) if isinstance(a, SeqTy) else (b, a)
        if all(join(x, s.t) is not None and (concretise(join(x, s.t)) == s.t) for x in o.ts):
            return s
        return None
    if {a.name, b.name} == {'int', 'bool'}:
        return INT
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        return o if isinstance(o, OptTy) else (OptTy(o) if o.sort is not None else None)
    if isinstance(a, OptTy) or isinstance(b, OptTy):
        ta = a.t if isinstance(a, OptTy) else a
        tb = b.t if isinstance(b, OptTy) else b
        t = join(ta, tb)
        return OptTy(t) if t is not None and t.sort is not None else None
    return None


# Types that may still contain EMPTY (no SMT sort yet)
class ListTy2(Ty):
    def __init__(self, t):
        self.t, self.name = t, f'list<{t.name}>'


class SetTy2(Ty):
    def __init__(self, t):
        self.t, self.name = t, f'set<{t.name}>'


class DictTy2(Ty):
    def __init__(self, k, v):
        self.k, self.v, self.name = k, v, f'dict<{k.name},{v.name}>'


class TupTy2(Ty):
    def __init__(self, ts):
        self.ts, self.name = list(ts), '(' + ','.join(t.name for t in ts) + ')'


def concretise(t):
    """Partial type -> SMT-sorted type, or None while an element type is open."""
    if t is None or t is EMPTY:
        return None
    if isinstance(t, ListTy2):
        u = concretise(t.t)
        return ListTy(u) if u is not None and u.sort is not None else None
    if isinstance(t, SetTy2):
        u = concretise(t.t)
        return SetTy(u) if u is not None and u.sort is not None else None
    if isinstance(t, DictTy2):
        k, v = concretise(t.k), concretise(t.v)
        return DictTy(k, v) if None not in (k, v) and None not in (k.sort, v.sort) else None
    if isinstance(t, TupTy2):
        ts = [concretise(x) for x in t.ts]
        return TupTy(*ts) if all(x is not None and x.sort is not None for x in ts) else None
    return t


# ---- values --------------------------------------------------------------
class V:
    pass


class Con(V):
    """A concrete, real Python object of the imported program."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return f'Con({self.obj!r})'[:80]


class Tm(V):
    """An immutable symbolic value."""
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return f'Tm({self.ty},{self.t})'[:120]


class StrV(V):
    """Symbolic string: concatenation of literal and symbolic parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)


class TupV(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'TupV{self.items}'


class Ref(V):
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return f'Ref({self.cell})'


class Clo(V):
    """A function value defined inside interpreted code."""
    __slots__ = ('node', 'frame', 'glob', 'defaults', 'kwdefaults', 'name')

    def __init__(self, node, frame, glob, defaults, kwdefaults, name):
        self.node, self.frame, self.glob = node, frame, glob
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name


class Bound(V):
    """func bound to self (func is an engine value or a ('m', name) builtin method)."""
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class IterV(V):
    """A finite iterable: length term, i -> value; base = underlying seq terms."""
    __slots__ = ('n', 'get', 'base', 'ty', 'live', 'made')

    def __init__(self, n, get, base=(), ty=None, live=()):
        self.n, self.get, self.base, self.ty = n, get, tuple(base), ty
        self.live = tuple(live)     # cells of the containers read during the iteration
        self.made = None            # an iterator (it can be run through once): where it was made


class Undef(V):
    def __init__(self, why):
        self.why = why


class SuperV(V):
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# ---- heap contents (immutable records) -----------------------------------
class ListL:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class ListC:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class SetC:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class DictC:
    __slots__ = ('k', 'v', 'dom', 'val', 'keys')

    def __init__(self, k, v, dom, val, keys=None):
        self.k, self.v, self.dom, self.val, self.keys = k, v, dom, val, keys


class DictL:
    """Dictionary with concretely known string/const keys (kwargs, object dicts)."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class ObjC:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)


class Fwd:
    """The list/set lives inside another container (moved there)."""
    __slots__ = ('parent', 'path', 'epoch')

    def __init__(self, parent, path, epoch):
        self.parent, self.path, self.epoch = parent, tuple(path), epoch


class PyExc(Exception):
    """An exception raised by interpreted code."""

    def __init__(self, cls, why='', value=None):
        self.cls, self.why, self.value = cls, why, value


class PathEnd(Exception):
    """This path needs no further exploration (loop back edge, infeasible)."""


class Restart(Exception):
    """Loop havoc sets grew: start exploration again."""
