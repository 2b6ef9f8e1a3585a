"""Symbolic interpreter of the verified Python subset (path exploration by replay)."""
from __future__ import annotations
import ast, time, builtins, types as pytypes, itertools, weakref, operator, functools
import z3
from . import smt, src
from .smt import (And, Or, Not, Implies, If, BoolVal, IntVal, Const, Function, SeqTh, TS, fa,
                  kids, mk, isatom, aval, mkleaf, atype, avalue, mkatom, TreeS, AtomS, ATypeS, ValS, StrS, I, B)
from .types import *
from .types import Unsupported

import protosym.core.atom as _patom
import protosym.core.tree as _ptree
import protosym.core.sym as _psym

PyTree, PyAtom, PyAType, PySym = _ptree.Tree, _patom.Atom, _patom.AtomType, _psym.Sym
TREE.pycls, ATOM.pycls, ATYPE.pycls = PyTree, PyAtom, PyAType
REAL = PTy('real', z3.RealSort(), float)

vint = Function('vint', I, ValS)
vstr = Function('vstr', StrS, ValS)
ival = Function('ival', ValS, I)
sval = Function('sval', ValS, StrS)
_n, _st = z3.Int('n'), Const('st', StrS)
smt.AX.add('vint', fa(_n, ival(vint(_n)) == _n, vint(_n)))
smt.AX.add('vstr', fa(_st, sval(vstr(_st)) == _st, vstr(_st)))
smt.AX.add('vint', fa([_n, _st], vint(_n) != vstr(_st), (vint(_n), vstr(_st))))

REPO = _ptree.__file__.rsplit('/protosym/', 1)[0] + '/protosym/'


LIBRARY = {}       # id of a library object -> its type in the logic


def lock_op(name):
    def acquire(E, v, args, kw):
        if args or kw:
            raise Unsupported('acquire with a timeout')
        for w in list(E.weak.values()):
            w.waited(E)         # until the lock was free other threads ran
        E.locks = E.locks + (v.obj,)
        return Con(True)

    def release(E, v, args, kw):
        if not any(x is v.obj for x in E.locks):
            raise PyExc(RuntimeError, 'release of a lock that is not held')
        n = max(i for i, x in enumerate(E.locks) if x is v.obj)
        E.locks = E.locks[:n] + E.locks[n + 1:]
        return Con(None)
    return acquire if name == 'acquire' else release


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class NotConcrete(Exception):
    pass


class Frame:
    __slots__ = ('vars', 'glob', 'parent', 'locals', 'fn', 'name', 'cls', 'closure', 'loops', 'file')

    def __init__(self, name, glob, parent=None, locals_=(), closure=None, cls=None, file=''):
        self.name, self.glob, self.parent = name, glob, parent
        self.vars, self.locals = {}, set(locals_)
        self.closure = closure or {}
        self.cls = cls
        self.loops = []
        self.file = file


class Star:
    """A *seq argument of symbolic length at a call site (seq term + element type)."""

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class Obl:
    __slots__ = ('hyps', 'goal', 'label', 'where', 'kind')

    def __init__(self, hyps, goal, label, where, kind):
        self.hyps, self.goal, self.label, self.where, self.kind = hyps, goal, label, where, kind


class Hidden:
    """The contents of a collection while it is being filled by a loop read as a comprehension."""


class LoopInfo:
    def __init__(self):
        self.vars = {}       # name -> Ty or None (undefined at head)
        self.cells = {}      # (cell, path or None) -> partial type for whole cells
        self.given = frozenset()      # older containers given to a rule in the loop
        self.order = 0


class LoopState:
    """What an invariant sees."""

    def __init__(self, E, roles, frame, it=None, n=None, itv=None, outer=None, entry=None, spec=None):
        self.E, self.roles, self.frame = E, roles, frame
        self.it, self.n, self.itv, self.outer, self.entry, self.spec = it, n, itv, outer, entry, spec
        self.a = E.ctx

    def v(self, role):
        r = self.roles[role]
        return self.frame_of(role).vars[r] if isinstance(r, str) else r

    def frame_of(self, role):
        return self.frame

    def t(self, role):
        """Current contents of a role as a term of its declared type."""
        return self.E.term(self.v(role), self.spec.roles[role].ty)

    def find(self, specname):
        s = self
        while s is not None:
            if s.spec is not None and s.spec.name == specname:
                return s
            s = s.outer
        return None


class Role:
    def __init__(self, ty, names=(), mod=True, optional=False):
        self.ty, self.names, self.mod, self.optional = ty, names, mod, optional


class LoopSpec:
    """Invariant for a loop, found by the roles (names, then types) of its variables."""
    measure = None       # state -> [Int]: decreases lexicographically in every iteration of a while loop
    counting = None      # (state, ghost counters) -> [(label, formula)]

    def __init__(self, name, roles, inv, when=None, kinds=('for', 'while', 'comp')):
        self.name, self.roles, self.inv, self.when, self.kinds = name, roles, inv, when, kinds


MISSING = object()


class Engine:
    MAX_PATHS = 4000

    def __init__(self, registry, task=None):
        self.registry = registry          # id(function) -> Contract
        self.task = task
        self.ctx = None                   # bound arguments of the contract under verification
        self.loopspecs = []
        self.loopinfo = {}
        self.obls = {}
        self.raises = ()
        self.calls_used = set()
        self.inlined = set()
        self.trusted = set()
        self.feas_cache = {}
        self.npaths = 0
        self.in_call_contract = 0
        self.allow_recursion = set()
        self.weak = {}          # id of a weak table -> its logical model (C01)
        self.conc_overlay = {}
        self.t_limit = float('inf')
        self.notes = set()
        self.reset(())

    # ---- path management --------------------------------------------------
    def reset(self, prefix):
        self.dec, self.dpos, self.alts = list(prefix), 0, []
        self.pc = []            # (kind, formula); kind 'd' decision, 'f' fact
        self.heap = {}
        self.epoch = {}
        self.created = {}
        self.ncell = 0
        self.ctr = {}
        self.binders = []
        self.frames = []
        self.handlers = []
        self.loopstack = []
        self.writes = None
        self.clock = 0
        self.pre_cells = {}
        self.callstack = []
        self.loc = ''
        self.ghost = {}
        self.weak = {}
        self.locks = ()         # locks held, in order
        self.consumed = ()      # iterators already run through
        self.given = frozenset()      # containers given to a rule, which may keep them
        self.loopseq = 0
        self.counters = {n: IntVal(0) for n in getattr(self.task, 'counters', ())}
        self.maxdepth = 0
        self.raising = 0

    def explore(self, thunk):
        for attempt in range(60):
            self.obls, self.outcomes = {}, []
            self.npaths = 0
            work = [()]
            try:
                while work:
                    prefix = work.pop()
                    self.reset(prefix)
                    self.npaths += 1
                    if time.time() > self.t_limit or smt.LATE():
                        raise Unsupported('exploration takes too long')
                    if self.npaths > self.MAX_PATHS:
                        raise Unsupported('too many paths')
                    try:
                        thunk()
                    except PathEnd:
                        pass
                    work.extend(self.alts)
                return
            except Restart:
                continue
        raise Unsupported('loop analysis does not converge')

    def tick(self, name):
        """Ghost counters (see LoopSpec.counting and map_outs for loops)."""
        if name in self.counters:
            self.counters[name] = z3.simplify(self.counters[name] + 1)

    def choose(self, n):
        if self.dpos < len(self.dec):
            k = self.dec[self.dpos]
        else:
            k = 0
            for alt in range(1, n):
                self.alts.append(tuple(self.dec[:self.dpos]) + (alt,))
            self.dec.append(0)
        self.dpos += 1
        return k

    def hyps(self):
        return [f for _, f in self.pc]

    def assume(self, f, kind='f'):
        if f is True or z3.is_true(f):
            return
        if f is False:
            f = BoolVal(False)
        self.pc.append((kind, f))

    def emit(self, goal, label, kind='post'):
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            goal = BoolVal(True)
        if goal is False:
            goal = BoolVal(False)
        inner = goal.body() if z3.is_quantifier(goal) else goal
        if z3.is_app(inner) and inner.decl().name().startswith('touch:'):
            return          # a term made visible to the solver, not a statement
        hy = self.hyps()
        key = (tuple(h.get_id() for h in hy), goal.get_id(), label)
        if key not in self.obls:
            self.obls[key] = Obl(hy, goal, label, self.loc, kind)

    def feasible(self, cond):
        """Could cond hold here?  (quick; unknown counts as yes)"""
        hy = self.hyps()
        key = (tuple(h.get_id() for h in hy), cond.get_id())
        if key not in self.feas_cache:
            st = smt.quick_unsat(hy + [cond])
            self.feas_cache[key] = (not st, hy, cond)   # keep terms alive
        return self.feas_cache[key][0]

    def valid(self, cond):
        if cond is True or z3.is_true(cond):
            return True
        return not self.feasible(Not(cond))

    def branch(self, cond):
        """Decide a condition; explores both ways when both are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if time.time() > self.t_limit or smt.LATE():
            raise Unsupported('exploration takes too long')
        t, f = self.feasible(cond), self.feasible(Not(cond))
        if t and not f:
            self.assume(cond, 'f')
            return True
        if f and not t:
            self.assume(Not(cond), 'f')
            return False
        if not t and not f:
            raise PathEnd()
        k = self.choose(2)
        if k == 0:
            self.assume(cond, 'd')
            return True
        self.assume(Not(cond), 'd')
        return False

    def catchable(self, exc):
        for hs in self.handlers:
            if any(issubclass(exc, h) or issubclass(h, exc) for h in hs):
                return True
        return any(issubclass(exc, c) for c in self.raises)

    def require(self, cond, exc, label):
        """cond must hold, else Python raises exc."""
        if isinstance(cond, bool):
            if cond:
                return
            raise PyExc(exc, label)
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond):
            return
        if self.catchable(exc):
            if not self.branch(cond):
                raise PyExc(exc, label)
            return
        self.emit(cond, label, 'safety')
        self.assume(cond)

    def name(self, base):
        n = self.ctr.get(base, 0)
        self.ctr[base] = n + 1
        return f'{base}!{n}'

    def fresh(self, base, sort):
        nm = self.name(base)
        if self.binders:
            return Function(nm, *[b.sort() for b in self.binders], sort)(*self.binders)
        return Const(nm, sort)

    # ---- cells ---------------------------------------------------------------
    def alloc(self, rec):
        c = self.ncell = self.ncell + 1
        self.heap[c] = rec
        self.epoch[c] = 0
        self.clock += 1
        self.created[c] = self.clock
        return Ref(c)

    def content(self, cell):
        rec = self.heap[cell]
        if isinstance(rec, Fwd):
            ty, t = self.resolve(cell)
            return self.mkrec(ty, t)
        if isinstance(rec, Hidden):
            raise Unsupported('a collection is read while a loop fills it')
        return rec

    def resolve(self, cell):
        """(type, term) of a forwarded list/set/dict."""
        rec = self.heap[cell]
        if self.epoch[rec.parent] != rec.epoch:
            raise Unsupported('use of a list through an outdated alias')
        prec = self.heap[rec.parent]
        if isinstance(prec, Fwd):
            ty, t = self.resolve(rec.parent)
        else:
            ty, t = self.rec_type_term(prec)
        for p in rec.path:
            ty, t = self.step(ty, t, p)
        return ty, t

    def step(self, ty, t, p):
        if p[0] == 'i':
            return ty.t, ty.th.at(t, p[1])
        if p[0] == 'c':
            return ty.ts[p[1]], ty.acc[p[1]](t)
        if p[0] == 'k':
            return ty.v, z3.Select(ty.val(t), p[1])
        raise Unsupported('path')

    def setpath(self, ty, t, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        st, sv = self.step(ty, t, p)
        inner = self.setpath(st, sv, rest, new)
        if p[0] == 'i':
            return ty.th.upd(t, p[1], inner)
        if p[0] == 'c':
            return ty.con(*[inner if n == p[1] else ty.acc[n](t) for n in range(len(ty.ts))])
        return ty.con(ty.dom(t), z3.Store(ty.val(t), p[1], inner))

    def rec_type_term(self, rec):
        if isinstance(rec, ListC):
            return ListTy(rec.ty), rec.t
        if isinstance(rec, SetC):
            return SetTy(rec.ty), rec.t
        if isinstance(rec, DictC):
            d = DictTy(rec.k, rec.v)
            return d, d.con(rec.dom, rec.val)
        raise Unsupported(f'alias into {type(rec).__name__}')

    def mkrec(self, ty, t):
        if isinstance(ty, ListTy):
            return ListC(ty.t, t)
        if isinstance(ty, SetTy):
            return SetC(ty.t, t)
        if isinstance(ty, DictTy):
            return DictC(ty.k, ty.v, ty.dom(t), ty.val(t))
        raise Unsupported(f'no container {ty}')

    def write(self, cell, rec, shift=False):
        """Replace the contents of a cell; shift: element positions may change."""
        old = self.heap[cell]
        if cell in self.given:
            self.given -= {cell}
            self.emit(BoolVal(False), 'a list given to a rule is not changed afterwards', 'frame')
        if isinstance(old, Fwd):
            ty, _ = self.resolve(cell)
            nty, t = self.rec_type_term(self.listc(rec, ty))
            if nty != ty:
                raise Unsupported(f'element type changes {ty} -> {nty}')
            root, path = cell, ()
            while isinstance(self.heap[root], Fwd):
                f = self.heap[root]
                path = f.path + path
                root = f.parent
            rty, rt = self.rec_type_term(self.heap[root])
            self.heap[root] = self.mkrec(rty, self.setpath(rty, rt, path, t))
            self.clock += 1
            self.log_write(root, path, self.created[cell])
            return
        self.heap[cell] = rec
        if shift:
            self.epoch[cell] += 1
        self.clock += 1
        self.log_write(cell, None, None)

    def log_write(self, cell, path, acreated):
        if self.writes is not None:
            self.writes.append((cell, path, acreated))

    def listc(self, rec, ty):
        """Coerce a literal record to the symbolic record of type ty."""
        if isinstance(rec, (ListC, SetC, DictC)):
            return rec
        if isinstance(rec, ListL) and isinstance(ty, ListTy):
            return ListC(ty.t, ty.th.lit([self.term(x, ty.t) for x in rec.items]))
        if isinstance(rec, DictL) and isinstance(ty, DictTy):
            dom = z3.K(ty.k.sort, BoolVal(False))
            val = self.fresh('d', z3.ArraySort(ty.k.sort, ty.v.sort))
            for k, v in rec.items:
                kt = self.term(k, ty.k)
                dom, val = z3.Store(dom, kt, BoolVal(True)), z3.Store(val, kt, self.term(v, ty.v))
            return DictC(ty.k, ty.v, dom, val)
        raise Unsupported(f'cannot view {type(rec).__name__} as {ty}')

    # ---- types and terms ---------------------------------------------------
    def typeof(self, v):
        if isinstance(v, Tm):
            return v.ty
        if isinstance(v, StrV):
            return STR
        if isinstance(v, TupV):
            return TupTy2([self.typeof(x) for x in v.items])
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ListC):
                return ListTy(r.ty)
            if isinstance(r, SetC):
                return SetTy(r.ty) if r.ty is not EMPTY else SetTy2(EMPTY)
            if isinstance(r, DictC):
                return DictTy(r.k, r.v)
            if isinstance(r, ListL):
                t = EMPTY
                for x in r.items:
                    t = join(t, self.typeof(x))
                    if t is None:
                        return ListTy2(ConstTy(r))
                return ListTy2(t)
            if isinstance(r, DictL):
                k = v2 = EMPTY
                for x, y in r.items:
                    k, v2 = join(k, self.typeof(x)), join(v2, self.typeof(y))
                    if k is None or v2 is None:
                        return DictTy2(ConstTy(r), ConstTy(r))
                return DictTy2(k, v2)
            if isinstance(r, ObjC):
                return ConstTy(r)
        if isinstance(v, Con):
            o = v.obj
            if o is None:
                return NONE
            if type(o) is bool:
                return BOOL
            if type(o) is int:
                return INT
            if type(o) is str:
                return STR
            if type(o) is float:
                return REAL
            if isinstance(o, PyTree):
                return TREE
            if isinstance(o, PyAtom):
                return ATOM
            if isinstance(o, PyAType):
                return ATYPE
            if isinstance(o, PySym):
                return SymTy(type(o))
            if type(o) is tuple:
                return TupTy2([self.typeof(Con(x)) for x in o])
            if id(o) in LIBRARY:
                return LIBRARY[id(o)]
            return ConstTy(o)
        return ConstTy(v)

    def ctype(self, v):
        t = concretise(self.typeof(v))
        if t is None or t.sort is None:
            return None
        return t

    def strconst(self, s):
        nm = 'S! ' + repr(s)
        c = Const(nm, StrS)
        return c

    def strterm(self, parts):
        parts = [p for p in parts]
        if not parts:
            return self.strconst('')
        if len(parts) == 1 and isinstance(parts[0], str):
            return self.strconst(parts[0])
        if len(parts) == 1:
            return parts[0]
        skel, args = '', []
        for p in parts:
            if isinstance(p, str):
                skel += p.replace('\\', '\\\\').replace('#', '\\#')
            else:
                skel += '#'
                args.append(p)
        return strfun(skel, len(args))(*args)

    def conc_atype(self, o):
        nm = f'AT!{o.name}!{self.ident(o)}'
        return Const(nm, ATypeS)

    _idents = {}

    def ident(self, o):
        d = Engine._idents
        if id(o) not in d:
            d[id(o)] = (len(d), o)
        return d[id(o)][0]

    def conc_val(self, o):
        if type(o) in (int, bool):
            return vint(IntVal(int(o)))
        if type(o) is str:
            return vstr(self.strconst(o))
        return Const(f'PV!{self.ident(o)}', ValS)

    def conc_atom(self, o):
        return mkatom(self.conc_atype(o.atom_type), self.conc_val(o.value))

    def conc_tree(self, o):
        key = self.ident(o)
        nm = f'T!{tree_label(o)}!{key}'
        c = Const(nm, TreeS)
        if nm not in smt.AX.by_symbol:
            smt.AX.by_symbol[nm] = []
            if not o.children:
                smt.AX.add(nm, And(isatom(c), aval(c) == self.conc_atom(o.value), mkleaf(self.conc_atom(o.value)) == c))
            else:
                cs = [self.conc_tree(x) for x in o.children]
                lit = TS.lit(cs)
                smt.AX.add(nm, And(Not(isatom(c)), kids(c) == lit, mk(lit) == c, TS.len(kids(c)) == len(cs),
                                   *[TS.at(kids(c), n) == x for n, x in enumerate(cs)]))
        return c

    def term(self, v, ty):
        """Value -> SMT term of the given type (a pure view; aliases stay)."""
        if isinstance(v, Tm):
            if v.ty == ty or (v.ty.sort is not None and v.ty.sort == ty.sort and isinstance(v.ty, (SymTy,)) and isinstance(ty, SymTy) and issubclass(v.ty.cls, ty.cls)):
                return v.t
            if ty == INT and v.ty == BOOL:
                return If(v.t, IntVal(1), IntVal(0))
            if ty == REAL and v.ty == INT:
                return z3.ToReal(v.t)
            if ty == VAL and v.ty in (INT, BOOL):
                return vint(self.term(v, INT))
            if ty == VAL and v.ty == STR:
                return vstr(v.t)
            if isinstance(v.ty, SeqTy) and isinstance(ty, SeqTy) and v.ty.t.sort == ty.t.sort and isinstance(v.ty.t, SymTy) and isinstance(ty.t, SymTy):
                return v.t
            if isinstance(ty, OptTy) and not isinstance(v.ty, OptTy):
                return ty.D.constructor(1)(self.term(v, ty.t))
            if isinstance(ty, ListTy) and isinstance(v.ty, SeqTy) and ty.t == v.ty.t:
                raise Unsupported('tuple used as list')
            inj = getattr(ty, 'inject', None)
            if inj is not None:
                r = inj(self, v)
                if r is not None:
                    return r
            raise Unsupported(f'{v.ty} used as {ty}')
        if isinstance(ty, OptTy):
            if isinstance(v, Con) and v.obj is None:
                return ty.D.constructor(0)()
            return ty.D.constructor(1)(self.term(v, ty.t))
        inj = getattr(ty, 'inject', None)
        if inj is not None:
            r = inj(self, v)
            if r is not None:
                return r
        if isinstance(v, StrV):
            if ty == STR:
                return self.strterm(v.parts)
            if ty == VAL:
                return vstr(self.strterm(v.parts))
        if isinstance(v, Con):
            o = v.obj
            if ty == BOOL and type(o) is bool:
                return BoolVal(o)
            if ty == INT and type(o) in (int, bool):
                return IntVal(int(o))
            if ty == REAL and type(o) in (int, float, bool):
                return z3.RealVal(repr(o) if type(o) is float else int(o))
            if ty == STR and type(o) is str:
                return self.strconst(o)
            if ty == TREE and isinstance(o, PyTree):
                return self.conc_tree(o)
            if ty == ATOM and isinstance(o, PyAtom):
                return self.conc_atom(o)
            if ty == ATYPE and isinstance(o, PyAType):
                return self.conc_atype(o)
            if ty == VAL:
                return self.conc_val(o)
            if isinstance(ty, SymTy) and isinstance(o, ty.cls):
                return self.conc_tree(o.rep)
            if isinstance(ty, TupTy) and type(o) is tuple and len(o) == len(ty.ts):
                return ty.con(*[self.term(Con(x), t) for x, t in zip(o, ty.ts)])
            if isinstance(ty, SeqTy) and type(o) is tuple:
                return ty.th.lit([self.term(Con(x), ty.t) for x in o])
            if isinstance(ty, SetTy) and type(o) in (set, frozenset):
                r = z3.K(ty.t.sort, BoolVal(False))
                for x in o:
                    r = z3.Store(r, self.term(Con(x), ty.t), BoolVal(True))
                return r
            if isinstance(ty, DictTy) and type(o) is dict:
                return self.rec_type_term(self.listc(DictL([(Con(k), Con(x)) for k, x in o.items()]), ty))[1]
            if isinstance(ty, (FnTy, OpaqueTy)) and not isinstance(o, (int, str, tuple, list, dict)) and o is not None:
                return Const(f'K!{ty.name}!{self.ident(o)}', ty.sort)
            raise Unsupported(f'{type(o).__name__} constant used as {ty}')
        if isinstance(v, TupV):
            if isinstance(ty, TupTy) and len(v.items) == len(ty.ts):
                return ty.con(*[self.term(x, t) for x, t in zip(v.items, ty.ts)])
            if isinstance(ty, SeqTy):
                return ty.th.lit([self.term(x, ty.t) for x in v.items])
        if isinstance(v, Ref):
            rec = self.content(v.cell)
            if isinstance(rec, SetC) and rec.ty is EMPTY and isinstance(ty, SetTy):
                return z3.K(ty.t.sort, BoolVal(False))
            if isinstance(ty, (ListTy, SetTy, DictTy)):
                rec = self.listc(rec, ty)
                rty, t = self.rec_type_term(rec)
                if rty == ty:
                    return t
                if isinstance(rty, ListTy) and isinstance(ty, ListTy) and rty.sort == ty.sort:
                    return t
                raise Unsupported(f'{rty} used as {ty}')
        raise Unsupported(f'{v!r:.60} used as {ty}')

    def absorb(self, v, cell, path, ty):
        """v was stored inside container `cell` at path: lists in it now live there."""
        if isinstance(v, TupV) and isinstance(ty, TupTy):
            for n, (x, t) in enumerate(zip(v.items, ty.ts)):
                self.absorb(x, cell, path + (('c', n),), t)
        elif isinstance(v, Ref) and ty.container:
            if isinstance(self.heap[v.cell], Fwd):
                # stored a second time: the two places share one list; freeze both
                self.heap[v.cell] = Fwd(self.heap[v.cell].parent, self.heap[v.cell].path, -1)
                raise Unsupported('one list stored in two places')
            root = cell
            self.heap[v.cell] = Fwd(root, path, self.epoch[root])

    def wrap(self, ty, t, cell=None, path=None):
        """Value of type ty with term t; containers become cells (aliasing cell at path)."""
        if isinstance(ty, TupTy):
            return TupV([self.wrap(u, ty.acc[n](t), cell, None if path is None else path + (('c', n),))
                         for n, u in enumerate(ty.ts)])
        if isinstance(ty, (ListTy, SetTy, DictTy)):
            if cell is not None:
                r = self.alloc(Fwd(cell, path, self.epoch[cell]))
                return r
            return self.alloc(self.mkrec(ty, t))
        if isinstance(ty, OptTy):
            if self.branch(ty.D.recognizer(0)(t)):
                return Con(None)
            return self.wrap(ty.t, ty.D.accessor(1, 0)(t))
        w = getattr(ty, 'wrap', None)
        if w is not None:
            return w(self, t)
        return Tm(ty, t)

    def fresh_value(self, ty, base):
        return self.wrap(ty, self.fresh(base, ty.sort))

    # ---- truth, equality, membership ---------------------------------------
    def truth(self, v):
        """-> bool or z3 Bool"""
        if isinstance(v, Con):
            o = v.obj
            if isinstance(o, (PyTree, PyAtom, PyAType, PySym)):
                for m in ('__bool__', '__len__'):
                    if hasattr(type(o), m):
                        raise Unsupported('truth value of expression')
                return True
            return bool(o)
        if isinstance(v, StrV):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            if not v.parts:
                return False
            raise Unsupported('truth of symbolic string')
        if isinstance(v, TupV):
            return bool(v.items)
        if isinstance(v, (Clo, Bound)):
            return True
        if isinstance(v, Tm):
            ty = v.ty
            if ty == BOOL:
                return v.t
            if ty == INT:
                return v.t != 0
            if ty == REAL:
                return v.t != 0
            if isinstance(ty, SeqTy):
                return ty.th.len(v.t) > 0
            if ty.name in ('Tree', 'Atom', 'AtomType') or isinstance(ty, SymTy):
                cls = ty.cls if isinstance(ty, SymTy) else ty.pycls
                if hasattr(cls, '__bool__') or hasattr(cls, '__len__'):
                    raise Unsupported('truth value of expression')
                return True
            if isinstance(ty, FnTy):
                return True
            f = getattr(ty, 'truth', None)
            if f:
                return f(self, v.t)
            raise Unsupported(f'truth of {ty}')
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ListL):
                return len(r.items) > 0
            if isinstance(r, DictL):
                return len(r.items) > 0
            if isinstance(r, ListC):
                return SeqTh(r.ty.sort).len(r.t) > 0
            if isinstance(r, SetC):
                if r.ty is EMPTY:
                    return False
                return self.nonempty(r.ty.sort, lambda x: z3.Select(r.t, x), r.t)
            if isinstance(r, DictC):
                return self.nonempty(r.k.sort, lambda x: z3.Select(r.dom, x), r.dom)
            if isinstance(r, ObjC):
                if hasattr(r.cls, '__bool__') or hasattr(r.cls, '__len__'):
                    raise Unsupported('truth of object')
                return True
        if isinstance(v, IterV):
            raise Unsupported('truth of an iterator')
        raise Unsupported(f'truth of {v!r:.60}')

    def nonempty(self, sort, pred, trig=None):
        w = self.fresh('wit', sort)
        x = Const('x', sort)
        self.assume(fa(x, Implies(pred(x), pred(w)), pred(x)))
        return pred(w)

    def identity_types(self, ty):
        return ty in (TREE, ATOM, ATYPE) or isinstance(ty, SymTy)

    def check_identity(self, ty):
        cls = ty.cls if isinstance(ty, SymTy) else ty.pycls
        ok = cls.__eq__ is object.__eq__ and cls.__hash__ is object.__hash__ and cls.__ne__ is object.__ne__
        if not ok:
            self.emit(BoolVal(False), f'{cls.__name__}: == and hash must be identity', 'identity')

    def equal(self, a, b):
        """a == b -> bool or z3 Bool"""
        if isinstance(a, Con) and isinstance(b, Con):
            try:
                return bool(a.obj == b.obj)
            except Exception:
                raise Unsupported('comparison of constants')
        ta, tb = self.typeof(a), self.typeof(b)
        if ta is NONE or tb is NONE:
            if ta is tb:
                return True
            o = b if ta is NONE else a
            if isinstance(o, Tm) and isinstance(o.ty, OpaqueTy) and (o.ty.foreign or o.ty.nullable):
                raise Unsupported('== on foreign value')
            return False
        for t in (ta, tb):
            if self.identity_types(t):
                self.check_identity(t)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.content(a.cell), self.content(b.cell)
            if isinstance(ra, ObjC) or isinstance(rb, ObjC):
                if a.cell == b.cell:
                    return True
                for r in (ra, rb):
                    if isinstance(r, ObjC) and r.cls.__eq__ is not object.__eq__:
                        raise Unsupported('== on objects')
                return False
        j = join(ta, tb)
        cj = concretise(j) if j is not None else None
        if isinstance(ta, (TupTy2, TupTy)) and isinstance(tb, (TupTy2, TupTy)):
            xs, ys = self.tuple_items(a), self.tuple_items(b)
            if len(xs) != len(ys):
                return False
            out = []
            for x, y in zip(xs, ys):
                e = self.equal(x, y)
                if e is False:
                    return False
                if e is not True:
                    out.append(e)
            return And(*out) if out else True
        if isinstance(ta, SeqTy) and isinstance(tb, TupTy2) or isinstance(tb, SeqTy) and isinstance(ta, TupTy2):
            s, o = (a, b) if isinstance(ta, SeqTy) else (b, a)
            xs = self.tuple_items(o)
            th = s.ty.th
            conds = [th.len(s.t) == len(xs)]
            for n, x in enumerate(xs):
                e = self.equal(Tm(s.ty.t, th.at(s.t, n)), x)
                if e is False:
                    return False
                if e is not True:
                    conds.append(e)
            return And(*conds)
        if cj is not None and cj.sort is not None:
            x, y = self.term(a, cj), self.term(b, cj)
            if isinstance(cj, ListTy) or isinstance(cj, SeqTy):
                self.assume(smt.seq_ext2(cj.th, x, y, self.fresh('w', I)))
            if isinstance(cj, SetTy):
                w = self.fresh('w', cj.t.sort)
                self.assume(Or(x == y, z3.Select(x, w) != z3.Select(y, w)))
            return x == y
        if j is None:
            # values of different Python types
            known = (INT, BOOL, STR, TREE, ATOM, ATYPE)
            ka = ta in known or isinstance(ta, (SymTy, ListTy, ListTy2, SeqTy, SetTy, SetTy2, TupTy2, TupTy))
            kb = tb in known or isinstance(tb, (SymTy, ListTy, ListTy2, SeqTy, SetTy, SetTy2, TupTy2, TupTy))
            if ka and kb:
                return False
            if isinstance(ta, SymTy) and isinstance(tb, SymTy):
                return False
        if isinstance(ta, ConstTy) or isinstance(tb, ConstTy):
            if isinstance(a, Con) and isinstance(b, Tm) or isinstance(b, Con) and isinstance(a, Tm):
                tm = a if isinstance(a, Tm) else b
                co = b if isinstance(a, Tm) else a
                if isinstance(tm.ty, (OpaqueTy, FnTy)):
                    return tm.t == self.term(co, tm.ty)
                return False
            return False if not (isinstance(ta, ConstTy) and isinstance(tb, ConstTy)) else a is b
        raise Unsupported(f'== between {ta} and {tb}')

    def tuple_items(self, v):
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, Con) and type(v.obj) is tuple:
            return [Con(x) for x in v.obj]
        if isinstance(v, Tm) and isinstance(v.ty, TupTy):
            return [Tm(t, v.ty.acc[n](v.t)) for n, t in enumerate(v.ty.ts)]
        raise Unsupported('tuple expected')

    def same(self, a, b):
        """a is b"""
        if isinstance(a, Con) and isinstance(b, Con):
            return a.obj is b.obj
        ta, tb = self.typeof(a), self.typeof(b)
        if ta is NONE or tb is NONE:
            for x in (a, b):
                if isinstance(x, Tm) and isinstance(x.ty, OpaqueTy) and x.ty.nullable:
                    return Function('is None:' + x.ty.name, x.ty.sort, z3.BoolSort())(x.t)
            return ta is tb
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.cell == b.cell
        if self.identity_types(ta) or self.identity_types(tb):
            if ta == tb:
                return self.term(a, ta) == self.term(b, tb)
            return False
        if isinstance(a, Tm) and isinstance(a.ty, OpaqueTy) and ta == tb:
            return a.t == b.t
        if isinstance(a, Tm) and isinstance(a.ty, (OpaqueTy, FnTy)) and isinstance(b, Con) or \
           isinstance(b, Tm) and isinstance(b.ty, (OpaqueTy, FnTy)) and isinstance(a, Con):
            tm, co = (a, b) if isinstance(a, Tm) else (b, a)
            if type(co.obj) in (int, str, tuple, float, bool):
                return False
            return tm.t == self.term(co, tm.ty)
        if BOOL in (ta, tb) and ta == tb:
            return self.term(a, BOOL) == self.term(b, BOOL)
        if isinstance(a, Ref) != isinstance(b, Ref):
            return False
        raise Unsupported(f'is between {ta} and {tb}')

    def contains(self, c, x):
        """x in c"""
        self.consume(c)
        if isinstance(c, Con):
            o = c.obj
            if isinstance(o, str):
                if isinstance(x, Con):
                    return x.obj in o
                raise Unsupported('substring test')
            if isinstance(o, (tuple, list, set, frozenset, dict)):
                return self.any_of([self.equal(x, Con(y)) for y in o])
            if id(o) in self.weak:
                return self.weak[id(o)].contains(self, x)
            raise Unsupported('in on constant')
        if isinstance(c, TupV):
            return self.any_of([self.equal(x, y) for y in c.items])
        if isinstance(c, Tm) and 'contains' in (getattr(c.ty, 'handlers', None) or {}):
            return c.ty.handlers['contains'](self, c, x)
        if isinstance(c, Tm) and isinstance(c.ty, SeqTy):
            self.check_id_el(c.ty.t)
            return c.ty.th.mem(c.t, self.term(x, c.ty.t)) if self.compat(x, c.ty.t) else False
        if isinstance(c, Ref):
            r = self.content(c.cell)
            if isinstance(r, ListL):
                return self.any_of([self.equal(x, y) for y in r.items])
            if isinstance(r, DictL):
                return self.any_of([self.equal(x, k) for k, _ in r.items])
            if isinstance(r, ListC):
                self.check_id_el(r.ty)
                return SeqTh(r.ty.sort).mem(r.t, self.term(x, r.ty)) if self.compat(x, r.ty) else False
            if isinstance(r, SetC):
                if r.ty is EMPTY:
                    return False
                self.check_id_el(r.ty)
                return z3.Select(r.t, self.term(x, r.ty)) if self.compat(x, r.ty) else False
            if isinstance(r, DictC):
                self.check_id_el(r.k)
                return z3.Select(r.dom, self.term(x, r.k)) if self.compat(x, r.k) else False
        if isinstance(c, IterV):
            l = self.tolist(c)
            return self.contains(l, x)
        raise Unsupported(f'in on {c!r:.50}')

    def check_id_el(self, ty):
        if self.identity_types(ty):
            self.check_identity(ty)

    def compat(self, x, ty):
        t = self.typeof(x)
        j = join(t, ty)
        if j is not None:
            return True
        if isinstance(t, (OpaqueTy, ConstTy)) or isinstance(ty, OpaqueTy) or ty == VAL:
            return True
        return False

    def any_of(self, cs):
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return Or(*cs) if cs else False

    # ---- iteration ------------------------------------------------------------
    def iterate(self, v):
        """-> IterV over a snapshot of v"""
        if isinstance(v, IterV):
            return v
        if isinstance(v, TupV):
            return IterV(len(v.items), lambda i: v.items[i], ())
        if isinstance(v, Con):
            o = v.obj
            if isinstance(o, (tuple, list, range)):
                o = list(o)
                return IterV(len(o), lambda i: Con(o[i]), ())
            if isinstance(o, dict):
                ks = list(o)
                return IterV(len(ks), lambda i: Con(ks[i]), ())
            if isinstance(o, (set, frozenset)) and len(o) <= 1:
                ks = list(o)
                return IterV(len(ks), lambda i: Con(ks[i]), ())
            if isinstance(o, str):
                return IterV(len(o), lambda i: Con(o[i]), ())
            raise Unsupported(f'iteration over {type(o).__name__}')
        if isinstance(v, Tm) and isinstance(v.ty, SeqTy):
            th, t, ety = v.ty.th, v.t, v.ty.t
            return IterV(th.len(t), lambda i: self.wrap(ety, th.at(t, zi(i))), ((th, t),), ety)
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ListL):
                its = r.items
                return IterV(len(its), lambda i: its[i], (), live=(v.cell,))
            if isinstance(r, DictL):
                ks = [k for k, _ in r.items]
                return IterV(len(ks), lambda i: ks[i], (), live=(v.cell,))
            if isinstance(r, ListC):
                th = SeqTh(r.ty.sort)
                root, path = v.cell, ()
                alias = r.ty.container
                cell = v.cell
                return IterV(th.len(r.t), lambda i: self.wrap(r.ty, th.at(r.t, zi(i)), cell if alias else None, (('i', zi(i)),) if alias else None),
                             ((th, r.t),), r.ty, live=(v.cell,))
            if isinstance(r, SetC):
                if r.ty is EMPTY:
                    return IterV(0, None, ())
                th = SeqTh(r.ty.sort)
                t = self.key_seq(r.ty, r.t)
                return IterV(th.len(t), lambda i: self.wrap(r.ty, th.at(t, zi(i))), ((th, t),), r.ty, live=(v.cell,))
            if isinstance(r, DictC):
                th = SeqTh(r.k.sort)
                t = self.dict_keys(r)
                return IterV(th.len(t), lambda i: self.wrap(r.k, th.at(t, zi(i))), ((th, t),), r.k, live=(v.cell,))
        if isinstance(v, Tm) and isinstance(v.ty, OpaqueTy) and 'iter' in v.ty.handlers:
            return v.ty.handlers['iter'](self, v)
        raise Unsupported(f'iteration over {v!r:.60}')

    def key_seq(self, ty, dom):
        """Some enumeration without repetition of a set (order unspecified)."""
        th = SeqTh(ty.sort)
        f = Function(f'enum<{ty.sort}>', dom.sort(), th.S)
        t = f(dom)
        x = Const('x', ty.sort)
        i, j = z3.Ints('i j')
        self.assume(fa(x, th.mem(t, x) == z3.Select(dom, x), th.mem(t, x), z3.Select(dom, x)))
        self.assume(fa(i, Implies(And(0 <= i, i < th.len(t)), z3.Select(dom, th.at(t, i))), th.at(t, i)))
        self.assume(fa([i, j], Implies(And(0 <= i, i < j, j < th.len(t)), th.at(t, i) != th.at(t, j)), (th.at(t, i), th.at(t, j))))
        return t

    def dict_keys(self, r):
        if r.keys is not None:
            return r.keys
        return self.key_seq(r.k, r.dom)

    def tolist(self, v):
        """list(v): a fresh list."""
        it = self.iterate(v)
        if isinstance(it.n, int):
            return self.alloc(ListL([it.get(i) for i in range(it.n)]))
        src_ = it.base[0] if it.base and getattr(it, 'plain', True) and it.ty is not None and len(it.base) == 1 else None
        if isinstance(v, Ref) or (isinstance(v, Tm) and isinstance(v.ty, SeqTy)):
            th, t = it.base[0]
            if it.ty.container:
                raise Unsupported('shallow copy of a list of lists')
            return self.alloc(ListC(it.ty, t))
        ety, t = self.map_seq(it, lambda i: it.get(i))
        return self.alloc(ListC(ety, t))

    def totuple(self, v):
        it = self.iterate(v)
        if isinstance(it.n, int):
            return TupV([it.get(i) for i in range(it.n)])
        if isinstance(v, Ref) or (isinstance(v, Tm) and isinstance(v.ty, SeqTy)):
            th, t = it.base[0]
            return Tm(SeqTy(it.ty), t)
        ety, t = self.map_seq(it, lambda i: it.get(i))
        return Tm(SeqTy(ety), t)

    # ---- sub-exploration (bodies of comprehensions) ---------------------------
    def snapshot(self):
        fr = []
        seen = set()
        for f in self.frames:
            while f is not None and id(f) not in seen:
                seen.add(id(f))
                fr.append((f, dict(f.vars)))
                f = f.parent
        return (list(self.pc), dict(self.heap), dict(self.epoch), fr, list(self.frames),
                list(self.handlers), list(self.loopstack), list(self.callstack), {k: w.state for k, w in self.weak.items()}, dict(self.counters), self.locks, self.consumed, self.given)

    def restore(self, s):
        self.pc, self.heap, self.epoch = list(s[0]), dict(s[1]), dict(s[2])
        for f, vs in s[3]:
            f.vars = dict(vs)
        self.frames, self.handlers, self.loopstack, self.callstack = list(s[4]), list(s[5]), list(s[6]), list(s[7])
        for k, st in s[8].items():
            self.weak[k].state = st
        self.counters = dict(s[9])
        self.locks, self.consumed, self.given = s[10], s[11], s[12] | frozenset(c for c in self.given if c in self.heap)

    def subexplore(self, thunk, binder=None, cond=None):
        """All outcomes of thunk from here: [(decisions, facts, value | PyExc)]."""
        snap = self.snapshot()
        saved = (self.dec, self.dpos, self.alts)
        base = len(self.pc)
        cells0 = self.ncell
        heap0 = dict(self.heap)
        outs = []
        deltas = []
        work = [()]
        if binder is not None:
            self.binders.append(binder)
        n = 0
        try:
            while work:
                self.restore(snap)
                self.dec, self.dpos, self.alts = list(work.pop()), 0, []
                n += 1
                if n > 200:
                    raise Unsupported('too many paths in a comprehension')
                if cond is not None:
                    self.assume(cond)
                b2 = len(self.pc)
                try:
                    try:
                        r = thunk()
                    except PyExc as e:
                        r = e
                    for c, rec in heap0.items():
                        if self.heap[c] is not rec and not isinstance(self.heap[c], Fwd):
                            raise Unsupported('comprehension modifies existing objects')
                    d = [f for k, f in self.pc[b2:] if k == 'd']
                    fs = [f for k, f in self.pc[b2:] if k == 'f']
                    # view the value now, while this path's heap is in place
                    if not isinstance(r, PyExc):
                        r = (r, self.typeof(r), {c: self.heap[c] for c in self.heap if c > cells0}, dict(self.epoch))
                    outs.append((d, fs, r))
                    deltas.append({k: z3.simplify(v - snap[9][k]) for k, v in self.counters.items()})
                except PathEnd:
                    pass
                work.extend(self.alts)
        finally:
            if binder is not None:
                self.binders.pop()
            self.restore(snap)
            self.dec, self.dpos, self.alts = saved
            self.deltas = deltas
        return outs

    def sub_value(self, r, ty):
        """Term of a sub-exploration value in type ty."""
        v, _, cells, ep = r
        save, se = dict(self.heap), dict(self.epoch)
        self.heap.update(cells)
        self.epoch.update(ep)
        try:
            return self.term(v, ty)
        finally:
            self.heap, self.epoch = save, se

    def sub_revive(self, r):
        v, _, cells, ep = r
        for c, rec in cells.items():
            self.heap[c] = rec
            self.epoch[c] = ep.get(c, 0)
            self.clock += 1
            self.created[c] = self.clock
        return v

    def map_outs(self, it, body):
        j = Const(self.name('j'), I)
        rng = And(0 <= j, j < zi(it.n))
        outs = self.subexplore(lambda: body(j), binder=j, cond=rng)
        self.count_elements(it.n, self.deltas)
        # elements that raise
        exc = [(d, fs, r) for d, fs, r in outs if isinstance(r, PyExc)]
        ok = [(d, fs, r) for d, fs, r in outs if not isinstance(r, PyExc)]
        if exc:
            # first index that raises, if any
            for d, fs, r in exc:
                if not self.catchable(r.cls):
                    self.with_assumed([rng] + d + fs, lambda: self.emit(BoolVal(False), f'no {r.cls.__name__} ({r.why})', 'safety'))
            live = [(d, fs, r) for d, fs, r in exc if self.catchable(r.cls)]
            if live:
                k = self.choose(1 + len(live))
                if k > 0:
                    d, fs, r = live[k - 1]
                    w = self.fresh('j', I)
                    sub = lambda f: z3.substitute(f, (j, w))
                    self.assume(sub(rng))
                    for f in d:
                        self.assume(sub(f), 'd')
                    for f in fs:
                        self.assume(sub(f))
                    if not self.feasible(BoolVal(True)):
                        raise PathEnd()
                    raise PyExc(r.cls, r.why)
                for d, fs, r in live:
                    trig = [th.at(t, j) for th, t in it.base]
                    self.assume(self.forall_j(j, Implies(rng, Not(And(*d, *fs)) if d or fs else BoolVal(False)), trig))
        return j, rng, ok

    def count_elements(self, n, deltas):
        for k in self.counters:
            ds = [d[k] for d in deltas]
            if all(z3.is_int_value(d) and d.as_long() == 0 for d in ds):
                continue
            if not all(z3.is_int_value(d) for d in ds):
                raise Unsupported('number of calls made by one element')
            lo, hi = min(d.as_long() for d in ds), max(d.as_long() for d in ds)
            m = If(zi(n) < 0, IntVal(0), zi(n))
            c0 = self.counters[k]
            if lo == hi:
                self.counters[k] = c0 + lo * m
            else:
                c = self.fresh('count', I)
                self.assume(And(c0 + lo * m <= c, c <= c0 + hi * m))
                self.counters[k] = c

    def with_assumed(self, fs, f):
        n = len(self.pc)
        for x in fs:
            self.assume(x)
        f()
        del self.pc[n:]

    def forall_j(self, j, body, trigs):
        trigs = [t for t in trigs if contains_const(t, j)]
        return fa([j] , body, *trigs) if trigs else z3.ForAll([j], body)

    def map_seq(self, it, body, want=None):
        """Sequence [body(j) for j in 0..n): -> (elem type, seq term)."""
        j, rng, outs = self.map_outs(it, body)
        ty = EMPTY
        for d, fs, r in outs:
            ty2 = join(ty, r[1])
            if ty2 is None:
                raise Unsupported(f'elements of types {ty} and {r[1]}')
            ty = ty2
        if want is not None and (ty is EMPTY or join(ty, want) is not None):
            ty = want
        cty = concretise(ty)
        if cty is None or cty.sort is None:
            if not outs:
                raise PathEnd()
            raise Unsupported(f'elements of type {ty}')
        th = SeqTh(cty.sort)
        R = self.fresh('map', th.S)
        self.assume(th.len(R) == If(zi(it.n) < 0, IntVal(0), zi(it.n)))
        trigs = [th.at(R, j)] + [h.at(s, j) for h, s in it.base]
        for d, fs, r in outs:
            t = self.sub_value(r, cty)
            self.assume(self.forall_j(j, Implies(And(rng, *d), And(*fs, th.at(R, j) == t)), trigs))
        return cty, R

    def filter_seq(self, it, body):
        """body(j) -> (kept?, value).  Order-preserving selection."""
        j, rng, outs = self.map_outs(it, body)
        keep, ty = [], EMPTY
        for d, fs, r in outs:
            v = r[0]
            if v is None:
                continue
            ty2 = join(ty, r[1])
            if ty2 is None:
                raise Unsupported('mixed element types')
            ty = ty2
            keep.append((d, fs, r))
        cty = concretise(ty)
        if cty is None or cty.sort is None:
            if not keep:
                return EMPTY, None
            raise Unsupported(f'elements of type {ty}')
        th = SeqTh(cty.sort)
        R = self.fresh('filt', th.S)
        bs = [b.sort() for b in self.binders]
        P = Function(self.name('pos'), *bs, I, I)
        Q = Function(self.name('rank'), *bs, I, I)
        p = lambda k: P(*self.binders, k)
        q = lambda k: Q(*self.binders, k)
        k, l = z3.Ints('k l')
        n = zi(it.n)
        self.assume(fa(k, Implies(And(0 <= k, k < th.len(R)), And(0 <= p(k), p(k) < n, q(p(k)) == k)), p(k), th.at(R, k)))
        self.assume(fa([k, l], Implies(And(0 <= k, k < l, l < th.len(R)), p(k) < p(l)), (p(k), p(l))))
        self.assume(th.len(R) <= If(n < 0, IntVal(0), n))
        src_t = [h.at(s, j) for h, s in it.base]
        for d, fs, r in outs:
            if r[0] is None:
                if fs or d:
                    self.assume(self.forall_j(j, Implies(And(rng, *d), And(*fs)), [q(j)] + src_t)) if fs else None
                continue
            t = self.sub_value(r, cty)
            body_f = Implies(And(rng, *d), And(*fs, 0 <= q(j), q(j) < th.len(R), p(q(j)) == j, th.at(R, q(j)) == t))
            self.assume(self.forall_j(j, body_f, [q(j)] + src_t))
        # every selected element comes from a kept index
        kept = []
        for d, fs, r in keep:
            kept.append(And(*[z3.substitute(f, (j, p(k))) for f in d]) if d else BoolVal(True))
        cond_keep = Or(*kept) if kept else BoolVal(False)
        self.assume(fa(k, Implies(And(0 <= k, k < th.len(R)), cond_keep), p(k), th.at(R, k)))
        vals = []
        for d, fs, r in keep:
            t = z3.substitute(self.sub_value(r, cty), (j, p(k)))
            dd = [z3.substitute(f, (j, p(k))) for f in d]
            self.assume(fa(k, Implies(And(0 <= k, k < th.len(R), *dd), th.at(R, k) == t), p(k), th.at(R, k)))
        return cty, R

    # ---- names ----------------------------------------------------------------
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Undef):
                    raise Unsupported(f'{name}: {v.why}')
                return v
            if name in f.locals and f is frame:
                raise PyExc(UnboundLocalError, name)
            if name in f.closure:
                return f.closure[name]
            if f.parent is None:
                break
            f = f.parent
        g = frame.glob
        if name in g:
            return self.con(g[name])
        if hasattr(builtins, name):
            return Con(getattr(builtins, name))
        raise PyExc(NameError, name)

    def con(self, o):
        return Con(o)

    # ---- attribute access -------------------------------------------------------
    def getattr(self, v, name):
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if name == '__class__':
            return self.call(Con(type), [v], {})
        if isinstance(v, Con):
            return self.con_attr(v, name)
        if isinstance(v, Tm):
            ty = v.ty
            if ty == TREE:
                if name == 'children':
                    return Tm(SeqTy(TREE), kids(v.t))
                if name == 'value':
                    self.require(isatom(v.t), AttributeError, 'only atoms have a value')
                    return Tm(ATOM, aval(v.t))
            elif ty == ATOM:
                if name == 'atom_type':
                    return Tm(ATYPE, atype(v.t))
                if name == 'value':
                    return Tm(VAL, avalue(v.t))
            elif ty == ATYPE:
                if name == 'name':
                    return Tm(STR, Function('atname', ATypeS, StrS)(v.t))
            elif isinstance(ty, SymTy):
                if name == 'rep':
                    return Tm(TREE, v.t)
            h = getattr(ty, 'handlers', None)
            if h is not None:
                if ('.' + name) in h:
                    return h['.' + name](self, v)
                if ('m:' + name) in h:
                    return Bound(('h', h['m:' + name]), v)
            cls = ty.cls if isinstance(ty, SymTy) else ty.pycls if isinstance(ty, (PTy, OpaqueTy)) else None
            if ty == STR:
                return Bound(('m', 'str', name), v)
            if isinstance(ty, SeqTy):
                return Bound(('m', 'tuple', name), v)
            if cls is not None and ty not in (INT, BOOL, REAL):
                return self.class_attr(cls, name, v)
            raise Unsupported(f'attribute {name} of {ty}')
        if isinstance(v, StrV):
            return Bound(('m', 'str', name), v)
        if isinstance(v, TupV):
            return Bound(('m', 'tuple', name), v)
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ObjC):
                if name in r.fields:
                    return r.fields[name]
                if name == '__class__':
                    return Con(r.cls)
                return self.class_attr(r.cls, name, v)
            kind = {'ListL': 'list', 'ListC': 'list', 'SetC': 'set', 'DictC': 'dict', 'DictL': 'dict'}[type(r).__name__]
            return Bound(('m', kind, name), v)
        if isinstance(v, (Clo, Bound)):
            raise Unsupported(f'attribute {name} of a function')
        raise Unsupported(f'attribute {name} of {v!r:.50}')

    def class_attr(self, cls, name, v):
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, pytypes.FunctionType):
                    return Bound(Con(a), v)
                if isinstance(a, classmethod):
                    return Bound(Con(a.__func__), Con(cls))
                if isinstance(a, staticmethod):
                    return Con(a.__func__)
                if isinstance(a, property):
                    return self.call(Con(a.fget), [v], {})
                if isinstance(a, pytypes.MemberDescriptorType):
                    raise PyExc(AttributeError, name)
                if hasattr(type(a), '__get__') and not isinstance(a, type):
                    return Bound(Con(a), v)
                return Con(a)
        if hasattr(cls, '__getattr__'):
            raise Unsupported('__getattr__')
        raise PyExc(AttributeError, f'{cls.__name__}.{name}')

    def con_attr(self, v, name):
        o = v.obj
        if id(o) in self.weak:
            return self.weak[id(o)].attr(self, v, name)
        if name in ('acquire', 'release') and type(o).__module__ == '_thread':
            return Bound(('h', lock_op(name)), v)
        if isinstance(o, pytypes.ModuleType):
            if not hasattr(o, name):
                raise PyExc(AttributeError, name)
            return Con(getattr(o, name))
        if isinstance(o, type):
            for k in o.__mro__:
                if name in k.__dict__:
                    a = k.__dict__[name]
                    if isinstance(a, classmethod):
                        return Bound(Con(a.__func__), v)
                    if isinstance(a, staticmethod):
                        return Con(a.__func__)
                    if isinstance(a, pytypes.FunctionType):
                        return Con(a)
                    return Con(getattr(o, name))
            if hasattr(o, name):
                return Con(getattr(o, name))
            raise PyExc(AttributeError, name)
        if (id(o), name) in self.conc_overlay:
            return self.conc_overlay[(id(o), name)]
        cls = type(o)
        if cls in (dict, list, tuple, set, frozenset) and not name.startswith('__') and hasattr(cls, name):
            return Bound(('m', 'con', name), v)
        if cls is str and not name.startswith('__') and hasattr(cls, name):
            return Bound(('m', 'str', name), v)
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, pytypes.FunctionType):
                    if getattr(o, '__dict__', None) and name in o.__dict__:
                        return Con(o.__dict__[name])
                    return Bound(Con(a), v)
                if isinstance(a, classmethod):
                    return Bound(Con(a.__func__), Con(cls))
                if isinstance(a, property) and isinstance(a.fget, pytypes.FunctionType):
                    return self.call(Con(a.fget), [v], {})
                break
        try:
            return Con(getattr(o, name))
        except AttributeError:
            raise PyExc(AttributeError, name)

    def super_attr(self, s, name):
        v = s.self
        if isinstance(v, Con) and isinstance(v.obj, type):
            mro, target = v.obj.__mro__, v
        else:
            cls = self.class_of(v)
            mro, target = cls.__mro__, v
        mro = mro[list(mro).index(s.cls) + 1:]
        for k in mro:
            if name in k.__dict__:
                a = k.__dict__[name]
                if name == '__new__':
                    return Con(object.__new__) if k is object else Con(a.__func__ if isinstance(a, staticmethod) else a)
                if isinstance(a, pytypes.FunctionType):
                    return Bound(Con(a), target)
                if isinstance(a, classmethod):
                    return Bound(Con(a.__func__), target if isinstance(v, Con) and isinstance(v.obj, type) else Con(self.class_of(v)))
                if k is object and name == '__init__':
                    return Bound(('m', 'object', '__init__'), target)
                return Con(a)
        raise PyExc(AttributeError, name)

    def class_of(self, v):
        if isinstance(v, Con):
            return type(v.obj)
        if isinstance(v, Tm):
            if isinstance(v.ty, SymTy):
                return v.ty.cls
            if isinstance(v.ty, SeqTy):
                return tuple
            if isinstance(v.ty, (PTy, OpaqueTy)) and v.ty.pycls is not None:
                return v.ty.pycls
        if isinstance(v, StrV):
            return str
        if isinstance(v, TupV):
            return tuple
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ObjC):
                return r.cls
            return {'ListL': list, 'ListC': list, 'SetC': set, 'DictC': dict, 'DictL': dict}[type(r).__name__]
        if isinstance(v, (Clo,)):
            return pytypes.FunctionType
        raise Unsupported(f'class of {v!r:.60}')

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if not isinstance(cls, type):
            org = getattr(cls, '__origin__', None)
            if isinstance(org, type):
                cls = org
            else:
                raise Unsupported('isinstance class')
        if isinstance(v, Con):
            return isinstance(v.obj, cls)
        if isinstance(v, Tm) and isinstance(v.ty, OpaqueTy):
            if v.ty.pycls is not None:
                return issubclass(v.ty.pycls, cls)
            h = v.ty.handlers.get('isinstance')
            if h is not None:
                return h(self, v, cls)
            if v.ty.foreign:
                return cls is object
        if isinstance(v, Tm) and v.ty == VAL:
            raise Unsupported('isinstance of an atom value')
        return issubclass(self.class_of(v), cls)

    # ---- stores -----------------------------------------------------------------
    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ObjC):
                fr = getattr(r.cls, '__dataclass_params__', None)
                if fr is not None and fr.frozen and not self.in_init(v):
                    raise PyExc(AttributeError, 'frozen')
                for k in r.cls.__mro__:
                    if isinstance(k.__dict__.get(name), property):
                        raise Unsupported('property store')
                f = dict(r.fields)
                f[name] = val
                self.write(v.cell, ObjC(r.cls, f))
                return
        if isinstance(v, Con) or isinstance(v, Tm):
            self.emit(BoolVal(False), f'no store to attribute {name} of an existing object', 'frame')
            if isinstance(v, Con):
                self.conc_overlay_set(v.obj, name, val)
                return
            raise Unsupported(f'store to attribute {name} of {v!r:.40}')
        raise Unsupported(f'store to attribute {name}')

    def conc_overlay_set(self, o, name, val):
        raise Unsupported('write to a module-level object')

    def in_init(self, v):
        return False

    def norm_index(self, i, n, what='index'):
        """Python index -> 0 <= term < n (emits the bound check)."""
        if isinstance(i, Con) and type(i.obj) in (int, bool):
            k = int(i.obj)
            if isinstance(n, int):
                if not -n <= k < n:
                    raise PyExc(IndexError, what)
                return k % n if k < 0 else k
            if k >= 0:
                self.require(zi(n) > k, IndexError, f'{what} in range')
                return IntVal(k)
            self.require(zi(n) >= -k, IndexError, f'{what} in range')
            return z3.simplify(zi(n) + k)
        t = self.term(i, INT)
        if self.valid(t >= 0):
            self.require(t < zi(n), IndexError, f'{what} in range')
            return t
        self.require(And(-zi(n) <= t, t < zi(n)), IndexError, f'{what} in range')
        return self.purify(If(t < 0, zi(n) + t, t))

    def purify(self, t):
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            return t
        c = self.fresh('ix', I)
        self.assume(c == t)
        return c

    def clamp(self, b, n, default):
        if b is None or (isinstance(b, Con) and b.obj is None):
            return default
        if isinstance(b, Con) and isinstance(n, int):
            return slice(b.obj).indices(n)[1]
        t = self.term(b, INT)
        t = z3.simplify(t)
        nz = zi(n)
        if z3.is_int_value(t) and t.as_long() < 0:
            t = z3.simplify(nz + t)
            if self.valid(t >= 0):
                return t
            return self.purify(If(t < 0, IntVal(0), t))
        if self.valid(t >= 0):
            return t
        return self.purify(If(t < 0, If(nz + t < 0, IntVal(0), nz + t), If(t > nz, nz, t)))

    def slice_seq(self, th, t, lo, hi, step):
        n = th.len(t)
        if step is not None and not (isinstance(step, Con) and step.obj in (None, 1)):
            if isinstance(step, Con) and step.obj == -1 and lo is None and hi is None:
                return th.rev(t)
            raise Unsupported('slice step')
        a = self.clamp(lo, n, IntVal(0))
        b = self.clamp(hi, n, None)
        if b is None:
            if z3.is_int_value(a) and a.as_long() == 0:
                return t
            return th.drop(t, a)
        if z3.is_int_value(a) and a.as_long() == 0:
            return th.take(t, b)
        if self.valid(a <= b):
            return th.drop(th.take(t, b), a)
        return th.drop(th.take(t, b), a)

    def getitem(self, v, idx):
        if isinstance(v, Con) and id(v.obj) in self.weak:
            return self.weak[id(v.obj)].getitem(self, idx)
        if isinstance(idx, slice):
            lo, hi, st = idx.start, idx.stop, idx.step
            items = None
            if isinstance(v, TupV):
                items, mkv = list(v.items), TupV
            elif isinstance(v, Con) and isinstance(v.obj, tuple):
                items, mkv = [Con(x) for x in v.obj], TupV
            elif isinstance(v, Con) and isinstance(v.obj, list):
                items, mkv = [Con(x) for x in v.obj], lambda xs: self.alloc(ListL(xs))
            elif isinstance(v, Ref) and isinstance(self.content(v.cell), ListL):
                items, mkv = list(self.content(v.cell).items), lambda xs: self.alloc(ListL(xs))
            if items is not None:
                def cv(b):
                    if b is None:
                        return None
                    if isinstance(b, Con):
                        return b.obj
                    raise NotConcrete()
                try:
                    return mkv(items[slice(cv(lo), cv(hi), cv(st))])
                except NotConcrete:
                    ty = self.ctype(v)
                    if isinstance(ty, TupTy):
                        ets = set(ty.ts)
                        if len(ets) == 1:
                            ty = SeqTy(ty.ts[0])
                    if isinstance(ty, SeqTy):
                        return Tm(ty, self.slice_seq(ty.th, self.term(v, ty), lo, hi, st))
                    if isinstance(ty, ListTy):
                        return self.alloc(ListC(ty.t, self.slice_seq(ty.th, self.term(v, ty), lo, hi, st)))
                    raise Unsupported('symbolic slice')
            if isinstance(v, Tm) and isinstance(v.ty, SeqTy):
                return Tm(v.ty, self.slice_seq(v.ty.th, v.t, lo, hi, st))
            if isinstance(v, Ref):
                r = self.content(v.cell)
                if isinstance(r, ListC):
                    if r.ty.container:
                        if lo is not None or st is not None:
                            raise Unsupported('slice of a list of lists')
                        # a view: the elements are those of the list itself
                        th = SeqTh(r.ty.sort)
                        sl = self.slice_seq(th, r.t, lo, hi, st)
                        cell = v.cell
                        return IterV(th.len(sl), lambda i: self.wrap(r.ty, th.at(sl, zi(i)), cell, (('i', zi(i)),)), ((th, sl),), r.ty)
                    return self.alloc(ListC(r.ty, self.slice_seq(SeqTh(r.ty.sort), r.t, lo, hi, st)))
            raise Unsupported('slice')
        if isinstance(v, Con):
            o = v.obj
            if isinstance(o, type) and not isinstance(idx, slice):
                if '__class_getitem__' in dir(o):
                    return v
            if isinstance(o, (tuple, list)):
                if isinstance(idx, Con):
                    try:
                        return Con(o[idx.obj])
                    except (IndexError, TypeError) as e:
                        raise PyExc(type(e), 'index')
                return self.getitem(TupV([Con(x) for x in o]), idx)
            if isinstance(o, dict):
                return self.conc_dict_get(o, idx, KeyError)
            gi = type(o).__dict__.get('__getitem__')
            for k in type(o).__mro__:
                if isinstance(k.__dict__.get('__getitem__'), pytypes.FunctionType):
                    return self.call(Con(k.__dict__['__getitem__']), [v, idx], {})
            raise Unsupported(f'index into {type(o).__name__}')
        if isinstance(v, TupV):
            if isinstance(idx, Con):
                if type(idx.obj) not in (int, bool):
                    raise PyExc(TypeError, 'tuple index')
                return v.items[self.norm_index(idx, len(v.items))]
            ty = concretise(EMPTY)
            t = EMPTY
            for x in v.items:
                t = join(t, self.typeof(x))
                if t is None:
                    raise Unsupported('symbolic index into mixed tuple')
            ct = concretise(t)
            sq = SeqTy(ct)
            i = self.norm_index(idx, len(v.items))
            return self.wrap(ct, sq.th.at(self.term(v, sq), i))
        if isinstance(v, Tm) and isinstance(v.ty, SeqTy):
            i = self.norm_index(idx, v.ty.th.len(v.t))
            return self.wrap(v.ty.t, v.ty.th.at(v.t, zi(i)))
        if isinstance(v, Tm) and isinstance(v.ty, TupTy):
            return self.getitem(TupV(self.tuple_items(v)), idx)
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ListL):
                if isinstance(idx, Con):
                    if type(idx.obj) not in (int, bool):
                        raise PyExc(TypeError, 'list index')
                    return r.items[self.norm_index(idx, len(r.items))]
                ty = self.ctype(v)
                if ty is None:
                    raise Unsupported('symbolic index into list')
                i = self.norm_index(idx, len(r.items))
                self.symbolise(v.cell, ty)
                return self.getitem(v, idx)
            if isinstance(r, ListC):
                th = SeqTh(r.ty.sort)
                i = zi(self.norm_index(idx, th.len(r.t)))
                if r.ty.container:
                    return self.wrap(r.ty, th.at(r.t, i), v.cell, (('i', i),))
                return self.wrap(r.ty, th.at(r.t, i))
            if isinstance(r, DictC):
                if not self.compat(idx, r.k):
                    raise PyExc(KeyError, 'key')
                k = self.term(idx, r.k)
                self.check_id_el(r.k)
                self.require(z3.Select(r.dom, k), KeyError, 'key present')
                if r.v.container:
                    return self.wrap(r.v, z3.Select(r.val, k), v.cell, (('k', k),))
                return self.wrap(r.v, z3.Select(r.val, k))
            if isinstance(r, DictL):
                for k, x in r.items:
                    if self.branch(self.equal(k, idx)):
                        return x
                raise PyExc(KeyError, 'key')
            if isinstance(r, ObjC):
                return self.call(self.getattr(v, '__getitem__'), [idx], {})
        if isinstance(v, Tm):
            h = getattr(v.ty, 'handlers', None) or {}
            if 'getitem' in h:
                return h['getitem'](self, v, idx)
            cls = self.class_of(v)
            if isinstance(getattr(cls, '__getitem__', None), pytypes.FunctionType):
                return self.call(Con(cls.__getitem__), [v, idx], {})
        raise Unsupported(f'index into {v!r:.60}')

    def conc_dict_get(self, o, idx, exc, default=None):
        if isinstance(idx, Con):
            try:
                if idx.obj in o:
                    return Con(o[idx.obj])
            except TypeError:
                raise PyExc(TypeError, 'unhashable')
            if exc is not None:
                raise PyExc(exc, 'key')
            return default
        for k, x in o.items():
            if self.compat(idx, self.typeof(Con(k))) and self.branch(self.equal(Con(k), idx)):
                return Con(x)
        if exc is not None:
            raise PyExc(exc, 'key')
        return default

    def symbolise(self, cell, ty):
        """Turn a literal list/dict cell into a symbolic one of type ty."""
        rec = self.heap[cell]
        if isinstance(rec, (ListC, DictC)) or isinstance(rec, SetC) and rec.ty is not EMPTY:
            return
        if isinstance(rec, SetC):
            self.heap[cell] = SetC(ty.t, z3.K(ty.t.sort, BoolVal(False)))
            return
        items = rec.items
        self.heap[cell] = self.listc(rec, ty)
        if isinstance(rec, ListL):
            if ty.t.container:
                for n, x in enumerate(items):
                    self.absorb(x, cell, (('i', IntVal(n)),), ty.t)
        elif isinstance(rec, DictL):
            th = SeqTh(ty.k.sort)
            r = self.heap[cell]
            self.heap[cell] = DictC(r.k, r.v, r.dom, r.val, th.lit([self.term(k, ty.k) for k, _ in items]) if len(items) <= 1 else None)

    def setslice(self, v, idx, val):
        """xs[:] = val, xs[i:] = val or xs[:i] = val"""
        none = lambda x: x is None or isinstance(x, Con) and x.obj is None
        if not none(idx.step) or not none(idx.start) and not none(idx.stop):
            raise Unsupported('assignment to a slice')
        new = self.call(Con(list), [val], {})
        if not none(idx.start):
            new = self.binop(ast.Add(), self.getitem(v, slice(None, idx.start, None)), new)
        elif not none(idx.stop):
            new = self.binop(ast.Add(), new, self.getitem(v, slice(idx.stop, None, None)))
        rec = self.content(new.cell)
        if isinstance(rec, ListC) and rec.ty.container or isinstance(rec, ListL) and any(isinstance(x, Ref) for x in rec.items):
            raise Unsupported('assignment of lists to a slice')
        self.write(v.cell, rec, shift=True)

    def setitem(self, v, idx, val):
        if isinstance(v, Con):
            o = v.obj
            if id(o) in self.weak:
                return self.weak[id(o)].store(self, idx, val)
            if isinstance(o, (list, dict)):
                self.emit(BoolVal(False), 'no write to module-level state', 'frame')
                raise Unsupported('write to a module-level object')
            for k in type(o).__mro__:
                if isinstance(k.__dict__.get('__setitem__'), pytypes.FunctionType):
                    self.call(Con(k.__dict__['__setitem__']), [v, idx, val], {})
                    return
        if isinstance(v, Tm):
            h = getattr(v.ty, 'handlers', None) or {}
            if 'setitem' in h:
                h['setitem'](self, v, idx, val)
                return
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(idx, slice) and isinstance(r, (ListL, ListC)):
                return self.setslice(v, idx, val)
            if isinstance(r, ListL):
                if isinstance(idx, Con):
                    i = self.norm_index(idx, len(r.items))
                    its = list(r.items)
                    its[i] = val
                    self.write(v.cell, ListL(its), shift=True)
                    return
                j = self.ctype(v)
                if j is None:
                    raise Unsupported('symbolic index into list')
                self.symbolise(v.cell, j)
                r = self.content(v.cell)
            if isinstance(r, ListC):
                th = SeqTh(r.ty.sort)
                i = zi(self.norm_index(idx, th.len(r.t)))
                t = self.term(val, r.ty)
                self.write(v.cell, ListC(r.ty, th.upd(r.t, i, t)), shift=r.ty.container)
                if r.ty.container:
                    self.absorb(val, v.cell, (('i', i),), r.ty)
                return
            if isinstance(r, DictL):
                its = list(r.items)
                if all(isinstance(k, Con) for k, _ in its) and isinstance(idx, Con):
                    for n, (k, x) in enumerate(its):
                        if k.obj == idx.obj and type(k.obj) is type(idx.obj):
                            its[n] = (k, val)
                            self.write(v.cell, DictL(its), shift=True)
                            return
                    its.append((idx, val))
                    self.write(v.cell, DictL(its), shift=True)
                    return
                if not its:
                    k, x = self.ctype(idx), self.ctype(val)
                    if k is None or x is None:
                        if self.writes is None:
                            self.write(v.cell, DictL([(idx, val)]), shift=True)
                            return
                        raise Unsupported('dictionary entry type')
                    ty = DictTy(k, x)
                else:
                    t0 = self.typeof(v)
                    ty = concretise(join(t0, DictTy2(self.typeof(idx), self.typeof(val))))
                    if ty is None:
                        raise Unsupported('dictionary entry type')
                keep = self.heap[v.cell]
                self.symbolise(v.cell, ty)
                self.log_write(v.cell, None, None)
                r = self.content(v.cell)
            if isinstance(r, DictC):
                k, x = self.term(idx, r.k), self.term(val, r.v)
                th = SeqTh(r.k.sort)
                keys = r.keys
                if keys is not None:
                    has = z3.Select(r.dom, k)
                    keys = If(has, keys, th.snoc(keys, k))
                    if self.valid(Not(has)):
                        keys = th.snoc(r.keys, k)
                    elif self.valid(has):
                        keys = r.keys
                self.write(v.cell, DictC(r.k, r.v, z3.Store(r.dom, k, BoolVal(True)), z3.Store(r.val, k, x), keys), shift=r.v.container)
                if r.v.container:
                    self.absorb(val, v.cell, (('k', k),), r.v)
                return
            if isinstance(r, ObjC):
                self.call(self.getattr(v, '__setitem__'), [idx, val], {})
                return
        raise Unsupported(f'store into {v!r:.60}')

    # ---- lists -------------------------------------------------------------------
    def list_append(self, ref, val):
        r = self.content(ref.cell)
        if isinstance(r, ListL):
            self.write(ref.cell, ListL(r.items + (val,)))
            return
        th = SeqTh(r.ty.sort)
        if not self.compat(val, r.ty):
            raise Unsupported(f'append of {self.typeof(val)} to list of {r.ty}')
        t = self.term(val, r.ty)
        n = th.len(r.t)
        self.write(ref.cell, ListC(r.ty, th.snoc(r.t, t)))
        if r.ty.container:
            root, pre = ref.cell, ()
            while isinstance(self.heap[root], Fwd):
                pre = self.heap[root].path + pre
                root = self.heap[root].parent
            self.absorb(val, root, pre + (('i', n),), r.ty)

    def aslist(self, v):
        """(type, seq term) of any sequence value, or None if literal."""
        it = self.iterate(v)
        if isinstance(it.n, int):
            return None
        if isinstance(v, Ref) or isinstance(v, Tm):
            return it.ty, it.base[0][1]
        return self.map_seq(it, lambda i: it.get(i))

    def concat(self, a, b, mkres):
        la, lb = self.literal(a), self.literal(b)
        if la is not None and lb is not None:
            return mkres(None, la + lb)
        ta, tb = EMPTY, EMPTY
        if la is not None:
            for x in la:
                ta = join(ta, self.typeof(x))
            sb = self.aslist(b)
            ty = concretise(join(ta, sb[0]) if ta is not None else None)
            if ty is None:
                raise Unsupported('concatenation types')
            th = SeqTh(ty.sort)
            if not la:
                return mkres(ty, sb[1])
            return mkres(ty, th.cat(th.lit([self.term(x, ty) for x in la]), sb[1]))
        sa = self.aslist(a)
        th = SeqTh(sa[0].sort)
        if lb is not None:
            t = sa[1]
            for x in lb:
                t = th.snoc(t, self.term(x, sa[0]))
            return mkres(sa[0], t)
        sb = self.aslist(b)
        if sa[0].sort != sb[0].sort:
            raise Unsupported('concatenation types')
        return mkres(sa[0], th.cat(sa[1], sb[1]))

    def literal(self, v):
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, Con) and isinstance(v.obj, (tuple, list)):
            return [Con(x) for x in v.obj]
        if isinstance(v, Ref):
            r = self.content(v.cell)
            if isinstance(r, ListL):
                return list(r.items)
            return None
        if isinstance(v, IterV) and isinstance(v.n, int):
            return [v.get(i) for i in range(v.n)]
        return None

    def mklist(self, ty, x):
        if ty is None:
            return self.alloc(ListL(x))
        if ty.container:
            raise Unsupported('concatenation of lists of lists')
        return self.alloc(ListC(ty, x))

    def mktuple(self, ty, x):
        return TupV(x) if ty is None else Tm(SeqTy(ty), x)


def zi(n):
    return IntVal(n) if isinstance(n, int) else n


def contains_const(t, c):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(c):
            return True
        todo.extend(x.children())
    return False


_strfuns = {}


def strfun(skel, n):
    if (skel, n) not in _strfuns:
        _strfuns[(skel, n)] = Function('fmt:' + skel, *([StrS] * n), StrS)
    return _strfuns[(skel, n)]


def tree_label(o):
    try:
        if not o.children:
            return str(o.value.value)[:20]
        return 'node'
    except Exception:
        return '?'
