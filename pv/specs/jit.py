"""From the generated text to a callable (C14, C15): llvmlite and ctypes as assumed functions."""
from __future__ import annotations
import ctypes, sys, types as pytypes
import z3
from ..contract import *
from ..smt import *
from ..types import *
from ..interp import Star, LIBRARY
from .. import smt
from ..models import model
from .arith import ET, foreign
from .llvm import lm, em, bad, toobig, params, wf, wf_axioms
from .expand import bx
from .matrix import M, KEY2, arbitrary as arbitrary_matrix

ASSUMED = ['llvmlite: parse_assembly(text) is the module of the text, optimisation passes keep its meaning, an MCJIT engine of a module computes what the module says and its code lives as long as the engine does',
           'ctypes: CFUNCTYPE(r, *a)(address) calls the code at the address with its arguments converted to the C types a and returns its result as r']


class Builder:
    """Stands for a pass manager (builder): only settings, no meaning."""

    def populate(self, pm):
        raise NotImplementedError

    def run(self, module):
        raise NotImplementedError


class Machine:
    """Stands for a target (machine)."""
    triple = 'triple'

    def create_target_machine(self, **kw):
        raise NotImplementedError


def stand_in():
    if 'llvmlite' in sys.modules and getattr(sys.modules['llvmlite'], 'STAND_IN', False):
        return sys.modules['llvmlite.binding']
    top, b = pytypes.ModuleType('llvmlite'), pytypes.ModuleType('llvmlite.binding')
    top.binding, top.STAND_IN, top.__path__ = b, True, []

    def fn(name, handler, stars=False):
        def f(*a, **k):
            raise NotImplementedError(name)
        f.__name__ = f.__qualname__ = name
        setattr(b, name, f)
        model(f)(handler)
        return f

    for n in ('initialize', 'initialize_native_target', 'initialize_native_asmprinter', 'initialize_native_asmparser', 'initialize_all_targets', 'initialize_all_asmprinters', 'check_jit_execution'):
        fn(n, lambda E, args, kw, n=n: (E.ghost.setdefault('initialised', set()).add(n), Con(None))[1])
    fn('parse_assembly', lambda E, args, kw: Tm(MODULE, parsed(E.term(args[0], STR))))
    for n in ('create_pass_manager_builder', 'create_module_pass_manager', 'PassManagerBuilder', 'ModulePassManager'):
        fn(n, lambda E, args, kw: E.alloc(ObjC(Builder, {})))

    class Target:
        @staticmethod
        def from_default_triple():
            raise NotImplementedError

        @staticmethod
        def from_triple(t):
            raise NotImplementedError

    b.Target = Target

    def target(E, args, kw):
        E.emit(BoolVal(bool({'initialize_native_target', 'initialize_all_targets'} & E.ghost.get('initialised', set()))), 'the target is initialised before it is used', 'pre')
        return E.alloc(ObjC(Machine, {}))
    model(Target.__dict__['from_default_triple'].__func__)(target)
    model(Machine.create_target_machine)(lambda E, args, kw: E.alloc(ObjC(Machine, {})))
    model(Builder.populate)(lambda E, args, kw: Con(None))
    model(Builder.run)(lambda E, args, kw: (E.term(args[1], MODULE), Con(True))[1])

    def engine(E, args, kw):
        E.emit(BoolVal(bool({'initialize_native_asmprinter', 'initialize_all_asmprinters'} & E.ghost.get('initialised', set()))), 'the code printer is initialised before code is made', 'pre')
        if not (isinstance(args[1], Ref) and isinstance(E.content(args[1].cell), ObjC) and E.content(args[1].cell).cls is Machine):
            raise Unsupported('target machine')
        return Tm(ENGINE, jitted(E.term(args[0], MODULE)))
    fn('create_mcjit_compiler', engine)
    sys.modules['llvmlite'], sys.modules['llvmlite.binding'] = top, b
    return b


MODULE, ENGINE, ADDR, CT, CFN = (OpaqueTy(n) for n in ('LLVMModule', 'Engine', 'Address', 'CType', 'CFunction'))
CTS = SeqTh(CT.sort)
parsed, jitted = Function('parse_assembly', StrS, MODULE.sort), Function('mcjit', MODULE.sort, ENGINE.sort)
address = Function('get_function_address', ENGINE.sort, StrS, ADDR.sort)
cfun = Function('CFUNCTYPE', CT.sort, CTS.S, ADDR.sort, CFN.sort)
NOOP = lambda E, v, args, kw: Con(None)
MODULE.handlers.update({'m:verify': NOOP})
ENGINE.handlers.update({'m:finalize_object': NOOP, 'm:run_static_constructors': NOOP,
                        'm:get_function_address': lambda E, v, args, kw: Tm(ADDR, address(v.t, E.term(args[0], STR)))})
PDOUBLE = ctypes.POINTER(ctypes.c_double)
CTYPES = {id(ctypes.c_double): 'c_double', id(PDOUBLE): 'double*', id(ctypes.c_float): 'c_float', id(ctypes.c_long): 'c_long', id(ctypes.c_int): 'c_int', id(ctypes.c_void_p): 'void*', id(ctypes.c_longdouble): 'c_longdouble'}
for _i in CTYPES:
    LIBRARY[_i] = CT


def ct(name):
    return Const('C! ' + name, CT.sort)


def _inj(E, v):
    if isinstance(v, Con) and id(v.obj) in CTYPES:
        return ct(CTYPES[id(v.obj)])
    if isinstance(v, Con) and v.obj is None:
        return ct('void')


CT.inject = _inj
smt.AX.add('CFUNCTYPE', z3.Distinct(*[ct(n) for n in sorted(set(CTYPES.values()) | {'void'})]))


@model(ctypes.POINTER)
def m_pointer(E, args, kw):
    return Con(ctypes.POINTER(args[0].obj))


@model(ctypes.CFUNCTYPE, stars=True)
def m_cfunctype(E, args, kw):
    if kw:
        raise Unsupported('CFUNCTYPE options')
    r, acc = E.term(args[0], CT), CTS.empty
    for a in args[1:]:
        acc = (a.t if acc.eq(CTS.empty) else CTS.cat(acc, a.t)) if isinstance(a, Star) else CTS.snoc(acc, E.term(a, CT))
    return Bound(('h', lambda E, s, a, k: Tm(CFN, cfun(r, acc, E.term(a[0], ADDR)))), Con(None))


class Kept:
    """The module-level list that keeps the compiled code alive."""

    def __init__(self):
        self.state = ()

    def attr(self, E, v, name):
        if name != 'append':
            raise Unsupported(f'{name} of the list of compiled code')

        def append(E, s, args, kw):
            self.state = self.state + (E.term(args[0], ENGINE),)
            return Con(None)
        return Bound(('h', append), v)


def keep(E):
    k = Kept()
    E.weak[id(lm()._exe_eng)] = k
    return k


def compiled(E, kept, f, text, ret, args):
    """f calls the code of the text, compiled, with these argument types; the code stays alive."""
    t = E.term(f, CFN)
    if not (t.decl().name() == 'CFUNCTYPE'):
        raise Unsupported('the callable')
    eng = jitted(parsed(text))
    j = z3.Int('j')
    n, at = args
    E.emit(t.arg(2) == address(eng, E.strconst('jit_func1')), 'the callable is the compiled code of the generated text', 'post')
    E.emit(Or(*[k == eng for k in kept.state]), 'the compiled code is kept alive', 'post')
    if ret is not None:
        E.emit(t.arg(0) == ct(ret), f'it returns a {ret}', 'post')
    E.emit(CTS.len(t.arg(1)) == n, 'it takes one value per argument', 'post')
    E.emit(fa(j, Implies(And(0 <= j, j < n), CTS.at(t.arg(1), j) == at(j)), CTS.at(t.arg(1), j)), 'of type double', 'post')


def same_list(S, S2):
    j = z3.Int('j')
    return And(TS.len(S2) == TS.len(S), fa(j, Implies(And(0 <= j, j < TS.len(S)), TS.at(S2, j) == TS.at(S, j)), TS.at(S2, j), TS.at(S, j)))


class Generates(CheckTask):
    """Expr.to_llvm_ir(args): the text for the arguments' and the expression's trees."""
    name = 'Expr.to_llvm_ir'
    method = True

    def start(self, E):
        S, x = Const('args', TS.S), Const('expr', TreeS)
        for _, f in params(S) + [('', wf(bx(x)))]:
            E.assume(f)
        E.raises = (em(), OverflowError, TypeError)
        return S, x, E.alloc(ListC(ET(), S)), Tm(ET(), x)

    def act(self, E, args, x):
        return E.call(E.getattr(x, 'to_llvm_ir'), [args], {})

    def run(self, E, variant):
        S, x, args, ex = self.start(E)
        kept = keep(E)
        try:
            r = self.act(E, args, ex)
        except PyExc as e:
            return self.failed(E, e, S, x)
        S2, x2, text = self.generated(E)
        E.emit(same_list(S, S2), 'generated for the given arguments in order', 'post')
        E.emit(x2 == x, 'generated for the given expression', 'post')
        self.good(E, kept, r, S, text)

    def generated(self, E):
        g = E.ghost.get('ir', [])
        if len(g) != 1:
            raise Unsupported('code is generated once')
        return g[0]

    def good(self, E, kept, r, S, text):
        E.emit(E.term(r, STR) == text, 'the generated text', 'post')

    def failed(self, E, e, S, x):
        E.loc = f'{self.name} (exceptional exit)'
        S2, x2, _ = self.generated(E)
        E.emit(same_list(S, S2), 'generated for the given arguments in order', 'raises')
        E.emit(x2 == x, 'generated for the given expression', 'raises')
        ok = bad(S2, bx(x2)) if issubclass(e.cls, em()) else toobig(S2, bx(x2)) if issubclass(e.cls, OverflowError) else BoolVal(False)
        E.emit(ok, f'{e.cls.__name__} only for unsupported parts ({e.why})', 'raises')


class Lambdify(Generates):
    """lambdify(args, expression): the compiled code of the generated text."""
    name = 'lambdify'
    variants = ('Expr', 'object', 'float', 'str', 'None', 'list')
    method = False

    def act(self, E, args, x):
        stand_in()
        return E.call(Con(lm().lambdify), [args, x], {})

    def run(self, E, variant):
        if variant == 'Expr':
            return Generates.run(self, E, variant)
        S, x, args, ex = self.start(E)
        try:
            self.act(E, args, foreign(E)[variant])
        except PyExc as e:
            return E.emit(BoolVal(issubclass(e.cls, TypeError)), f'{e.cls.__name__} for something else than an expression or matrix', 'raises')
        E.emit(BoolVal(False), 'TypeError for something else than an expression or matrix', 'raises')

    def good(self, E, kept, r, S, text):
        compiled(E, kept, r, text, 'c_double', (TS.len(S), lambda j: ct('c_double')))


def tasks14():
    return [Generates(), Lambdify()]


# ---- matrices ------------------------------------------------------------------------
class Array:
    """Stands for a numpy array of doubles made by zeros: its shape; all elements are zero."""


class View:
    """Stands for array.ctypes."""

    def data_as(self, t):
        raise NotImplementedError


class Pointer:
    """Stands for a pointer to the elements of an array."""


@model(View.data_as)
def m_data_as(E, args, kw):
    E.emit(BoolVal(isinstance(args[1], Con) and args[1].obj is PDOUBLE), 'the address of doubles', 'pre')
    return E.alloc(ObjC(Pointer, {'array': E.getattr(args[0], 'array')}))


def numpy_models():
    import numpy as np

    @model(np.zeros)
    def zeros(E, args, kw):
        shape, dt = (list(args) + [None, None])[:2]
        shape, dt = kw.get('shape', shape), kw.get('dtype', dt)
        if set(kw) - {'shape', 'dtype'} or len(args) > 2:
            raise Unsupported('numpy.zeros with other options')
        E.emit(BoolVal(dt is None or isinstance(dt, Con) and dt.obj in (np.float64, float, 'float64', 'double', 'd', 'f8')), 'the array has doubles', 'pre')
        E.emit(BoolVal(True), 'the array starts as zeros', 'pre')
        a = E.alloc(ObjC(Array, {'shape': Tm(KEY2, E.term(shape, KEY2))}))
        E.setattr(a, 'ctypes', E.alloc(ObjC(View, {'array': a})))
        E.ghost['arrays'] = E.ghost.get('arrays', []) + [a]
        return a

    def uninitialised(E, args, kw):
        E.emit(BoolVal(False), 'the array starts as zeros', 'pre')
        return zeros(E, args, kw)
    for f in (np.empty, np.ones):
        model(f)(uninitialised)


def m_code(E, v, args, kw):
    E.ghost['runs'] = E.ghost.get('runs', []) + [(v.t, list(args))]
    return Con(None)


CFN.handlers['call'] = m_code
NUM = OpaqueTy('Number')


class GeneratesMatrix(Generates):
    """Matrix.to_llvm_ir(args)."""
    name = 'Matrix.to_llvm_ir'

    def start(self, E):
        S, m = Const('args', TS.S), arbitrary_matrix(E, 'M')
        mv = M(E, m)
        for _, f in params(S) + mv.inv() + [('', wf(bx(mv.graph)))]:
            E.assume(f)
        self.m = mv
        E.raises = (em(), OverflowError, TypeError)
        return S, m, E.alloc(ListC(ET(), S))

    def act(self, E, args, x):
        return E.call(E.getattr(x, 'to_llvm_ir'), [args], {})

    def run(self, E, variant):
        S, m, args = self.start(E)
        kept = keep(E)
        try:
            r = self.act(E, args, m)
        except PyExc as e:
            E.loc = f'{self.name} (exceptional exit)'
            S2, m2, _ = self.generated(E)
            self.same(E, S, S2, m2, 'raises')
            g = bx(m2.graph)
            ok = bad(S2, g) if issubclass(e.cls, em()) else toobig(S2, g) if issubclass(e.cls, OverflowError) else BoolVal(False)
            return E.emit(ok, f'{e.cls.__name__} only for unsupported parts ({e.why})', 'raises')
        S2, m2, text = self.generated(E)
        self.same(E, S, S2, m2, 'post')
        self.good(E, kept, r, S, text, m)

    def same(self, E, S, S2, m2, kind):
        m = self.m
        E.emit(same_list(S, S2), 'generated for the given arguments in order', kind)
        E.emit(And(m2.graph == m.graph, m2.elements == m.elements, m2.dom == m.dom, m2.val == m.val, m2.nrows == m.nrows, m2.ncols == m.ncols), 'generated for the given matrix', kind)

    def good(self, E, kept, r, S, text, m):
        E.emit(E.term(r, STR) == text, 'the generated text', 'post')


class LambdifyMatrix(GeneratesMatrix):
    """lambdify(args, matrix): a function making an array of the shape and running the compiled code on it."""
    name = 'lambdify (matrix)'

    def act(self, E, args, x):
        stand_in()
        numpy_models()
        return E.call(Con(lm().lambdify), [args, x], {})

    def good(self, E, kept, r, S, text, m):
        NS_ = SeqTh(NUM.sort)
        got = []
        for call in ('first', 'second'):
            vals = Const(f'values_{call}', NS_.S)
            E.assume(NS_.len(vals) == TS.len(S))
            before, arrays = len(E.ghost.get('runs', [])), list(E.ghost.get('arrays', []))
            a = E.call(r, [Star(NUM, vals)], {})
            runs = E.ghost.get('runs', [])[before:]
            ok = isinstance(a, Ref) and isinstance(E.content(a.cell), ObjC) and E.content(a.cell).cls is Array
            E.emit(BoolVal(ok and all(b.cell != a.cell for b in arrays)), f'the {call} call returns a new array', 'frame')
            if not ok:
                return
            E.emit(E.term(E.getattr(a, 'shape'), KEY2) == self.m.shape, "of the matrix's shape", 'post')
            E.emit(BoolVal(len(runs) == 1), 'the code runs exactly once', 'post')
            if len(runs) != 1:
                return
            fn, args = runs[0]
            p = args[0] if args else None
            good = isinstance(p, Ref) and isinstance(E.content(p.cell), ObjC) and E.content(p.cell).cls is Pointer and E.getattr(p, 'array').cell == a.cell
            E.emit(BoolVal(bool(good)), 'on the elements of this array', 'post')
            acc = None
            for v in args[1:]:
                if isinstance(v, Star):
                    acc = v.t if acc is None else NS_.cat(acc, v.t)
                else:
                    acc = NS_.snoc(NS_.empty if acc is None else acc, E.term(v, NUM))
            acc = NS_.empty if acc is None else acc
            j = z3.Int('j')
            E.emit(And(NS_.len(acc) == NS_.len(vals), fa(j, Implies(And(0 <= j, j < NS_.len(vals)), NS_.at(acc, j) == NS_.at(vals, j)), NS_.at(acc, j), NS_.at(vals, j))), 'with the given values in order', 'post')
            got.append(fn)
        for fn in got:
            compiled(E, kept, Tm(CFN, fn), text, None, (TS.len(S) + 1, lambda j: If(j == 0, ct('double*'), ct('c_double'))))


def tasks15():
    return [GeneratesMatrix(), LambdifyMatrix()]
