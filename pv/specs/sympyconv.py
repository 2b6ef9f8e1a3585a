"""Conversions to and from SymPy (C18).

SymPy objects form an uninterpreted sort with the constructors the conversions
use; what is assumed of SymPy is written down in facts() and ASSUMED.
"""
from __future__ import annotations
import z3
import sympy
from sympy.core.function import AppliedUndef
from ..contract import *
from ..smt import *
from ..types import *
from ..interp import Star
from .. import smt, models
from ..models import model
from .arith import ET, fun, integer, atom_of, m as em
from .matrix import M, KEY2, EM, k0, k1, OnMatrix, arbitrary, is_matrix, mm, KS, over_stored
from .tree import sel

ASSUMED = ['SymPy expressions are finite: the arguments of an expression are built before it',
           'SymPy: Tuple(*a).args == a; a symbol and an integer have no args; an object is of at most one of the kinds Integer, Symbol, Add, Mul, Pow, sin, cos, Tuple, applied undefined function; == of SymPy objects respects kind, name, value and arguments (SymPy >= 1.13)',
           'SymPy: todok() holds the non-zero entries under their positions, zeros(m, n) is a new zero matrix, item assignment sets that entry',
           'distinct Integer/Symbol assumptions and Dummy identity are not represented in protosym (symbols are named)']


def sp_isinstance(E, v, cls):
    if cls is object or cls is sympy.Basic or cls is sympy.Expr and False:
        return True
    if cls in KINDS:
        return E.branch(kind(v.t) == KINDS[cls])
    if cls is sympy.Number or cls is sympy.Rational:
        if E.branch(kind(v.t) == 1):
            return True
        if not E.valid(kind(v.t) == 0):
            if E.branch(kind(v.t) > 1):
                return False
        return E.branch(Function('sp:is ' + cls.__name__, SPS, B)(v.t))
    if isinstance(cls, type) and issubclass(cls, (Sym_(), int, str, float, list, tuple, dict)):
        return False
    raise Unsupported(f'SymPy class {cls.__name__}')


def Sym_():
    from protosym.core.sym import Sym
    return Sym


SPT = OpaqueTy('SymPy')
SPS = SPT.sort
SPSeq = SeqTh(SPS)
SPC = OpaqueTy('SymPyFunction')
kind, args_ = Function('sp:kind', SPS, I), Function('sp:args', SPS, SPSeq.S)
p_, name_ = Function('sp:p', SPS, I), Function('sp:name', SPS, StrS)
KINDS = {sympy.Integer: 1, sympy.Symbol: 2, sympy.Add: 3, sympy.Mul: 4, sympy.Pow: 5, sympy.sin: 6, sympy.cos: 7, sympy.Tuple: 8, AppliedUndef: 9}
spheight = Function('sp:height', SPS, I)
sInt, sSym, sFun = Function('sympy.Integer', I, SPS), Function('sympy.Symbol', StrS, SPS), Function('sympy.Function', StrS, SPC.sort)
sAdd, sMul, sTup = (Function('sympy.' + n, SPSeq.S, SPS) for n in ('Add', 'Mul', 'Tuple'))
sPow, sSin, sCos = Function('sympy.Pow', SPS, SPS, SPS), Function('sympy.sin', SPS, SPS), Function('sympy.cos', SPS, SPS)
sApp = Function('sympy:apply', SPC.sort, SPSeq.S, SPS)
SPT.handlers.update({'isinstance': sp_isinstance,
                     '.args': lambda E, v: Tm(SeqTy(SPT), args_(v.t)),
                     '.p': lambda E, v: need(E, v, 1, Tm(INT, p_(v.t))),
                     '.name': lambda E, v: Tm(STR, name_(v.t)) if E.branch(Or(kind(v.t) == 2, kind(v.t) == 9)) else attrerror(),
                     'int': lambda E, v: need(E, v, 1, Tm(INT, p_(v.t)))})
for _n, _k in (('Integer', 1), ('Symbol', 2), ('Add', 3), ('Mul', 4), ('Pow', 5)):
    SPT.handlers['.is_' + _n] = lambda E, v, k=_k: Tm(BOOL, kind(v.t) == k)
SPC.handlers['call'] = lambda E, f, args, kw: Tm(SPT, sApp(f.t, seqof(E, args, kw)))
_a, _s, _c, _n, _st = Const('a', SPS), Const('s', SPSeq.S), Const('c', SPC.sort), z3.Int('n'), Const('st', StrS)
smt.AX.add('sp:height', fa(_a, spheight(_a) >= 0, spheight(_a)),
           fa([_a, _n], Implies(And(0 <= _n, _n < SPSeq.len(args_(_a))), spheight(SPSeq.at(args_(_a), _n)) < spheight(_a)), SPSeq.at(args_(_a), _n)))
smt.AX.add('sp:kind', fa(_a, And(0 <= kind(_a), kind(_a) <= 9), kind(_a)),
           fa(_a, Implies(Or(kind(_a) == 1, kind(_a) == 2), SPSeq.len(args_(_a)) == 0), kind(_a), args_(_a)),
           fa(_a, Implies(kind(_a) == 5, SPSeq.len(args_(_a)) == 2), kind(_a)),
           fa(_a, Implies(Or(kind(_a) == 6, kind(_a) == 7), SPSeq.len(args_(_a)) == 1), kind(_a)))
smt.AX.add('sympy.Tuple', fa(_s, And(kind(sTup(_s)) == 8, args_(sTup(_s)) == _s), sTup(_s)))
smt.AX.add('sympy.Integer', fa(_n, And(kind(sInt(_n)) == 1, p_(sInt(_n)) == _n), sInt(_n)))
smt.AX.add('sympy.Symbol', fa(_st, And(kind(sSym(_st)) == 2, name_(sSym(_st)) == _st), sSym(_st)))


def attrerror():
    raise PyExc(AttributeError, 'SymPy attribute')


def need(E, v, k, r):
    if not E.branch(kind(v.t) == k):
        attrerror()
    return r


def seqof(E, args, kw):
    if kw:
        raise Unsupported('keyword arguments to SymPy')
    if len(args) == 1 and isinstance(args[0], Star):
        if args[0].ty != SPT:
            raise Unsupported('arguments to SymPy')
        return args[0].t
    acc = SPSeq.empty
    for a in args:
        acc = SPSeq.cat(acc, a.t) if isinstance(a, Star) else SPSeq.snoc(acc, E.term(a, SPT))
    return acc


def _ctor(o, f, n, ty=None):
    @model(o, stars=n is None)
    def call(E, args, kw):
        if n is None:
            return Tm(SPT, f(seqof(E, args, kw)))
        if kw or len(args) != n:
            raise Unsupported(f'arguments of {o.__name__}')
        if ty is None and o is sympy.Integer and not isinstance(args[0], Con):
            return Tm(SPT, f(E.term(models.m_int(E, args, {}), INT)))
        return Tm(SPT if o is not sympy.Function else SPC, f(*[strarg(E, a) if ty else E.term(a, SPT) for a in args]))


def strarg(E, a):
    from ..interp import sval, vstr
    if isinstance(a, Tm) and a.ty == VAL and E.valid(a.t == vstr(sval(a.t))):
        return sval(a.t)
    return E.term(a, STR)


_ctor(sympy.Integer, sInt, 1)
_ctor(sympy.Symbol, sSym, 1, STR)
_ctor(sympy.Function, sFun, 1, STR)
_ctor(sympy.Add, sAdd, None)
_ctor(sympy.Mul, sMul, None)
_ctor(sympy.Tuple, sTup, None)
_ctor(sympy.Pow, sPow, 2)
_ctor(sympy.sin, sSin, 1)
_ctor(sympy.cos, sCos, 1)


class Any_:
    """A SymPy function class as a value of the evaluator."""


def conv_mod():
    import protosym.simplecas
    import protosym.simplecas.sympy_conversions as c
    return c


class ToRules(CheckTask):
    """to_sympy: the SymPy operation of each supported head and atom."""
    name = 'to_sympy rules'
    variants = ('Integer', 'Symbol', 'Function') + tuple(f'{h}{n}' for h in ('Add', 'Mul', 'List', 'f', 'any') for n in ('', ' 0', ' 1', ' 2', ' 3')) + ('Pow 2', 'sin 1', 'cos 1')

    def run(self, E, variant):
        h, _, n = variant.partition(' ')
        core = Con(conv_mod().eval_to_sympy.evaluator)
        if h in ('Integer', 'Symbol', 'Function'):
            k, s = z3.Int('k'), Const('name', StrS)
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, atom_of(E, h, vint(k) if h == 'Integer' else vstr(s)))], {})
            if h == 'Function':
                return E.emit(E.term(r, SPC) == sFun(s), 'the undefined function of that name', 'post')
            return E.emit(E.term(r, SPT) == (sInt(k) if h == 'Integer' else sSym(s)), 'an integer' if h == 'Integer' else 'the symbol of that name', 'post')
        if h == 'any':
            ht = Const('h', TreeS)
            for k in ('Add', 'Mul', 'pow', 'sin', 'cos', 'List'):
                E.assume(ht != fun(E, k))
            hv = Tm(TREE, ht)
        else:
            hv = Con(getattr(__import__('protosym.simplecas', fromlist=['x']), h).rep)
            ht = fun(E, h)
        if n:
            ss = [Const(f's{i}', SPS) for i in range(int(n))]
            s = SPSeq.lit(ss)
            v = E.alloc(ListL([Tm(SPT, x) for x in ss]))
        else:
            s = Const('args', SPSeq.S)
            v = E.alloc(ListC(SPT, s))
        r = E.call(E.getattr(core, 'eval_operation'), [hv, v], {})
        want = {'Add': lambda: sAdd(s), 'Mul': lambda: sMul(s), 'List': lambda: sTup(s), 'Pow': lambda: sPow(*ss), 'sin': lambda: sSin(*ss), 'cos': lambda: sCos(*ss)}.get(h)
        w = want() if want else sApp(sFun(Function(f'str:{TreeS}', TreeS, StrS)(ht)), s)
        E.emit(E.term(r, SPT) == w, 'the SymPy operation of the same meaning, arguments in order', 'post')


ts = Function('to_sympy', TreeS, SPS)


def ts_facts(E):
    """What the rules above and C05 give for lists and for 0."""
    t, i = Const('t', TreeS), z3.Int('i')
    islist = And(Not(isatom(t)), head(t) == fun(E, 'List'))
    a = args_(ts(t))
    return [fa(t, Implies(islist, And(kind(ts(t)) == 8, SPSeq.len(a) == TS.len(kids(t)) - 1)), ts(t)),
            fa([t, i], Implies(And(islist, 0 <= i, i < SPSeq.len(a)), SPSeq.at(a, i) == ts(TS.at(kids(t), i + 1))), SPSeq.at(a, i)),
            ts(integer(E, IntVal(0))) == sInt(0)]


class ToSympy(Contract):
    """eval_to_sympy(expr) as used by the conversion of matrices."""
    target = 'protosym.core.sym:SymEvaluator.__call__'
    name = 'eval_to_sympy'

    def apply(self, E, o, args, kwargs):
        b = self.bind(E, args, kwargs)
        s, v = b['self'], b['values']
        if not (isinstance(s, Con) and s.obj is conv_mod().eval_to_sympy):
            raise Unsupported('another evaluator')
        none = isinstance(v, Con) and v.obj is None
        if not none and not (isinstance(v, Ref) and isinstance(E.content(v.cell), DictL) and not E.content(v.cell).items):
            raise Unsupported('conversion with values')
        E.calls_used.add(self.name)
        return Tm(SPT, ts(E.term(b['expr'], ET())))


# ---- matrices: a SymPy matrix under construction --------------------------------------
class MutMat:
    """Stands for a mutable SymPy matrix: rows, cols, and the entries set so far (all others are 0)."""

    def __setitem__(self, ij, v):
        raise NotImplementedError

    def __getitem__(self, ij):
        raise NotImplementedError


SPD = DictTy(KEY2, SPT)


@model(sympy.zeros)
def m_zeros(E, args, kw):
    if kw or not 1 <= len(args) <= 2:
        raise Unsupported('sympy.zeros')
    r, c = args[0], args[-1]
    d = E.alloc(DictC(KEY2, SPT, z3.K(KEY2.sort, BoolVal(False)), Const('no entries', z3.ArraySort(KEY2.sort, SPS)), None))
    return E.alloc(ObjC(MutMat, {'rows': Tm(INT, E.term(r, INT)), 'cols': Tm(INT, E.term(c, INT)), 'entries': d}))


@model(MutMat.__setitem__)
def m_setentry(E, args, kw):
    o, ij, v = args
    key = E.term(ij, KEY2)
    E.require(And(0 <= k0(key), k0(key) < E.term(E.getattr(o, 'rows'), INT), 0 <= k1(key), k1(key) < E.term(E.getattr(o, 'cols'), INT)), IndexError, 'inside the SymPy matrix')
    E.setitem(E.getattr(o, 'entries'), ij, Tm(SPT, E.term(v, SPT)))
    return Con(None)


class FillSympy(LoopSpec):
    def __init__(self):
        super().__init__('filling the SymPy matrix', {}, self.run, kinds=('for',), when=over_stored)

    def run(self, S):
        E, m = S.E, S.a.ms['M']
        if not S.itv.base or S.itv.base[0][0] is not KS:
            raise Unsupported('loop over something else than the stored positions')
        ks = S.itv.base[0][1]
        mats = [v for v in S.frame.vars.values() if isinstance(v, Ref) and isinstance(E.content(v.cell), ObjC) and E.content(v.cell).cls is MutMat]
        if len(mats) != 1:
            raise Unsupported('SymPy matrix in the loop')
        d = E.term(E.getattr(mats[0], 'entries'), SPD)
        k = Const('k', KEY2.sort)
        D, V = (lambda k: sel(SPD.dom(d), k)), (lambda k: z3.Select(SPD.val(d), k))
        done = And(sel(m.dom, k), KS.idx(ks, k) < S.it)
        return [('', touch(KS.at(ks, S.it))),
                ('positions set so far', fa(k, D(k) == done, D(k), KS.idx(ks, k))),
                ('entries set so far', fa(k, Implies(D(k), V(k) == ts(TS.at(m.elements, z3.Select(m.val, k)))), D(k)))]


class ToSympyMatrix(OnMatrix):
    target = 'protosym.simplecas.matrix:Matrix.to_sympy'
    name = 'Matrix.to_sympy'
    variants = ('', 'to_sympy_matrix')

    def loopspecs(self):
        return [FillSympy()]

    def setup(self, E, variant):
        E.ghost['v'] = variant
        return [arbitrary(E, 'M')], {}

    def body(self, E, args, kwargs):
        if E.ghost['v']:
            return E.call(Con(conv_mod().to_sympy_matrix), args, kwargs)
        return super().body(E, args, kwargs)

    def view(self, E, b):
        return NS(ms={'M': M(E, b['self'])})

    def ghost(self, E, a):
        return [('', f) for f in ts_facts(E)]

    def post(self, E, a, res):
        if not (isinstance(res, Ref) and isinstance(E.content(res.cell), ObjC) and E.content(res.cell).cls is MutMat):
            return [('a SymPy matrix', BoolVal(False))]
        m = a.ms['M']
        d = E.term(E.getattr(res, 'entries'), SPD)
        i, j = z3.Ints('i j')
        key = KEY2.con(i, j)
        e = If(sel(SPD.dom(d), key), z3.Select(SPD.val(d), key), sInt(0))
        return [('as many rows', E.term(E.getattr(res, 'rows'), INT) == m.nrows), ('as many columns', E.term(E.getattr(res, 'cols'), INT) == m.ncols),
                ('every entry at its index', fa([i, j], Implies(m.inside(i, j), e == ts(m.entry(i, j))), m.has(i, j), sel(SPD.dom(d), key)))]


# ---- from SymPy ---------------------------------------------------------------------
fs, ok = Function('from_sympy', SPS, TreeS), Function('convertible from sympy', SPS, B)
fargs = Function('from_sympy args', SPS, TS.S)


def fs_facts(E):
    """The recursive definition of the conversion."""
    a, i = Const('a', SPS), z3.Int('i')
    A = args_(a)
    okargs = Function('args convertible', SPS, B)
    bad = Function('first bad arg', SPS, I)
    comp = {3: fun(E, 'Add'), 4: fun(E, 'Mul'), 5: fun(E, 'pow'), 6: fun(E, 'sin'), 7: fun(E, 'cos'), 8: fun(E, 'List'), 9: mkleaf(mkatom(E.conc_atype(em().Function.atom_type), vstr(name_(a))))}
    out = [fa(a, Implies(kind(a) == 1, And(ok(a), fs(a) == integer(E, p_(a)))), fs(a), ok(a)),
           fa(a, Implies(kind(a) == 2, And(ok(a), fs(a) == atom_of(E, 'Symbol', vstr(name_(a))))), fs(a), ok(a)),
           fa(a, Implies(kind(a) == 0, Not(ok(a))), ok(a)),
           fa(a, Implies(kind(a) >= 3, ok(a) == okargs(a)), ok(a)),
           fa([a, i], Implies(And(okargs(a), 0 <= i, i < SPSeq.len(A)), ok(SPSeq.at(A, i))), (okargs(a), SPSeq.at(A, i))),
           fa(a, Implies(Not(okargs(a)), And(0 <= bad(a), bad(a) < SPSeq.len(A), Not(ok(SPSeq.at(A, bad(a)))))), okargs(a)),
           fa(a, TS.len(fargs(a)) == SPSeq.len(A), fargs(a)),
           fa([a, i], Implies(And(0 <= i, i < SPSeq.len(A)), TS.at(fargs(a), i) == fs(SPSeq.at(A, i))), TS.at(fargs(a), i))]
    for k, h in comp.items():
        out.append(fa(a, Implies(kind(a) == k, fs(a) == mk(TS.cat(TS.lit([h]), fargs(a)))), fs(a)))
    return out


known = Function('known to be cached', SPS, B)      # a positive fact only: never assumed to be false


def c_get(E, v, args, kw):
    d = kw.get('default', args[1] if len(args) > 1 else Con(None))
    k = E.term(args[0], SPT)
    if E.branch(E.fresh('cached', B)):
        E.assume(ok(k))
        return Tm(ET(), fs(k))
    return d


def c_set(E, v, k, val):
    k = E.term(k, SPT)
    E.emit(E.term(val, ET()) == fs(k), 'the cache holds conversions', 'invariant')
    E.emit(ok(k), 'the cache holds convertible objects', 'invariant')
    E.assume(known(k))


def c_in(E, c, x):
    """Whether it is cached: when it is, it is convertible; a later lookup finds it (nothing is removed)."""
    k, b = E.term(x, SPT), E.fresh('cached', B)
    E.assume(Implies(b, And(ok(k), known(k))))
    return b


def c_getitem(E, v, k):
    k = E.term(k, SPT)
    if not E.valid(known(k)):
        b = E.fresh('cached', B)
        E.assume(Implies(b, ok(k)))
        E.require(b, KeyError, 'the object looked up is in the cache')
    return Tm(ET(), fs(k))


CACHE = OpaqueTy('ConversionCache', dict, handlers={'m:get': c_get, 'setitem': c_set, 'contains': c_in, 'getitem': c_getitem})


class FromCache(Contract):
    """The conversion with a table of conversions already made."""
    target = 'protosym.simplecas.sympy_conversions:_from_sympy_cache'
    name = '_from_sympy_cache'
    recursive = True

    def setup(self, E, variant):
        return [Tm(SPT, Const('expr', SPS)), Tm(CACHE, Const('cache', CACHE.sort))], {}

    def view(self, E, b):
        c = b['cache']
        good = isinstance(c, Tm) and c.ty is CACHE or isinstance(c, Ref) and isinstance(E.content(c.cell), DictL) and not E.content(c.cell).items
        return NS(e=E.term(b['expr'], SPT), good=good, cache=c)

    def pre(self, E, a):
        c = E.ctx
        rec = c is not None and c is not a and 'cache' in c.__dict__
        return [('the cache holds conversions', BoolVal(bool(a.good)))] + ([('arguments are smaller', spheight(a.e) < spheight(c.e))] if rec else [])

    def ghost(self, E, a):
        return [('', f) for f in fs_facts(E)]

    def raises(self, E, a):
        return [(NotImplementedError, Not(ok(a.e)))]

    def result(self, E, a):
        if isinstance(a.cache, Ref):
            E.write(a.cache.cell, DictC(SPT, ET(), E.fresh('dom', z3.ArraySort(SPS, B)), E.fresh('val', z3.ArraySort(SPS, TreeS)), None))
        return Tm(ET(), fs(a.e))

    def post(self, E, a, res):
        return [('the expression of the same structure', E.term(res, ET()) == fs(a.e))]


class FromSympy(Contract):
    target = 'protosym.simplecas.sympy_conversions:from_sympy'
    name = 'from_sympy'
    variants = ('', 'Expr.from_sympy')

    def setup(self, E, variant):
        E.ghost['v'] = variant
        return [Tm(SPT, Const('expr', SPS))], {}

    def body(self, E, args, kwargs):
        if E.ghost['v']:
            from protosym.simplecas.expr import Expr
            return E.call(E.getattr(Con(Expr), 'from_sympy'), args, kwargs)
        return super().body(E, args, kwargs)

    def view(self, E, b):
        return NS(e=E.term(b['expr'], SPT))

    def raises(self, E, a):
        return [(NotImplementedError, Not(ok(a.e)))]

    def ghost(self, E, a):
        return [('', f) for f in fs_facts(E)]

    def result(self, E, a):
        return Tm(ET(), fs(a.e))

    def post(self, E, a, res):
        return [('the expression of the same structure', E.term(res, ET()) == fs(a.e))]


class Collect(LoopSpec):
    """Collecting the non-zero entries and their positions."""

    def __init__(self):
        super().__init__('collecting the entries', {'elements': Role(ListTy(SPT), ('elements_sympy', 'elements')), 'map': Role(EM, ('entrymap',))}, self.run, kinds=('for',))

    def run(self, S):
        a, E = S.a, S.E
        if not S.itv.base or S.itv.base[0][0] is not KS:
            raise Unsupported('loop over something else than the non-zero entries')
        ks = S.itv.base[0][1]
        el, d = S.t('elements'), S.t('map')
        D, V = (lambda k: sel(EM.dom(d), k)), (lambda k: z3.Select(EM.val(d), k))
        k, l, n = Const('k', KEY2.sort), Const('l', KEY2.sort), z3.Int('n')
        return [('', touch(KS.at(ks, S.it))),
                ('positions so far', fa(k, D(k) == And(a.has(k), KS.idx(ks, k) < S.it), D(k), KS.idx(ks, k))),
                ('stored positions have their entry', fa(k, Implies(D(k), And(0 <= V(k), V(k) < SPSeq.len(el), SPSeq.at(el, V(k)) == a.get(k))), D(k))),
                ('different positions have different elements', fa([k, l], Implies(And(D(k), D(l), k != l), V(k) != V(l)), (D(k), D(l)))),
                ('one element per entry', SPSeq.len(el) == S.it),
                ('every element is an entry', fa(n, Implies(And(0 <= n, n < SPSeq.len(el)), SPSeq.at(el, n) == a.get(KS.at(ks, n))), SPSeq.at(el, n)))]


class FromSympyMatrix(Contract):
    target = 'protosym.simplecas.matrix:Matrix.from_sympy'
    name = 'Matrix.from_sympy'
    at_calls = False

    def loopspecs(self):
        return [Collect()]

    def setup(self, E, variant):
        d = Const('dok', SPD.sort)
        r, c = z3.Int('rows'), z3.Int('cols')
        ty = OpaqueTy('SymPyMatrix')
        ty.handlers.update({'m:todok': lambda E, v, args, kw: E.wrap(SPD, d), '.rows': lambda E, v: Tm(INT, r), '.cols': lambda E, v: Tm(INT, c),
                            '.shape': lambda E, v: TupV([Tm(INT, r), Tm(INT, c)])})
        E.ghost['d'] = d
        return [Con(mm().Matrix), Tm(ty, Const('mat', ty.sort))], {}

    def view(self, E, b):
        d = E.ghost['d']
        return NS(has=lambda k: sel(SPD.dom(d), k), get=lambda k: z3.Select(SPD.val(d), k), rows=z3.Int('rows'), cols=z3.Int('cols'))

    def inside(self, a, k):
        return And(0 <= k0(k), k0(k) < a.rows, 0 <= k1(k), k1(k) < a.cols)

    def pre(self, E, a):
        k = Const('k', KEY2.sort)
        return [('at least one row', And(a.rows >= 1, a.cols >= 0)), ('entries lie in the shape', fa(k, Implies(a.has(k), self.inside(a, k)), a.has(k)))]

    def ghost(self, E, a):
        return [('', f) for f in fs_facts(E)]

    def raises(self, E, a):
        k = Const('k', KEY2.sort)
        return [(NotImplementedError, Not(fa(k, Implies(a.has(k), ok(a.get(k))), a.has(k))))]

    def post(self, E, a, res):
        if not is_matrix(E, res):
            return [('a matrix', BoolVal(False))]
        m = M(E, res)
        i, j = z3.Ints('i j')
        k = KEY2.con(i, j)
        return m.inv() + [
            ('the same shape', And(m.nrows == a.rows, m.ncols == a.cols)),
            ('every entry at its index', fa([i, j], Implies(m.inside(i, j), m.entry(i, j) == If(a.has(k), fs(a.get(k)), integer(E, IntVal(0)))), m.has(i, j), a.has(k)))]


class Delegates(CheckTask):
    """Expr.to_sympy and _sympy_ convert with the shipped rules."""
    name = 'Expr.to_sympy'
    variants = ('to_sympy', '_sympy_', 'function to_sympy')

    def run(self, E, variant):
        x = Const('x', TreeS)
        X = Tm(ET(), x)
        r = E.call(Con(conv_mod().to_sympy), [X], {}) if ' ' in variant else E.call(E.getattr(X, variant), [], {})
        E.emit(E.term(r, SPT) == ts(x), 'the conversion by the shipped rules', 'post')


def tasks():
    return [ToRules(), Delegates(), ToSympyMatrix(), FromCache(), FromSympy(), FromSympyMatrix()]
