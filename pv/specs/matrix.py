"""Contracts for simplecas.matrix.Matrix."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from .arith import ET, fun, integer, foreign
from .tree import sel

KEY2 = TupTy(INT, INT)
EM = DictTy(KEY2, INT)
k0, k1 = KEY2.acc
ENTRY = OpaqueTy('Expressifiable')
conv = Function('conv', ENTRY.sort, TreeS)
okconv = Function('convertible', ENTRY.sort, B)
ROW = ListTy(ENTRY)
ROWS = ListTy(ROW)
RS_, RRS = SeqTh(ENTRY.sort), SeqTh(SeqTh(ENTRY.sort).S)
LT = lambda: ListTy(ET())


def mm():
    import protosym.simplecas.matrix as m
    import protosym.simplecas
    return m


def em():
    import protosym.simplecas.expr as m
    return m


class Expressify(Contract):
    """expressify of an arbitrary entry: the converted entry, or ExpressifyError (C11)."""
    target = 'protosym.simplecas.expr:expressify'
    name = 'expressify'

    def applicable(self, E, b):
        try:
            return E.typeof(b['obj']) == ENTRY
        except Unsupported:
            return False

    def apply(self, E, o, args, kwargs):
        b = self.bind(E, args, kwargs)
        try:
            mine = E.typeof(next(iter(b.values()))) == ENTRY
        except Unsupported:
            mine = False
        if not mine:
            return E.call_fn(o, args, kwargs)
        E.calls_used.add(self.name)
        e = next(iter(b.values())).t
        E.require(okconv(e), em().ExpressifyError, 'the entry is convertible')
        return Tm(ET(), conv(e))


class M:
    """Logical view of a matrix object."""

    def __init__(self, E, obj):
        g = lambda n, ty: E.term(E.getattr(obj, n), ty)
        self.nrows, self.ncols = g('nrows', INT), g('ncols', INT)
        self.elements, self.graph = g('elements', LT()), g('elements_graph', ET())
        self.shape = g('shape', KEY2)
        d = g('entrymap', EM)
        self.dom, self.val = EM.dom(d), EM.val(d)
        self.E = E

    def key(self, i, j):
        return KEY2.con(i, j)

    def has(self, i, j):
        return sel(self.dom, self.key(i, j))

    def pos(self, i, j):
        return z3.Select(self.val, self.key(i, j))

    def stored(self, i, j):
        return TS.at(self.elements, self.pos(i, j))

    def entry(self, i, j):
        return If(self.has(i, j), self.stored(i, j), integer(self.E, IntVal(0)))

    def inside(self, i, j):
        return And(0 <= i, i < self.nrows, 0 <= j, j < self.ncols)

    def inv(self):
        k, l = Const('k', KEY2.sort), Const('l', KEY2.sort)
        D, V = (lambda k: sel(self.dom, k)), (lambda k: z3.Select(self.val, k))
        return [
            ('shape', And(self.nrows >= 1, self.ncols >= 0, self.shape == KEY2.con(self.nrows, self.ncols))),
            ('stored positions lie in the shape', fa(k, Implies(D(k), self.inside(k0(k), k1(k))), D(k))),
            ('stored positions have an element', fa(k, Implies(D(k), And(0 <= V(k), V(k) < TS.len(self.elements))), D(k))),
            ('different positions have different elements', fa([k, l], Implies(And(D(k), D(l), k != l), V(k) != V(l)), (D(k), D(l)))),
            ('the graph lists the elements', self.graph == mk(TS.cat(TS.lit([fun(self.E, 'List')]), self.elements))),
        ]


def arbitrary(E, nm):
    m = mm()
    nr, nc = z3.Int(f'nrows_{nm}'), z3.Int(f'ncols_{nm}')
    return E.alloc(ObjC(m.Matrix, {
        'nrows': Tm(INT, nr), 'ncols': Tm(INT, nc), 'shape': TupV([Tm(INT, nr), Tm(INT, nc)]),
        'elements': E.alloc(ListC(ET(), Const(f'elements_{nm}', TS.S))), 'elements_graph': Tm(ET(), Const(f'graph_{nm}', TreeS)),
        'entrymap': E.wrap(EM, Const(f'entrymap_{nm}', EM.sort))}))


def is_matrix(E, v):
    return isinstance(v, Ref) and isinstance(E.content(v.cell), ObjC) and E.content(v.cell).cls is mm().Matrix


def owned(E, res, *others):
    """The result and its tables belong to no other matrix (the table of positions may be shared: it never changes)."""
    ok = is_matrix(E, res)
    for o in others:
        ok = ok and is_matrix(E, o) and o.cell != res.cell and E.getattr(o, 'elements').cell != E.getattr(res, 'elements').cell
    return BoolVal(bool(ok))


# ---- construction -----------------------------------------------------------------
def cell(rows, i, j):
    return RS_.at(RRS.at(rows, i), j)


def row(rows, i):
    return RRS.at(rows, i)


class Rows(LoopSpec):
    def __init__(self):
        super().__init__('rows', self.roles_(), self.run, kinds=('for',), when=lambda E, fr, itv: itv is not None and not any(s.spec is not None and s.spec.name == 'rows' for s in E.loopstack))

    @staticmethod
    def roles_():
        return {'elements': Role(LT(), ('elements', 'new_elements')), 'map': Role(EM, ('entrymap', 'new_entrymap'))}

    def upto(self, S):
        return S.it, IntVal(0)

    def run(self, S):
        rows, E = S.a.rows, S.E
        el, d = S.t('elements'), S.t('map')
        D, V = (lambda k: sel(EM.dom(d), k)), (lambda k: z3.Select(EM.val(d), k))
        i0, j0 = self.upto(S)
        k, l = Const('k', KEY2.sort), Const('l', KEY2.sort)
        i, j = k0(k), k1(k)
        ii, jj = z3.Ints('i j')
        nc = RS_.len(row(rows, 0))
        before = And(0 <= i, 0 <= j, j < nc, Or(i < i0, And(i == i0, j < j0)))
        e = conv(cell(rows, i, j))
        return [
            ('', And(touch(cell(rows, i0, j0)), touch(row(rows, i0)))),
            ('the entries so far can be converted', fa([ii, jj], Implies(And(0 <= ii, 0 <= jj, jj < RS_.len(row(rows, ii)), Or(ii < i0, And(ii == i0, jj < j0))), okconv(cell(rows, ii, jj))), cell(rows, ii, jj))),
            ('exactly the non-zero entries so far are stored', fa(k, D(k) == And(before, e != integer(E, IntVal(0))), D(k))),
            ('stored positions have their entry', fa(k, Implies(D(k), And(0 <= V(k), V(k) < TS.len(el), TS.at(el, V(k)) == e)), D(k))),
            ('different positions have different elements', fa([k, l], Implies(And(D(k), D(l), k != l), V(k) != V(l)), (D(k), D(l)))),
        ]


class Cols(Rows):
    def __init__(self):
        LoopSpec.__init__(self, 'columns', self.roles_(), self.run, kinds=('for',), when=lambda E, fr, itv: itv is not None and E.loopstack and E.loopstack[-1].spec is not None and E.loopstack[-1].spec.name == 'rows')

    def upto(self, S):
        m = next(s for s in S.E.loopstack if s.spec is not None and s.spec.name == 'rows')
        return m.it, S.it


class New(Contract):
    """Matrix(rows)"""
    target = 'protosym.simplecas.matrix:Matrix.__new__'
    name = 'Matrix'
    variants = ('rows', 'object', 'float', 'str', 'None', 'tuple', 'rows: objects', 'rows: list and tuple', 'rows: list and object')
    at_calls = False

    def loopspecs(self):
        return [Rows(), Cols()]

    def setup(self, E, variant):
        rows = None
        if variant == 'rows':
            rows = Const('rows', ROWS.sort)
            v = E.wrap(ROWS, rows)
        elif variant == 'tuple':
            v = TupV([E.wrap(ROW, Const('row', ROW.sort))])
        elif variant.startswith('rows:'):
            f = foreign(E)['object']
            r = E.wrap(ROW, Const('row', ROW.sort))
            if variant == 'rows: objects':
                v = E.alloc(ListC(f.ty, Const('objects', SeqTh(f.ty.sort).S)))
                E.ghost['n'] = SeqTh(f.ty.sort).len(Const('objects', SeqTh(f.ty.sort).S))
            else:
                v = E.alloc(ListL([r, f if 'object' in variant else TupV([Tm(ENTRY, Const('e', ENTRY.sort))])]))
        else:
            v = foreign(E)[variant]
        E.ghost['rows'] = rows
        return [Con(mm().Matrix), v], {}

    def view(self, E, b):
        return NS(rows=E.ghost['rows'])

    def pre(self, E, a):
        if a.rows is None:
            return [('non-empty', E.ghost['n'] >= 1)] if 'n' in E.ghost else []
        return [('non-empty', RRS.len(a.rows) >= 1)]

    def good(self, a):
        i, j = z3.Ints('i j')
        r = a.rows
        return And(fa(i, Implies(And(0 <= i, i < RRS.len(r)), RS_.len(row(r, i)) == RS_.len(row(r, 0))), row(r, i)),
                   fa([i, j], Implies(And(0 <= i, i < RRS.len(r), 0 <= j, j < RS_.len(row(r, i))), okconv(cell(r, i, j))), cell(r, i, j)))

    def ghost(self, E, a):
        return [] if a.rows is None else [('', touch(row(a.rows, 0)))]

    def raises(self, E, a):
        return [(TypeError, True if a.rows is None else Not(self.good(a)))]

    def post(self, E, a, res):
        if not is_matrix(E, res):
            return [('a matrix', BoolVal(False))]
        m = M(E, res)
        i, j = z3.Ints('i j')
        r = a.rows
        return m.inv() + [
            ('as many rows', m.nrows == RRS.len(r)), ('as many columns', m.ncols == RS_.len(row(r, 0))),
            ('the given entries', fa([i, j], Implies(m.inside(i, j), m.entry(i, j) == conv(cell(r, i, j))), cell(r, i, j)))]


class OnMatrix(Contract):
    at_calls = False

    def matrices(self, E):
        return {}

    def pre(self, E, a):
        out = []
        for nm, m in a.ms.items():
            out += [(f'{nm}: {l}', f) for l, f in m.inv()]
        return out


class GetItem(OnMatrix):
    target = 'protosym.simplecas.matrix:Matrix.__getitem__'
    name = 'Matrix.__getitem__'
    variants = ('pair', 'bools', 'int', 'object', 'None', 'list', 'str', 'one', 'three', 'empty', 'int object', 'str int', 'float int', 'slice int', 'int None')

    def setup(self, E, variant):
        i, j, p, q = z3.Int('i'), z3.Int('j'), Const('p', B), Const('q', B)
        I_, J_ = Tm(INT, i), Tm(INT, j)
        fo = foreign(E)
        E.ghost['ij'] = None
        if variant == 'pair':
            ij = TupV([I_, J_])
            E.ghost['ij'] = (i, j)
        elif variant == 'bools':
            ij = TupV([Tm(BOOL, p), Tm(BOOL, q)])
            E.ghost['ij'] = (If(p, IntVal(1), IntVal(0)), If(q, IntVal(1), IntVal(0)))
        else:
            ij = {'int': lambda: I_, 'list': lambda: E.alloc(ListL([I_, J_])), 'one': lambda: TupV([I_]), 'three': lambda: TupV([I_, J_, I_]), 'empty': lambda: TupV([]),
                  'int object': lambda: TupV([I_, fo['object']]), 'str int': lambda: TupV([Con('0'), J_]), 'float int': lambda: TupV([Con(0.0), J_]),
                  'slice int': lambda: TupV([Con(slice(None)), J_]), 'int None': lambda: TupV([I_, Con(None)])}.get(variant, lambda: fo[variant])()
        return [arbitrary(E, 'M'), ij], {}

    def view(self, E, b):
        return NS(ms={'M': M(E, b['self'])}, ij=E.ghost['ij'])

    def raises(self, E, a):
        if a.ij is None:
            return [(TypeError, True)]
        return [(IndexError, Not(a.ms['M'].inside(*a.ij)))]

    def post(self, E, a, res):
        if a.ij is None:
            return []
        return [('the entry', E.term(res, ET()) == a.ms['M'].entry(*a.ij))]


def over_stored(E, fr, itv):
    """A loop over the stored positions (in any order)."""
    return itv is not None and bool(itv.base) and itv.base[0][0] is SeqTh(KEY2.sort)


class Fill(LoopSpec):
    def __init__(self):
        super().__init__('filling in the stored entries', {'rows': Role(ListTy(LT()), ('entries', 'result', 'rows'))}, self.run, kinds=('for',), when=over_stored)

    def run(self, S):
        m = S.a.ms['M']
        r = S.t('rows')
        LL = SeqTh(TS.S)
        i, j, n = z3.Ints('i j n')
        kth, ks = S.itv.base[0] if S.itv.base else (None, None)
        KS = SeqTh(KEY2.sort)
        if ks is None or kth is not KS:
            raise Unsupported('loop over something else than the stored positions')
        done = And(m.has(i, j), KS.idx(ks, m.key(i, j)) < S.it)
        e = TS.at(LL.at(r, i), j)
        return [('', And(touch(KS.at(ks, S.it)), touch(r), touch(LL.at(r, k0(KS.at(ks, S.it)))))),
                ('as many rows', LL.len(r) == m.nrows),
                ('as many columns', fa(i, Implies(And(0 <= i, i < m.nrows), TS.len(LL.at(r, i)) == m.ncols), LL.at(r, i))),
                ('entries so far', fa([i, j], Implies(m.inside(i, j), e == If(done, m.stored(i, j), integer(S.E, IntVal(0)))), e))]


class ToList(OnMatrix):
    target = 'protosym.simplecas.matrix:Matrix.tolist'
    name = 'Matrix.tolist'
    fresh_result = True

    def loopspecs(self):
        return [Fill()]

    def setup(self, E, variant):
        return [arbitrary(E, 'M')], {}

    def view(self, E, b):
        return NS(ms={'M': M(E, b['self'])})

    def post(self, E, a, res):
        m = a.ms['M']
        r = E.term(res, ListTy(LT()))
        LL = SeqTh(TS.S)
        i, j = z3.Ints('i j')
        e = TS.at(LL.at(r, i), j)
        return [('as many rows', LL.len(r) == m.nrows),
                ('as many columns', fa(i, Implies(And(0 <= i, i < m.nrows), TS.len(LL.at(r, i)) == m.ncols), LL.at(r, i))),
                ('the entries', fa([i, j], Implies(m.inside(i, j), e == m.entry(i, j)), e))]


def tasks16():
    return [New(), GetItem(), ToList()]


# ---- addition ------------------------------------------------------------------------
KS = SeqTh(KEY2.sort)


class Merge(LoopSpec):
    def __init__(self):
        super().__init__('adding the stored entries', Rows.roles_(), self.run, kinds=('for',), when=over_stored)

    def run(self, S):
        m1, m2, E = S.a.ms['A'], S.a.ms['B'], S.E
        if not S.itv.base or S.itv.base[0][0] is not KS:
            raise Unsupported('loop over something else than the stored positions')
        ks = S.itv.base[0][1]
        el, d = S.t('elements'), S.t('map')
        D, V = (lambda k: sel(EM.dom(d), k)), (lambda k: z3.Select(EM.val(d), k))
        k, l = Const('k', KEY2.sort), Const('l', KEY2.sort)
        h1, h2 = sel(m1.dom, k), And(sel(m2.dom, k), KS.idx(ks, k) < S.it)
        e1, e2 = TS.at(m1.elements, z3.Select(m1.val, k)), TS.at(m2.elements, z3.Select(m2.val, k))
        return [
            ('', touch(KS.at(ks, S.it))),
            ('positions stored so far', fa(k, D(k) == Or(h1, h2), D(k), KS.idx(ks, k))),
            ('stored positions have an element', fa(k, Implies(D(k), And(0 <= V(k), V(k) < TS.len(el))), D(k))),
            ('different positions have different elements', fa([k, l], Implies(And(D(k), D(l), k != l), V(k) != V(l)), (D(k), D(l)))),
            ('the entries of the first matrix stay where they are', fa(k, Implies(h1, V(k) == z3.Select(m1.val, k)), V(k))),
            ('entries so far', fa(k, Implies(D(k), TS.at(el, V(k)) == If(And(h1, h2), added(E, e1, e2), If(h1, e1, e2))), D(k))),
        ]


def added(E, x, y):
    return mk(TS.lit([fun(E, 'Add'), x, y]))


class Addition(OnMatrix):
    """A + B"""
    target = 'protosym.simplecas.matrix:Matrix.__add__'
    name = 'Matrix + Matrix'
    variants = ('two matrices', 'the same matrix', 'object', 'int', 'None', 'list', 'Expr')
    fresh_result = True

    def loopspecs(self):
        return [Merge()]

    def setup(self, E, variant):
        A = arbitrary(E, 'A')
        if variant == 'two matrices':
            o = arbitrary(E, 'B')
        elif variant == 'the same matrix':
            o = A
        elif variant == 'int':
            o = Tm(INT, z3.Int('n'))
        elif variant == 'Expr':
            o = Tm(ET(), Const('x', TreeS))
        else:
            o = foreign(E)[variant]
        E.ghost['o'] = o
        return [A, o], {}

    def view(self, E, b):
        o = E.ghost['o']
        ms = {'A': M(E, b['self'])}
        if is_matrix(E, o):
            ms['B'] = M(E, o)
        return NS(ms=ms, objs=(b['self'], o))

    def body(self, E, args, kwargs):
        import ast
        return E.binop(ast.Add(), args[0], args[1])

    def raises(self, E, a):
        if 'B' not in a.ms:
            return [(TypeError, True)]
        A, B_ = a.ms['A'], a.ms['B']
        return [(TypeError, Not(And(A.nrows == B_.nrows, A.ncols == B_.ncols)))]

    def post(self, E, a, res):
        if 'B' not in a.ms:
            return []
        if not is_matrix(E, res):
            return [('a matrix', BoolVal(False))]
        m, A, B_ = M(E, res), a.ms['A'], a.ms['B']
        i, j = z3.Ints('i j')
        return m.inv() + [
            ('the same shape', And(m.nrows == A.nrows, m.ncols == A.ncols)),
            ('a matrix of its own', owned(E, res, *a.objs)),
            ('stored where either is', fa([i, j], m.has(i, j) == Or(A.has(i, j), B_.has(i, j)), m.has(i, j))),
            ('the sum where both are stored, else the stored entry', fa([i, j], Implies(m.has(i, j), m.stored(i, j) == If(And(A.has(i, j), B_.has(i, j)), added(E, A.stored(i, j), B_.stored(i, j)), If(A.has(i, j), A.stored(i, j), B_.stored(i, j)))), m.has(i, j)))]


class ValueOfSum(LemmaTask):
    """With the usual meaning of sums and of the integer 0 the value is the sum of the values."""
    name = 'lemma: the value of an entry of a sum'

    def obligations(self, variant):
        v = Function('val', TreeS, z3.RealSort())
        plus = Function('plus', TreeS, TreeS, TreeS)
        x, y = Const('x', TreeS), Const('y', TreeS)
        zero, a, b = z3.Consts('zero sa sb', TreeS)
        h1, h2 = Const('h1', B), Const('h2', B)
        e = lambda h, s: If(h, s, zero)
        r = If(Or(h1, h2), If(And(h1, h2), plus(a, b), If(h1, a, b)), zero)
        return [('value', [v(zero) == 0, fa([x, y], v(plus(x, y)) == v(x) + v(y), plus(x, y))], v(r) == v(e(h1, a)) + v(e(h2, b)))]


# ---- differentiation ---------------------------------------------------------------------
class EntryDiff(Contract):
    """Expr.diff of a list: element-wise derivatives (C08 to C10: lists are differentiated argument-wise)."""
    target = 'protosym.simplecas.expr:Expr.diff'
    name = 'Expr.diff (of a list)'

    def view(self, E, b):
        return NS(expr=E.term(b['self'], ET()), sym=E.term(b['sym'], ET()), n=b['ntimes'])

    def pre(self, E, a):
        c = E.ctx
        if c is None or 'sym' not in c.__dict__:
            raise Unsupported('derivative')
        n = E.term(a.n, INT)
        return [('once', n == 1), ('by the given symbol', a.sym == c.sym), ('differentiation is by an atom', isatom(a.sym))]

    def may_raise(self, E, a):
        from .diff import missing
        return [(KeyError, missing(a.expr, a.sym))]

    def result(self, E, a):
        return E.fresh_value(ET(), 'derivative')

    def post(self, E, a, res):
        from .diff import val, der, like
        r = E.term(res, ET())
        j = z3.Int('j')
        D = And(Not(isatom(a.expr)), head(a.expr) == fun(E, 'List'))
        return [('value', val(r) == der(a.expr)), ('shape', Implies(D, like(a.expr, r))),
                ('arguments', fa(j, Implies(And(D, 1 <= j, j < TS.len(kids(a.expr))), val(TS.at(kids(r), j)) == der(TS.at(kids(a.expr), j))), TS.at(kids(r), j)))]


class Diff(OnMatrix):
    target = 'protosym.simplecas.matrix:Matrix.diff'
    name = 'Matrix.diff'
    variants = ('expression', 'object', 'int', 'str', 'None')
    fresh_result = True

    def setup(self, E, variant):
        fo = foreign(E)
        s = Tm(ET(), Const('sym', TreeS)) if variant == 'expression' else Tm(INT, z3.Int('n')) if variant == 'int' else fo[variant]
        return [arbitrary(E, 'A'), s], {}

    def view(self, E, b):
        s = b['sym']
        try:
            sym = E.term(s, ET()) if E.typeof(s) == ET() else None
        except Unsupported:
            sym = None
        return NS(ms={'A': M(E, b['self'])}, sym=sym, objs=(b['self'],))

    def pre(self, E, a):
        return super().pre(E, a) + ([('differentiation is by an atom', isatom(a.sym)), ('by a symbol', a.sym != integer(E, IntVal(0)))] if a.sym is not None else [])

    def ghost(self, E, a):
        from .diff import val, der
        if a.sym is None:
            return []
        z = integer(E, IntVal(0))
        i = z3.Int('i')
        A = a.ms['A']
        return [('', val(z) == 0), ('', der(z) == 0),
                ('', fa(i, touch(TS.at(kids(A.graph), i + 1)), TS.at(A.elements, i)))]

    def raises(self, E, a):
        return [(TypeError, True)] if a.sym is None else []

    def may_raise(self, E, a):
        from .diff import missing
        return [] if a.sym is None else [(KeyError, missing(a.ms['A'].graph, a.sym))]

    def post(self, E, a, res):
        from .diff import val, der
        if a.sym is None:
            return []
        if not is_matrix(E, res):
            return [('a matrix', BoolVal(False))]
        m, A = M(E, res), a.ms['A']
        i, j = z3.Ints('i j')
        return m.inv() + [
            ('the same shape', And(m.nrows == A.nrows, m.ncols == A.ncols)),
            ('a matrix of its own', owned(E, res, *a.objs)),
            ('each entry is the derivative of the entry', fa([i, j], Implies(A.inside(i, j), val(m.entry(i, j)) == der(A.entry(i, j))), A.has(i, j), m.has(i, j)))]


def tasks17():
    return [Addition(), ValueOfSum(), Diff()]
