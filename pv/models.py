"""Assumed contracts of Python built-ins and of the standard library (trusted base)."""
from __future__ import annotations
import builtins, functools, math, operator, struct, typing, types as pytypes, weakref, itertools
import z3
from . import smt
from .interp import *
from .execu import GenV, Exec
from .types import *

MODELS = {}


def model(*objs, stars=False):
    def dec(f):
        f.stars = stars
        for o in objs:
            MODELS[id(o)] = (o, f)
        return f
    return dec


def lookup(o):
    r = MODELS.get(id(o))
    return r[1] if r is not None and r[0] is o else None


R = z3.RealSort()


@model(isinstance)
def m_isinstance(E, args, kw):
    v, c = args
    if isinstance(c, TupV):
        c = Con(tuple(x.obj for x in c.items))
    if not isinstance(c, Con):
        raise Unsupported('isinstance of a computed class')
    r = E.isinstance_(v, c.obj)
    return Con(r) if isinstance(r, bool) else Tm(BOOL, r)


@model(issubclass)
def m_issubclass(E, args, kw):
    return Con(issubclass(args[0].obj, args[1].obj))


@model(len)
def m_len(E, args, kw):
    v = args[0]
    if isinstance(v, Con):
        if hasattr(type(v.obj), '__len__'):
            return Con(len(v.obj))
        raise PyExc(TypeError, 'len')
    if isinstance(v, Ref) and isinstance(E.content(v.cell), ObjC):
        return E.call(E.getattr(v, '__len__'), [], {})
    if isinstance(v, Tm) and isinstance(v.ty, TupTy):
        return Con(len(v.ty.ts))
    if isinstance(v, Ref) and isinstance(E.content(v.cell), SetC) and E.content(v.cell).ty is not EMPTY:
        # length of a set: a function of the set, positive iff non-empty
        r = E.content(v.cell)
        f = Function(f'card:{r.ty.sort}', r.t.sort(), I)
        c = f(r.t)
        E.assume(c >= 0)
        E.assume((c > 0) == E.nonempty(r.ty.sort, lambda x: z3.Select(r.t, x)))
        a, b = E.fresh('e', r.ty.sort), E.fresh('e', r.ty.sort)
        E.assume(z3.Implies(c >= 2, And(a != b, z3.Select(r.t, a), z3.Select(r.t, b))))
        x = Const('x', r.ty.sort)
        E.assume(fa(x, Implies(And(c == 1, z3.Select(r.t, x)), x == a), z3.Select(r.t, x)))
        E.assume(Implies(c == 1, z3.Select(r.t, a)))
        return Tm(INT, c)
    it = E.iterate(v)
    return Con(it.n) if isinstance(it.n, int) else Tm(INT, it.n)


@model(list)
def m_list(E, args, kw):
    if not args:
        return E.alloc(ListL(()))
    return E.tolist(args[0])


@model(tuple)
def m_tuple(E, args, kw):
    if not args:
        return TupV(())
    if isinstance(args[0], TupV) or isinstance(args[0], Tm) and isinstance(args[0].ty, (SeqTy, TupTy)):
        return args[0]
    return E.totuple(args[0])


@model(set, frozenset)
def m_set(E, args, kw):
    s = E.alloc(SetC(EMPTY, None))
    if args:
        method(E, 'set', 'update', s, [args[0]], {})
    return s


@model(dict)
def m_dict(E, args, kw):
    if not args:
        return E.alloc(DictL([(Con(k), v) for k, v in kw.items()]))
    v = args[0]
    if kw:
        raise Unsupported('dict(..., key=...)')
    if isinstance(v, Ref) and isinstance(E.content(v.cell), (DictC, DictL)):
        return E.alloc(E.content(v.cell))
    if isinstance(v, Con) and isinstance(v.obj, dict):
        return E.alloc(DictL([(Con(k), Con(x)) for k, x in v.obj.items()]))
    it = E.iterate(v)
    if isinstance(it.n, int):
        d = E.alloc(DictL(()))
        for i in range(it.n):
            k, x = E.tuple_items(it.get(i))
            E.setitem(d, k, x)
        return d
    ety, t = E.map_seq(it, lambda i: it.get(i)) if not isinstance(v, GenV) else v.seq()
    if not isinstance(ety, TupTy) or len(ety.ts) != 2:
        raise Unsupported('dict of non-pairs')
    return E.alloc(E.dict_from_pairs(ety, t))


def zmin(ns):
    if all(isinstance(n, int) for n in ns):
        return min(ns)
    ns = [zi(n) for n in ns]
    m = ns[0]
    for n in ns[1:]:
        if n.eq(m):
            continue
        m = If(n < m, n, m)
    return m


@model(zip)
def m_zip(E, args, kw):
    strict = kw.get('strict')
    its = [E.iterate(a) for a in args]
    if not its:
        return IterV(0, None, ())
    ns = [it.n for it in its]
    if strict is not None and isinstance(strict, Con) and strict.obj:
        for n in ns[1:]:
            c = zi(n) == zi(ns[0])
            E.require(c if not (isinstance(n, int) and isinstance(ns[0], int)) else n == ns[0], ValueError, 'zip lengths')
        n = ns[0]
    else:
        n = ns[0]
        for m in ns[1:]:
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            elif zi(n).eq(zi(m)) or E.valid(zi(n) == zi(m)):
                n = n if not isinstance(m, int) else m
            elif E.valid(zi(n) <= zi(m)):
                pass
            elif E.valid(zi(m) <= zi(n)):
                n = m
            else:
                n = If(zi(n) <= zi(m), zi(n), zi(m))
    return IterV(n, lambda i: TupV([it.get(i) for it in its]), [b for it in its for b in it.base])


@model(enumerate)
def m_enumerate(E, args, kw):
    it = E.iterate(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', Con(0))

    def idx(i):
        if isinstance(i, int) and isinstance(start, Con):
            return Con(start.obj + i)
        if isinstance(start, Con) and start.obj == 0:
            return Tm(INT, zi(i))
        return Tm(INT, E.term(start, INT) + zi(i))
    return IterV(it.n, lambda i: TupV([idx(i), it.get(i)]), it.base)


@model(range)
def m_range(E, args, kw):
    if all(isinstance(a, Con) for a in args):
        r = range(*[a.obj for a in args])
        return IterV(len(r), lambda i: Con(r[i]) if isinstance(i, int) else Tm(INT, z3.IntVal(r.start) + i * r.step), ()) if len(r) <= 40 or True else None
    if len(args) == 3:
        st = args[2]
        if isinstance(st, Con) and st.obj == -1:
            a, b = E.term(args[0], INT), E.term(args[1], INT)
            n = If(a - b < 0, IntVal(0), a - b) if not E.valid(a >= b) else a - b
            return IterV(n, lambda i: Tm(INT, a - zi(i)), ())
        raise Unsupported('range step')
    a = E.term(args[0], INT) if len(args) == 2 else IntVal(0)
    b = E.term(args[-1], INT)
    n = z3.simplify(b - a)
    if not E.valid(n >= 0):
        n = If(n < 0, IntVal(0), n)
    zero = z3.is_int_value(a) and a.as_long() == 0
    return IterV(n, lambda i: Tm(INT, zi(i) if zero else a + zi(i)), ())


@model(map)
def m_map(E, args, kw):
    f = args[0]
    if len(args) == 2:
        it = E.iterate(args[1])
    else:
        z = m_zip(E, args[1:], {})
        it = z
    many = len(args) > 2

    def ap(i):
        x = it.get(i)
        return E.call(f, list(x.items) if many else [x], {})
    if isinstance(it.n, int):
        vals = [ap(i) for i in range(it.n)]
        return IterV(it.n, lambda i: vals[i], ())
    return GenV(E, it, lambda j: ap(j), False, None, None)


@model(filter)
def m_filter(E, args, kw):
    f = args[0]
    it = E.iterate(args[1])

    def run(i):
        x = it.get(i)
        c = x if isinstance(f, Con) and f.obj is None else E.call(f, [x], {})
        return x if E.branch(E.truth(c)) else None
    if isinstance(it.n, int):
        vals = [v for v in (run(i) for i in range(it.n)) if v is not None]
        return IterV(len(vals), lambda i: vals[i], ())
    return GenV(E, it, run, True, None, None)


@model(reversed)
def m_reversed(E, args, kw):
    it = E.iterate(args[0])
    if isinstance(it.n, int):
        return IterV(it.n, lambda i: it.get(it.n - 1 - i), ())
    v = args[0]
    if isinstance(v, (Ref, Tm)) and len(it.base) == 1 and it.ty is not None and not it.ty.container:
        th, t = it.base[0]
        r = th.rev(t)
        return IterV(th.len(r), lambda i: E.wrap(it.ty, th.at(r, zi(i))), ((th, r),), it.ty)
    return IterV(it.n, lambda i: it.get(it.n - 1 - zi(i)), ())


@model(iter)
def m_iter(E, args, kw):
    it = E.iterate(args[0])
    return E.iterator(IterV(it.n, it.get, it.base, it.ty, it.live))


def boolseq(E, v):
    """All truth values of an iterable: ('lit', [bool|z3]) or (n, j -> z3, triggers)."""
    it = E.iterate(v)
    if isinstance(v, GenV):
        saved = v.run
        v.run = lambda i: tobool(E, saved(i))
        ty, t = v.seq()
        v.run = saved
        if t is None:
            return ('lit', [])
        return (BOOLSEQ, t)
    if isinstance(it.n, int):
        return ('lit', [E.truth(it.get(i)) for i in range(it.n)])
    ty, t = E.map_seq(it, lambda i: tobool(E, it.get(i)))
    return (BOOLSEQ, t)


BOOLSEQ = object()


def tobool(E, v):
    if v is None:
        return None
    t = E.truth(v)
    return Con(t) if isinstance(t, bool) else Tm(BOOL, t)


def quant(E, args, which):
    k, xs = boolseq(E, args[0])
    if k == 'lit':
        if which == 'all':
            if any(x is False for x in xs):
                return Con(False)
            xs = [x for x in xs if x is not True]
            return Tm(BOOL, And(*xs)) if xs else Con(True)
        if any(x is True for x in xs):
            return Con(True)
        xs = [x for x in xs if x is not False]
        return Tm(BOOL, Or(*xs)) if xs else Con(False)
    th = SeqTh(B)
    j = z3.Int('j')
    w = E.fresh('w', I)
    n = th.len(xs)
    bad = (lambda t: Not(t)) if which == 'all' else (lambda t: t)
    found = And(0 <= w, w < n, bad(th.at(xs, w)))
    E.assume(Implies(And(n >= 1, bad(th.at(xs, IntVal(0)))), found))
    E.assume(fa(j, Implies(And(0 <= j, j < n, bad(th.at(xs, j))), found), th.at(xs, j)))
    return Tm(BOOL, Not(found) if which == 'all' else found)


@model(all)
def m_all(E, args, kw):
    return quant(E, args, 'all')


@model(any)
def m_any(E, args, kw):
    return quant(E, args, 'any')


def fold_numeric(E, v, lit, ufname, start=None):
    it = E.iterate(v)
    if isinstance(it.n, int):
        return lit([it.get(i) for i in range(it.n)])
    ty, t = (v.seq() if isinstance(v, GenV) else (it.ty, it.base[0][1]) if isinstance(v, (Ref, Tm)) else E.map_seq(it, it.get))
    if ty not in (INT, REAL):
        raise Unsupported(f'{ufname} over {ty}')
    f = seqfold(ufname, ty)
    return Tm(ty, f(t))


_folds = {}


def seqfold(name, ty):
    """Sum / product of a sequence, axiomatised from both ends by snoc and cat."""
    key = (name, ty.name)
    if key in _folds:
        return _folds[key]
    th = SeqTh(ty.sort)
    f = Function(f'{name}:{ty.sort}', th.S, ty.sort)
    _folds[key] = f
    s, s2 = z3.Consts('s s2', th.S)
    x = Const('x', ty.sort)
    op = (lambda a, b: a + b) if name == 'sum' else (lambda a, b: a * b)
    unit = 0 if name == 'sum' else 1
    smt.AX.add(f.name(), f(th.empty) == unit,
               fa([s, x], f(th.snoc(s, x)) == op(f(s), x), f(th.snoc(s, x))),
               fa([s, s2], f(th.cat(s, s2)) == op(f(s), f(s2)), f(th.cat(s, s2))))
    return f


@model(sum)
def m_sum(E, args, kw):
    def lit(xs):
        acc = args[1] if len(args) > 1 else Con(0)
        for x in xs:
            acc = E.binop(__import__('ast').Add(), acc, x)
        return acc
    if len(args) > 1 and not (isinstance(args[1], Con) and args[1].obj == 0):
        raise Unsupported('sum with start')
    return fold_numeric(E, args[0], lit, 'sum')


@model(math.fsum)
def m_fsum(E, args, kw):
    r = m_sum(E, args[:1], kw)
    if isinstance(r, Con) and type(r.obj) in (int, bool):
        return Con(float(r.obj))
    return Tm(REAL, E.term(r, REAL))


@model(math.prod)
def m_prod(E, args, kw):
    import ast as _ast
    if kw:
        raise Unsupported('prod with start')

    def lit(xs):
        acc = Con(1)
        for x in xs:
            acc = E.binop(_ast.Mult(), acc, x)
        return acc
    return fold_numeric(E, args[0], lit, 'prod')


def realfn(name, n=1):
    f = Function(name, *([R] * n), R)

    def m(E, args, kw):
        if len(args) != n:
            raise PyExc(TypeError, name)
        return Tm(REAL, f(*[E.term(a, REAL) for a in args]))
    return m


for _o, _nm, _k in ((math.sin, 'sin', 1), (math.cos, 'cos', 1), (math.pow, 'rpow', 2), (math.exp, 'exp', 1), (math.tan, 'tan', 1),
                    (math.log, 'log', 1), (math.sqrt, 'sqrt', 1)):
    model(_o)(realfn(_nm, _k))


@model(pow, operator.pow)
def m_pow(E, args, kw):
    import ast as _ast
    return E.binop(_ast.Pow(), args[0], args[1])


for _o, _a in ((operator.add, 'Add'), (operator.mul, 'Mult'), (operator.sub, 'Sub'), (operator.truediv, 'Div')):
    def _mk(a):
        def m(E, args, kw):
            import ast as _ast
            return E.binop(getattr(_ast, a)(), args[0], args[1])
        return m
    model(_o)(_mk(_a))


@model(str)
def m_str(E, args, kw):
    if not args:
        return Con('')
    return E.mkstr(E.str_(args[0]))


@model(repr)
def m_repr(E, args, kw):
    return E.mkstr(E.repr_(args[0]))


@model(int)
def m_int(E, args, kw):
    v = args[0] if args else Con(0)
    if isinstance(v, Con):
        try:
            return Con(int(v.obj))
        except (ValueError, TypeError) as ex:
            raise PyExc(type(ex), 'int')
    if isinstance(v, Tm) and v.ty == INT:
        return v
    if isinstance(v, Tm) and v.ty == BOOL:
        return Tm(INT, If(v.t, IntVal(1), IntVal(0)))
    if isinstance(v, Tm) and v.ty == VAL:
        return Tm(INT, ival(v.t))
    h = getattr(getattr(v, 'ty', None), 'handlers', None) or {}
    if 'int' in h:
        return h['int'](E, v)
    raise Unsupported('int()')


@model(float)
def m_float(E, args, kw):
    v = args[0] if args else Con(0.0)
    if isinstance(v, Con):
        try:
            return Con(float(v.obj))
        except (ValueError, TypeError) as ex:
            raise PyExc(type(ex), 'float')
    if isinstance(v, Tm) and v.ty in (INT, BOOL, REAL):
        return Tm(REAL, E.term(v, REAL))
    if isinstance(v, Tm) and v.ty == VAL:
        return Tm(REAL, z3.ToReal(ival(v.t)))
    h = getattr(getattr(v, 'ty', None), 'handlers', None) or {}
    if 'float' in h:
        return h['float'](E, v)
    raise Unsupported('float()')


@model(bool)
def m_bool(E, args, kw):
    t = E.truth(args[0]) if args else False
    return Con(t) if isinstance(t, bool) else Tm(BOOL, t)


@model(type)
def m_type(E, args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    v = args[0]
    if isinstance(v, Con):
        return Con(type(v.obj))
    return Con(E.class_of(v))


@model(typing.cast)
def m_cast(E, args, kw):
    return args[1]


def extremum(name, f, better):
    def m(E, args, kw):
        if kw:
            raise Unsupported(name + ' with options')
        items = list(args) if len(args) > 1 else E.literal(args[0])
        if items is None:
            raise Unsupported(f'{name} of a collection of unknown length')
        if not items:
            raise PyExc(ValueError, name)
        if all(isinstance(x, Con) for x in items):
            return Con(f(x.obj for x in items))
        if any(E.typeof(x) not in (INT, REAL) for x in items):
            raise Unsupported(name)
        ty = REAL if any(E.typeof(x) == REAL for x in items) else INT
        if ty == REAL and any(E.typeof(x) == INT for x in items):
            raise Unsupported(f'{name} of numbers of several types')
        r = E.term(items[0], ty)
        for x in items[1:]:
            x = E.term(x, ty)
            r = If(better(x, r), x, r)
        return Tm(ty, r)
    return m


model(min)(extremum('min', min, lambda x, y: x < y))
model(max)(extremum('max', max, lambda x, y: x > y))


@model(hasattr)
def m_hasattr(E, args, kw):
    try:
        E.getattr(args[0], args[1].obj)
        return Con(True)
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return Con(False)
        raise


@model(getattr)
def m_getattr(E, args, kw):
    if not isinstance(args[1], Con):
        raise Unsupported('getattr of a computed name')
    try:
        return E.getattr(args[0], args[1].obj)
    except PyExc as e:
        if len(args) > 2 and issubclass(e.cls, AttributeError):
            return args[2]
        raise


@model(hash, id)
def m_hash(E, args, kw):
    raise Unsupported('hash/id value')


@model(callable)
def m_callable(E, args, kw):
    v = args[0]
    if isinstance(v, (Clo, Bound)):
        return Con(True)
    if isinstance(v, Con):
        return Con(callable(v.obj))
    if isinstance(v, Tm) and isinstance(v.ty, FnTy):
        return Con(True)
    return Con(callable(getattr(E.class_of(v), '__call__', None)))


def lexle(ty, a, b):
    """a <= b for integers and tuples of such."""
    if ty == INT:
        return a <= b
    if isinstance(ty, TupTy):
        r = BoolVal(True)
        for t, acc in reversed(list(zip(ty.ts, ty.acc))):
            r = And(lexle(t, acc(a), acc(b)), Implies(acc(a) == acc(b), r))
        return r
    raise Unsupported(f'sorting of {ty}')


@model(sorted)
def m_sorted(E, args, kw):
    """A new list: a permutation of the elements in ascending order."""
    if kw and not (set(kw) == {'reverse'} and isinstance(kw['reverse'], Con)):
        raise Unsupported('sorted with a key')
    ref = E.tolist(args[0])
    rec = E.content(ref.cell)
    if isinstance(rec, ListL):
        if len(rec.items) <= 1:
            return ref
        ty, t = E.rec_type_term(E.listc(rec, concretise(E.typeof(ref))))
        ty = ty.t
    else:
        ty, t = rec.ty, rec.t
    th = SeqTh(ty.sort)
    r = E.fresh('sorted', th.S)
    nm = r.decl().name()
    pi, qi = Function('place:' + nm, I, I), Function('origin:' + nm, I, I)
    i, j = z3.Ints('i j')
    n = th.len(t)
    E.assume(th.len(r) == n)
    E.assume(fa(i, Implies(And(0 <= i, i < n), And(0 <= qi(i), qi(i) < n, th.at(r, i) == th.at(t, qi(i)), pi(qi(i)) == i)), th.at(r, i)))
    E.assume(fa(i, Implies(And(0 <= i, i < n), And(0 <= pi(i), pi(i) < n, th.at(r, pi(i)) == th.at(t, i), qi(pi(i)) == i)), th.at(t, i)))
    a, b = (th.at(r, i), th.at(r, j)) if not (kw and kw['reverse'].obj) else (th.at(r, j), th.at(r, i))
    E.assume(fa([i, j], Implies(And(0 <= i, i < j, j < n), lexle(ty, a, b)), (th.at(r, i), th.at(r, j))))
    return E.alloc(ListC(ty, r))


@model(object.__new__)
def m_object_new(E, args, kw):
    c = args[0]
    if not isinstance(c, Con):
        raise Unsupported('__new__ of a computed class')
    return E.alloc(ObjC(c.obj, {}))


@model(functools.reduce)
def m_reduce(E, args, kw):
    f = args[0]
    it = E.iterate(args[1])
    if isinstance(it.n, int):
        vals = [it.get(i) for i in range(it.n)]
        if len(args) > 2:
            acc = args[2]
        else:
            if not vals:
                raise PyExc(TypeError, 'reduce of empty sequence')
            acc, vals = vals[0], vals[1:]
        for x in vals:
            acc = E.call(f, [acc, x], {})
        return acc
    # a for loop over the remaining elements with accumulator `acc`
    fr = Frame('<reduce>', {}, None, ('acc', 'x'))
    n = zi(it.n)
    if len(args) > 2:
        fr.vars['acc'] = args[2]
        rest = it
    else:
        E.require(n >= 1, TypeError, 'reduce of non-empty sequence')
        fr.vars['acc'] = it.get(IntVal(0))
        base = tuple((th, th.drop(t, IntVal(1))) for th, t in it.base)
        if it.ty is not None and len(base) == 1:
            th, t = base[0]
            rest = IterV(z3.simplify(n - 1), lambda i: E.wrap(it.ty, th.at(t, zi(i))), base, it.ty)
        else:
            rest = IterV(z3.simplify(n - 1), lambda i: it.get(zi(i) + 1), it.base)
    fr.vars['__f'] = f
    import ast as _ast
    stmt = REDUCE_AST.body[0]
    E.run_loop(stmt, fr, 'for', stmt.body, [], target=stmt.target, itv=rest)
    return fr.vars['acc']


import ast as _ast_mod
REDUCE_AST = _ast_mod.parse('for x in xs:\n    acc = __f(acc, x)\n')


@model(struct.pack)
def m_pack(E, args, kw):
    if all(isinstance(a, Con) for a in args):
        return Con(struct.pack(*[a.obj for a in args]))
    if len(args) == 2 and isinstance(args[0], Con):
        f = Function('pack:' + args[0].obj, R, z3.DeclareSort('Bytes'))
        v = args[1]
        if E.typeof(v) == VAL:
            E.require(v.t == vint(ival(v.t)), struct.error, 'a number')
            v = Tm(INT, ival(v.t))
        if E.typeof(v) == INT and E.branch(Function('beyond the doubles', I, B)(E.term(v, INT))):
            raise PyExc(OverflowError, 'int too large to convert to float')
        return Tm(OpaqueTy('Bytes', bytes), f(E.term(v, REAL)))
    raise Unsupported('struct.pack')


@model(struct.unpack)
def m_unpack(E, args, kw):
    if all(isinstance(a, Con) for a in args):
        return Con(struct.unpack(*[a.obj for a in args]))
    v = args[1]
    if isinstance(v, Tm) and v.ty.name == 'Bytes' and isinstance(args[0], Con):
        f = Function('unpack:' + args[0].obj, v.t.sort(), I)
        return TupV([Tm(INT, f(v.t))])
    raise Unsupported('struct.unpack')


@model(hex)
def m_hex(E, args, kw):
    v = args[0]
    if isinstance(v, Con):
        return Con(hex(v.obj))
    return StrV([Function('hex', I, StrS)(E.term(v, INT))])


@model(abs)
def m_abs(E, args, kw):
    v = args[0]
    if isinstance(v, Con):
        return Con(abs(v.obj))
    t = E.typeof(v)
    if t in (INT, REAL):
        x = E.term(v, t)
        return Tm(t, If(x < 0, -x, x))
    raise Unsupported('abs')


@model(itertools.chain)
def m_chain(E, args, kw):
    acc = TupV(())
    for a in args:
        x = a
        if isinstance(x, IterV):
            x = E.tolist(x)
        acc = E.concat(acc, x, E.mktuple)
    return E.iterate(acc)


@model(print)
def m_print(E, args, kw):
    E.emit(BoolVal(False), 'no output is written', 'frame')
    return Con(None)


# ---- methods of built-in containers -------------------------------------------
def method(E, kind, name, self, args, kw):
    if kind == 'con':
        return con_method(E, self, name, args, kw)
    f = globals().get(f'{kind}_{name}')
    if kind == 'str' and isinstance(self, Con) and name != 'join' and all(isinstance(a, Con) for a in args) and not kw:
        try:
            return Con(getattr(self.obj, name)(*[a.obj for a in args]))
        except Exception as e:
            raise PyExc(type(e), str(e))
    if f is None:
        raise Unsupported(f'{kind}.{name}')
    return f(E, self, args, kw)


def object___init__(E, self, args, kw):
    return Con(None)


# lists
def list_append(E, self, args, kw):
    E.list_append(self, args[0])
    return Con(None)


def list_extend(E, self, args, kw):
    r = E.content(self.cell)
    src_ = args[0]
    lit = E.literal(src_)
    if lit is None and isinstance(src_, IterV) and isinstance(src_.n, int):
        lit = [src_.get(i) for i in range(src_.n)]
    if lit is not None:
        for x in lit:
            E.list_append(self, x)
        return Con(None)
    ty, t = E.aslist(src_) if not isinstance(src_, GenV) else src_.seq()
    if t is None:
        return Con(None)
    if ty.container:
        raise Unsupported('extend with lists')
    if isinstance(r, ListL):
        E.symbolise(self.cell, ListTy(ty))
        r = E.content(self.cell)
    if r.ty != ty:
        raise Unsupported('extend changes the element type')
    E.write(self.cell, ListC(r.ty, SeqTh(r.ty.sort).cat(r.t, t)))
    return Con(None)


def list_pop(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(r, ListL):
        if not r.items:
            raise PyExc(IndexError, 'pop from empty list')
        if args and not isinstance(args[0], Con):
            raise Unsupported('pop at symbolic index')
        k = args[0].obj if args else -1
        its = list(r.items)
        try:
            v = its.pop(k)
        except IndexError:
            raise PyExc(IndexError, 'pop')
        E.write(self.cell, ListL(its), shift=(k != -1))
        return v
    th = SeqTh(r.ty.sort)
    n = th.len(r.t)
    if args:
        a = args[0]
        if isinstance(a, Con) and a.obj == 0:
            E.require(n >= 1, IndexError, 'pop from non-empty list')
            v = E.wrap(r.ty, th.at(r.t, IntVal(0)))
            E.write(self.cell, ListC(r.ty, th.drop(r.t, IntVal(1))), shift=True)
            return v
        if not (isinstance(a, Con) and a.obj == -1):
            raise Unsupported('pop at index')
    E.require(n >= 1, IndexError, 'pop from non-empty list')
    # a list inside the popped element stays usable only if it is not aliased
    v = E.wrap(r.ty, th.at(r.t, n - 1))
    E.write(self.cell, ListC(r.ty, th.take(r.t, n - 1)), shift=r.ty.container)
    return v


def list_insert(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(args[0], Con) and isinstance(r, ListL):
        its = list(r.items)
        its.insert(args[0].obj, args[1])
        E.write(self.cell, ListL(its), shift=True)
        return Con(None)
    if isinstance(args[0], Con) and args[0].obj == 0:
        th = SeqTh(r.ty.sort)
        E.write(self.cell, ListC(r.ty, th.cat(th.lit([E.term(args[1], r.ty)]), r.t)), shift=True)
        return Con(None)
    raise Unsupported('list.insert')


def list_copy(E, self, args, kw):
    return E.tolist(self)


def list_clear(E, self, args, kw):
    E.write(self.cell, ListL(()), shift=True)
    return Con(None)


def list_reverse(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(r, ListL):
        E.write(self.cell, ListL(r.items[::-1]), shift=True)
    else:
        if r.ty.container:
            raise Unsupported('reverse of lists')
        E.write(self.cell, ListC(r.ty, SeqTh(r.ty.sort).rev(r.t)), shift=True)
    return Con(None)


def seq_count_index(E, self, x, which):
    lit = E.literal(self)
    if lit is not None:
        eqs = [E.equal(y, x) for y in lit]
        if which == 'count':
            if all(isinstance(e, bool) for e in eqs):
                return Con(sum(eqs))
            return Tm(INT, z3.Sum([If(e if not isinstance(e, bool) else BoolVal(e), IntVal(1), IntVal(0)) for e in eqs]))
        for n, e in enumerate(eqs):
            if E.branch(e):
                return Con(n)
        raise PyExc(ValueError, 'not in sequence')
    ty, t = E.aslist(self)
    th = SeqTh(ty.sort)
    E.check_id_el(ty)
    v = E.term(x, ty)
    j = z3.Int('j')
    if which == 'index':
        w = E.fresh('w', I)
        E.require(th.mem(t, v), ValueError, 'element present')
        E.assume(And(0 <= w, w < th.len(t), th.at(t, w) == v))
        E.assume(fa(j, Implies(And(0 <= j, j < w), th.at(t, j) != v), th.at(t, j)))
        return Tm(INT, w)
    c = seqcount(th)(t, v)
    return Tm(INT, c)


def seqcount(th):
    """Number of occurrences: 0, 1 or more characterised by positions."""
    nm = 'count:' + th.name
    f = Function(nm, th.S, th.elem, I)
    if nm not in smt.AX.by_symbol:
        s, x = Const('s', th.S), Const('x', th.elem)
        i, j = z3.Ints('i j')
        c1, c2 = Function('c1:' + th.name, th.S, th.elem, I), Function('c2:' + th.name, th.S, th.elem, I)
        A, Bq = c1(s, x), c2(s, x)
        n = th.len(s)
        smt.AX.add(nm, fa([s, x], And(f(s, x) >= 0,
                                      Implies(f(s, x) >= 1, And(0 <= A, A < n, th.at(s, A) == x)),
                                      Implies(f(s, x) >= 2, And(0 <= A, A < Bq, Bq < n, th.at(s, A) == x, th.at(s, Bq) == x))), f(s, x)),
                   fa([s, x, i], Implies(And(0 <= i, i < n, th.at(s, i) == x), f(s, x) >= 1), (f(s, x), th.at(s, i))),
                   fa([s, x, i, j], Implies(And(0 <= i, i < j, j < n, th.at(s, i) == x, th.at(s, j) == x), f(s, x) >= 2), (f(s, x), th.at(s, i), th.at(s, j))))
    return f


def list_count(E, self, args, kw):
    return seq_count_index(E, self, args[0], 'count')


def list_index(E, self, args, kw):
    return seq_count_index(E, self, args[0], 'index')


tuple_count, tuple_index = list_count, list_index


def list___len__(E, self, args, kw):
    return m_len(E, [self], {})


def list___getitem__(E, self, args, kw):
    return E.getitem(self, args[0])


dict___getitem__ = tuple___getitem__ = list___getitem__


def dict___setitem__(E, self, args, kw):
    E.setitem(self, args[0], args[1])
    return Con(None)


list___setitem__ = dict___setitem__


def dict___contains__(E, self, args, kw):
    r = E.contains(self, args[0])
    return Con(r) if isinstance(r, bool) else Tm(BOOL, r)


set___contains__ = list___contains__ = tuple___contains__ = dict___contains__


# sets
def set_add(E, self, args, kw):
    r = E.content(self.cell)
    x = args[0]
    if isinstance(x, Ref) and not isinstance(E.content(x.cell), ObjC):
        raise PyExc(TypeError, 'unhashable')
    if r.ty is EMPTY:
        ty = E.ctype(x)
        if ty is None:
            raise Unsupported('set element type')
        r = SetC(ty, z3.K(ty.sort, BoolVal(False)))
    E.check_id_el(r.ty)
    if join(E.typeof(x), r.ty) is None:
        raise Unsupported('set of mixed types')
    E.write(self.cell, SetC(r.ty, z3.Store(r.t, E.term(x, r.ty), BoolVal(True))))
    return Con(None)


def set_update(E, self, args, kw):
    for a in args:
        if isinstance(a, Ref) and isinstance(E.content(a.cell), SetC):
            ra = E.content(a.cell)
            if ra.ty is EMPTY:
                continue
            r = E.content(self.cell)
            if r.ty is EMPTY:
                E.write(self.cell, SetC(ra.ty, ra.t))
            else:
                import ast as _ast
                v = E.setop(_ast.BitOr(), self, a)
                E.write(self.cell, E.content(v.cell))
            continue
        lit = E.literal(a)
        if lit is None and isinstance(a, Con):
            it = E.iterate(a)
            lit = [it.get(i) for i in range(it.n)]
        if lit is None and not isinstance(a, GenV):
            it = E.iterate(a)
            if isinstance(it.n, int):
                lit = [it.get(i) for i in range(it.n)]
        if lit is not None:
            for x in lit:
                set_add(E, self, [x], {})
            continue
        ty, t = a.seq() if isinstance(a, GenV) else E.aslist(a)
        if t is None:
            continue
        E.check_id_el(ty)
        s = E.seq_to_set(ty, t)
        r = E.content(self.cell)
        if r.ty is EMPTY:
            E.write(self.cell, SetC(ty, s))
        else:
            import ast as _ast
            v = E.setop(_ast.BitOr(), self, E.alloc(SetC(ty, s)))
            E.write(self.cell, E.content(v.cell))
    return Con(None)


def set_copy(E, self, args, kw):
    return E.alloc(E.content(self.cell))


def set_discard(E, self, args, kw):
    r = E.content(self.cell)
    if r.ty is EMPTY:
        return Con(None)
    E.write(self.cell, SetC(r.ty, z3.Store(r.t, E.term(args[0], r.ty), BoolVal(False))))
    return Con(None)


def set_remove(E, self, args, kw):
    c = E.contains(self, args[0])
    E.require(c, KeyError, 'element present')
    return set_discard(E, self, args, kw)


def _setop(op):
    def f(E, self, args, kw):
        import ast as _ast
        o = args[0]
        if not (isinstance(o, Ref) and isinstance(E.content(o.cell), SetC)):
            o = m_set(E, [o], {})
        return E.setop(getattr(_ast, op)(), self, o)
    return f


set_union, set_intersection, set_difference = _setop('BitOr'), _setop('BitAnd'), _setop('Sub')


def set_isdisjoint(E, self, args, kw):
    v = set_intersection(E, self, args, kw)
    t = E.truth(v)
    return Con(not t) if isinstance(t, bool) else Tm(BOOL, Not(t))


def set_issubset(E, self, args, kw):
    import ast as _ast
    r = E.compare(_ast.LtE(), self, args[0])
    return Con(r) if isinstance(r, bool) else Tm(BOOL, r)


# dictionaries
def dict_get(E, self, args, kw):
    default = args[1] if len(args) > 1 else Con(None)
    if isinstance(self, Con):
        return E.conc_dict_get(self.obj, args[0], None, default)
    r = E.content(self.cell)
    if isinstance(r, DictL):
        for k, x in r.items:
            if E.branch(E.equal(k, args[0])):
                return x
        return default
    if not E.compat(args[0], r.k):
        return default
    E.check_id_el(r.k)
    k = E.term(args[0], r.k)
    if E.branch(z3.Select(r.dom, k)):
        return E.getitem(self, args[0])
    return default


def dict_keys(E, self, args, kw):
    return E.iterate(self)


def dict_items(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(r, DictL):
        its = r.items
        return IterV(len(its), lambda i: TupV(its[i]), (), live=(self.cell,))
    it = E.iterate(self)
    def get(i):
        th, t = it.base[0]
        k = th.at(t, zi(i))
        return TupV([E.wrap(r.k, k), E.wrap(r.v, z3.Select(r.val, k))])
    return IterV(it.n, get, it.base, live=(self.cell,))


def dict_values(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(r, DictL):
        its = r.items
        return IterV(len(its), lambda i: its[i][1], (), live=(self.cell,))
    it = E.iterate(self)
    th, t = it.base[0]
    return IterV(it.n, lambda i: E.wrap(r.v, z3.Select(r.val, th.at(t, zi(i)))), it.base, live=(self.cell,))


def dict_copy(E, self, args, kw):
    return E.alloc(E.content(self.cell))


def dict_setdefault(E, self, args, kw):
    c = E.contains(self, args[0])
    if E.branch(c):
        return E.getitem(self, args[0])
    d = args[1] if len(args) > 1 else Con(None)
    E.setitem(self, args[0], d)
    return E.getitem(self, args[0]) if not isinstance(d, Ref) else d


def dict_pop(E, self, args, kw):
    c = E.contains(self, args[0])
    if len(args) > 1:
        if not E.branch(c):
            return args[1]
    else:
        E.require(c, KeyError, 'key present')
    v = E.getitem(self, args[0])
    dict___delitem__(E, self, args[:1], kw)
    return v


def dict___delitem__(E, self, args, kw):
    r = E.content(self.cell)
    if isinstance(r, DictL):
        for n, (k, _) in enumerate(r.items):
            if E.branch(E.equal(k, args[0])):
                E.write(self.cell, DictL(r.items[:n] + r.items[n + 1:]), shift=True)
                return Con(None)
        raise PyExc(KeyError, 'key')
    k = E.term(args[0], r.k)
    E.require(z3.Select(r.dom, k), KeyError, 'key present')
    E.write(self.cell, DictC(r.k, r.v, z3.Store(r.dom, k, BoolVal(False)), r.val), shift=True)
    return Con(None)


def dict_clear(E, self, args, kw):
    E.write(self.cell, DictL(()), shift=True)
    return Con(None)


def dict_update(E, self, args, kw):
    o = args[0] if args else None
    for k, v in kw.items():
        E.setitem(self, Con(k), v)
    if o is None:
        return Con(None)
    if isinstance(o, Ref) and isinstance(E.content(o.cell), DictL) or isinstance(o, Con) and isinstance(o.obj, dict):
        its = E.content(o.cell).items if isinstance(o, Ref) else [(Con(k), Con(v)) for k, v in o.obj.items()]
        for k, v in its:
            E.setitem(self, k, v)
        return Con(None)
    if isinstance(o, Ref) and isinstance(E.content(o.cell), DictC):
        ro = E.content(o.cell)
    else:
        d = m_dict(E, [o], {})
        ro = E.content(d.cell)
        if isinstance(ro, DictL):
            return dict_update(E, self, [d], {})
    r = E.content(self.cell)
    if ro.v.container:
        raise Unsupported('update with containers')
    if isinstance(r, DictL):
        if not r.items:
            E.write(self.cell, ro)
            return Con(None)
        E.symbolise(self.cell, DictTy(ro.k, ro.v))
        r = E.content(self.cell)
    if r.k != ro.k or r.v != ro.v:
        raise Unsupported('update changes types')
    dom, val = E.fresh('dom', r.dom.sort()), E.fresh('val', r.val.sort())
    k = Const('k', r.k.sort)
    S = z3.Select
    E.assume(fa(k, S(dom, k) == Or(S(r.dom, k), S(ro.dom, k)), S(dom, k), S(r.dom, k), S(ro.dom, k)))
    E.assume(fa(k, S(val, k) == If(S(ro.dom, k), S(ro.val, k), S(r.val, k)), S(val, k)))
    keys = None
    E.write(self.cell, DictC(r.k, r.v, dom, val, keys))
    return Con(None)


def dict___iter__(E, self, args, kw):
    return E.iterate(self)


# strings
def joinseq(E, sep, v):
    """sep.join(seq) for a sequence of unknown length."""
    f = Function('join', StrS, SeqTh(StrS).S, StrS)
    if isinstance(v, GenV):
        ty, t = v.seq()
    else:
        it = E.iterate(v)
        ty, t = (it.ty, it.base[0][1]) if isinstance(v, (Ref, Tm)) else E.map_seq(it, it.get)
    if ty != STR:
        raise PyExc(TypeError, 'join of non-strings')
    return StrV([f(E.term(sep, STR), t)])


def str_join(E, self, args, kw):
    v = args[0]
    it = E.iterate(v)
    if isinstance(it.n, int):
        parts = []
        for i in range(it.n):
            x = it.get(i)
            if E.typeof(x) != STR:
                raise PyExc(TypeError, 'join')
            if i:
                parts.extend(E.str_(self))
            parts.extend(E.str_(x))
        return E.mkstr(parts)
    return joinseq(E, self, v)


def str_format(E, self, args, kw):
    fmt = self.obj if isinstance(self, Con) else None
    if fmt is None:
        raise Unsupported('format of a symbolic string')
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported('format spec')
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field')
        parts.extend(E.repr_(v) if conv == 'r' else E.str_(v))
    return E.mkstr(parts)


def con_method(E, self, name, args, kw):
    """A read-only method of a concrete built-in container."""
    o = self.obj
    if isinstance(o, dict):
        if name == 'get':
            return dict_get(E, self, args, kw)
        if name == 'keys':
            return E.iterate(self)
        items = [(Con(k), Con(v)) for k, v in o.items()]
        if name == 'items':
            return IterV(len(items), lambda i: TupV(list(items[i])), ())
        if name == 'values':
            return IterV(len(items), lambda i: items[i][1], ())
        if name == 'copy':
            return E.alloc(DictL(items))
    if isinstance(o, list) and name == 'copy':
        return E.alloc(ListL([Con(x) for x in o]))
    if isinstance(o, (list, tuple)) and name in ('index', 'count') or isinstance(o, (set, frozenset)) and name in ('isdisjoint', 'issubset', 'issuperset', 'union', 'intersection', 'difference'):
        if all(isinstance(a, Con) for a in args) and not kw:
            try:
                return Con(getattr(o, name)(*[a.obj for a in args]))
            except Exception as e:
                raise PyExc(type(e), str(e))
    raise Unsupported(f'{type(o).__name__}.{name} of a global object')
