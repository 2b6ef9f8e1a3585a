"""Statements, expressions, calls and loops of the verified Python subset."""
from __future__ import annotations
import ast, builtins, functools, types as pytypes, dataclasses, inspect
import z3
from . import smt, src
from .interp import *
from .types import *

CMP = {ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn}
BINM = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
        ast.Div: ('__truediv__', '__rtruediv__'), ast.Pow: ('__pow__', '__rpow__'), ast.Mod: ('__mod__', '__rmod__'),
        ast.FloorDiv: ('__floordiv__', '__rfloordiv__')}


import threading
LOCKS = (type(threading.Lock()), type(threading.RLock()))


class Exec(Engine):

    # ---- statements ------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.loc = f'{fr.name}:{s.lineno}'
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value is not None else Con(None))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            st = lambda v: self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            st = lambda v: self.setattr(o, t.attr, v)
        else:
            o, i = self.ev(t.value, fr), self.index(t.slice, fr)
            cur = self.getitem(o, i)
            st = lambda v: self.setitem(o, i, v)
        rhs = self.ev(s.value, fr)
        if isinstance(cur, Ref):
            r = self.content(cur.cell)
            if isinstance(r, (ListL, ListC)) and isinstance(s.op, ast.Add):
                self.call(self.getattr(cur, 'extend'), [rhs], {})
                st(cur)
                return
            if isinstance(r, SetC) and isinstance(s.op, ast.BitOr):
                self.call(self.getattr(cur, 'update'), [rhs], {})
                st(cur)
                return
            if isinstance(r, (DictC, DictL)) and isinstance(s.op, ast.BitOr):
                self.call(self.getattr(cur, 'update'), [rhs], {})
                st(cur)
                return
            if isinstance(r, SetC):
                v = self.binop(s.op, cur, rhs)
                self.write(cur.cell, self.content(v.cell), shift=True)
                st(cur)
                return
        st(self.binop(s.op, cur, rhs))

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            raise PyExc(AssertionError, 'assert')

    def s_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, 'current_exc', None):
                raise self.current_exc[-1]
            raise Unsupported('bare raise')
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.ev(e.func, fr)
            if isinstance(c, Con) and isinstance(c.obj, type) and issubclass(c.obj, BaseException):
                why = ast.unparse(e)[:80]
                for a in e.args:
                    self.raising += 1
                    try:
                        self.ev(a, fr)
                    except Unsupported:
                        self.notes.add('the text of exception messages is not verified')
                    finally:
                        self.raising -= 1
                raise PyExc(c.obj, why)
            v = self.ev(e, fr)
        else:
            v = self.ev(e, fr)
        if isinstance(v, Con) and isinstance(v.obj, type) and issubclass(v.obj, BaseException):
            raise PyExc(v.obj, v.obj.__name__)
        if isinstance(v, Tm) and getattr(v.ty, 'exc', None):
            raise PyExc(v.ty.exc, 'instance', v)
        raise Unsupported('raise')

    def s_With(self, s, fr):
        """Locks only: held during the block, released on every exit."""
        held = self.locks
        try:
            for it in s.items:
                v = self.ev(it.context_expr, fr)
                if not (isinstance(v, Con) and isinstance(v.obj, LOCKS)):
                    raise Unsupported('context manager')
                if it.optional_vars is not None:
                    raise Unsupported('with ... as')
                if isinstance(v.obj, LOCKS[:1]) and any(x is v.obj for x in self.locks):
                    raise Unsupported('a lock is acquired twice')
                lock_op('acquire')(self, v, [], {})
            self.block(s.body, fr)
        finally:
            self.locks = held

    def s_Try(self, s, fr):
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append((Exception, BaseException)[1:])
                continue
            c = self.ev(h.type, fr)
            if isinstance(c, TupV):
                hs.append(tuple(x.obj for x in c.items))
            else:
                hs.append(c.obj if isinstance(c.obj, tuple) else (c.obj,))
        nframes, nloops, nh, nb = len(self.frames), len(self.loopstack), len(self.handlers), len(self.binders)
        ncs = len(self.callstack)
        try:
            try:
                self.handlers.append(tuple(c for h in hs for c in h))
                try:
                    self.block(s.body, fr)
                finally:
                    del self.handlers[nh:]
            except PyExc as e:
                del self.frames[nframes:], self.loopstack[nloops:], self.callstack[ncs:]
                for h, cs in zip(s.handlers, hs):
                    if any(issubclass(e.cls, c) for c in cs):
                        if h.name:
                            t = OpaqueTy('exc', e.cls)
                            t.exc = e.cls
                            fr.vars[h.name] = Tm(t, self.fresh('exc', t.sort))
                        if not hasattr(self, 'current_exc'):
                            self.current_exc = []
                        self.current_exc.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.current_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.setname(s.name, self.closure(s, fr), fr)

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname is None:
                m = importlib.import_module(a.name.split('.')[0])
            self.setname((a.asname or a.name).split('.')[0], Con(m), fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            raise Unsupported('relative import in function')
        m = importlib.import_module(s.module)
        for a in s.names:
            if not hasattr(m, a.name):
                raise PyExc(ImportError, a.name)
            self.setname(a.asname or a.name, Con(getattr(m, a.name)), fr)

    def s_Global(self, s, fr):
        self.emit(BoolVal(False), f'no writes to module variables ({", ".join(s.names)})', 'frame')
        raise Unsupported('global statement')

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            fr.locals.discard(n)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, fr), self.index(t.slice, fr)
                self.call(self.getattr(o, '__delitem__'), [i], {})
            else:
                raise Unsupported('del')

    # ---- assignment targets -----------------------------------------------
    def setname(self, name, v, fr):
        f = fr
        if name not in fr.locals:
            g = fr.parent
            while g is not None:
                if name in g.vars or name in g.locals:
                    f = g
                    break
                g = g.parent
        f.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, fr), self.index(t.slice, fr)
            self.setitem(o, i, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, fr):
        self.consume(v)
        it = self.iterate(v) if not (isinstance(v, Tm) and isinstance(v.ty, TupTy)) else self.iterate(TupV(self.tuple_items(v)))
        star = [n for n, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not star:
            if isinstance(it.n, int):
                if it.n != len(elts):
                    raise PyExc(ValueError, 'unpack')
            else:
                self.require(it.n == len(elts), ValueError, f'{len(elts)} values to unpack')
            for n, e in enumerate(elts):
                self.assign(e, it.get(n if isinstance(it.n, int) else IntVal(n)), fr)
            return
        s = star[0]
        after = len(elts) - s - 1
        lit = self.literal(v)
        if lit is not None:
            if len(lit) < len(elts) - 1:
                raise PyExc(ValueError, 'unpack')
            for n in range(s):
                self.assign(elts[n], lit[n], fr)
            self.assign(elts[s].value, self.alloc(ListL(lit[s:len(lit) - after])), fr)
            for n in range(after):
                self.assign(elts[s + 1 + n], lit[len(lit) - after + n], fr)
            return
        ty, t = self.aslist(v)
        th = SeqTh(ty.sort)
        self.require(th.len(t) >= len(elts) - 1, ValueError, 'values to unpack')
        for n in range(s):
            self.assign(elts[n], self.wrap(ty, th.at(t, IntVal(n))), fr)
        mid = self.slice_seq(th, t, Con(s), Con(-after) if after else None, None)
        self.assign(elts[s].value, self.alloc(ListC(ty, mid)), fr)
        for n in range(after):
            self.assign(elts[s + 1 + n], self.wrap(ty, th.at(t, th.len(t) - after + n)), fr)

    # ---- expressions -----------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def cond(self, e, fr):
        """Evaluate as a condition; -> Python bool (branching as needed)."""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.cond(x, fr) for x in e.values)
            return any(self.cond(x, fr) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        return self.branch(self.truth(self.ev(e, fr)))

    def e_Constant(self, e, fr):
        return Con(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.name.startswith('<comp') and f.parent is not None:
            f = f.parent
        f.vars[e.target.id] = v
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return self.seqlit(e.elts, fr, TupV, self.mktuple)

    def e_List(self, e, fr):
        return self.seqlit(e.elts, fr, lambda xs: self.alloc(ListL(xs)), self.mklist)

    def seqlit(self, elts, fr, mk_, mkres):
        parts, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                lit = self.literal(v)
                if lit is None and isinstance(v, Ref) and isinstance(self.content(v.cell), DictL):
                    lit = [k for k, _ in self.content(v.cell).items]
                if lit is not None:
                    cur.extend(lit)
                else:
                    parts.append(TupV(cur))
                    cur = []
                    parts.append(v)
            else:
                cur.append(self.ev(x, fr))
        if not parts:
            return mk_(cur)
        parts.append(TupV(cur))
        acc = parts[0]
        for p in parts[1:]:
            acc = self.concat(acc, p, self.mktuple)
        if isinstance(acc, TupV):
            return mk_(list(acc.items))
        return mkres(acc.ty.t, acc.t)

    def e_Set(self, e, fr):
        s = self.alloc(SetC(EMPTY, None))
        for x in e.elts:
            self.call(Bound(('m', 'set', 'add'), s), [self.ev(x, fr)], {})
        return s

    def e_Dict(self, e, fr):
        d = self.alloc(DictL(()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(Bound(('m', 'dict', 'update'), d), [self.ev(v, fr)], {})
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                if v.conversion == ord('r'):
                    parts.extend(self.repr_(x))
                else:
                    parts.extend(self.str_(x))
        return self.mkstr(parts)

    def mkstr(self, parts):
        s = StrV(parts)
        if all(isinstance(p, str) for p in s.parts):
            return Con(''.join(s.parts))
        return s

    def str_(self, x):
        """str(x) as string parts."""
        if isinstance(x, StrV):
            return list(x.parts)
        if isinstance(x, Con):
            o = x.obj
            if isinstance(o, (str, int, float, type(None), PyAType)):
                return [str(o)]
            if isinstance(o, (PyTree, PyAtom)):
                return [self.opaque_str('str', self.term(x, self.typeof(x)))]
            if isinstance(o, PySym):
                return self.dunder_str(x, '__str__')
            return [str(o)]
        if isinstance(x, Tm):
            if x.ty == STR:
                return [x.t]
            if x.ty == INT:
                return [Function('str:int', I, StrS)(x.t)]
            if x.ty == VAL:
                return [self.str_of_val(x.t)]
            if x.ty in (TREE, ATOM, ATYPE):
                self.printed(x)
                return [self.opaque_str('str', x.t)]
            if isinstance(x.ty, SymTy):
                return self.dunder_str(x, '__str__')
            if isinstance(x.ty, OpaqueTy):
                return [self.opaque_str('str', x.t)]
        if isinstance(x, (TupV, Ref)):
            ty = self.ctype(x)
            if ty is not None and ty.sort is not None:
                return [self.opaque_str('str', self.term(x, ty))]
        raise Unsupported(f'str of {x!r:.50}')

    def printed(self, x):
        if x.ty == TREE and not self.raising and getattr(self.task, 'levels', None) is not None:
            self.emit(isatom(x.t), 'only atoms are printed by the recursive printing of core trees', 'depth')

    def dunder_str(self, x, name):
        cls = self.class_of(x)
        v = self.call(self.class_attr(cls, name, x), [], {})
        return self.str_(v)

    def str_of_val(self, t):
        f = Function('str:val', ValS, StrS)
        n, s = z3.Int('n'), Const('s', StrS)
        if 'str:val' not in smt.AX.by_symbol:
            smt.AX.add('str:val', fa(n, f(vint(n)) == Function('str:int', I, StrS)(n), vint(n)),
                       fa(s, f(vstr(s)) == s, vstr(s)))
        return f(t)

    def opaque_str(self, what, t):
        return Function(f'{what}:{t.sort()}', t.sort(), StrS)(t)

    def repr_(self, x):
        if isinstance(x, Con):
            o = x.obj
            if isinstance(o, (str, int, float, type(None), PyAType)):
                return [repr(o)]
            if isinstance(o, (PyTree, PyAtom)):
                return [self.opaque_str('repr', self.term(x, self.typeof(x)))]
            if isinstance(o, PySym):
                return self.dunder_str(x, '__repr__')
            return [repr(o)]
        if isinstance(x, StrV):
            return [self.opaque_str('repr', self.strterm(x.parts))]
        if isinstance(x, Tm):
            if x.ty == INT:
                return self.str_(x)
            if isinstance(x.ty, SymTy):
                return self.dunder_str(x, '__repr__')
            if x.ty.sort is not None:
                self.printed(x)
                return [self.opaque_str('repr', x.t)]
        if isinstance(x, (TupV, Ref)):
            ty = self.ctype(x)
            if ty is not None and ty.sort is not None:
                return [self.opaque_str('repr', self.term(x, ty))]
        raise Unsupported(f'repr of {x!r:.50}')

    def e_BoolOp(self, e, fr):
        v = None
        for n, x in enumerate(e.values):
            v = self.ev(x, fr)
            if n == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.truth(self.ev(e.operand, fr))
            return Con(not t) if isinstance(t, bool) else Tm(BOOL, Not(t))
        v = self.ev(e.operand, fr)
        if isinstance(v, Con) and isinstance(v.obj, (int, float)):
            return Con(-v.obj if isinstance(e.op, ast.USub) else +v.obj if isinstance(e.op, ast.UAdd) else ~v.obj)
        if isinstance(v, Tm) and v.ty in (INT, REAL) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return Tm(v.ty, -v.t) if isinstance(e.op, ast.USub) else v
        m = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)]
        try:
            f = self.class_attr(self.class_of(v), m, v)
        except PyExc:
            raise PyExc(TypeError, m)
        return self.call(f, [], {})

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.cond(e.test, fr) else self.ev(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.closure(e, fr)

    def closure(self, node, fr):
        a = node.args
        d = [self.ev(x, fr) for x in a.defaults]
        kd = [self.ev(x, fr) if x is not None else None for x in a.kw_defaults]
        return Clo(node, fr, fr.glob, d, kd, getattr(node, 'name', '<lambda>'))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for n, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if r is False:
                return Con(False)
            if len(e.ops) > 1 and n < len(e.ops) - 1 and r is not True:
                # short circuit only matters for effects; operands here are pure terms
                pass
            out.append(r)
            left = right
        out = [r for r in out if r is not True]
        if not out:
            return Con(True)
        return Tm(BOOL, And(*out) if len(out) > 1 else out[0])

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.py_eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.py_eq(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.Is):
            return self.same(a, b)
        if isinstance(op, ast.IsNot):
            r = self.same(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(a, Con) and isinstance(b, Con):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            try:
                return bool(f(a.obj, b.obj))
            except TypeError:
                raise PyExc(TypeError, 'ordering')
        ta, tb = self.typeof(a), self.typeof(b)
        ty = REAL if REAL in (ta, tb) else INT
        if ta in (INT, BOOL, REAL) and tb in (INT, BOOL, REAL):
            x, y = self.term(a, ty), self.term(b, ty)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if all(isinstance(x, Ref) and isinstance(self.content(x.cell), SetC) for x in (a, b)):
            ra, rb = self.content(a.cell), self.content(b.cell)
            if isinstance(op, (ast.Gt, ast.GtE)):
                ra, rb = rb, ra
            if ra.ty is EMPTY:
                return True if isinstance(op, (ast.LtE, ast.GtE)) else self.truth(b if ra is self.content(a.cell) else a)
            x = Const('x', ra.ty.sort)
            tb_ = rb.t if rb.ty is not EMPTY else z3.K(ra.ty.sort, BoolVal(False))
            w = self.fresh('w', ra.ty.sort)
            bad = And(z3.Select(ra.t, w), Not(z3.Select(tb_, w)))
            self.assume(fa(x, Implies(And(z3.Select(ra.t, x), Not(z3.Select(tb_, x))), bad), z3.Select(ra.t, x)))
            if isinstance(op, (ast.LtE, ast.GtE)):
                return Not(bad)
        raise Unsupported(f'comparison of {ta} and {tb}')

    def py_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tm) and isinstance(x.ty, OpaqueTy) and '==' in x.ty.handlers:
                return x.ty.handlers['=='](self, x, y)
        return self.equal(a, b)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Con) and isinstance(b, Con):
            prim = (int, float, str, tuple, list, bool)
            if type(a.obj) in prim and type(b.obj) in prim and type(a.obj) is not list and type(b.obj) is not list:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y, ast.Mod: lambda x, y: x % y,
                     ast.FloorDiv: lambda x, y: x // y}.get(type(op))
                if f is not None:
                    try:
                        return Con(f(a.obj, b.obj))
                    except Exception as ex:
                        raise PyExc(type(ex), str(ex))
        ta, tb = self.typeof(a), self.typeof(b)
        num = (INT, BOOL, REAL)
        if ta in num and tb in num:
            ty = REAL if REAL in (ta, tb) else INT
            x, y = self.term(a, ty), self.term(b, ty)
            if isinstance(op, ast.Add):
                return Tm(ty, x + y)
            if isinstance(op, ast.Sub):
                return Tm(ty, x - y)
            if isinstance(op, ast.Mult):
                return Tm(ty, smt.imul(x, y) if ty == INT else x * y)
            if isinstance(op, ast.Div):
                x, y = self.term(a, REAL), self.term(b, REAL)
                self.require(y != 0, ZeroDivisionError, 'division')
                return Tm(REAL, x / y)
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and ty == INT:
                self.require(y > 0, Unsupported, 'positive modulus')
                return Tm(INT, x % y if isinstance(op, ast.Mod) else x / y)
            if isinstance(op, ast.Pow) and ty == REAL:
                # otherwise Python answers with a complex number
                self.emit(Or(x >= 0, z3.IsInt(y)), 'a power of real numbers is real', 'post')
                return Tm(REAL, Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))
            raise Unsupported('arithmetic operator')
        if STR in (ta, tb) and isinstance(op, ast.Add) and ta == tb:
            return self.mkstr(self.str_(a) + self.str_(b))
        if isinstance(op, ast.Mod) and ta == STR:
            return self.percent(a, b)
        ka, kb = self.kind(a), self.kind(b)
        if isinstance(op, ast.Add) and ka == kb and ka in ('list', 'tuple'):
            return self.concat(a, b, self.mklist if ka == 'list' else self.mktuple)
        if isinstance(op, ast.Mult) and (ka in ('list', 'tuple') and tb in (INT, BOOL) or kb in ('list', 'tuple') and ta in (INT, BOOL)):
            s, n = (a, b) if ka in ('list', 'tuple') else (b, a)
            lit = self.literal(s)
            mkr = self.mklist if self.kind(s) == 'list' else self.mktuple
            if lit is not None and isinstance(n, Con):
                return mkr(None, lit * n.obj)
            if lit is not None and len(lit) == 1:
                ty = self.ctype(lit[0])
                if ty is None or ty.container:
                    raise Unsupported('list repetition of mutable values')
                return mkr(ty, SeqTh(ty.sort).rep(self.term(lit[0], ty), self.term(n, INT)))
            raise Unsupported('list repetition')
        if ka == 'set' and kb == 'set':
            return self.setop(op, a, b)
        if ka == 'dict' and kb == 'dict' and isinstance(op, ast.BitOr):
            d = self.call(Bound(('m', 'dict', 'copy'), a), [], {})
            self.call(Bound(('m', 'dict', 'update'), d), [b], {})
            return d
        if type(op) in BINM:
            return self.dunder_binop(op, a, b)
        raise Unsupported(f'operator on {ta} and {tb}')

    def percent(self, a, b):
        fmt = a.obj if isinstance(a, Con) else None
        if fmt is None:
            raise Unsupported('% formatting')
        args = list(b.items) if isinstance(b, TupV) else [b]
        parts, n, i = [], 0, 0
        while i < len(fmt):
            if fmt[i] == '%':
                c = fmt[i + 1]
                if c == '%':
                    parts.append('%')
                elif c in 'sd':
                    parts.extend(self.str_(args[n]))
                    n += 1
                elif c == 'r':
                    parts.extend(self.repr_(args[n]))
                    n += 1
                else:
                    raise Unsupported('% formatting')
                i += 2
            else:
                parts.append(fmt[i])
                i += 1
        return self.mkstr(parts)

    def kind(self, v):
        if isinstance(v, (TupV,)):
            return 'tuple'
        if isinstance(v, Tm) and isinstance(v.ty, (SeqTy, TupTy)):
            return 'tuple'
        if isinstance(v, Con):
            return {tuple: 'tuple', list: 'list', dict: 'dict', set: 'set', frozenset: 'set'}.get(type(v.obj))
        if isinstance(v, Ref):
            return {'ListL': 'list', 'ListC': 'list', 'SetC': 'set', 'DictC': 'dict', 'DictL': 'dict'}.get(type(self.content(v.cell)).__name__)
        return None

    def dunder_binop(self, op, a, b):
        l, r = BINM[type(op)]
        for m, x, y in ((l, a, b), (r, b, a)):
            if isinstance(x, Tm) and isinstance(x.ty, OpaqueTy):
                if x.ty.foreign:
                    continue        # a foreign operand implements no operator for ours
                h = x.ty.handlers.get('op:' + m)
                if h:
                    res = h(self, x, y)
                    if res is not None:
                        return res
                    continue
            try:
                cls = self.class_of(x)
            except Unsupported:
                continue
            f = None
            for k in cls.__mro__:
                if m in k.__dict__:
                    f = k.__dict__[m]
                    break
            if f is None or not isinstance(f, pytypes.FunctionType):
                continue
            res = self.call(Con(f), [x, y], {})
            if isinstance(res, Con) and res.obj is NotImplemented:
                continue
            return res
        raise PyExc(TypeError, f'unsupported operand types for {l}')

    def setop(self, op, a, b):
        def as_set(v, ty):
            return self.term(v, SetTy(ty))
        ta, tb = self.settype(a), self.settype(b)
        ty = tb if ta is EMPTY else ta
        if ty is EMPTY:
            return self.alloc(SetC(EMPTY, None))
        x, y = as_set(a, ty), as_set(b, ty)
        R = self.fresh('set', x.sort())
        e = Const('e', ty.sort)
        A, Bm = z3.Select(x, e), z3.Select(y, e)
        if isinstance(op, ast.BitAnd):
            f = And(A, Bm)
        elif isinstance(op, ast.BitOr):
            f = Or(A, Bm)
        elif isinstance(op, ast.Sub):
            f = And(A, Not(Bm))
        elif isinstance(op, ast.BitXor):
            f = A != Bm
        else:
            raise Unsupported('set operator')
        self.assume(fa(e, z3.Select(R, e) == f, z3.Select(R, e), A, Bm))
        return self.alloc(SetC(ty, R))

    def settype(self, v):
        t = self.typeof(v)
        if isinstance(t, (SetTy, SetTy2)):
            return t.t
        if isinstance(v, Con):
            ty = EMPTY
            for x in v.obj:
                ty = join(ty, self.typeof(Con(x)))
            return ty
        raise Unsupported('set expected')

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        return self.getitem(v, self.index(e.slice, fr))

    # ---- comprehensions -----------------------------------------------------------
    def comp_iter(self, e, fr, elt):
        """-> ('lit', [values]) or ('map', IterV, body) or ('filter', IterV, body)."""
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.iterate(self.consume(self.ev(g.iter, fr)))

            def run(i):
                f = Frame('<comp>', fr.glob, fr, (), cls=fr.cls)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        f.locals.add(n.id)
                self.frames.append(f)
                try:
                    self.assign(g.target, it.get(i), f)
                    for c in g.ifs:
                        if not self.cond(c, f):
                            return None
                    return elt(f)
                finally:
                    if self.frames and self.frames[-1] is f:
                        self.frames.pop()
            return it, run, bool(g.ifs)
        raise Unsupported('nested generators')

    def comp_lit(self, e, fr, elt):
        """All values when every generator is literal (any nesting), else None."""
        out = []

        def go(k, f):
            if k == len(e.generators):
                out.append(elt(f))
                return
            g = e.generators[k]
            it = self.iterate(self.consume(self.ev(g.iter, f)))
            if not isinstance(it.n, int):
                raise NotConcrete()
            for i in range(it.n):
                f2 = Frame('<comp>', fr.glob, f, (), cls=fr.cls)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        f2.locals.add(n.id)
                self.assign(g.target, it.get(i), f2)
                if all(self.cond(c, f2) for c in g.ifs):
                    go(k + 1, f2)
        go(0, fr)
        return out

    def comp_values(self, e, fr, elt):
        """('lit', [values]) or ('seq', type, term, IterV-base)."""
        used = self.consumed
        try:
            return ('lit', self.comp_lit(e, fr, elt))
        except NotConcrete:
            self.consumed = used
        if len(e.generators) == 2:
            return self.comp_nested(e, fr, elt)
        it, run, filt = self.comp_iter(e, fr, elt)
        sp = self.comp_spec(e, fr, it, run)
        if sp is not None:
            return sp
        if filt:
            ty, t = self.filter_seq(it, run)
            if t is None:
                return ('lit', [])
        else:
            ty, t = self.map_seq(it, run)
        return ('seq', ty, t)

    def comp_nested(self, e, fr, elt):
        raise Unsupported('nested generators over symbolic sequences')

    def comp_spec(self, e, fr, it, run):
        """A comprehension checked like a loop against a matching invariant."""
        for spec in self.loopspecs:
            if 'comp' not in spec.kinds or 'acc' not in spec.roles:
                continue
            if spec.when is not None and not spec.when(self, fr, it):
                continue
            r = spec.roles['acc']
            ety = r.ty.t
            th = r.ty.th
            # quick type probe
            snap = (self.ctr.copy(), self.ncell)
            counted = dict(self.counters)
            try:
                j, rng, outs = self.map_outs(it, run)
            except Unsupported:
                self.counters = counted
                return None
            ok = [o for o in outs if o[2][0] is not None]
            if not ok or any(join(o[2][1], ety) is None for o in ok):
                self.counters = counted
                continue
            mk_ls = lambda accv, i: LoopState(self, {'acc': accv}, fr, i, zi(it.n), it, self.loopstack[-1] if self.loopstack else None, None, spec)
            acc0 = self.alloc(ListC(ety, th.empty))
            for lab, f in spec.inv(mk_ls(acc0, IntVal(0))):
                self.emit(f, f'{spec.name}: {lab} holds initially', 'inv')
            i = self.fresh('it', I)
            A = self.fresh('acc', th.S)
            n0 = len(self.pc)
            self.assume(And(0 <= i, i < zi(it.n)))
            for lab, f in spec.inv(mk_ls(self.alloc(ListC(ety, A)), i)):
                self.assume(f)
            for d, fs, rr in outs:
                n1 = len(self.pc)
                for f in d + fs:
                    self.assume(z3.substitute(f, (j, i)))
                new = A if rr[0] is None else th.snoc(A, z3.substitute(self.sub_value(rr, ety), (j, i)))
                for lab, f in spec.inv(mk_ls(self.alloc(ListC(ety, new)), i + 1)):
                    self.emit(f, f'{spec.name}: {lab} preserved', 'inv')
                del self.pc[n1:]
            del self.pc[n0:]
            R = self.fresh('acc', th.S)
            for lab, f in spec.inv(mk_ls(self.alloc(ListC(ety, R)), zi(it.n))):
                self.assume(f)
            return ('seq', ety, R)
        return None

    def e_ListComp(self, e, fr, elt=None):
        r = self.comp_values(e, fr, elt or (lambda f: self.ev(e.elt, f)))
        if r[0] == 'lit':
            return self.alloc(ListL(r[1]))
        return self.alloc(ListC(r[1], r[2]))

    def e_GeneratorExp(self, e, fr):
        g = e.generators[0]
        r, used = None, self.consumed
        try:
            r = ('lit', self.comp_lit(e, fr, lambda f: self.ev(e.elt, f)))
        except NotConcrete:
            self.consumed = used
        if r is not None:
            xs = r[1]
            return self.iterator(IterV(len(xs), lambda i: xs[i], ()), eager=True)
        it, run, filt = self.comp_iter(e, fr, lambda f: self.ev(e.elt, f))
        iv = IterV(it.n, None, it.base)
        return GenV(self, it, run, filt, e, fr)

    def e_SetComp(self, e, fr, elt=None):
        r = self.comp_values(e, fr, elt or (lambda f: self.ev(e.elt, f)))
        if r[0] == 'lit':
            s = self.alloc(SetC(EMPTY, None))
            for x in r[1]:
                self.call(Bound(('m', 'set', 'add'), s), [x], {})
            return s
        return self.alloc(SetC(r[1], self.seq_to_set(r[1], r[2])))

    def seq_to_set(self, ty, t):
        if ty.container:
            raise PyExc(TypeError, 'unhashable')
        th = SeqTh(ty.sort)
        R = self.fresh('set', z3.ArraySort(ty.sort, B))
        x, i = Const('x', ty.sort), z3.Int('i')
        self.assume(fa(x, z3.Select(R, x) == th.mem(t, x), z3.Select(R, x), th.mem(t, x)))
        self.assume(fa(i, Implies(And(0 <= i, i < th.len(t)), z3.Select(R, th.at(t, i))), th.at(t, i)))
        return R

    def e_DictComp(self, e, fr, elt=None):
        r = self.comp_values(e, fr, elt or (lambda f: TupV((self.ev(e.key, f), self.ev(e.value, f)))))
        if r[0] == 'lit':
            d = self.alloc(DictL(()))
            for p in r[1]:
                self.setitem(d, p.items[0], p.items[1])
            return d
        tt = r[1]
        return self.alloc(self.dict_from_pairs(tt, r[2]))

    def dict_from_pairs(self, tt, t):
        """dict(seq of pairs): later entries win; keys in order of first insertion."""
        th = SeqTh(tt.sort)
        kt, vt = tt.ts
        dom = self.fresh('dom', z3.ArraySort(kt.sort, B))
        val = self.fresh('val', z3.ArraySort(kt.sort, vt.sort))
        last = self.fresh('last', z3.ArraySort(kt.sort, I))
        k, i = Const('k', kt.sort), z3.Int('i')
        n = th.len(t)
        key = lambda i: tt.acc[0](th.at(t, i))
        va = lambda i: tt.acc[1](th.at(t, i))
        L = z3.Select(last, k)
        self.assume(fa(k, Implies(z3.Select(dom, k), And(0 <= L, L < n, key(L) == k, z3.Select(val, k) == va(L))), z3.Select(dom, k), z3.Select(val, k)))
        self.assume(fa(i, Implies(And(0 <= i, i < n), And(z3.Select(dom, key(i)), i <= z3.Select(last, key(i)))), th.at(t, i)))
        keys = None
        kth = SeqTh(kt.sort)
        # keys distinct -> insertion order is the pair order
        ks = self.fresh('keys', kth.S)
        a, b = z3.Ints('a b')
        distinct = fa([a, b], Implies(And(0 <= a, a < b, b < n), key(a) != key(b)), (key(a), key(b)))
        self.assume(Implies(distinct, And(kth.len(ks) == n, fa(i, Implies(And(0 <= i, i < n), kth.at(ks, i) == key(i)), kth.at(ks, i), th.at(t, i)))))
        self.assume(fa(k, kth.mem(ks, k) == z3.Select(dom, k), kth.mem(ks, k), z3.Select(dom, k)))
        self.assume(fa([a, b], Implies(And(0 <= a, a < b, b < kth.len(ks)), kth.at(ks, a) != kth.at(ks, b)), (kth.at(ks, a), kth.at(ks, b))))
        return DictC(kt, vt, dom, val, ks)

    # ---- calls ---------------------------------------------------------------------
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.mksuper(fr)
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                self.push_star(args, self.ev(a.value, fr))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Ref) and isinstance(self.content(d.cell), DictL):
                    for kk, vv in self.content(d.cell).items:
                        kwargs[kk.obj] = vv
                    continue
                raise Unsupported('**kwargs')
            kwargs[k.arg] = self.ev(k.value, fr)
        old = self.loc
        self.loc = f'{fr.name}:{e.lineno}'
        r = self.call(f, args, kwargs)
        self.loc = old
        return r

    def mksuper(self, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            raise Unsupported('super()')
        node = f.fn
        first = (node.args.posonlyargs + node.args.args)
        if not first:
            raise Unsupported('super() without arguments')
        return SuperV(f.cls, f.vars[first[0].arg])

    def record(self, c):
        rec = self.heap[c]
        return self.resolve(c)[1] if isinstance(rec, Fwd) else rec

    # ---- iterators run through once ------------------------------------------------
    def iterator(self, it, eager=False):
        """eager: its elements have been computed already, though Python does so when it is run through."""
        cells = list(self.heap) if eager else list(it.live)
        it.made = (len(self.loopstack), len(self.binders), [(c, self.record(c)) for c in cells], [(f, dict(f.vars)) for f in self.frames] if eager else [])
        return it

    def consume(self, v):
        """v is run through here; a second time there would be nothing left."""
        if isinstance(v, IterV) and v.made is not None:
            if any(x is v for x in self.consumed) or v.made[:2] != (len(self.loopstack), len(self.binders)):
                raise Unsupported('an iterator is run through a second time')
            if any(not same_record(self.record(c), r) for c, r in v.made[2]) or \
                    any(f.vars.get(k, x) is not x for f, fv in v.made[3] for k, x in fv.items()):
                raise Unsupported('what an iterator reads has changed since it was made')
            self.consumed = self.consumed + (v,)
        return v

    def push_star(self, args, v):
        self.consume(v)
        lit = self.literal(v)
        if lit is None and isinstance(v, GenV):
            v = self.tolist(v)
            lit = self.literal(v)
        if lit is None and isinstance(v, Ref) and isinstance(self.content(v.cell), DictL):
            lit = [k for k, _ in self.content(v.cell).items]
        if lit is None and isinstance(v, Ref) and isinstance(self.content(v.cell), (DictC, SetC)):
            v = self.tolist(v)
        if lit is None and isinstance(v, IterV):
            v = self.tolist(v)
        if lit is not None:
            args.extend(lit)
            return
        if isinstance(v, Tm) and isinstance(v.ty, TupTy):
            args.extend(self.tuple_items(v))
            return
        ty, t = self.aslist(v)
        args.append(Star(ty, t))

    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            if isinstance(f.func, tuple):
                if f.func[0] == 'm':
                    from . import models
                    args = self.unstar(args)
                    for x in args:
                        self.consume(x)
                    return models.method(self, f.func[1], f.func[2], f.self, args, kwargs)
                return f.func[1](self, f.self, args, kwargs)
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Clo):
            return self.call_clo(f, args, kwargs)
        if isinstance(f, Tm):
            if isinstance(f.ty, FnTy):
                return self.call_opaque(f, args, kwargs)
            h = getattr(f.ty, 'handlers', None) or {}
            if 'call' in h:
                return h['call'](self, f, args, kwargs)
            cls = self.class_of(f)
            return self.call(self.class_attr(cls, '__call__', f), args, kwargs)
        if isinstance(f, Ref):
            r = self.content(f.cell)
            if isinstance(r, ObjC):
                return self.call(self.class_attr(r.cls, '__call__', f), args, kwargs)
            raise PyExc(TypeError, 'not callable')
        if isinstance(f, Con):
            return self.call_con(f, args, kwargs)
        raise Unsupported(f'call of {f!r:.50}')

    def unstar(self, args):
        out = []
        for a in args:
            if isinstance(a, Star):
                raise Unsupported('*args of unknown length')
            out.append(a)
        return out

    def call_con(self, f, args, kwargs):
        from . import models
        o = f.obj
        m = models.lookup(o)
        if m is not None:
            if not getattr(m, 'stars', False):
                args = self.unstar(args)
            if o is iter:
                return args[0] if isinstance(args[0], IterV) and args[0].made is not None else m(self, args, kwargs)
            for x in args:
                self.consume(x)
            r = m(self, args, kwargs)
            if isinstance(r, IterV) and r.made is None and o is not range:
                r.live = tuple(c for x in args for c in ([x.cell] if isinstance(x, Ref) else x.live if isinstance(x, IterV) else ()))
                self.iterator(r, eager=o in (map, filter) and isinstance(r.n, int))
            return r
        c = self.registry.get(id(o)) if not isinstance(o, pytypes.MethodType) else None
        if c is not None and self.use_contract(c, o, args, kwargs):
            return self.apply_contract(c, o, args, kwargs)
        if isinstance(o, pytypes.FunctionType):
            if not o.__code__.co_filename.startswith(REPO):
                if o.__code__.co_filename.endswith('functools.py'):
                    raise Unsupported(f'functools {o.__name__}')
                raise Unsupported(f'call of external function {o.__qualname__}')
            return self.call_fn(o, args, kwargs)
        if isinstance(o, pytypes.MethodType):
            return self.call(Con(o.__func__), [Con(o.__self__)] + list(args), kwargs)
        if isinstance(o, type):
            return self.instantiate(o, args, kwargs)
        org = getattr(o, '__origin__', None)
        if isinstance(org, type) and not isinstance(o, type):
            return self.call(Con(org), args, kwargs)
        if isinstance(o, functools.partial):
            kw = {k: Con(v) for k, v in o.keywords.items()}
            kw.update(kwargs)
            return self.call(Con(o.func), [Con(x) for x in o.args] + list(args), kw)
        cls = type(o)
        for k in cls.__mro__:
            a = k.__dict__.get('__call__')
            if a is not None:
                if isinstance(a, pytypes.FunctionType):
                    return self.call(Con(a), [f] + list(args), kwargs)
                break
        raise Unsupported(f'call of {o!r:.60}')

    def use_contract(self, c, o, args, kwargs):
        return True

    def call_opaque(self, f, args, kwargs):
        """Unknown pure callable."""
        if kwargs:
            raise Unsupported('keyword arguments to an unknown function')
        res = f.ty.res
        if len(args) == 1 and isinstance(args[0], Star):
            s = args[0]
            th = SeqTh(s.ty.sort)
            g = Function(f'callstar:{f.ty.name}:{s.ty.name}', f.ty.sort, th.S, res.sort)
            hook = getattr(self.task, 'on_opaque_call', None)
            if hook:
                hook(self, f, args)
            return self.wrap(res, g(f.t, s.t))
        self.unstar(args)
        if len(args) == 1 and False:
            pass
        ts, names = [], []
        for a in args:
            ty = self.ctype(a)
            if ty is None:
                raise Unsupported('argument to an unknown function')
            ts.append(self.term(a, ty))
            if isinstance(a, Ref):
                self.given |= {a.cell}
            names.append(f'seq<{ty.t.name}>' if isinstance(ty, (ListTy, SeqTy)) else ty.name)
        hook = getattr(self.task, 'on_opaque_call', None)
        if hook:
            hook(self, f, args)
        g = Function(f'call:{f.ty.name}:{",".join(names)}', f.ty.sort, *[t.sort() for t in ts], res.sort)
        return self.wrap(res, g(f.t, *ts))

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            t = OpaqueTy('exc:' + cls.__name__, cls)
            t.exc = cls
            return Tm(t, self.fresh('exc', t.sort))
        meta = type(cls)
        if isinstance(meta.__dict__.get('__call__'), pytypes.FunctionType):
            raise Unsupported('metaclass __call__')
        new = init = None
        for k in cls.__mro__:
            if new is None and '__new__' in k.__dict__:
                new = k.__dict__['__new__']
                new = new.__func__ if isinstance(new, staticmethod) else new
            if init is None and '__init__' in k.__dict__:
                init = k.__dict__['__init__']
        is_obj_new = new is object.__new__ or not isinstance(new, pytypes.FunctionType)
        if is_obj_new and not (new is object.__new__ or getattr(new, '__qualname__', '') in ('Generic.__new__',)):
            raise Unsupported(f'instantiation of {cls.__name__}')
        if is_obj_new:
            obj = self.alloc(ObjC(cls, {}))
        else:
            obj = self.call(Con(new), [Con(cls)] + list(args), kwargs)
            try:
                if not issubclass(self.class_of(obj), cls):
                    return obj
            except Unsupported:
                return obj
        if isinstance(init, pytypes.FunctionType):
            if dataclasses.is_dataclass(cls) and init.__code__.co_filename == '<string>':
                self.dataclass_init(cls, obj, args, kwargs)
            else:
                self.call(Con(init), [obj] + list(args), kwargs)
        return obj

    def dataclass_init(self, cls, obj, args, kwargs):
        args = self.unstar(args)
        fields = [f for f in dataclasses.fields(cls) if f.init]
        vals = {}
        if len(args) > len(fields):
            raise PyExc(TypeError, 'too many arguments')
        for f, a in zip(fields, args):
            vals[f.name] = a
        for k, v in kwargs.items():
            if k in vals or k not in [f.name for f in fields]:
                raise PyExc(TypeError, 'argument')
            vals[k] = v
        for f in dataclasses.fields(cls):
            if f.name not in vals:
                if f.default is not dataclasses.MISSING:
                    vals[f.name] = Con(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    vals[f.name] = self.call(Con(f.default_factory), [], {})
                else:
                    raise PyExc(TypeError, 'missing argument')
        r = self.content(obj.cell)
        self.heap[obj.cell] = ObjC(cls, {**r.fields, **{f.name: vals[f.name] for f in dataclasses.fields(cls)}})
        if hasattr(cls, '__post_init__'):
            self.call(self.class_attr(cls, '__post_init__', obj), [], {})

    def call_fn(self, o, args, kwargs):
        """Inline a repository function."""
        try:
            node = src.func_node(o)
        except src.SourceMismatch as ex:
            raise Unsupported(str(ex))
        key = o.__code__
        if self.callstack.count(key) and key not in self.allow_recursion:
            raise Unsupported(f'recursive call of {o.__qualname__} without contract')
        self.inlined.add(o)
        closure = {}
        for nm, cell in zip(o.__code__.co_freevars, o.__closure__ or ()):
            try:
                closure[nm] = Con(cell.cell_contents)
            except ValueError:
                pass
        cls = closure.get('__class__')
        cls = cls.obj if cls is not None else None
        fr = Frame(o.__qualname__, o.__globals__, None, (), closure, cls, o.__code__.co_filename)
        d = [Con(x) for x in (o.__defaults__ or ())]
        kd = {k: Con(v) for k, v in (o.__kwdefaults__ or {}).items()}
        return self.run_body(node, fr, args, kwargs, d, kd, key)

    def call_clo(self, c, args, kwargs):
        fr = Frame(c.frame.name + '.' + c.name, c.glob, c.frame, (), {}, None, c.frame.file)
        kd = {a.arg: v for a, v in zip(c.node.args.kwonlyargs, c.kwdefaults) if v is not None}
        if self.callstack.count(id(c.node)):
            raise Unsupported('recursive nested function')
        return self.run_body(c.node, fr, args, kwargs, c.defaults, kd, id(c.node))

    def bind(self, node, args, kwargs, defaults, kwdefaults):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        # expand a symbolic star that must fill fixed parameters
        while True:
            k = next((n for n, x in enumerate(args) if isinstance(x, Star)), None)
            if k is None or k >= len(pos) and a.vararg is not None:
                break
            if a.vararg is not None and k == len(pos):
                break
            s = args[k]
            th = SeqTh(s.ty.sort)
            if k != len(args) - 1:
                raise Unsupported('*args before positional arguments')
            need = len(pos) - k
            if a.vararg is None:
                lo = need - len([d for d in defaults]) if need > len(defaults) else need
                self.require(th.len(s.t) == need, TypeError, f'{node_name(node)} called with {len(pos)} arguments')
                args = args[:k] + [self.wrap(s.ty, th.at(s.t, IntVal(n))) for n in range(need)]
            else:
                self.require(th.len(s.t) >= need, TypeError, 'enough arguments')
                args = args[:k] + [self.wrap(s.ty, th.at(s.t, IntVal(n))) for n in range(need)] + [Star(s.ty, th.drop(s.t, IntVal(need)))]
            break
        npos = min(len(args), len(pos))
        for n in range(npos):
            out[pos[n]] = args[n]
        rest = args[npos:]
        if a.vararg is not None:
            out[a.vararg.arg] = self.pack_star(rest)
        elif rest:
            raise PyExc(TypeError, f'{node_name(node)}: too many arguments')
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in list(kwargs.items()):
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in out:
                    raise PyExc(TypeError, 'multiple values')
                out[k] = v
                del kwargs[k]
            elif k in konly:
                out[k] = v
                del kwargs[k]
        if kwargs:
            if a.kwarg is None:
                raise PyExc(TypeError, f'{node_name(node)}: unexpected keyword')
            out[a.kwarg.arg] = self.alloc(DictL([(Con(k), v) for k, v in kwargs.items()]))
        elif a.kwarg is not None:
            out[a.kwarg.arg] = self.alloc(DictL(()))
        for p, dv in zip(pos[len(pos) - len(defaults):], defaults):
            out.setdefault(p, dv)
        for k in konly:
            if k not in out and k in kwdefaults:
                out[k] = kwdefaults[k]
        for p in pos + konly:
            if p not in out:
                raise PyExc(TypeError, f'{node_name(node)}: missing argument {p}')
        return out

    def pack_star(self, rest):
        if not any(isinstance(x, Star) for x in rest):
            return TupV(rest)
        acc = TupV(())
        for x in rest:
            nxt = Tm(SeqTy(x.ty), x.t) if isinstance(x, Star) else TupV((x,))
            acc = self.concat(acc, nxt, self.mktuple)
        return acc

    def run_body(self, node, fr, args, kwargs, defaults, kwdefaults, key):
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        if is_gen:
            raise Unsupported('generator function')
        b = self.bind(node, args, kwargs, defaults, kwdefaults)
        fr.fn = node
        fr.vars.update(b)
        fr.locals = set(b) | src.assigned_names(node)
        fr.locals -= nonlocals(node)
        self.frames.append(fr)
        self.callstack.append(key)
        self.maxdepth = max(self.maxdepth, len(self.callstack))
        if len(self.callstack) > 60:
            raise Unsupported('call depth')
        loc = self.loc
        nl = len(self.loopstack)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
            except ReturnSig as r:
                return r.v
            return Con(None)
        finally:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            if self.callstack:
                self.callstack.pop()
            del self.loopstack[nl:]
            self.loc = loc

    # ---- contracts at call sites ---------------------------------------------------
    def apply_contract(self, c, o, args, kwargs):
        levels = getattr(self.task, 'levels', None)
        if levels is not None and c.used(self, args, kwargs):
            up, here = levels.get(c.name), self.task.level
            self.emit(BoolVal(up is not None and up < here), f'{c.name} is at a lower level (no recursion)', 'depth')
        return c.apply(self, o, args, kwargs)

    # ---- loops -----------------------------------------------------------------------
    def s_While(self, s, fr):
        self.run_loop(s, fr, 'while', s.body, s.orelse, guard=s.test)

    def s_For(self, s, fr):
        v = self.consume(self.ev(s.iter, fr))
        itv = self.iterate(v)
        if isinstance(itv.n, int):
            if itv.n > 40:
                raise Unsupported('long literal loop')
            broke = False
            live = [(c, self.record(c)) for c in itv.live]
            for i in range(itv.n):
                if any(not same_record(self.record(c), r) for c, r in live):
                    raise Unsupported('a collection changes while it is iterated over')
                try:
                    self.assign(s.target, itv.get(i), fr)
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, fr)
            return
        self.run_loop(s, fr, 'for', s.body, s.orelse, target=s.target, itv=itv)

    def filling_loop(self, s, fr, itv):
        """A for loop that only fills lists, sets or dictionaries, or adds up or multiplies numbers: the comprehensions
        with the same elements (and their sum or product).
        The collections themselves must not be read on the way (they are hidden meanwhile)."""
        todo, ifs, pre = list(s.body), [], []
        if s.orelse or self.handlers or not isinstance(s, ast.For):
            return False
        finals = []
        while todo:
            t = todo.pop(0)
            step = self.filling_step(t)
            if step is not None:
                finals.append(step)
            elif finals:
                return False
            elif isinstance(t, ast.If) and not pre and not t.orelse and len(t.body) == 1 and isinstance(t.body[0], ast.Continue) and todo:
                ifs.append(ast.copy_location(ast.UnaryOp(ast.Not(), t.test), t))
            elif isinstance(t, ast.If) and not pre and not t.orelse and not todo:
                ifs.append(t.test)
                todo = list(t.body)
            elif isinstance(t, (ast.Assign, ast.AnnAssign)) and todo and t.value is not None and all(isinstance(x, ast.Name) for x in (t.targets if isinstance(t, ast.Assign) else [t.target])):
                pre.append(t)
            else:
                return False
        if not finals or len({acc for acc, how, elts in finals}) < len(finals):
            return False
        own = {n.id for x in [s.target] + [y for t in pre for y in (t.targets if isinstance(t, ast.Assign) else [t.target])] for n in ast.walk(x) if isinstance(n, ast.Name)}
        accs = {}
        for acc, how, elts in finals:
            v = fr.vars.get(acc)
            if how in ('sum', 'prod'):
                if acc in own or not (isinstance(v, Con) and type(v.obj) in (int, float) or isinstance(v, Tm) and v.ty in (INT, REAL)):
                    return False
                continue
            if acc in own or not isinstance(v, Ref) or v.cell in itv.live or v.cell in accs:
                return False
            if not isinstance(self.heap[v.cell], {'append': (ListL, ListC), 'add': (SetC,), 'set': (DictL, DictC)}[how]):
                return False
            accs[v.cell] = self.heap[v.cell]
        it = ast.copy_location(ast.Name('#it', ast.Load()), s.iter)
        mk = {**dict.fromkeys(('append', 'sum', 'prod'), lambda x, g: ast.ListComp(x[0], g)), 'add': lambda x, g: ast.SetComp(x[0], g), 'set': lambda x, g: ast.DictComp(x[0], x[1], g)}

        def filled(how, elts):
            def elt(f):
                f.locals |= own
                self.block(pre, f)
                xs = [self.ev(x, f) for x in elts]
                return xs[0] if len(xs) == 1 else TupV(tuple(xs))

            e = ast.copy_location(mk[how](elts, [ast.comprehension(s.target, it, ifs, 0)]), s)
            hidden = Frame(fr.name, fr.glob, fr, (), cls=fr.cls)
            hidden.locals |= {'#it'} | {acc for acc, how, elts in finals}
            hidden.vars.update({acc: Undef('being filled') for acc, how, elts in finals})
            hidden.vars['#it'] = IterV(itv.n, itv.get, itv.base, live=itv.live)
            self.iterator(hidden.vars['#it'])
            self.frames.append(hidden)
            try:
                return {'add': self.e_SetComp, 'set': self.e_DictComp}.get(how, self.e_ListComp)(e, hidden, elt)
            finally:
                if self.frames and self.frames[-1] is hidden:
                    self.frames.pop()

        for c in accs:
            self.heap[c] = Hidden()
        try:
            news = [filled(how, elts) for acc, how, elts in finals]
        finally:
            self.heap.update(accs)
        for n in own:
            self.setname(n, Undef('assigned in a loop'), fr)
        todo = iter(list(accs.items()))
        for (acc, how, elts), new in zip(finals, news):
            if how in ('sum', 'prod'):
                fold = self.call(Con(sum if how == 'sum' else math.prod), [new], {})
                fr.vars[acc] = self.binop(ast.Add() if how == 'sum' else ast.Mult(), fr.vars[acc], fold)
                continue
            cell, rec = next(todo)
            empty = isinstance(rec, (ListL, DictL)) and not rec.items or isinstance(rec, SetC) and rec.ty is EMPTY
            if empty:
                self.write(cell, self.heap[new.cell], shift=True)
            else:
                self.call(self.getattr(fr.vars[acc], 'extend' if how == 'append' else 'update'), [new], {})
        return True

    def filling_step(self, t):
        """A statement that adds to one collection: (its name, how, expressions of what is added)."""
        if isinstance(t, ast.If) and len(t.body) == len(t.orelse) == 1:
            a, b = self.filling_step(t.body[0]), self.filling_step(t.orelse[0])
            if a is None or b is None or a[:2] != b[:2]:
                return None
            return (*a[:2], [ast.copy_location(ast.IfExp(t.test, x, y), t) for x, y in zip(a[2], b[2])])
        if isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) and t.value.func.attr in ('append', 'add') \
           and len(t.value.args) == 1 and not t.value.keywords and not isinstance(t.value.args[0], ast.Starred):
            acc, how, elts = t.value.func.value, t.value.func.attr, [t.value.args[0]]
        elif isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Subscript) and not isinstance(t.targets[0].slice, ast.Slice):
            acc, how, elts = t.targets[0].value, 'set', [t.targets[0].slice, t.value]
        elif isinstance(t, ast.AugAssign) and isinstance(t.op, (ast.Add, ast.Mult)) and not isinstance(t.value, (ast.Constant, ast.List, ast.Tuple)):
            acc, how, elts = t.target, 'sum' if isinstance(t.op, ast.Add) else 'prod', [t.value]
        else:
            return None
        return (acc.id, how, elts) if isinstance(acc, ast.Name) else None

    def checking_loop(self, s, fr, itv):
        """A for loop that only looks for an element to raise or return at: any(...) of the test, and an arbitrary
        such element when there is one."""
        test = s.body[-1]
        pre = s.body[:-1]
        if self.handlers or not isinstance(test, ast.If) or test.orelse or not isinstance(test.body[-1], (ast.Raise, ast.Return)) \
           or not all(isinstance(t, ast.Assign) and all(isinstance(x, ast.Name) for x in t.targets) for t in pre) \
           or any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for t in s.body for n in ast.walk(t)):
            return False
        own = {n.id for x in [s.target] + [y for t in pre for y in t.targets] for n in ast.walk(x) if isinstance(n, ast.Name)}
        if any(not isinstance(n, (ast.Name, ast.Tuple, ast.Load, ast.Store)) for n in ast.walk(s.target)):
            return False
        it = ast.copy_location(ast.Name('#it', ast.Load()), s.iter)
        e = ast.copy_location(ast.GeneratorExp(test.test, [ast.comprehension(s.target, it, [], 0)]), s)

        def elt(f):
            f.locals |= own
            self.block(pre, f)
            return self.ev(test.test, f)

        inner = Frame(fr.name, fr.glob, fr, (), cls=fr.cls)
        inner.locals |= {'#it'}
        inner.vars['#it'] = IterV(itv.n, itv.get, itv.base, live=itv.live)
        self.iterator(inner.vars['#it'])
        self.frames.append(inner)
        try:
            from . import models
            seq, run, filt = self.comp_iter(e, inner, elt)
            found = self.truth(models.quant(self, [GenV(self, seq, run, filt, e, inner)], 'any'))
        finally:
            if self.frames and self.frames[-1] is inner:
                self.frames.pop()
        if found if isinstance(found, bool) else self.branch(found):
            k = self.fresh('it', I)
            self.assume(And(0 <= k, k < zi(itv.n)))
            self.assign(s.target, itv.get(k), fr)
            self.block(s.body, fr)
            raise PathEnd()
        for n in own:
            self.setname(n, Undef('assigned in a loop'), fr)
        self.block(s.orelse, fr)
        return True

    def run_loop(self, s, fr, kind, body, orelse, guard=None, target=None, itv=None):
        key = (tuple(self.dec[:self.dpos]), tuple(self.callstack), id(s), len(self.binders), tuple(str(b) for b in self.binders))
        info = self.loopinfo.get(key)
        if info is None:
            info = self.loopinfo[key] = LoopInfo()
        self.loopseq += 1
        info.order = self.loopseq
        info.path = tuple(self.dec[:self.dpos])
        spec, roles = self.match_loop(s, fr, kind, info, itv)
        if kind == 'for' and (spec is None or any(st.spec is spec for st in self.loopstack)) and self.filling_loop(s, fr, itv):
            return
        if kind == 'for' and spec is None and self.checking_loop(s, fr, itv):
            return
        outer = self.loopstack[-1] if self.loopstack else None
        if spec is None:
            spec = LoopSpec('loop', {}, lambda S: [])
            auto = True
        else:
            auto = False
            for r, rv in roles.items():
                if not spec.roles[r].mod:
                    continue
        # prepare literal containers that play a role
        for r, rv in roles.items():
            v = fr.vars[rv]
            ty = spec.roles[r].ty
            if isinstance(v, Ref) and isinstance(ty, (ListTy, SetTy, DictTy)) and not isinstance(self.heap[v.cell], Fwd):
                self.symbolise(v.cell, ty)
        entry = {r: self.term(fr.vars[rv], spec.roles[r].ty) for r, rv in roles.items()}
        n = zi(itv.n) if itv is not None else None
        if itv is not None:
            if not z3.is_int_value(n):
                self.assume(n >= 0) if not self.valid(n >= 0) else None

        def state(it):
            return LoopState(self, roles, fr, it, n, itv, outer, entry, spec)

        counted = self.auto_inv(info, fr, s, itv, auto)
        for lab, f in spec.inv(state(IntVal(0) if itv is not None else None)):
            self.emit(f, f'{spec.name}: {lab} holds initially', 'inv')
        counting = spec.counting if self.counters else None
        if counting is not None:
            for lab, f in counting(state(IntVal(0) if itv is not None else None), self.counters):
                self.emit(f, f'{spec.name}: {lab} holds initially', 'once')
            self.counters = {k: self.fresh(f'count {k}', I) for k in self.counters}
        if itv is not None and any(c in itv.live for c, _ in info.cells):
            raise Unsupported('a collection changes while it is iterated over')
        # havoc
        self.given |= info.given
        head_clock = self.clock
        for (cell, path) in sorted(info.cells, key=str):
            if cell not in self.heap:
                raise Restart_(self, key)
            if path is None:
                rec = self.heap[cell]
                if isinstance(rec, Fwd):
                    ty, t = self.resolve(cell)
                    self.write(cell, self.mkrec(ty, self.fresh('h', ty.sort)))
                    continue
                ty = info.cells[(cell, path)]
                if ty is not None:
                    if isinstance(rec, (ListL, DictL)) or isinstance(rec, SetC) and rec.ty is EMPTY:
                        self.symbolise(cell, ty)
                        rec = self.heap[cell]
                if isinstance(rec, ListC):
                    self.write(cell, ListC(rec.ty, self.fresh('h', SeqTh(rec.ty.sort).S)), shift=True)
                elif isinstance(rec, SetC):
                    if rec.ty is EMPTY:
                        raise Unsupported('type of a set filled in a loop')
                    self.write(cell, SetC(rec.ty, self.fresh('h', rec.t.sort())), shift=True)
                elif isinstance(rec, DictC):
                    kth = SeqTh(rec.k.sort)
                    ks = self.fresh('keys', kth.S) if rec.keys is not None else None
                    nr = DictC(rec.k, rec.v, self.fresh('h', rec.dom.sort()), self.fresh('h', rec.val.sort()), ks)
                    if ks is not None:
                        x, a, b = Const('x', rec.k.sort), *z3.Ints('a b')
                        self.assume(fa(x, kth.mem(ks, x) == z3.Select(nr.dom, x), kth.mem(ks, x), z3.Select(nr.dom, x)))
                        self.assume(fa([a, b], Implies(And(0 <= a, a < b, b < kth.len(ks)), kth.at(ks, a) != kth.at(ks, b)), (kth.at(ks, a), kth.at(ks, b))))
                    self.write(cell, nr, shift=True)
                elif isinstance(rec, (ListL, DictL)):
                    raise Unsupported('type of a container filled in a loop')
                elif isinstance(rec, ObjC):
                    raise Unsupported('object modified in a loop')
            else:
                pass
        for (cell, path) in sorted(info.cells, key=str):
            if path is not None:
                rty, rt = self.rec_type_term(self.heap[cell])
                ty, t = rty, rt
                for p in path:
                    ty, t = self.step(ty, t, p)
                self.heap[cell] = self.mkrec(rty, self.setpath(rty, rt, path, self.fresh('h', ty.sort)))
                self.log_write(cell, path, 0)
        for name, ty in sorted(info.vars.items()):
            if ty is None:
                if name in fr.vars:
                    fr.vars[name] = Undef('assigned in an earlier iteration')
            elif isinstance(ty, ConstTy):
                fr.vars[name] = Undef('changes in a loop')
            else:
                cty = concretise(ty)
                if cty is None or cty.sort is None:
                    fr.vars[name] = Undef('changes type in a loop')
                else:
                    fr.vars[name] = self.fresh_value(cty, name)
        it = None
        if itv is not None:
            it = self.fresh('it', I)
            self.assume(And(0 <= it, it <= n))
        st = state(it)
        for lab, f in spec.inv(st):
            self.assume(f)
        if counting is not None:
            for lab, f in counting(st, self.counters):
                self.assume(f)
        headcount = dict(self.counters)
        for nm, start, step in counted:
            self.assume(self.term(fr.vars[nm], INT) == start + step * it)
        measure = spec.measure(st) if spec.measure is not None and kind == 'while' else None
        if kind == 'while' and measure is None:
            self.notes.add(f'the termination of the while loop in {fr.name} is not proved')
        headvars = dict(fr.vars)
        headheap = dict(self.heap)
        outer_writes = self.writes
        self.writes = []
        self.loopstack.append(st)
        depth = (len(self.frames), len(self.handlers), len(self.loopstack), len(self.callstack))

        def unwind():
            self.loopstack.pop() if self.loopstack and self.loopstack[-1] is st else None
            w = self.writes
            self.writes = outer_writes
            if outer_writes is not None:
                outer_writes.extend(w)

        if itv is not None:
            go = self.branch(it < n)
        else:
            try:
                go = self.cond(guard, fr)
            except PyExc:
                unwind()
                raise
        if not go:
            unwind()
            self.block(orelse, fr)
            return
        try:
            if itv is not None:
                self.assign(target, itv.get(it), fr)
            self.block(body, fr)
        except ContinueSig:
            pass
        except BreakSig:
            self.check_growth(info, key, fr, headvars, headheap, head_clock, self.writes, at_break=True)
            unwind()
            return
        # back edge
        self.loc = f'{fr.name}:{s.lineno}'
        del self.loopstack[depth[2]:]
        self.check_growth(info, key, fr, headvars, headheap, head_clock, self.writes)
        st2 = state(it + 1 if it is not None else None)
        for lab, f in spec.inv(st2):
            self.emit(f, f'{spec.name}: {lab} preserved', 'inv')
        if counting is not None:
            for lab, f in counting(st2, self.counters):
                self.emit(f, f'{spec.name}: {lab} preserved', 'once')
        if measure is not None:
            less, eq = BoolVal(False), BoolVal(True)
            for m0, m1 in zip(measure, spec.measure(st2)):
                less, eq = Or(less, And(eq, m1 < m0, m0 >= 0)), And(eq, m1 == m0)
            self.emit(less, f'{spec.name}: the measure decreases', 'inv')
        if counting is None:
            for k, c in self.counters.items():
                self.emit(c == headcount[k], f'{spec.name}: no counted call ({k})', 'once')
        for nm, start, step in counted:
            self.emit(self.term(fr.vars[nm], INT) == start + step * (it + 1), f'{fr.name}: {nm} counts the iterations', 'inv')
        raise PathEnd()

    def auto_inv(self, info, fr, s, itv, auto):
        """Integers that grow by a constant in every iteration: (name, value at the start, step)."""
        if auto and itv is None:
            raise Unsupported(f'while loop without invariant at {fr.name}:{s.lineno}')
        info.auto = auto
        out = []
        if itv is None or any(isinstance(n, ast.Continue) for n in ast.walk(s)):
            return out
        stores = [n.id for n in ast.walk(s) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)]
        for t in s.body:
            if isinstance(t, ast.AugAssign) and isinstance(t.op, ast.Add) and isinstance(t.target, ast.Name):
                nm, step = t.target.id, t.value
            elif isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name) and isinstance(t.value, ast.BinOp) \
                    and isinstance(t.value.op, ast.Add) and isinstance(t.value.left, ast.Name) and t.value.left.id == t.targets[0].id:
                nm, step = t.targets[0].id, t.value.right
            else:
                continue
            if isinstance(step, ast.Constant) and type(step.value) is int and stores.count(nm) == 1 and nm in fr.vars and self.is_int(fr.vars[nm]):
                out.append((nm, self.term(fr.vars[nm], INT), step.value))
        return out

    def is_int(self, v):
        return isinstance(v, Tm) and v.ty == INT or isinstance(v, Con) and type(v.obj) is int

    def check_growth(self, info, key, fr, headvars, headheap, clock, writes, at_break=False):
        grew = False
        cells = {}
        for cell, path, ac in writes:
            if cell not in headheap:
                continue          # allocated in this iteration
            if path is not None and ac is not None and ac <= clock:
                k = (cell, path)
            else:
                k = (cell, None)
            cells[k] = True
        if not at_break:
            for (cell, path) in cells:
                if path is not None and (cell, None) in info.cells:
                    continue
                if path is None:
                    rec = self.heap[cell]
                    ty = None
                    if not isinstance(rec, (Fwd, ObjC)):
                        ty = concretise(join(self.typeof(Ref(cell)), info.cells.get((cell, None)) or self.typeof(Ref(cell))))
                    if (cell, None) not in info.cells or (ty is not None and info.cells[(cell, None)] is None):
                        for k in [k for k in info.cells if k[0] == cell]:
                            del info.cells[k]
                        info.cells[(cell, None)] = ty
                        grew = True
                elif (cell, path) not in info.cells:
                    info.cells[(cell, path)] = None
                    grew = True
            for name, v in fr.vars.items():
                h = headvars.get(name)
                if h is v or (h is not None and same_value(h, v)):
                    continue
                if name not in headvars:
                    if name not in info.vars:
                        info.vars[name] = None
                        grew = True
                    continue
                if isinstance(h, Undef):
                    if name not in info.vars:
                        info.vars[name] = None
                        grew = True
                    continue
                if isinstance(v, Ref) or isinstance(h, Ref):
                    nt = None
                    if isinstance(v, Ref) and isinstance(h, Ref) and self.unshared(fr, name, v, headheap):
                        nt = join(self.typeof(h), self.typeof(v))
                        nt = nt if isinstance(nt, (ListTy, SetTy, DictTy)) else None
                else:
                    nt = join(self.typeof(h), self.typeof(v))
                if name not in info.vars:
                    info.vars[name] = nt
                    grew = True
                elif info.vars[name] is not None and (nt is None or join(info.vars[name], nt) != info.vars[name]):
                    info.vars[name] = None if nt is None else join(info.vars[name], nt)
                    grew = True
        given = frozenset(c for c in self.given if c in headheap)
        if not given <= info.given:
            info.given |= given
            grew = True
        if grew:
            raise Restart_(self, key)

    def unshared(self, fr, name, v, headheap):
        if v.cell in headheap:
            return False
        for n2, x in fr.vars.items():
            if n2 != name and mentions_cell(x, v.cell):
                return False
        for c, rec in self.heap.items():
            if isinstance(rec, (ListL,)) and any(mentions_cell(x, v.cell) for x in rec.items):
                return False
            if isinstance(rec, ObjC) and any(mentions_cell(x, v.cell) for x in rec.fields.values()):
                return False
        return not isinstance(self.heap[v.cell], Fwd)

    def match_loop(self, s, fr, kind, info, itv):
        assigned = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                assigned.add(n.id)
        for spec in self.loopspecs:
            if kind not in spec.kinds:
                continue
            if spec.when is not None and not spec.when(self, fr, itv):
                continue
            roles, taken = {}, set()
            ok = True
            for r, role in spec.roles.items():
                cands = []
                for nm in role.names:
                    if nm in fr.vars and nm in assigned and self.role_ok(fr.vars[nm], role) and nm not in taken:
                        cands = [nm]
                        break
                if not cands:
                    cands = [nm for nm in fr.vars if nm in assigned and nm not in taken and self.role_ok(fr.vars[nm], role)]
                    if len(cands) > 1 or role.optional:
                        mod = self.modified_names(s)
                        m2 = [c for c in cands if c in mod]
                        cands = m2 if role.optional else m2 or cands
                if len(cands) < 1:
                    if role.optional:
                        continue
                    ok = False
                    break
                roles[r] = cands[0]
                taken.add(cands[0])
            if ok:
                return spec, roles
        return None, {}

    def modified_names(self, s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
        return out

    def role_ok(self, v, role):
        if isinstance(v, Undef):
            return False
        try:
            t = self.typeof(v)
        except Unsupported:
            return False
        if isinstance(role.ty, (ListTy, SetTy, DictTy)):
            if not isinstance(v, Ref):
                return False
            if isinstance(v, Ref) and isinstance(self.content(v.cell), SetC) != isinstance(role.ty, SetTy):
                return False
        j = join(t, role.ty)
        j = concretise(j) if j is not None else None
        return j == role.ty


def same_record(a, b):
    return a is b or (z3.is_ast(a) and z3.is_ast(b) and a.eq(b))


class GenV(IterV):
    """A generator expression over a symbolic sequence, not yet consumed."""
    __slots__ = ('E', 'it', 'run', 'filt', 'e', 'fr', '_seq')
    live = property(lambda self: self.it.live, lambda self, v: None)

    def __init__(self, E, it, run, filt, e, fr):
        self.E, self.it, self.run, self.filt, self.e, self.fr = E, it, run, filt, e, fr
        self._seq = None
        E.iterator(self)

    def seq(self):
        if self._seq is None:
            sp = self.E.comp_spec(self.e, self.fr, self.it, self.run)
            if sp is not None:
                self._seq = sp[1], sp[2]
            elif self.filt:
                self._seq = self.E.filter_seq(self.it, self.run)
            else:
                self._seq = self.E.map_seq(self.it, self.run)
        return self._seq

    @property
    def n(self):
        ty, t = self.seq()
        return 0 if t is None else SeqTh(ty.sort).len(t)

    @property
    def ty(self):
        return self.seq()[0]

    @property
    def base(self):
        ty, t = self.seq()
        return ((SeqTh(ty.sort), t),) if t is not None else ()

    @property
    def get(self):
        ty, t = self.seq()
        return lambda i: self.E.wrap(ty, SeqTh(ty.sort).at(t, zi(i)))


def Restart_(E, key):
    """Keep loop information of this path up to `key`, drop what came later."""
    keep = {}
    order = E.loopinfo[key].order
    path = key[0]
    for k, inf in E.loopinfo.items():
        if k == key:
            keep[k] = inf
        elif k[0] == path[:len(k[0])] and getattr(inf, 'order', 0) <= order:
            keep[k] = inf
        elif k[0] != path[:len(k[0])] and not (k[0][:len(path)] == path):
            keep[k] = inf
    E.loopinfo.clear()
    E.loopinfo.update(keep)
    return Restart()


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Tm) and isinstance(b, Tm):
        return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Con) and isinstance(b, Con):
        return a.obj is b.obj or (type(a.obj) is type(b.obj) and type(a.obj) in (int, str, bool) and a.obj == b.obj)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell
    if isinstance(a, TupV) and isinstance(b, TupV):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.node is b.node
    if isinstance(a, StrV) and isinstance(b, StrV):
        return len(a.parts) == len(b.parts) and all((x == y if isinstance(x, str) or isinstance(y, str) else x.eq(y)) if isinstance(x, str) == isinstance(y, str) else False for x, y in zip(a.parts, b.parts))
    return False


def mentions_cell(v, cell):
    if isinstance(v, Ref):
        return v.cell == cell
    if isinstance(v, TupV):
        return any(mentions_cell(x, cell) for x in v.items)
    return False


def node_name(n):
    return getattr(n, 'name', '<lambda>')


def walk_own(node):
    """AST nodes of a function body, not of functions nested in it."""
    todo = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def nonlocals(node):
    out = set()
    if isinstance(node, ast.Lambda):
        return out
    for n in walk_own(node):
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            out.update(n.names)
    return out
