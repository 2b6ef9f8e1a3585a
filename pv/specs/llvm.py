"""Generated LLVM IR (C14, C15): the text is characterised line by line; its meaning
follows from the meaning of the few kinds of lines that occur (Semantics)."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from ..types import StrV
from ..execu import Exec
from .. import smt
from . import tree
from .arith import fun, integer, atom_of, ET
from .expand import bx
from .evaluate import over
from .text import SS, join, strint, strtree, text, const, form
from .tree import satoms, snodes, fops, EMPTYSET, OS, IS, ophead, opidx, sel

HEADS = ('Add', 'Mul', 'pow', 'sin', 'cos')
ARITY = {'Add': 2, 'Mul': 2, 'pow': 2, 'sin': 1, 'cos': 1}
R = z3.RealSort()
sup = Function('supported', TS.S, TreeS, B)      # only parameters, integers and the five heads below
wf = Function('wellformed', TreeS, B)            # ... of the right number of arguments
supw, wfw = Function('supported_w', TS.S, TreeS, I), Function('wellformed_w', TreeS, I)
bad = Function('unsupported part', TS.S, TreeS, B)
badw, badn = Function('unsupported atom', TS.S, TreeS, I), Function('unsupported node', TS.S, TreeS, I)
beyond = Function('beyond the doubles', I, B)
toobig = Function('an integer is beyond the doubles', TS.S, TreeS, B)
argids = Function('argument names', TS.S, TreeS, I, SS.S)
bits = Function('unpack:<Q', z3.DeclareSort('Bytes'), I)
pack = Function('pack:<d', R, z3.DeclareSort('Bytes'))
hexs = Function('hex', I, StrS)
intval = Function('integer value', TreeS, I)


def lm():
    import protosym.simplecas.lambdification as m
    import protosym.simplecas
    return m


def em():
    from protosym.simplecas.exceptions import LLVMNotImplementedError
    return LLVMNotImplementedError


def isint(E, t):
    import protosym.simplecas.expr as m
    return And(isatom(t), atype(aval(t)) == E.conc_atype(m.Integer.atom_type))


def param(t):
    """%"name" """
    return form('%"#"', strtree(t))


def reg(n):
    return form('%".#"', strint(n))


def hexint(n):
    return hexs(bits(pack(z3.ToReal(n))))


def idatom(E, S, t):
    return If(TS.mem(S, t), param(t), hexint(intval(t)))


def heads(E):
    return {h: fun(E, h) for h in HEADS}


def ishead(E, h):
    return Or(*[h == f for f in heads(E).values()])


class G:
    """The forward graph of u, and the names its values have in the code."""

    def __init__(self, E, S, u, skip=0):
        self.E, self.S, self.u = E, S, u
        self.at, self.nd, self.ops = satoms(u, EMPTYSET), snodes(u, EMPTYSET), fops(u)
        self.na, self.nn = TS.len(self.at), TS.len(self.nd)
        if skip:
            self.nn = z3.Int('instructions of the nodes')
        self.skip = skip

    def id(self, i):
        """name of the i-th value"""
        return If(i < self.na, idatom(self.E, self.S, TS.at(self.at, i)), reg(i - self.na))

    def op(self, k):
        return OS.at(self.ops, k)

    def ix(self, k, j):
        return IS.at(opidx(self.op(k)), j)

    def args(self, k):
        return argids(self.S, self.u, k)

    def line(self, h, k):
        """The instruction for the k-th node, of head h."""
        E = self.E
        r = ['%".', strint(k), '" = ']
        q = self.args(k)
        a = lambda i: SS.at(q, i)
        if h in ('Add', 'Mul'):
            return text(E, *r, {'Add': 'fadd', 'Mul': 'fmul'}[h] + ' double ', join(E.strconst(', '), q))
        if h == 'pow':
            return text(E, *r, 'call double @llvm.pow.f64(double ', a(0), ', double ', a(1), ')')
        return text(E, *r, f'call double @llvm.{h}.f64(double ', a(0), ')')

    def facts(self):
        """Names of the arguments of each node; what is unsupported."""
        E, i, j, k = self.E, z3.Int('i'), z3.Int('j'), z3.Int('k')
        q = self.args(k)
        s1, s2, sep = Const('s1', SS.S), Const('s2', SS.S), Const('sep', StrS)
        d = Function('joined differ at', SS.S, SS.S, I)
        A, N = TS.at(self.at, i), TS.at(self.nd, i)
        ba = lambda t: Not(Or(TS.mem(self.S, t), isint(E, t)))
        bh = lambda t: Not(ishead(E, head(t)))
        wa, wn = badw(self.S, self.u), badn(self.S, self.u)
        b = bad(self.S, self.u)
        t = Const('t', TreeS)
        return ([self.nn == TS.len(self.nd) - self.skip] if self.skip else []) + [fa(k, SS.len(q) == IS.len(opidx(self.op(k))), q),
                fa([k, j], Implies(And(0 <= j, j < SS.len(q)), SS.at(q, j) == self.id(self.ix(k, j))), SS.at(q, j)),
                fa([sep, s1, s2], Or(join(sep, s1) == join(sep, s2), SS.len(s1) != SS.len(s2), And(0 <= d(s1, s2), d(s1, s2) < SS.len(s1), SS.at(s1, d(s1, s2)) != SS.at(s2, d(s1, s2)))), (join(sep, s1), join(sep, s2))),
                fa(i, Implies(And(0 <= i, i < self.na, ba(A)), b), A),
                fa(i, Implies(And(0 <= i, i < self.nn, bh(N)), b), N),
                Implies(b, Or(And(0 <= wa, wa < self.na, ba(TS.at(self.at, wa))), And(0 <= wn, wn < self.nn, bh(TS.at(self.nd, wn))))),
                touch(TS.at(self.at, wa)), touch(TS.at(self.nd, wn)),
                fa(i, Implies(And(0 <= i, i < self.na, isint(E, A), Not(TS.mem(self.S, A)), beyond(intval(A))), toobig(self.S, self.u)), A),
                fa(t, Implies(And(wf(t), isint(E, t)), And(avalue(aval(t)) == vint(intval(t)), ival(vint(intval(t))) == intval(t))), avalue(aval(t)))]

    def lines(self, q, off, upto):
        """The instructions of the nodes."""
        k = z3.Int('k')
        l = SS.at(q, k + off)
        return [(f'instruction for {h}', fa(k, Implies(And(0 <= k, k < upto, ophead(self.op(k)) == f), l == self.line(h, k)), l, self.op(k))) for h, f in heads(self.E).items()]


class Atoms(LoopSpec):
    """Naming the atoms."""

    def __init__(self):
        super().__init__('naming the atoms', {'ids': Role(ListTy(STR), ('identifiers', 'ids', 'names'))}, self.run,
                         when=lambda E, fr, itv: over(itv, E.ctx.g.at))

    def run(self, S):
        g, r = S.a.g, S.t('ids')
        i = z3.Int('i')
        A = TS.at(g.at, i)
        return [('one name per atom so far', And(SS.len(r) == S.it, touch(TS.at(g.at, S.it)))),
                ('parameters and integers', fa(i, Implies(And(0 <= i, i < S.it), And(Or(TS.mem(g.S, A), isint(S.E, A)), SS.at(r, i) == idatom(S.E, g.S, A))), SS.at(r, i), A))]


class Nodes(LoopSpec):
    def __init__(self):
        super().__init__('instructions', {'ids': Role(ListTy(STR), ('identifiers', 'ids', 'names')), 'lines': Role(ListTy(STR), ('instructions', 'lines', 'code'))}, self.run,
                         when=lambda E, fr, itv: over(itv, E.ctx.g.ops) or E.ctx.g.sliced(E, itv))

    def run(self, S):
        g, r, q = S.a.g, S.t('ids'), S.t('lines')
        i, k = z3.Int('i'), z3.Int('k')
        N = TS.at(g.nd, k)
        return [('one name per value so far', And(SS.len(r) == g.na + S.it, touch(TS.at(g.nd, S.it)), touch(g.args(S.it)), *[touch(SS.at(g.args(S.it), IntVal(j))) for j in (0, 1)])),
                ('one instruction per node so far', SS.len(q) == S.it),
                ('names', fa(i, Implies(And(0 <= i, i < g.na + S.it), SS.at(r, i) == g.id(i)), SS.at(r, i))),
                ('supported heads', fa(k, Implies(And(0 <= k, k < S.it), ishead(S.E, head(N))), N))] + g.lines(q, 0, S.it)


class ToLlvm(Contract):
    target = 'protosym.simplecas.lambdification:_to_llvm_f64'
    name = '_to_llvm_f64'

    def loopspecs(self):
        return [Atoms(), Nodes()]

    def setup(self, E, variant):
        return [E.alloc(ListC(TREE, Const('params', TS.S))), Tm(TREE, Const('expr', TreeS))], {}

    def view(self, E, b):
        S, e = E.term(b['symargs'], ListTy(TREE)), E.term(b['expression'], TREE)
        g = G(E, S, bx(e))
        g.sliced = lambda E, itv: False
        u = Const('u', TreeS)
        return NS(S=S, e=e, g=g, closed=[wf], skip=tree.SUMMARY_ONLY)

    def pre(self, E, a):
        return params(a.S) + [('heads have as many arguments as they take', wf(bx(a.e)))]

    def ghost(self, E, a):
        return [('', f) for f in a.g.facts() + wf_axioms(E) + plist_facts(a.S) + same_text()]

    def raises(self, E, a):
        if a.__dict__.get('variant') is None:       # called: remember with what
            E.ghost['ir'] = E.ghost.get('ir', []) + [(a.S, a.e, Function('IR', TS.S, TreeS, StrS)(a.S, a.e))]
        return [(em(), bad(a.S, a.g.u))]

    def may_raise(self, E, a):
        return [(OverflowError, toobig(a.S, a.g.u))]

    def result(self, E, a):
        return StrV([Function('IR', TS.S, TreeS, StrS)(a.S, a.e)])

    def post(self, E, a, res):
        if a.__dict__.get('variant') is None:
            return []
        header, q = split(E, res)
        g = a.g
        return [('only the declarations of the three functions', BoolVal(declarations(header)))] + self.body_lines(E, a, q)

    def body_lines(self, E, a, q):
        g = a.g
        n = SS.len(q)
        ps = SS.at(q, 0)
        return [('signature, brackets, one instruction per node and a return', n == g.nn + 4),
                ('signature: one double per parameter in order', ps == text(E, 'define double @"jit_func1"(', join(E.strconst(', '), plist(a.S)), ')')),
                ('opening bracket', SS.at(q, 1) == E.strconst('{')), ('closing bracket', SS.at(q, n - 1) == E.strconst('}')),
                ('returns the last value', SS.at(q, n - 2) == text(E, 'ret double ', g.id(g.na + g.nn - 1)))] + g.lines(q, 2, g.nn)


plist = Function('parameter list', TS.S, SS.S)


def params(S):
    i, j = z3.Ints('i j')
    s = TS.at(S, i)
    return [('different parameters', fa([i, j], Implies(And(0 <= i, i < j, j < TS.len(S)), TS.at(S, i) != TS.at(S, j)), (TS.at(S, i), TS.at(S, j)))),
            ('parameters are atoms', fa(i, Implies(And(0 <= i, i < TS.len(S)), isatom(s)), s))]


def plist_facts(S):
    i = z3.Int('i')
    return [SS.len(plist(S)) == TS.len(S),
            fa(i, Implies(And(0 <= i, i < TS.len(S)), SS.at(plist(S), i) == form('double #', param(TS.at(S, i)))), SS.at(plist(S), i))]


def same_text():
    """Other ways to put the same texts together (concatenation of strings)."""
    n, a, b, q, s = Const('n', StrS), Const('a', StrS), Const('b', StrS), Const('q', SS.S), Const('s', StrS)
    sep, r = const(', '), form('%".#"', n)
    out = []
    for op in ('fadd', 'fmul'):
        f = form(f'%".#" = {op} double #', n, join(sep, q))
        for alt in (form(f'%".#" = {op} double #, #', n, SS.at(q, 0), SS.at(q, 1)), form(f'# = {op} double #, #', r, SS.at(q, 0), SS.at(q, 1))):
            out.append(fa([n, q], Implies(SS.len(q) == 2, f == alt), f))
        out.append(fa([n, q], f == form(f'# = {op} double #', r, join(sep, q)), f))
    for h in ('sin', 'cos'):
        f = form(f'%".#" = call double @llvm.{h}.f64(double #)', n, a)
        out.append(fa([n, a], f == form(f'# = call double @llvm.{h}.f64(double #)', r, a), f))
    f = form('%".#" = call double @llvm.pow.f64(double #, double #)', n, a, b)
    out.append(fa([n, a, b], f == form('# = call double @llvm.pow.f64(double #, double #)', r, a, b), f))
    f = form('double #', form('%"#"', s))
    out.append(fa(s, f == form('double %"#"', s), f))
    return out


def wf_axioms(E):
    t, j = Const('t', TreeS), z3.Int('j')
    c = TS.at(kids(t), j)
    n = TS.len(kids(t)) - 1
    return [fa([t, j], Implies(And(wf(t), 1 <= j, j < TS.len(kids(t))), wf(c)), (wf(t), c))] + \
           [fa(t, Implies(And(wf(t), Not(isatom(t)), head(t) == f), n == ARITY[h]), wf(t)) for h, f in heads(E).items()]


def split(E, res):
    """header + '\\n'.join(q), where q collects the lines however the text was put together"""
    isjoin = lambda p: z3.is_app(p) and p.decl().name() == 'join' and p.arg(0).eq(E.strconst('\n'))
    if isinstance(res, StrV) and res.parts and isinstance(res.parts[0], str) and '\n' in res.parts[0]:
        parts = list(res.parts)
        cut = parts[0].rindex('\n') + 1 if len(parts) > 1 and not isjoin(parts[1]) else len(parts[0])
        if len(parts) == 2 and cut == len(parts[0]) and isjoin(parts[1]):
            return parts[0], parts[1].arg(1)
        header, lines, line = parts[0][:cut], [], []

        def flush():
            if len(line) == 1 and not isinstance(line[0], str) and isjoin(line[0]):
                q = line[0].arg(1)
                E.emit(SS.len(q) >= 1, 'there is a line', 'post')
                lines.append(q)
            elif any(not isinstance(x, str) and isjoin(x) for x in line):
                raise Unsupported('lines within a line')
            else:
                lines.append(SS.lit([E.term(StrV(tuple(line)), STR) if line else E.strconst('')]))
            line.clear()

        for p in [parts[0][cut:]] + parts[1:]:
            if not isinstance(p, str):
                line.append(p)
                continue
            first, *rest = p.split('\n')
            line.extend([first] if first else [])
            for x in rest:
                flush()
                line.extend([x] if x else [])
        flush()
        q = lines[0]
        for x in lines[1:]:
            q = SS.cat(q, x)
        return header, q
    raise Unsupported('the generated text is not a header and lines')


def declarations(header):
    import re
    ls = [l.split(';')[0].strip() for l in header.split('\n')]
    if not header.endswith('\n'):
        return False
    decl = sorted(re.sub(r' %\w+', '', ' '.join(l.split())) for l in ls if l.startswith('declare'))
    rest = [l for l in ls if l and not l.startswith('declare') and not l.startswith('target triple =') and l != 'target datalayout = ""']
    return not rest and decl == ['declare double @llvm.cos.f64(double)', 'declare double @llvm.pow.f64(double, double)', 'declare double @llvm.sin.f64(double)']


# ---- what the code means --------------------------------------------------------------
R_ = z3.RealSort()
opv = Function('operand value', StrS, R_)          # in one run of the function
env = Function('argument value', StrS, R_)         # by parameter name
plain = Function('plain name', StrS, B)            # not the name of a register or of the output
rho = Function('register value', I, R_)
dst, rhs = Function('assigned operand', StrS, StrS), Function('assigned value', StrS, R_)
near = Function('nearest double', I, R_)
powf, sinf, cosf, mulf = Function('pow', R_, R_, R_), Function('sin', R_, R_), Function('cos', R_, R_), Function('times', R_, R_, R_)
val = Function('val', TreeS, R_)


def ir_semantics():
    """The fragment of LLVM IR the code uses (trusted)."""
    n, a, b, q, s, k = Const('n', StrS), Const('a', StrS), Const('b', StrS), Const('q', SS.S), Const('s', StrS), z3.Int('k')
    out = [fa(s, Implies(plain(s), opv(form('%"#"', s)) == env(s)), form('%"#"', s)),
           fa(k, Implies(0 <= k, opv(reg(k)) == rho(k)), strint(k)),
           fa(k, opv(hexint(k)) == near(k), hexint(k))]

    def instr(vs, f, v, cond=None):
        body = And(dst(f) == form('%".#"', n), rhs(f) == v)
        return fa([n] + vs, body if cond is None else Implies(cond, body), f)

    two = SS.len(q) == 2
    out += [instr([q], form('%".#" = fadd double #', n, join(const(', '), q)), opv(SS.at(q, 0)) + opv(SS.at(q, 1)), two),
            instr([q], form('%".#" = fmul double #', n, join(const(', '), q)), mulf(opv(SS.at(q, 0)), opv(SS.at(q, 1))), two),
            instr([a, b], form('%".#" = call double @llvm.pow.f64(double #, double #)', n, a, b), powf(opv(a), opv(b))),
            instr([a], form('%".#" = call double @llvm.sin.f64(double #)', n, a), sinf(opv(a))),
            instr([a], form('%".#" = call double @llvm.cos.f64(double #)', n, a), cosf(opv(a)))]
    return out


def value_axioms(E, S):
    """The value of an expression at the arguments, constants being the nearest doubles."""
    t = Const('t', TreeS)
    a = lambda i: val(arg(t, i))
    ops = {'Add': a(0) + a(1), 'Mul': mulf(a(0), a(1)), 'pow': powf(a(0), a(1)), 'sin': sinf(a(0)), 'cos': cosf(a(0))}
    return [fa(t, Implies(TS.mem(S, t), val(t) == env(strtree(t))), val(t)),
            fa(t, Implies(And(isint(E, t), Not(TS.mem(S, t))), val(t) == near(intval(t))), val(t))] + \
           [fa(t, Implies(And(Not(isatom(t)), head(t) == f, wf(t)), val(t) == ops[h]), val(t)) for h, f in heads(E).items()]


class Semantics(LemmaTask):
    """Induction over the instructions: each register holds the value of its node."""
    name = 'lemma: what the generated code computes'
    variants = ('operands', 'instructions', 'return', 'single assignment')

    skip = 0

    def base(self):
        E = Exec({}, None)
        S, e = Const('params', TS.S), Const('expr', TreeS)
        u = Const('u', TreeS)
        g = G(E, S, u, self.skip)
        F = [f for _, f in tree.split_summary(u, EMPTYSET, g.at, tree.sheads(u, EMPTYSET), g.nd) + tree.fg_facts(g.at, g.nd, g.ops)]
        i = z3.Int('i')
        for seq in (g.at, g.nd):
            F.append(fa(i, Implies(And(0 <= i, i < TS.len(seq)), wf(TS.at(seq, i))), TS.at(seq, i)))
        F.append(fa(i, Implies(TS.mem(S, TS.at(S, i)), plain(strtree(TS.at(S, i)))), TS.at(S, i)))
        F.append(Not(bad(S, u)))
        return E, S, u, g, F + g.facts() + wf_axioms(E) + ir_semantics() + value_axioms(E, S)

    def obligations(self, variant):
        E, S, u, g, F = self.base()
        j, k, K = z3.Int('j'), z3.Int('k'), z3.Int('K')
        q = Const('lines', SS.S)
        A, N = (lambda i: TS.at(g.at, i)), (lambda i: TS.at(g.nd, i))
        ins = [f for _, f in g.lines(q, 2, g.nn)] + [fa(k, Implies(And(0 <= k, k < g.nn), ishead(E, head(N(k)))), N(k))]
        run = fa(k, Implies(And(0 <= k, k < g.nn), opv(dst(SS.at(q, k + 2))) == rhs(SS.at(q, k + 2))), SS.at(q, k + 2), N(k))
        value = lambda i: If(i < g.na, val(A(i)), val(N(i - g.na)))
        ops = fa(k, Implies(And(0 <= k, k < g.na), opv(idatom(E, S, A(k))) == val(A(k))), A(k))
        ih = fa(k, Implies(And(0 <= k, k < K), rho(k) == val(N(k))), rho(k), N(k))
        h = [touch(N(K)), touch(g.op(K)), touch(SS.at(q, K + 2)), touch(val(N(K))), touch(g.args(K)), touch(strint(K))]
        if variant == 'operands':
            return [('atoms', F + [0 <= K, K < g.na, touch(A(K)), touch(val(A(K))), touch(form('%"#"', strtree(A(K)))), touch(hexint(intval(A(K)))), touch(TS.at(S, TS.idx(S, A(K))))], opv(idatom(E, S, A(K))) == val(A(K)))]
        if variant == 'instructions':
            out = []
            for hd, f in heads(E).items():
                n = ARITY[hd]
                hh = list(h)
                for m in range(n):
                    x = g.ix(K, m)
                    hh += [touch(x), touch(SS.at(g.args(K), m)), touch(arg(N(K), m)), touch(A(x)), touch(N(x - g.na)), touch(strint(x - g.na)), touch(rho(x - g.na))]
                out.append((hd, F + ins + [run, ops, ih, 0 <= K, K < g.nn, ophead(g.op(K)) == f] + hh, rho(K) == val(N(K))))
            out.append(('one of the five', F + ins + [0 <= K, K < g.nn] + h, Or(*[ophead(g.op(K)) == f for f in heads(E).values()])))
            return out
        done = fa(k, Implies(And(0 <= k, k < g.nn), rho(k) == val(N(k))), rho(k), N(k))
        if variant == 'return':
            last = g.id(g.na + g.nn - 1)
            return [('the value of the expression', F + [done, ops, touch(N(g.nn - 1)), touch(A(g.na - 1)), touch(strint(g.nn - 1)), touch(isatom(u))], opv(last) == val(u))]
        if variant == 'entries':
            n = z3.Int('n')
            x = g.ix(g.nn, n)
            h = [Not(isatom(u)), touch(N(g.nn)), touch(g.op(g.nn)), touch(x), touch(arg(u, n)), touch(A(x)), touch(N(x - g.na)), touch(strint(x - g.na)), 0 <= n, n < nargs(u)]
            return [('the value of an element', F + [done, ops] + h, opv(g.id(x)) == val(arg(u, n))),
                    ('it is there before the stores', F + h, And(0 <= x, x < g.na + g.nn))]
        if variant == 'single assignment':
            return [('operands are defined before their use', F + [0 <= K, K < g.nn, 0 <= j, j < nargs(N(K)), touch(N(K)), touch(g.ix(K, j))],
                     And(g.ix(K, j) >= 0, Or(g.ix(K, j) < g.na, g.ix(K, j) - g.na < K)))]
        # matrices: the m-th entry is stored at raw(m)
        raw, vv, out, m, p, n = Function('raw', I, I), Function('stored', I, R_), Function('out', I, I, R_), z3.Int('m'), z3.Int('p'), z3.Int('n')
        if variant == 'stores':
            step = fa([m, p], Implies(0 <= m, out(m + 1, p) == If(p == raw(m), vv(m), out(m, p))), out(m + 1, p))
            diff = fa([j, k], Implies(And(0 <= j, j < k, k < n), raw(j) != raw(k)), (raw(j), raw(k)))
            inv = lambda m: And(fa(j, Implies(And(0 <= j, j < m), out(m, raw(j)) == vv(j)), raw(j)),
                                fa(p, Or(out(m, p) == out(0, p), And(0 <= Function('hit', I, I, I)(m, p), Function('hit', I, I, I)(m, p) < m, raw(Function('hit', I, I, I)(m, p)) == p)), out(m, p)))
            hit = Function('hit', I, I, I)
            d = fa([m, p], Implies(0 <= m, hit(m + 1, p) == If(p == raw(m), m, hit(m, p))), hit(m + 1, p))
            p0 = z3.Int('p0')
            return [('before the first store', [diff], fa(p, Or(out(0, p) == out(0, p), False), out(0, p))),
                    ('one more store: stored entries', [step, diff, 0 <= K, K < n, inv(K), 0 <= j, j < K + 1, touch(raw(j)), touch(raw(K)), touch(out(K + 1, raw(j))), touch(out(K, raw(j)))], out(K + 1, raw(j)) == vv(j)),
                    ('one more store: nothing else is written', [step, d, 0 <= K, K < n, inv(K), touch(out(K + 1, p0)), touch(hit(K + 1, p0)), touch(out(K, p0))],
                     Or(out(K + 1, p0) == out(0, p0), And(0 <= hit(K + 1, p0), hit(K + 1, p0) < K + 1, raw(hit(K + 1, p0)) == p0)))]
        i1, i2, j1, j2, nc, nr = z3.Ints('i1 i2 j1 j2 nc nr')
        inside = [0 <= j1, j1 < nc, 0 <= j2, j2 < nc, 0 <= i1, 0 <= i2]
        return [('different positions of the matrix are different places', inside + [i1 < i2, i1 * nc + nc <= i2 * nc], i1 * nc + j1 != i2 * nc + j2),
                ('rows do not overlap', inside + [i1 < i2], i1 * nc + nc <= i2 * nc),
                ('inside the array', inside + [i1 < nr], And(0 <= i1 * nc + j1, i1 * nc + j1 < nr * nc))]


class MatrixSemantics(Semantics):
    name = 'lemma: what the generated code for a matrix computes'
    variants = ('operands', 'instructions', 'entries', 'single assignment', 'stores', 'positions')
    skip = 1


# ---- which expressions are refused ---------------------------------------------------
class Refused(LemmaTask):
    """The binary expansion has an unsupported part exactly when the expression has one."""
    name = 'lemma: unsupported expressions'
    variants = ('parts', 'expansion', 'folds', 'well-formed: expansion', 'well-formed: folds')

    def obligations(self, variant):
        from . import expand as ex
        E = Exec({}, None)
        S, t = Const('params', TS.S), Const('T', TreeS)
        H = heads(E)
        i, j, k, n, v, K = z3.Int('i'), z3.Int('j'), z3.Int('k'), z3.Int('n'), Const('v', TreeS), z3.Int('K')
        kid = TS.at(kids(v), j)
        fo, bxs = ex.fo, ex.bxs
        s, h = Const('s', TS.S), Const('h', TreeS)

        def rec(P, w, here):
            return [fa(v, P(v) == And(here(v), Or(isatom(v), Not(And(0 <= w(v), w(v) < nargs(v), Not(P(arg(v, w(v)))))))), P(v)),
                    fa([v, j], Implies(And(P(v), Not(isatom(v)), 1 <= j, j < TS.len(kids(v))), P(kid)), (P(v), kid)),
                    fa([v, j], Implies(And(P(v), 0 <= j, j < nargs(v)), P(arg(v, j))), (P(v), TS.at(bxs(v), j)))]

        SUP = lambda v: sup(S, v)
        sw = lambda v: supw(S, v)
        here = lambda v: If(isatom(v), Or(TS.mem(S, v), isint(E, v)), ishead(E, head(v)))
        okargs = Function('arguments as taken', TreeS, B)
        arity = lambda lo: (lambda v: And(Implies(isint(E, v), avalue(aval(v)) == vint(intval(v))), *[Implies(And(Not(isatom(v)), head(v) == f), (nargs(v) >= 1 if lo and x in ('Add', 'Mul') else nargs(v) == ARITY[x])) for x, f in H.items()]))
        okw = Function('arguments as taken_w', TreeS, I)
        OK = rec(okargs, okw, arity(True))
        axs = ex.bx_axioms() + [ex.ADD == H['Add'], ex.MUL == H['Mul']] + [isatom(f) for f in H.values()] + [z3.Distinct(*H.values())]
        if variant == 'matrix parts':
            u = Const('u', TreeS)
            g = G(E, S, u, 1)
            F = [f for _, f in tree.split_summary(u, EMPTYSET, g.at, tree.sheads(u, EMPTYSET), g.nd)] + g.facts() + rec(SUP, sw, here) + [Not(isatom(u))]
            n = z3.Int('n')
            c = arg(u, n)
            ok = fa(n, Implies(And(0 <= n, n < nargs(u)), SUP(arg(u, n))), arg(u, n))
            member = lambda v: Or(SUP(v), v == u)
            closed = [fa(i, Implies(And(0 <= i, i < TS.len(q)), member(TS.at(q, i))), TS.at(q, i)) for q in (g.at, g.nd)]
            atoms = fa(k, Implies(And(0 <= k, k < g.na), SUP(TS.at(g.at, k))), TS.at(g.at, k))
            all_ = fa(k, Implies(And(0 <= k, k < g.nn), SUP(TS.at(g.nd, k))), TS.at(g.nd, k))
            N = TS.at(g.nd, K)
            d = arg(N, sw(N))
            ih = fa(k, Implies(And(0 <= k, k < K), SUP(TS.at(g.nd, k))), TS.at(g.nd, k))
            return [('supported elements have no unsupported part', F + closed + [touch(TS.at(g.nd, g.nn))], Not(bad(S, u))),
                    ('the parts of supported elements: closed', rec(SUP, sw, here) + [Not(isatom(u)), ok, member(v), 1 <= j, j < TS.len(kids(v)), touch(kid), touch(arg(v, j - 1))], member(kid)),
                    ('without unsupported part: atoms', F + [Not(bad(S, u)), 0 <= K, K < g.na, touch(TS.at(g.at, K))], SUP(TS.at(g.at, K))),
                    ('without unsupported part: nodes (induction step)', F + [Not(bad(S, u)), 0 <= K, K < g.nn, ih, touch(N), touch(d), touch(TS.idx(g.nd, d)), touch(TS.at(g.nd, TS.idx(g.nd, d))), touch(TS.at(g.at, TS.idx(g.at, d))), atoms], SUP(N)),
                    ('without unsupported part: the elements', F + [Not(bad(S, u)), all_, atoms, 0 <= n, n < nargs(u), touch(c), touch(TS.at(g.nd, g.nn)), touch(TS.idx(g.nd, c)), touch(TS.at(g.nd, TS.idx(g.nd, c))), touch(TS.at(g.at, TS.idx(g.at, c)))], SUP(c))]
        if variant == 'parts':
            u = Const('u', TreeS)
            g = G(E, S, u)
            F = [f for _, f in tree.split_summary(u, EMPTYSET, g.at, tree.sheads(u, EMPTYSET), g.nd)] + g.facts() + rec(SUP, sw, here)
            closed = [fa(i, Implies(And(SUP(u), 0 <= i, i < TS.len(q)), SUP(TS.at(q, i))), TS.at(q, i)) for q in (g.at, g.nd)]
            N = TS.at(g.nd, K)
            c = arg(N, sw(N))
            ih = fa(k, Implies(And(0 <= k, k < K), SUP(TS.at(g.nd, k))), TS.at(g.nd, k))
            all_ = fa(k, Implies(And(0 <= k, k < g.nn), SUP(TS.at(g.nd, k))), TS.at(g.nd, k))
            return [('a supported expression has no unsupported part', F + closed + [SUP(u)], Not(bad(S, u))),
                    ('without unsupported part: atoms', F + [Not(bad(S, u)), 0 <= K, K < g.na, touch(TS.at(g.at, K))], SUP(TS.at(g.at, K))),
                    ('without unsupported part: nodes (induction step)', F + [Not(bad(S, u)), 0 <= K, K < g.nn, ih, touch(N), touch(c), touch(TS.idx(g.nd, c)), touch(TS.at(g.nd, TS.idx(g.nd, c))), touch(TS.at(g.at, TS.idx(g.at, c))),
                                                                     fa(k, Implies(And(0 <= k, k < g.na), SUP(TS.at(g.at, k))), TS.at(g.at, k))], SUP(N)),
                    ('without unsupported part: the expression', F + [Not(bad(S, u)), all_, fa(k, Implies(And(0 <= k, k < g.na), SUP(TS.at(g.at, k))), TS.at(g.at, k)),
                                                                     touch(TS.at(g.nd, g.nn - 1)), touch(TS.at(g.at, 0))], SUP(u)),
                    ('the lists contain only reachable parts: closed', rec(SUP, sw, here) + [SUP(v), 1 <= j, j < TS.len(kids(v)), touch(kid)], SUP(kid))]
        P, pw, hh = (SUP, sw, here) if not variant.startswith('well') else (wf, wfw, arity(False))
        ax = axs + rec(P, pw, hh) + OK
        x = ex.pair(h, fo(h, s, n), TS.at(s, n + 1))
        if variant.endswith('folds'):
            hints = [touch(TS.at(s, IntVal(0))), touch(TS.at(s, n + 1)), touch(fo(h, s, n)), touch(kids(x)), touch(TS.at(kids(x), 1)), touch(TS.at(kids(x), 2)), touch(pw(x)), touch(arg(x, IntVal(0))), touch(arg(x, IntVal(1))), touch(P(x)), touch(P(fo(h, s, n))), touch(P(TS.at(s, n + 1))),
                     touch(arg(x, pw(x))), touch(P(arg(x, pw(x)))), Or(pw(x) < 0, pw(x) == 0, pw(x) == 1, pw(x) > 1)]
            allp = lambda m: fa(i, Implies(And(0 <= i, i <= m), P(TS.at(s, i))), TS.at(s, i))
            good = [TS.len(s) >= 1, Or(h == H['Add'], h == H['Mul']), 0 <= n, n + 1 < TS.len(s)]
            out = [('one element', ax + good + [touch(fo(h, s, IntVal(0)))], P(fo(h, s, IntVal(0))) == P(TS.at(s, 0))),
                   ('one more element', ax + good + hints, P(fo(h, s, n + 1)) == And(P(fo(h, s, n)), P(TS.at(s, n + 1))))]
            return out
        # expansion: P(bx(t)) == P(t) (for well-formedness: if every head has its arguments)
        b = bxs(t)
        y = mk(TS.cat(TS.lit([head(t)]), b))
        base = ax + [touch(kids(t)), touch(b), touch(TS.at(b, IntVal(0))), touch(kids(y)), okargs(t)]
        ih = fa(v, Implies(And(height(v) < height(t), okargs(v)), P(ex.bx(v)) == (BoolVal(True) if P is wf else P(v))), ex.bx(v))
        w1, w2 = pw(t), pw(y)
        hints = [touch(arg(t, w1)), touch(arg(t, w2)), touch(TS.at(b, w1)), touch(TS.at(b, w2)), touch(arg(y, w1)), touch(arg(y, w2)), touch(ex.bx(arg(t, w1))), touch(ex.bx(arg(t, w2))), touch(P(t)), touch(P(y))]
        goal = wf(ex.bx(t)) if P is wf else SUP(ex.bx(t)) == SUP(t)
        # folds: P of a fold is P of all elements (lemma 'folds')
        bw = Function('fold_w:' + ('wf' if P is wf else 'sup'), TreeS, I)(t)
        fl = ex.folded(head(t), b)
        fold = [Implies(P(fl), fa(i, Implies(And(0 <= i, i < TS.len(b)), P(TS.at(b, i))), TS.at(b, i))),
                Or(P(fl), And(0 <= bw, bw < TS.len(b), Not(P(TS.at(b, bw)))))]
        hf = [touch(TS.at(b, w1)), touch(TS.at(b, bw)), touch(arg(t, bw)), touch(ex.bx(arg(t, bw))), touch(ex.bx(arg(t, w1))), touch(arg(t, w1)), touch(P(t)), touch(fl)]
        return [('atoms', base + [isatom(t), touch(P(t))], goal),
                ('sums and products', base + [ih, Not(isatom(t)), ex.isacc(t)] + fold + hf, goal),
                ('other heads', base + [ih, Not(isatom(t)), Not(ex.isacc(t))] + hints, goal)]


def tasks14():
    return [ToLlvm(), Semantics(), Refused()]


# ---- matrices -----------------------------------------------------------------------
from .matrix import M, KEY2, KS, EM, k0, k1, arbitrary as arbitrary_matrix, OnMatrix   # noqa: E402
PT = SeqTh(TupTy(KEY2, INT).sort)
PAIR = TupTy(KEY2, INT)


class Order:
    """The order in which the stored entries are visited."""

    def __init__(self, m, base):
        self.th, self.t = base
        if self.th not in (KS, PT):
            raise Unsupported('loop over something else than the stored entries')
        self.m = m
        self.n = self.th.len(self.t)

    def at(self, i):
        return self.th.at(self.t, i)

    def key(self, i):
        return self.at(i) if self.th is KS else PAIR.acc[0](self.at(i))

    def pos(self, i):
        return z3.Select(self.m.val, self.key(i))


class Entries(LoopSpec):
    """Storing the entries."""

    def __init__(self):
        super().__init__('storing the entries', {'lines': Role(ListTy(STR), ('instructions', 'lines', 'code')), 'count': Role(INT, ('identifier_count', 'counter', 'count'), optional=True)}, self.run, kinds=('for',),
                         when=lambda E, fr, itv: itv is not None and itv.base and itv.base[0][0] in (KS, PT))

    def run(self, S):
        g, m, E = S.a.g, S.a.m, S.E
        o = Order(m, S.itv.base[0])
        E.ghost['order'] = o
        q = S.t('lines')
        i = z3.Int('i')
        K = o.key(S.it)
        out = [('', And(touch(o.at(S.it)), touch(TS.at(m.elements, o.pos(S.it))), touch(g.ix(g.nn, o.pos(S.it))), touch(g.op(g.nn)))),
               ('two instructions per entry so far', SS.len(q) == g.nn + 2 * S.it),
               ('entries are stored entries', fa(i, Implies(And(0 <= i, i < o.n), And(sel(m.dom, o.key(i)), *([PAIR.acc[1](o.at(i)) == o.pos(i)] if o.th is PT else []))), o.at(i)))]
        out += g.lines(q, 0, g.nn) + entry_lines(E, g, o, q, 0, S.it)
        if 'count' in S.roles:
            out.append(('registers are counted', S.t('count') == g.nn + S.it))
        return out


def entry_lines(E, g, o, q, off, upto):
    i = z3.Int('i')
    m = o.m
    K = o.key(i)
    r = g.nn + i
    l1, l2 = SS.at(q, off + g.nn + 2 * i), SS.at(q, off + g.nn + 2 * i + 1)
    place = text(E, '%".', strint(r), '" = getelementptr double, double* %"_out", i32 ', strint(smt.imul(k0(K), m.ncols) + k1(K)))
    store = text(E, 'store double ', g.id(g.ix(g.nn, o.pos(i))), ', double* ', reg(r))
    return [('the place of each entry', fa(i, Implies(And(0 <= i, i < upto), l1 == place), o.at(i))),
            ('each entry is stored', fa(i, Implies(And(0 <= i, i < upto), l2 == store), o.at(i)))]


def root_list(E, elements, u):
    """The expansion of the list of the elements (lemma RootList)."""
    j = z3.Int('j')
    return [Not(isatom(u)), head(u) == fun(E, 'List'), nargs(u) == TS.len(elements), TS.len(kids(u)) == TS.len(elements) + 1,
            fa(j, Implies(And(0 <= j, j < TS.len(elements)), arg(u, j) == bx(TS.at(elements, j))), TS.at(elements, j)),
            fa(j, Implies(And(1 <= j, j <= TS.len(elements)), TS.at(kids(u), j) == bx(TS.at(elements, j - 1))), TS.at(kids(u), j))]


class RootList(LemmaTask):
    name = 'lemma: the expansion of a list'

    def obligations(self, variant):
        from . import expand as ex
        E = Exec({}, None)
        els, j = Const('elements', TS.S), z3.Int('j')
        t = mk(TS.cat(TS.lit([fun(E, 'List')]), els))
        h = ex.bx_axioms() + [ex.ADD == fun(E, 'Add'), ex.MUL == fun(E, 'Mul'), z3.Distinct(*[fun(E, n) for n in ('List', 'Add', 'Mul')])]
        h += [touch(kids(t)), touch(head(t)), touch(ex.bxs(t)), touch(kids(bx(t))), fa(j, And(touch(arg(t, j)), touch(TS.at(ex.bxs(t), j))), TS.at(els, j)), fa(j, And(touch(TS.at(ex.bxs(t), j - 1)), touch(TS.at(els, j - 1))), TS.at(kids(bx(t)), j))]
        return [(f'part {n}', h, f) for n, f in enumerate(root_list(E, els, bx(t)))]


class ToLlvmMatrix(Contract):
    target = 'protosym.simplecas.lambdification:_to_llvm_f64_matrix'
    name = '_to_llvm_f64_matrix'

    def loopspecs(self):
        return [Atoms(), Nodes(), Entries()]

    def setup(self, E, variant):
        return [E.alloc(ListC(TREE, Const('params', TS.S))), arbitrary_matrix(E, 'M')], {}

    def view(self, E, b):
        S = E.term(b['symargs'], ListTy(TREE))
        m = M(E, b['mat'])
        g = G(E, S, bx(m.graph), skip=1)
        g.sliced = lambda E, itv: any(th is OS and z3.is_app(t) and t.decl().eq(OS.take) and t.arg(0).eq(g.ops) and E.valid(t.arg(1) == g.nn) for th, t in itv.base)
        return NS(S=S, m=m, g=g, closed=[wf], skip=tree.SUMMARY_ONLY)

    def pre(self, E, a):
        return [('M: ' + l, f) for l, f in a.m.inv()] + params(a.S) + [('heads have as many arguments as they take', wf(a.g.u))]

    def ghost(self, E, a):
        n, x = Const('n', StrS), Const('x', StrS)
        f = form('store double #, double* #', x, form('%".#"', n))
        g = a.g
        return [('', f) for f in g.facts() + wf_axioms(E) + plist_facts(a.S) + plist2_facts(a.S) + same_text() + root_list(E, a.m.elements, g.u)] + \
            [('', fa([n, x], form('store double #, double* %".#"', x, n) == f, form('store double #, double* %".#"', x, n))),
             ('', And(touch(TS.at(g.nd, g.nn)), touch(g.op(g.nn))))]

    def raises(self, E, a):
        if a.__dict__.get('variant') is None:
            E.ghost['ir'] = E.ghost.get('ir', []) + [(a.S, a.m, Function('IRm', TS.S, TreeS, StrS)(a.S, a.m.graph))]
        return [(em(), bad(a.S, a.g.u))]

    def may_raise(self, E, a):
        return [(OverflowError, toobig(a.S, a.g.u))]

    def result(self, E, a):
        return StrV([Function('IRm', TS.S, TreeS, StrS)(a.S, a.m.graph)])

    def post(self, E, a, res):
        if a.__dict__.get('variant') is None:
            return []
        header, q = split(E, res)
        g, m, o = a.g, a.m, E.ghost['order']
        n = SS.len(q)
        i, j = z3.Ints('i j')
        k = Const('k', KEY2.sort)
        j2 = z3.Int('j2')
        return [('only the declarations of the three functions', BoolVal(declarations(header))),
                ('signature, brackets, one instruction per node, two per entry and a return', n == g.nn + 2 * o.n + 4),
                ('signature: the output and one double per parameter in order', SS.at(q, 0) == text(E, 'define void @"jit_func1"(', join(E.strconst(', '), plist2(a.S)), ')')),
                ('opening bracket', SS.at(q, 1) == E.strconst('{')), ('closing bracket', SS.at(q, n - 1) == E.strconst('}')),
                ('returns nothing', SS.at(q, n - 2) == E.strconst('ret void')),
                ('every stored entry is stored in the array', fa(k, Implies(sel(m.dom, k), z3.Exists([i], And(0 <= i, i < o.n, o.key(i) == k))), sel(m.dom, k))),
                ('no other entry, and each only once', fa([i, j], Implies(And(0 <= i, i < o.n, 0 <= j, j < o.n), And(sel(m.dom, o.key(i)), Implies(o.key(i) == o.key(j), i == j))), (o.at(i), o.at(j)))),
                ('the root lists the expanded elements', And(ophead(g.op(g.nn)) == fun(E, 'List'), IS.len(opidx(g.op(g.nn))) == TS.len(m.elements))),
                ('the value of the n-th element', fa(j2, Implies(And(0 <= j2, j2 < TS.len(m.elements)), bx(TS.at(m.elements, j2)) == If(g.ix(g.nn, j2) < g.na, TS.at(g.at, g.ix(g.nn, j2)), TS.at(g.nd, g.ix(g.nn, j2) - g.na))), TS.at(m.elements, j2))),
                ('the values are there before the stores', fa(j2, Implies(And(0 <= j2, j2 < TS.len(m.elements)), And(0 <= g.ix(g.nn, j2), g.ix(g.nn, j2) < g.na + g.nn)), g.ix(g.nn, j2)))] \
            + g.lines(q, 2, g.nn) + entry_lines(E, g, o, q, 2, o.n)


plist2 = Function('parameter list with output', TS.S, SS.S)


def plist2_facts(S):
    i = z3.Int('i')
    return [SS.len(plist2(S)) == TS.len(S) + 1, SS.at(plist2(S), IntVal(0)) == const('double* %"_out"'),
            fa(i, Implies(And(1 <= i, i <= TS.len(S)), SS.at(plist2(S), i) == form('double #', param(TS.at(S, i - 1)))), SS.at(plist2(S), i))]


class RefusedMatrix(Refused):
    name = 'lemma: unsupported matrices'
    variants = ('matrix parts', 'expansion', 'folds', 'well-formed: expansion', 'well-formed: folds')


def tasks15():
    return [ToLlvmMatrix(), RootList(), MatrixSemantics(), RefusedMatrix()]
