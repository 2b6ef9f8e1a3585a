"""Binary expansion (Expr.bin_expand)."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from . import evaluate as ev
from .arith import fun, ET

R = z3.RealSort()
RS = SeqTh(R)
V = Const('bx:v', TreeS)

# ---- folding from the left ---------------------------------------------------
fo = Function('fo', TreeS, TS.S, I, TreeS)         # the first n+1 elements folded with head h
_h, _s, _n, _k = Const('h', TreeS), Const('s', TS.S), *z3.Ints('n k')
nx = Function('fo:next', I, I)


def pair(h, a, b):
    return mk(TS.lit([h, a, b]))


AX.add('fo', fa([_h, _s], fo(_h, _s, IntVal(0)) == TS.at(_s, IntVal(0)), fo(_h, _s, IntVal(0))),
       fa([_h, _s, _n, _k], Implies(And(0 <= _n, _k == _n + 1), fo(_h, _s, _k) == pair(_h, fo(_h, _s, _n), TS.at(_s, _k))), (fo(_h, _s, _n), TS.at(_s, _k))))


def folded(h, s):
    return fo(h, s, TS.len(s) - 1)


class Fold(LoopSpec):
    """The accumulator is the fold of the elements so far (two loop shapes: over the rest, or over all)."""

    def __init__(self):
        super().__init__('left fold', {'acc': Role(TREE, ('acc', 'result', 'res', 'ret', 'out', 'expr'))}, self.run, when=lambda E, fr, itv: itv is not None and hasattr(E.ctx, 'fold'))

    def run(self, S):
        h, s = S.a.fold
        return [('the elements so far, folded', And(S.t('acc') == fo(h, s, S.it), TS.len(s) == S.n + 1, touch(TS.at(s, S.it + 1))))]


def mods():
    import protosym.simplecas.expr as m
    import protosym.simplecas
    return m


class Rules(CheckTask):
    """The shipped transformer, rule by rule."""
    name = 'bin_expand rules'
    variants = ('atom', 'Add', 'Mul', 'other')
    loops = (Fold(),)

    def run(self, E, variant):
        m = mods()
        core = Con(m.bin_expand)
        if variant == 'atom':
            t = Const('t', TreeS)
            E.assume(isatom(t))
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, t)], {})
            E.emit(E.term(r, TREE) == t, 'an atom stays', 'post')
            return
        s = Const('args', TS.S)
        h = fun(E, variant) if variant != 'other' else Const('h', TreeS)
        E.ctx = NS(fold=(h, s))
        if variant == 'other':
            E.assume(And(h != fun(E, 'Add'), h != fun(E, 'Mul')))
            hv = Tm(TREE, h)
        else:
            E.assume(TS.len(s) >= 1)
            hv = Con(getattr(m, variant).rep)
        r = E.call(E.getattr(core, 'eval_operation'), [hv, E.alloc(ListC(TREE, s))], {})
        want = mk(TS.cat(TS.lit([h]), s)) if variant == 'other' else folded(h, s)
        E.assume(touch(TS.at(s, IntVal(0))))
        E.emit(E.term(r, TREE) == want, 'the head and the arguments' if variant == 'other' else 'the arguments folded from the left', 'post')


# ---- the whole expression -------------------------------------------------------
bx = Function('bx', TreeS, TreeS)
bxs = Function('bxs', TreeS, TS.S)         # the expanded arguments
ADD, MUL = z3.Consts('the_Add the_Mul', TreeS)
_t, _i = Const('t', TreeS), z3.Int('i')


def isacc(t):
    return And(Not(isatom(t)), Or(head(t) == ADD, head(t) == MUL))


def bx_axioms():
    t, i = _t, _i
    return [ADD != MUL, isatom(ADD), isatom(MUL),
            fa(t, Implies(isatom(t), bx(t) == t), bx(t)),
            fa(t, Implies(And(isacc(t)), bx(t) == folded(head(t), bxs(t))), bx(t)),
            fa(t, Implies(And(Not(isatom(t)), Not(isacc(t))), bx(t) == mk(TS.cat(TS.lit([head(t)]), bxs(t)))), bx(t)),
            fa(t, Implies(Not(isatom(t)), And(TS.len(bxs(t)) == nargs(t))), bxs(t)),
            fa([t, i], Implies(And(0 <= i, i < nargs(t)), TS.at(bxs(t), i) == bx(arg(t, i))), TS.at(bxs(t), i))]


class CallCore(Contract):
    """Evaluator.__call__ on the shipped transformer: its recursively defined value."""
    target = 'protosym.core.evaluate:Evaluator.__call__'
    name = 'bin_expand(...)'
    evaluates = True

    def applicable(self, E, b):
        return isinstance(b['self'], Con) and b['self'].obj is mods().bin_expand

    def view(self, E, b):
        return NS(t=E.term(b['expr'], TREE), values=b['values'])

    def pre(self, E, a):
        return [('no values assigned', BoolVal(isinstance(a.values, Con) and a.values.obj is None))]

    def result(self, E, a):
        return Tm(TREE, bx(a.t))

    def post(self, E, a, res):
        return [('the expansion', E.term(res, TREE) == bx(a.t))]


class Method(CheckTask):
    name = 'Expr.bin_expand'

    def run(self, E, variant):
        x = Const('x', TreeS)
        r = E.call(E.getattr(Tm(ET(), x), 'bin_expand'), [], {})
        E.emit(BoolVal(E.typeof(r) == ET()), 'an expression', 'post')
        E.emit(E.term(r, ET()) == bx(x), 'the expansion of the whole expression', 'post')


# ---- lemmas --------------------------------------------------------------------
ok = Function('ok_args', TreeS, B)          # every sum and product below has an argument
isbin = Function('isbin', TreeS, B)         # ... has exactly two
val = Function('val', TreeS, R)
vals = Function('vals', TreeS, RS.S)
other = Function('other_value', TreeS, RS.S, R)    # what any other head means
atomval = Function('atom_value', TreeS, R)
psum, pprod = Function('psum', RS.S, I, R), Function('pprod', RS.S, I, R)
times = Function('times', R, R, R)
w = Function('ext_w', RS.S, RS.S, I)


def below(p, t, extra):
    """Recursive property p(t): extra(t) and p of all arguments (heads are not values)."""
    i = _i
    wit = Function(f'{p.name()}_w', TreeS, I)
    good = And(extra(t), Implies(And(0 <= wit(t), wit(t) < nargs(t)), p(arg(t, wit(t)))))
    return [fa(t, p(t) == Or(isatom(t), good), p(t)),
            fa([t, i], Implies(And(p(t), 0 <= i, i < nargs(t)), p(arg(t, i))), (p(t), TS.at(kids(t), i + 1))),
            fa([t, i], Implies(And(p(t), 0 <= i, i < nargs(t)), p(arg(t, i))), (p(t), TS.at(bxs(t), i)))]


def lemma_axioms():
    t, i, r, n = _t, _i, Const('r', RS.S), _n
    r2 = Const('r2', RS.S)
    out = bx_axioms()
    out += below(ok, t, lambda t: Implies(isacc(t), nargs(t) >= 1))
    out += below(isbin, t, lambda t: Implies(isacc(t), nargs(t) == 2))
    for f, op in ((psum, lambda a, b: a + b), (pprod, times)):
        out += [fa(r, f(r, IntVal(0)) == RS.at(r, IntVal(0)), f(r, IntVal(0))),
                fa([r, n], Implies(0 <= n, f(r, n + 1) == op(f(r, n), RS.at(r, n + 1))), (f(r, n), RS.at(r, n + 1)))]
    out += [fa(t, Implies(isatom(t), val(t) == atomval(t)), val(t)),
            fa(t, Implies(And(Not(isatom(t)), head(t) == ADD, nargs(t) >= 1), val(t) == psum(vals(t), nargs(t) - 1)), val(t)),
            fa(t, Implies(And(Not(isatom(t)), head(t) == MUL, nargs(t) >= 1), val(t) == pprod(vals(t), nargs(t) - 1)), val(t)),
            fa(t, Implies(And(Not(isatom(t)), Not(isacc(t))), val(t) == other(head(t), vals(t))), val(t)),
            fa(t, Implies(Not(isatom(t)), RS.len(vals(t)) == nargs(t)), vals(t)),
            fa([t, i], Implies(And(0 <= i, i < nargs(t)), RS.at(vals(t), i) == val(arg(t, i))), RS.at(vals(t), i)),
            fa([r, r2], Or(r == r2, RS.len(r) != RS.len(r2), And(0 <= w(r, r2), w(r, r2) < RS.len(r), RS.at(r, w(r, r2)) != RS.at(r2, w(r, r2)))), w(r, r2))]
    return out


class Lemmas(LemmaTask):
    """By induction on the expression, and on the length of folds."""
    name = 'bin_expand lemmas'
    variants = ('fold: value of a sum', 'fold: value of a product', 'fold: binary', 'value', 'binary', 'unchanged')

    def obligations(self, variant):
        ax = lemma_axioms()
        t, u, i, n, s = Const('T', TreeS), Const('u', TreeS), _i, z3.Int('N'), Const('S', TS.S)
        h = Const('H', TreeS)
        b = bxs(t)
        r = vals(t)
        m = z3.Int('m')
        smaller = lambda P: fa(u, Implies(height(u) < height(t), P(u)), bx(u))
        # elements of the folded sequence have the values in r
        same = fa(i, Implies(And(0 <= i, i < TS.len(s)), val(TS.at(s, i)) == RS.at(r, i)), TS.at(s, i))
        r_ = Const('Rs', RS.S)
        two = lambda hd, a, c: pair(hd, a, c)
        x = pair(h, fo(h, s, n), TS.at(s, n + 1))
        if variant.startswith('fold: value'):
            H, f = (ADD, psum) if 'sum' in variant else (MUL, pprod)
            hyp = [fa(i, Implies(And(0 <= i, i < TS.len(s)), val(TS.at(s, i)) == RS.at(r_, i)), TS.at(s, i)), TS.len(s) == RS.len(r_), TS.len(s) >= 1]
            P = lambda n: val(fo(H, s, n)) == f(r_, n)
            x = pair(H, fo(H, s, n), TS.at(s, n + 1))
            hints = [touch(TS.at(s, IntVal(0))), touch(TS.at(s, n + 1)), touch(RS.at(r_, n + 1)), touch(RS.at(vals(x), 0)), touch(RS.at(vals(x), 1)), touch(f(r_, n)), touch(f(vals(x), IntVal(0))), touch(fo(H, s, n)), touch(kids(x)), touch(RS.at(r_, IntVal(0)))]
            hints += [touch(val(TS.at(s, n + 1)))]
            return [('one element', ax + hyp + hints + [touch(fo(H, s, IntVal(0)))], P(IntVal(0))),
                    ('one more element', ax + hyp + hints + [0 <= n, n + 1 < TS.len(s), P(n)], P(n + 1))]
        if variant == 'fold: binary':
            hyp = [fa(i, Implies(And(0 <= i, i < TS.len(s)), isbin(TS.at(s, i))), TS.at(s, i)), TS.len(s) >= 1, Or(h == ADD, h == MUL)]
            P = lambda n: isbin(fo(h, s, n))
            hints = [touch(TS.at(s, IntVal(0))), touch(TS.at(s, n + 1)), touch(fo(h, s, n)), touch(kids(x)), touch(TS.at(kids(x), 1)), touch(TS.at(kids(x), 2))]
            return [('one element', ax + hyp + hints + [touch(fo(h, s, IntVal(0)))], P(IntVal(0))),
                    ('one more element', ax + hyp + hints + [0 <= n, n + 1 < TS.len(s), P(n)], P(n + 1))]
        base = ax + [touch(kids(t)), touch(bxs(t)), touch(vals(t)), touch(TS.at(b, IntVal(0)))]
        if variant == 'value':
            P = lambda u: Implies(ok(u), val(bx(u)) == val(u))
            ih = smaller(P)
            # the fold lemma, for the expanded arguments (its premises proved first)
            prem = fa(i, Implies(And(0 <= i, i < TS.len(b)), val(TS.at(b, i)) == RS.at(r, i)), TS.at(b, i))
            fold = lambda H, f: fa(n, Implies(And(0 <= n, n < TS.len(b)), val(fo(H, b, n)) == f(r, n)), fo(H, b, n))
            # rebuilt with another head
            y = mk(TS.cat(TS.lit([head(t)]), b))
            hyps = base + [ih, ok(t)]
            k = z3.Int('K')
            return [('values of the expanded arguments', hyps + [Not(isatom(t)), touch(TS.at(b, k)), touch(RS.at(r, k)), 0 <= k, k < TS.len(b), touch(arg(t, k)), touch(bx(arg(t, k)))], val(TS.at(b, k)) == RS.at(r, k)),
                    ('atoms', hyps + [isatom(t)], val(bx(t)) == val(t)),
                    ('sums', hyps + [Not(isatom(t)), prem, fold(ADD, psum), head(t) == ADD], val(bx(t)) == val(t)),
                    ('products', hyps + [Not(isatom(t)), prem, fold(MUL, pprod), head(t) == MUL], val(bx(t)) == val(t)),
                    ('other heads', hyps + [Not(isatom(t)), Not(isacc(t)), prem, touch(w(vals(y), r)), touch(kids(y)), touch(RS.at(r, w(vals(y), r))), touch(TS.at(b, w(vals(y), r)))], val(bx(t)) == val(t))]
        if variant == 'binary':
            P = lambda u: Implies(ok(u), isbin(bx(u)))
            ih = smaller(P)
            y = mk(TS.cat(TS.lit([head(t)]), b))
            hyps = base + [ih, ok(t)]
            prem = fa(i, Implies(And(0 <= i, i < TS.len(b)), isbin(TS.at(b, i))), TS.at(b, i))
            k = z3.Int('K')
            wit = Function('isbin_w', TreeS, I)(y)
            fold = lambda H: fa(n, Implies(And(0 <= n, n < TS.len(b)), isbin(fo(H, b, n))), fo(H, b, n))
            return [('expanded arguments', hyps + [Not(isatom(t)), 0 <= k, k < TS.len(b), touch(TS.at(b, k)), touch(arg(t, k)), touch(bx(arg(t, k)))], isbin(TS.at(b, k))),
                    ('atoms', hyps + [isatom(t)], isbin(bx(t))),
                    ('sums and products', hyps + [Not(isatom(t)), isacc(t), prem, fold(ADD), fold(MUL)], isbin(bx(t))),
                    ('other heads', hyps + [Not(isatom(t)), Not(isacc(t)), prem, touch(kids(y)), touch(arg(y, wit)), touch(TS.at(b, wit))], isbin(bx(t)))]
        P = lambda u: Implies(isbin(u), bx(u) == u)
        ih = smaller(P)
        hyps = base + [ih, isbin(t), Not(isatom(t))]
        k = z3.Int('K')
        prem = fa(i, Implies(And(0 <= i, i < TS.len(b)), TS.at(b, i) == arg(t, i)), TS.at(b, i))
        y = mk(TS.cat(TS.lit([head(t)]), b))
        z = pair(head(t), TS.at(b, 0), TS.at(b, 1))
        return [('expanded arguments', hyps + [0 <= k, k < TS.len(b), touch(TS.at(b, k)), touch(arg(t, k)), touch(bx(arg(t, k)))], TS.at(b, k) == arg(t, k)),
                ('atoms', base + [isatom(t)], bx(t) == t),
                ('sums and products: same children', hyps + [isacc(t), prem, touch(TS.at(b, 1)), touch(kids(z)), touch(fo(head(t), b, IntVal(0)))], kids(z) == kids(t)),
                ('sums and products', hyps + [isacc(t), prem, touch(TS.at(b, 1)), kids(z) == kids(t), touch(kids(z)), touch(fo(head(t), b, IntVal(0))), touch(z)], bx(t) == t),
                ('other heads: same children', hyps + [Not(isacc(t)), prem], TS.cat(TS.lit([head(t)]), b) == kids(t)),
                ('other heads', hyps + [Not(isacc(t)), TS.cat(TS.lit([head(t)]), b) == kids(t)], bx(t) == t)]


def tasks():
    return [Rules(), Method(), Lemmas()]
