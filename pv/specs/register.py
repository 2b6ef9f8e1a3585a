"""Registration of user-level evaluation rules."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from . import evaluate as ev
from .evaluate import F1, ATOMS_D, OPS_D, OPS, tables, fresh_evaluator
from .arith import ET, foreign

PATTERNS = ('expression', 'atom value', 'any atom', 'any head')
CALLS = {'PyOp1': 1, 'PyOp2': 2, 'PyOpN': 1, 'PyFunc1': 1, 'AtomFunc': 1, 'HeadOp': 2}
FITS = {'expression': ('PyOp1', 'PyOp2', 'PyOpN'), 'atom value': ('PyFunc1',), 'any atom': ('AtomFunc',), 'any head': ('HeadOp',)}


def sm():
    import protosym.core.sym as m
    return m


class SetItem(Contract):
    """evaluator[pattern] = call"""
    target = 'protosym.core.sym:SymEvaluator.__setitem__'
    name = 'SymEvaluator.__setitem__'
    variants = tuple(f'{p} = {c}' for p in PATTERNS for c in tuple(CALLS) + ('object', 'float', 'None', 'Expr', 'function'))
    at_calls = False

    def setup(self, E, variant):
        m = sm()
        pk, ck = variant.split(' = ')
        import protosym.core.evaluate as em
        core = fresh_evaluator(E, em.Evaluator)
        obj = E.alloc(ObjC(m.SymEvaluator, {'name': Con('name'), 'evaluator': core}))
        w = [Const('p0', TreeS), Const('p1', TreeS)]
        W = [Tm(ET(), x) for x in w]
        aty = Const('atom_type', ATypeS)
        if pk == 'expression':
            pat = W[0]
        elif pk == 'atom value':
            st = E.alloc(ObjC(m.SymAtomType, {'name': Con('A'), 'sym': Con(ET().cls), 'atom_type': Tm(ATYPE, aty)}))
            pat = E.getitem(st, W[0])
        elif pk == 'any atom':
            pat = E.getitem(Con(m.AtomRule), W[0])
        else:
            pat = E.call(Con(m.HeadRule), W, {})
        f = Const('func', F1.sort)
        c = [Const('c0', TreeS), Const('c1', TreeS)]
        if ck in CALLS:
            op = E.call(Con(getattr(m, ck)), [Tm(F1, f)], {})
            call = E.call(op, [Tm(ET(), x) for x in c[:CALLS[ck]]], {})
        elif ck == 'Expr':
            call = Tm(ET(), c[0])
        elif ck == 'function':
            call = Con(abs)
        else:
            call = foreign(E)[ck]
        E.ghost['c07'] = NS(pk=pk, ck=ck, w=w, c=c, f=f, aty=aty, R0=tables(E, core), core=core)
        return [obj, pat, call], {}

    def view(self, E, b):
        r = NS(**E.ghost['c07'].__dict__)
        r.obj = b['self']
        return r

    def accepted(self, E, a):
        if a.ck not in FITS[a.pk]:
            return BoolVal(False)
        w, c = a.w, a.c
        if a.pk == 'expression':
            p = w[0]
            want = {'PyOp1': [c[0]], 'PyOp2': c, 'PyOpN': [mk(TS.lit([E.term(Con(sm().Star), TREE), c[0]]))]}[a.ck]
            return And(Not(isatom(p)), nargs(p) == len(want), *[arg(p, i) == x for i, x in enumerate(want)])
        n = CALLS[a.ck]
        return And(*[x == y for x, y in zip(w[:n], c[:n])])

    def raises(self, E, a):
        ok = self.accepted(E, a)
        hint = And(touch(arg(a.w[0], 0)), touch(arg(a.w[0], 1)))
        return [(sm().BadRuleError, Not(ok))]

    def ghost(self, E, a):
        p = a.w[0]
        return [('', touch(arg(p, 0))), ('', touch(arg(p, 1))), ('', touch(kids(p)))]

    def modifies(self, E, a):
        return [a.core.cell] + [E.getattr(a.core, n).cell for n in ('atoms', 'operations')]

    def post(self, E, a, res):
        same = E.same(E.getattr(a.obj, 'evaluator'), a.core)
        R, R0 = tables(E, a.core), a.R0
        at, op, ga, go = R0.atoms, R0.ops, R0.gena, R0.geno
        if a.pk == 'expression':
            h = head(a.w[0])
            entry = OPS.con(a.f, BoolVal(a.ck != 'PyOpN'))
            op = OPS_D.con(z3.Store(OPS_D.dom(op), h, BoolVal(True)), z3.Store(OPS_D.val(op), h, entry))
        elif a.pk == 'atom value':
            at = ATOMS_D.con(z3.Store(ATOMS_D.dom(at), a.aty, BoolVal(True)), z3.Store(ATOMS_D.val(at), a.aty, a.f))
        elif a.pk == 'any atom':
            ga = a.f
        else:
            go = a.f
        return [('the same underlying evaluator', same if not isinstance(same, bool) else BoolVal(same)),
                ('atom rules', R.atoms == at), ('operation rules', R.ops == op), ('atom fallback', R.gena == ga), ('operation fallback', R.geno == go)]

    def finish(self, E, a):
        pass


class Creation(CheckTask):
    """Sym.new_evaluator: a plain evaluator of its own, without rules.  star(w), new_atom and atom values."""
    name = 'new evaluators and patterns'
    variants = ('evaluator', 'star', 'atom type')

    def run(self, E, variant):
        m = sm()
        cls = ET().cls
        x = Const('x', TreeS)
        if variant == 'evaluator':
            e1, e2 = (E.call(E.getattr(Con(cls), 'new_evaluator'), [Con(n), Con(float)], {}) for n in ('a', 'b'))
            c1, c2 = E.getattr(e1, 'evaluator'), E.getattr(e2, 'evaluator')
            E.emit(BoolVal(e1.cell != e2.cell and c1.cell != c2.cell), 'evaluators of their own', 'frame')
            E.emit(BoolVal(E.content(c1.cell).cls is __import__('protosym.core.evaluate', fromlist=['x']).Evaluator), 'a plain evaluator', 'post')
            E.emit(BoolVal(all(E.getattr(c1, n).cell != E.getattr(c2, n).cell for n in ('atoms', 'operations'))), 'tables of their own', 'frame')
            for n, t in (('atoms', Tm(ATYPE, Const('ty', ATypeS))), ('operations', Tm(TREE, x))):
                r = E.contains(E.getattr(c1, n), t)
                E.emit(Not(r) if not isinstance(r, bool) else BoolVal(not r), f'{n}: no rules at first', 'post')
        elif variant == 'star':
            r = E.call(Con(m.star), [Tm(ET(), x)], {})
            E.emit(BoolVal(E.typeof(r) == ET()), 'an expression', 'post')
            E.emit(E.term(r, ET()) == mk(TS.lit([E.term(Con(m.Star), TREE), x])), 'star(w) wraps w', 'post')
        else:
            st = E.call(E.getattr(Con(cls), 'new_atom'), [Con('A'), Con(int)], {})
            v = E.getitem(st, Tm(ET(), x))
            E.emit(BoolVal(E.same(E.getattr(v, 'atom_type'), st) is True), 'an atom value names its atom type', 'post')


def tasks():
    return [SetItem(), Creation()]
