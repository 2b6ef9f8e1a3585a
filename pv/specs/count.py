"""Operation counts."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt, models
from . import tree
from .arith import ET, m as mods
from .tree import tsort, EMPTYSET, ts_facts, sel, SetS

IS = SeqTh(I)


class TreeRules(CheckTask):
    """count_ops_tree: an atom counts 1, a compound expression 1 more than its arguments together."""
    name = 'count_ops_tree rules'
    variants = ('atom', 'operation', 'operation of Add', 'operation of pow', 'no arguments', 'own value types')

    def run(self, E, variant):
        import protosym.simplecas
        core = Con(mods().count_ops_tree.evaluator)
        if variant == 'atom':
            t = Const('t', TreeS)
            E.assume(isatom(t))
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, t)], {})
            E.emit(E.term(r, INT) == 1, 'an atom counts once', 'post')
            return
        if variant == 'own value types':
            for k in ('Integer', 'Symbol', 'Function'):
                t = mkleaf(mkatom(E.conc_atype(getattr(mods(), k).atom_type), Const('v', ValS)))
                r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, t)], {})
                E.emit(E.term(r, INT) == 1, f'{k} counts once', 'post')
            return
        s = Const('counts', IS.S)
        h = Tm(TREE, Const('h', TreeS)) if ' of ' not in variant else Con({'Add': mods().Add, 'pow': mods().Pow}[variant.split()[-1]].rep)
        if variant == 'no arguments':
            v, want = E.alloc(ListL([])), IntVal(1)
        else:
            v, want = E.alloc(ListC(INT, s)), 1 + models.seqfold('sum', INT)(s)
        r = E.call(E.getattr(core, 'eval_operation'), [h, v], {})
        E.emit(E.term(r, INT) == want, 'one more than the arguments together', 'post')


class Graph(CheckTask):
    """count_ops_graph: the length of the (complete, repetition-free) topological sort."""
    name = 'Expr.count_ops_graph'

    def run(self, E, variant):
        x = Const('x', TreeS)
        E.ctx = NS()
        r = E.call(E.getattr(Tm(ET(), x), 'count_ops_graph'), [], {})
        want = TS.len(tsort(x, BoolVal(False), EMPTYSET))
        E.emit(E.term(r, INT) == want, 'the number of distinct subexpressions', 'post')


class Counting(LemmaTask):
    """What C02 proves of a sort makes it an enumeration of the reachable subexpressions:
    it has the expression, is closed under arguments, has no repetition, and lies in every
    closed set with the expression.  Any other such list has the same members."""
    name = 'lemma: a topological sort enumerates the reachable subexpressions'

    def obligations(self, variant):
        e = Const('expr', TreeS)
        F = BoolVal(False)
        s, s2 = tsort(e, F, EMPTYSET), Const('other', TS.S)
        x, y, i, j = Const('x', TreeS), Const('y', TreeS), z3.Int('i'), z3.Int('j')
        k = TS.at(kids(x), j)

        def closed(r):
            return [f for _, f in ts_facts(r, e, F, EMPTYSET)]

        def minimal(r, P):     # instance of: r lies in every closed set P with e
            return Implies(And(P(e), fa([x, j], Implies(And(P(x), 1 <= j, j < TS.len(kids(x))), P(k)), k)),
                           fa(i, Implies(And(0 <= i, i < TS.len(r)), P(TS.at(r, i))), TS.at(r, i)))
        out = []
        for a, b, lab in ((s, s2, 'no fewer'), (s2, s, 'no more')):
            pos = Const('X', TreeS)
            out.append((lab + ' members', closed(a) + closed(b) + [minimal(a, lambda t: TS.mem(b, t)), TS.mem(a, pos), touch(TS.at(a, TS.idx(a, pos)))], TS.mem(b, pos)))
        return out


def tasks():
    return [TreeRules(), Graph(), Counting()]
