"""Bounded call depth and one application of a rule for every distinct subexpression.

Depth: every contract has a level, and a function under contract only calls
contracts of lower levels (obligation at every call, on every path); what is
inlined does not recurse (the engine refuses a function that is already on the
call stack) and nests at most 60 deep.  So the call depth is at most
60 * (number of levels), whatever the expression.

Once: ghost counters of rule applications, with loop invariants."""
import z3
from ..props import Prop
from ..contract import *
from ..smt import *
from ..types import *
from . import tree, subs, evaluate as ev, diff, rules, symeval, expand as bx, llvm, jit, count, matrix, numeric, text, canon
from .tree import satoms, snodes, EMPTYSET

LEVELS = {'Atom': 0, 'Tree': 1, 'Tree.atom': 1, 'Sym': 2, 'topological_sort': 3, 'topological_split': 4, 'forward_graph': 5,
          'SubsFunc': 6, 'SubsFunc.__call__': 6, 'SubsFunc.call': 6,
          'Evaluator.eval_forward': 7, 'Evaluator.evaluate': 8, 'Evaluator.__call__': 9, 'bin_expand(...)': 9, 'diff_forward': 9,
          'SymDifferentiator.__call__': 10, 'SymEvaluator.__call__': 10, '_to_llvm_f64': 12, '_to_llvm_f64_matrix': 12,
          'expressify': 11, 'Expr.diff': 12, 'Expr.diff (of a list)': 12}
TOP = 20
OWN = ()


class Once(ev.Evaluate):
    name = 'rule applications of Evaluator.__call__'
    at_calls = False
    counters = ('operations', 'atoms')
    kinds = ('once', 'depth')

    def on_opaque_call(self, E, f, args):
        if f.ty != ev.F1:
            return
        one = len(args) == 1 and isinstance(args[0], Tm) and args[0].ty in (VAL, TREE)
        E.tick('atoms' if one else 'operations')

    def finish(self, E, a):
        n = TS.len(satoms(a.expr, EMPTYSET)) + TS.len(snodes(a.expr, EMPTYSET))
        for lab, f in ev.counts(a, E.counters, n):
            E.emit(f, lab, 'once')


class OnceTransformer(Once):
    target = 'protosym.core.evaluate:Transformer.__call__'
    name = 'rule applications of Transformer.__call__'
    variants = ('no values',)
    cls = 'Transformer'


class OnceRule(Once):
    """eval_atom and eval_operation apply one rule."""

    def __init__(self, of, which):
        self.of = of
        self.target, self.name, self.variants = of.target, 'rule applications of ' + of.name, of.variants
        self.which = which
        Contract.__init__(self)
        self.setup, self.view, self.pre = of.setup, of.view, of.pre
        self.loops = ()

    def ghost(self, E, a):
        return []

    def post(self, E, a, res):
        return []

    def finish(self, E, a):
        for k in self.counters:
            E.emit(E.counters[k] == (1 if k == self.which else 0), f'rules for {k}: {1 if k == self.which else 0}', 'once')


class OnceMethod(symeval.Methods):
    counters = ('evaluations',)
    kinds = ('once', 'depth')

    def run(self, E, variant):
        super().run(E, variant)
        E.emit(E.counters['evaluations'] == 1, f'{variant}: one evaluation of the whole expression', 'once')


class OnceSym(symeval.SymCall):
    counters = ('evaluations',)
    kinds = ('once', 'depth')
    at_calls = False

    def finish(self, E, a):
        E.emit(E.counters['evaluations'] == 1, 'one evaluation of the whole expression', 'once')


class OnceExpand(bx.Method):
    counters = ('evaluations',)
    kinds = ('once', 'depth')

    def run(self, E, variant):
        super().run(E, variant)
        E.emit(E.counters['evaluations'] == 1, 'one evaluation of the whole expression', 'once')


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    cons = canon.constructors()
    sym = symeval.SymCall()
    subsc = [subs.SubsNew(), subs.SubsCall(), subs.SubsCall2()]
    d = diff.DiffForward()
    cd, ed = rules.CallDiff(), rules.ExprDiff()
    ll = [llvm.ToLlvm(), llvm.ToLlvmMatrix()]
    groups = [
        (base, base + cons),
        (subsc, base + subsc[:1] + cons),
        ([subs.UserFunction()], base + subsc + [matrix.Expressify()] + cons),
        ([Once(), OnceTransformer(), ev.EvaluateMethod(), ev.EvalForward()], base + cons),
        ([OnceRule(ev.EvalAtom(), 'atoms'), OnceRule(ev.EvalOperation(), 'operations')], cons),
        ([OnceSym()], base + symeval.callees() + cons),
        ([OnceMethod('eval_f64', 'eval_f64 values', 'count_ops_tree', 'eval_repr', '__repr__', '__str__', 'eval_latex')], [sym] + cons),
        ([OnceExpand(), bx.Rules()], [bx.CallCore()] + cons),
        ([count.Graph(), count.TreeRules()], base + cons),
        ([d], base + cons),
        ([cd, ed], base + subsc + [d, cd] + cons),
        ([numeric.F64()], cons),
        ([t for t in text.tasks() if not isinstance(t, text.HeadText)], cons + [sym]),
        (ll + [jit.Generates(), jit.GeneratesMatrix()], ll + base + [bx.CallCore()] + cons),
    ]
    tasks = []
    for own, contracts in groups:
        for t in own:
            if isinstance(t, LemmaTask):
                continue
            t.kinds = getattr(t, 'kinds', None) or ('depth',)
            t.levels = LEVELS
            t.level = LEVELS.get(getattr(t, 'of', t).name, LEVELS.get(t.name.replace('rule applications of ', ''), TOP)) if isinstance(t, Contract) else TOP
            t.own_contracts = contracts
            tasks += [(t, v) for v in t.variants]
    return Prop(tasks, base + cons, assumptions=[
        'registered rules have bounded call depth',
        'heads are atoms (printing a compound head uses the recursive printing of core trees)',
        'library code called has bounded call depth',
        'loop invariants and callee contracts other than the counts: discharged by the checks of C02 to C19'])
