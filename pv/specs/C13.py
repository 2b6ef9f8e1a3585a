from ..props import Prop, expand
from . import count, tree, evaluate as ev, symeval, canon


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    sym = symeval.SymCall()
    whole = [ev.Evaluate()]
    return Prop(expand(count.tasks() + base + whole) + [(sym, v) for v in sym.variants] + expand([symeval.Methods('count_ops_tree')]),
                base + [sym] + symeval.callees() + canon.constructors(),
                assumptions=['the tree count is defined recursively: an atom counts 1, a compound expression 1 plus the counts of its arguments'])
