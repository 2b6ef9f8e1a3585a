from ..props import Prop, expand
from . import matrix, arith, canon, diff, rules, tree, numeric, subs


def prop():
    fg = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    mats = matrix.tasks17() + [matrix.New()]        # New: the representation the operations rely on
    return Prop(expand(mats), [matrix.Expressify(), matrix.EntryDiff()] + canon.constructors(),
                assumptions=['differentiating an expression: C08, C09, C10', 'differentiation is by a symbol'])
