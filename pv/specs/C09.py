from ..props import Prop, expand
from . import tree, diff, canon, subs, rules


def prop():
    fg = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    s = [subs.SubsNew(), subs.SubsCall(), subs.SubsCall2()]
    own = [rules.SetRule(), rules.AddDistributive(), rules.CallDiff(), rules.ExprDiff(), rules.NewDifferentiator()]
    return Prop(expand(own + s + fg[:1]), fg + s + [diff.DiffForward(), own[2]] + canon.constructors(),
                assumptions=['patterns and right-hand sides are expressions'])
