from ..props import Prop, expand
from . import tree, diff, canon


def prop():
    fg = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    return Prop(expand([diff.DiffForward(), diff.Zeros(), diff.VProds()] + fg), fg + canon.constructors(),
                assumptions=[])
