from ..props import Prop, expand
from . import expand as bx, evaluate as ev, tree, canon


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    whole = [ev.TransformerCall()]
    own = bx.tasks()
    return Prop(expand(own + whole + base), base + [bx.CallCore()] + canon.constructors(),
                assumptions=['sums and products have at least one argument (Add() and Mul() raise TypeError)'])
