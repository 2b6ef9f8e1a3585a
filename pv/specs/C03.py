from ..props import Prop, expand
from . import tree


def prop():
    cs = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    return Prop(expand(cs + [tree.Rebuild()]), cs)
