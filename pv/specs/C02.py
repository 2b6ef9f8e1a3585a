from ..props import Prop, expand
from . import tree


def prop():
    ts = tree.TopologicalSort()
    return Prop(expand([ts]), [ts])
