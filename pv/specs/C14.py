from ..props import Prop, expand
from . import llvm, jit, text, expand as bx, tree, canon


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    own = llvm.tasks14()
    return Prop(expand(own + jit.tasks14() + [text.HeadText()] + base), own[:1] + base + [bx.CallCore()] + canon.constructors(),
                assumptions=jit.ASSUMED)
