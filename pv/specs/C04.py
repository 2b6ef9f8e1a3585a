from ..props import Prop, expand
from . import tree, subs, canon, matrix


def prop():
    new, call, ts = subs.SubsNew(), subs.SubsCall(), tree.TopologicalSort()
    call2 = subs.SubsCall2()
    call2.at_calls = False
    return Prop(expand([new, call, call2, subs.Unaffected(), subs.UserFunction(), ts]), [new, call, ts, matrix.Expressify()] + canon.constructors(),
                assumptions=['the given subexpressions are pairwise distinct'])
