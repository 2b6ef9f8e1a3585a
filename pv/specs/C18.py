from ..props import Prop, expand
from . import sympyconv as sc, evaluate as ev, tree, symeval, canon, text


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    return Prop(expand(sc.tasks() + [text.HeadText()]), [sc.ToSympy(), sc.FromCache(), sc.FromSympy()] + canon.constructors(),
                assumptions=sc.ASSUMED + ['evaluating a whole expression with the conversion rules is C05'])
