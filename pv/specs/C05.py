from ..props import Prop, expand
from . import tree, evaluate as ev, symeval, canon


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    own = [ev.Evaluate(), ev.EvaluateMethod(), ev.EvalForward(), ev.EvalRecursive()]
    sym = symeval.SymCall()
    return Prop(expand(own + base) + [(sym, v) for v in sym.variants] + expand([symeval.Methods('eval_f64', 'eval_f64 values', 'eval_f64 None')]),
                base + [own[3], sym] + symeval.callees() + canon.constructors(),
                assumptions=['evaluation rules are pure total functions of their arguments that do not change the sequence they are given',
                             'values are assigned to atoms only (a value given for a compound expression is ignored by forward evaluation)'])
