from ..props import Prop, expand
from . import numeric, canon, symeval, rules, subs, diff, tree


def prop():
    sym = symeval.SymCall()
    exprdiff = rules.ExprDiff()
    own = numeric.tasks() + [symeval.Methods('eval_f64', 'eval_f64 values', 'eval_f64 None'), exprdiff]
    return Prop(expand(own), canon.constructors() + [sym, diff.DiffForward(), rules.CallDiff()],
                assumptions=['math.fsum, math.prod, math.pow, math.sin, math.cos and float() are the real operations (rounding, overflow and domain errors ignored)',
                             'evaluating and differentiating whole expressions with these rules is C05 and C08'])
