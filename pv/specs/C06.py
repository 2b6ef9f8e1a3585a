from ..props import Prop, expand
from . import evaluate as ev
from . import canon


def prop():
    cs = canon.constructors()
    return Prop(expand([ev.EvalAtom(), ev.EvalOperation(), ev.NewEvaluator()] + ev.registrations()), cs,
                assumptions=['evaluation rules are pure total functions of their arguments'])
