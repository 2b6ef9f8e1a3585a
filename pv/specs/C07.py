from ..props import Prop, expand
from . import register, evaluate as ev, canon


def prop():
    return Prop(expand(register.tasks() + ev.registrations()), canon.constructors(),
                assumptions=['patterns are expressions, atom values, AtomRule or HeadRule patterns over expressions; symbolic calls take expressions'])
