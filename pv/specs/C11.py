from ..props import Prop, expand
from . import arith, canon


def prop():
    return Prop(expand(arith.tasks()), canon.constructors(),
                assumptions=['two atoms of one type whose Python values are equal are the same atom (so Integer(True) is Integer(1))'])
