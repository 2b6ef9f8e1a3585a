from ..props import Prop, expand
from . import matrix, arith, canon


def prop():
    return Prop(expand(matrix.tasks16() + [arith.Convert()]), [matrix.Expressify()] + canon.constructors(),
                assumptions=['a matrix has at least one row (Matrix([]) raises IndexError)', 'expressify is a pure function of the entry (C11)'])
