from ..props import Prop, expand
from . import weak, canon


def prop():
    return Prop(expand(weak.tasks() + weak.tasks2()), [weak.Only(c) for c in canon.constructors()], assumptions=["objects that are not atoms or trees do not compare equal to atoms, trees or tuples of them (foreign __eq__ returning True is excluded)", "between two accesses to a weak table the garbage collector may end any objects this frame does not hold; other threads do not run", "values of atoms are compared with Python ==, as atoms are documented to"])
