"""Unused expressions are released: nothing but the weak tables outlives a call."""
from ..props import Prop, expand
from . import weak, canon, C20


def prop():
    p = C20.prop()
    own = expand(weak.tasks() + [weak.Parts()])
    for t, v in own:
        t.own_contracts = [weak.Only(c) for c in canon.constructors()]
    return Prop(own + p.tasks, [], assumptions=p.assumptions + ["CPython: an object without strong references is destroyed, its weak references are cleared, and a WeakValueDictionary drops the entry with its key", "SymPy, numpy, llvmlite and the standard library keep no reference to the expressions they are given (SymPy never receives any)", "objects held by the user's own rules are referenced by the user"])
