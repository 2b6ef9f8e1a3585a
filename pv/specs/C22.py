"""Canonical construction while other threads run (rely-guarantee)."""
from ..props import Prop, expand
from . import weak, canon


def prop():
    return Prop(expand(weak.thread_tasks()), [weak.Only(c) for c in canon.constructors()], assumptions=["a single lookup in the dictionary behind a weak table is atomic, and so is one store into it (CPython's dict under the GIL)", "locks exclude each other (threading.Lock, RLock); no __hash__, __eq__ or __del__ of an atom value builds expressions while a lock is held", "objects held by some thread are not collected; the weak table drops an entry only after its object died", "atom types and classes used as parts are the same objects in all threads"])
