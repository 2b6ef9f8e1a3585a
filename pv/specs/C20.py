"""Frames of every function under contract (C02 to C19)."""
from ..props import Prop, get
from ..contract import LemmaTask
from ..types import Ref

SOURCES = [f'C{i:02d}' for i in range(2, 20)]
SLOW = ()


def prop():
    tasks, contracts, seen, assumptions = [], [], set(), []
    for pid in SOURCES:
        p = get(pid)
        for t, v in p.tasks:
            if isinstance(t, LemmaTask):
                continue
            key = (type(t).__module__, type(t).__name__, t.name, v)
            if key in seen:
                continue
            seen.add(key)
            t.kinds, t.own_contracts = ('frame',), p.contracts
            tasks.append((t, v))
        assumptions += [a for a in p.assumptions if a not in assumptions]
    return Prop(tasks, contracts, assumptions=assumptions + ['loop invariants and callee contracts: discharged by the checks of C02 to C19; here only the frame obligations of the same runs count'])
