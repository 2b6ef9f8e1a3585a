"""Which contracts and lemmas decide which property."""
from __future__ import annotations
import importlib


class Prop:
    def __init__(self, tasks, contracts, assumptions=(), trusted=(), level='proof'):
        self.tasks = tasks            # [(task, variant)]
        self.contracts = contracts    # contracts usable at call sites
        self.assumptions, self.trusted, self.level = list(assumptions), list(trusted), level


def expand(tasks):
    return [(t, v) for t in tasks for v in t.variants]


def get(pid):
    return importlib.import_module(f'pv.specs.{pid}').prop()
