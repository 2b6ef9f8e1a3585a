from ..props import Prop, expand
from . import text, evaluate as ev, tree, symeval, canon


def prop():
    base = [tree.TopologicalSort(), tree.TopologicalSplit(), tree.ForwardGraph()]
    sym = symeval.SymCall()
    own = text.tasks() + [symeval.Methods('eval_repr', '__repr__', '__str__', 'eval_latex')]
    return Prop(expand(own) + [(sym, v) for v in sym.variants] + expand([ev.Evaluate()] + base),
                base + [sym] + symeval.callees() + canon.constructors(),
                assumptions=['the text forms are read by the fragment of Python\'s expression grammar written down in pv/specs/text.py (grammar())',
                             'names are identifiers and heads are names or calls; sums and products have at least one argument',
                             'str(int) is the decimal form (CPython refuses integers of more than 4300 digits)'])
