"""Contracts for protosym.core.evaluate.

For one evaluator (its two rule tables and its two fallbacks) and one
assignment of values, `ev` is the recursively defined value:
  ev(a)          = values[a] if a has a value, else the value of a's rule
  ev(h(t1..tn))  = the operation of h applied to [ev(t1), .., ev(tn)]
"""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt
from . import tree
from .tree import sel, satoms, snodes, fops, EMPTYSET

V = OpaqueTy('EvalVal', nullable=True)
F1 = FnTy(V)
OPS = TupTy(F1, BOOL)
ATOMS_D = DictTy(ATYPE, F1)
OPS_D = DictTy(TREE, OPS)
VALUES_D = DictTy(TREE, V)
VS = SeqTh(V.sort)
callatom = Function(f'call:{F1.name}:{VAL.name}', F1.sort, ValS, V.sort)
callgena = Function(f'call:{F1.name}:{TREE.name}', F1.sort, TreeS, V.sort)
callseq = Function(f'call:{F1.name}:seq<{V.name}>', F1.sort, VS.S, V.sort)
callstar = Function(f'callstar:{F1.name}:{V.name}', F1.sort, VS.S, V.sort)
callgeno = Function(f'call:{F1.name}:{TREE.name},seq<{V.name}>', F1.sort, TreeS, VS.S, V.sort)
opfn, opstar = OPS.acc

ev = Function('ev', TreeS, V.sort)
evs = Function('evs', TreeS, VS.S)
evw = Function('evw', VS.S, TreeS, I)


class Ev:
    """The rule tables of one evaluator as terms."""

    def __init__(self, atoms, ops, gena, geno):
        self.atoms, self.ops, self.gena, self.geno = atoms, ops, gena, geno

    def atom(self, t):
        d = self.atoms
        ty = atype(aval(t))
        return If(sel(ATOMS_D.dom(d), ty), callatom(z3.Select(ATOMS_D.val(d), ty), avalue(aval(t))), callgena(self.gena, t))

    def op(self, h, s):
        f = z3.Select(OPS_D.val(self.ops), h)
        return If(sel(OPS_D.dom(self.ops), h), If(opstar(f), callstar(opfn(f), s), callseq(opfn(f), s)), callgeno(self.geno, h, s))


def fresh_evaluator(E, cls):
    t = dict(atoms=Const('rules_atoms', ATOMS_D.sort), ops=Const('rules_ops', OPS_D.sort),
             gena=Const('rule_any_atom', F1.sort), geno=Const('rule_any_op', F1.sort))
    obj = E.alloc(ObjC(cls, {
        'atoms': E.wrap(ATOMS_D, t['atoms']), 'operations': E.wrap(OPS_D, t['ops']),
        'generic_operation_func': Tm(F1, t['geno']), 'generic_atom_func': Tm(F1, t['gena'])}))
    return obj


def tables(E, obj):
    g = lambda n: E.getattr(obj, n)
    return Ev(E.term(g('atoms'), ATOMS_D), E.term(g('operations'), OPS_D),
              E.term(g('generic_atom_func'), F1), E.term(g('generic_operation_func'), F1))


def ev_axioms(R, values):
    """Defining equations of ev for these rules and values (values: dict term or None)."""
    t, s, j, f = Const('t', TreeS), Const('s', VS.S), z3.Int('j'), Const('f', F1.sort)
    a = R.atom(t)
    if values is not None:
        a = If(sel(VALUES_D.dom(values), t), z3.Select(VALUES_D.val(values), t), a)
    w = evw(s, t)
    e = VS.at(evs(t), j)
    ext = Or(s == evs(t), VS.len(s) != VS.len(evs(t)), And(0 <= w, w < VS.len(s), VS.at(s, w) != VS.at(evs(t), w)))
    return [
        ('', fa(t, Implies(isatom(t), ev(t) == a), ev(t))),
        ('', fa(t, Implies(Not(isatom(t)), ev(t) == R.op(head(t), evs(t))), ev(t))),
        ('', fa(t, Implies(Not(isatom(t)), VS.len(evs(t)) == nargs(t)), evs(t))),
        ('', fa([t, j], Implies(And(0 <= j, j < nargs(t)), e == ev(arg(t, j))), e)),
        ('', fa([t, s, f], ext, (ev(t), callstar(f, s)))),
        ('', fa([t, s, f], ext, (ev(t), callseq(f, s)))),
        ('', fa([t, s, f], ext, (ev(t), callgeno(f, head(t), s)))),
    ]


def over(itv, *terms):
    return itv is not None and any(t.eq(x) for _, t in itv.base for x in terms)


class EvalLoop(LoopSpec):
    """The stack holds the values of the atoms, then of the nodes, in graph order."""

    def __init__(self):
        super().__init__('forward evaluation', {'acc': Role(ListTy(V), ('stack', 'values_stack', 'results'))}, self.run,
                         when=self.match)

    def match(self, E, fr, itv):
        e = E.ctx.expr
        return over(itv, satoms(e, EMPTYSET), fops(e))

    def counting(self, S, n):
        return counts(S.a, n, VS.len(S.t('acc')))

    def run(self, S):
        e = S.a.expr
        at, nd = satoms(e, EMPTYSET), snodes(e, EMPTYSET)
        na = TS.len(at)
        s = S.t('acc')
        L0 = VS.len(S.entry['acc']) if S.entry else IntVal(0)
        i = z3.Int('i')
        n = L0 + S.it
        return [
            ('one value per graph entry so far', And(VS.len(s) == n, n <= na + TS.len(nd))),
            ('values of atoms', fa(i, Implies(And(0 <= i, i < na, i < n), VS.at(s, i) == ev(TS.at(at, i))), VS.at(s, i), TS.at(at, i))),
            ('values of nodes', fa(i, Implies(And(0 <= i, na + i < n), VS.at(s, na + i) == ev(TS.at(nd, i))), TS.at(nd, i))),
        ]


def counts(a, n, done):
    """Applications of rules after `done` entries of the graph (C21)."""
    na = TS.len(satoms(a.expr, EMPTYSET))
    at = If(done < na, done, na)
    return [('rules for operations: once for every operation so far', n['operations'] == If(done > na, done - na, 0)),
            ('rules for atoms: at most once for every atom so far', And(0 <= n['atoms'], n['atoms'] <= at)),
            ('rules for atoms: once when no values are given', n['atoms'] == at if a.values is None else BoolVal(True))]


class Evaluate(Contract):
    """Evaluator.__call__: the recursively defined value."""
    target = 'protosym.core.evaluate:Evaluator.__call__'
    name = 'Evaluator.__call__'
    variants = ('values', 'no values', 'values=None')
    loops = (EvalLoop(),)
    cls = 'Evaluator'
    evaluates = True

    def setup(self, E, variant):
        import protosym.core.evaluate as m
        obj = fresh_evaluator(E, getattr(m, self.cls))
        args = [obj, Tm(TREE, Const('expr', TreeS))]
        if variant == 'values':
            args.append(E.wrap(VALUES_D, Const('values', VALUES_D.sort)))
        if variant == 'values=None':
            args.append(Con(None))
        return args, {}

    def view(self, E, b):
        v = b['values']
        return NS(self=b['self'], R=tables(E, b['self']), expr=E.term(b['expr'], TREE),
                  values=None if isinstance(v, Con) and v.obj is None else E.term(v, VALUES_D), skip=tree.SUMMARY_ONLY)

    def pre(self, E, a):
        t = Const('t', TreeS)
        if a.values is None:
            return []
        return [('values are given for atoms', fa(t, Implies(sel(VALUES_D.dom(a.values), t), isatom(t)), sel(VALUES_D.dom(a.values), t)))]

    def ghost(self, E, a):
        return ev_axioms(a.R, a.values)

    def result(self, E, a):
        return E.fresh_value(V, 'value')

    def post(self, E, a, res):
        return [('the value is the recursively defined one', E.term(res, V) == ev(a.expr))]


class EvaluateMethod(Evaluate):
    target = 'protosym.core.evaluate:Evaluator.evaluate'
    name = 'Evaluator.evaluate'
    variants = ('values',)
    at_calls = False


class EvalForward(Evaluate):
    target = 'protosym.core.evaluate:Evaluator.eval_forward'
    name = 'Evaluator.eval_forward'
    variants = ('values',)
    at_calls = False


class EvalRecursive(Evaluate):
    """Also by recursion (its own contract at the recursive calls)."""
    target = 'protosym.core.evaluate:Evaluator.eval_recursive'
    name = 'Evaluator.eval_recursive'
    variants = ('values',)
    recursive = True
    loops = ()

    def pre(self, E, a):
        out = super().pre(E, a)
        c = E.ctx
        if c is not None and c is not a:
            if not (isinstance(a.self, Ref) and isinstance(c.self, Ref) and a.self.cell == c.self.cell):
                raise Unsupported('recursive call on another evaluator')
            out += [('same values', a.values == c.values), ('arguments are smaller', height(a.expr) < height(c.expr))]
        return out


class EvalAtom(Contract):
    target = 'protosym.core.evaluate:Evaluator.eval_atom'
    name = 'Evaluator.eval_atom'
    variants = ('Evaluator', 'Transformer')
    at_calls = False

    def setup(self, E, variant):
        import protosym.core.evaluate as m
        return [fresh_evaluator(E, getattr(m, variant)), Tm(TREE, Const('atom', TreeS))], {}

    def view(self, E, b):
        return NS(R=tables(E, b['self']), t=E.term(b['atom'], TREE))

    def pre(self, E, a):
        return [('an atom', isatom(a.t))]

    def post(self, E, a, res):
        return [('rule of its own atom type, else the fallback', E.term(res, V) == a.R.atom(a.t))]


class EvalOperation(EvalAtom):
    target = 'protosym.core.evaluate:Evaluator.eval_operation'
    name = 'Evaluator.eval_operation'

    def setup(self, E, variant):
        import protosym.core.evaluate as m
        return [fresh_evaluator(E, getattr(m, variant)), Tm(TREE, Const('head', TreeS)),
                E.alloc(ListC(V, Const('argvals', VS.S)))], {}

    def view(self, E, b):
        return NS(R=tables(E, b['self']), h=E.term(b['head'], TREE), s=E.term(b['argvals'], ListTy(V)))

    def pre(self, E, a):
        return []

    def post(self, E, a, res):
        return [('rule of its own head (fixed arity: separate arguments, variadic: one sequence), else the fallback',
                 E.term(res, V) == a.R.op(a.h, a.s))]


# ---- registration -----------------------------------------------------------
class Register(Contract):
    """add_atom / add_op1 / add_op2 / add_opn / add_atom_generic / add_op_generic."""
    at_calls = False
    variants = ('Evaluator', 'Transformer')

    def __init__(self, meth, kind):
        self.target = f'protosym.core.evaluate:Evaluator.{meth}'
        self.name = f'Evaluator.{meth}'
        self.kind = kind
        super().__init__()

    def setup(self, E, variant):
        import protosym.core.evaluate as m
        obj = fresh_evaluator(E, getattr(m, variant))
        E.ghost['R0'] = tables(E, obj)
        key = {'atom': [Tm(ATYPE, Const('atom_type', ATypeS))], 'op': [Tm(TREE, Const('head', TreeS))]}
        k = key.get(self.kind[0], [])
        E.ghost['key'] = k[0].t if k else None
        return [obj] + k + [Tm(F1, Const('func', F1.sort))], {}

    def view(self, E, b):
        r = NS(R0=E.ghost['R0'], key=E.ghost['key'], f=Const('func', F1.sort))
        r.obj = b['self']
        return r

    def modifies(self, E, a):
        return [a.obj.cell] + [E.getattr(a.obj, n).cell for n in ('atoms', 'operations')]

    def post(self, E, a, res):
        R, R0 = tables(E, a.obj), a.R0
        at, op, ga, go = R0.atoms, R0.ops, R0.gena, R0.geno
        if self.kind[0] == 'atom':
            at = ATOMS_D.con(z3.Store(ATOMS_D.dom(at), a.key, BoolVal(True)), z3.Store(ATOMS_D.val(at), a.key, a.f))
        elif self.kind[0] == 'op':
            entry = OPS.con(a.f, BoolVal(self.kind[1]))
            op = OPS_D.con(z3.Store(OPS_D.dom(op), a.key, BoolVal(True)), z3.Store(OPS_D.val(op), a.key, entry))
        elif self.kind[0] == 'anyatom':
            ga = a.f
        else:
            go = a.f
        return [('atom rules', R.atoms == at), ('operation rules', R.ops == op),
                ('atom fallback', R.gena == ga), ('operation fallback', R.geno == go)]


def registrations():
    return [Register('add_atom', ('atom',)), Register('add_op1', ('op', True)), Register('add_op2', ('op', True)),
            Register('add_opn', ('op', False)), Register('add_atom_generic', ('anyatom',)), Register('add_op_generic', ('anyop',))]


class NewEvaluator(CheckTask):
    """A new Evaluator has no rules and failing fallbacks; a Transformer leaves expressions unchanged.
    Two evaluators share no state."""
    name = 'Evaluator() and Transformer()'
    variants = ('Evaluator: atom', 'Evaluator: operation', 'Transformer: atom', 'Transformer: operation', 'Evaluator: own state', 'Transformer: own state')

    def run(self, E, variant):
        import protosym.core.evaluate as m
        from protosym.core.exceptions import NoEvaluationRuleError
        cname, what = variant.split(': ')
        cls = getattr(m, cname)
        e1 = E.call(Con(cls), [], {})
        if what == 'own state':
            e2 = E.call(Con(cls), [], {})
            ok = e1.cell != e2.cell
            for n in ('atoms', 'operations'):
                x, y = E.getattr(e1, n), E.getattr(e2, n)
                ok = ok and isinstance(x, Ref) and isinstance(y, Ref) and x.cell != y.cell
                E.emit(E.term(E.contains(x, Tm(ATYPE if n == 'atoms' else TREE, Const('k', ATypeS if n == 'atoms' else TreeS))) is False and Con(True) or Con(False), BOOL), f'{n}: no rules at first', 'post')
            E.emit(BoolVal(bool(ok)), 'evaluators have their own tables', 'frame')
            return
        E.raises = (NoEvaluationRuleError,)
        t = Const('t', TreeS)
        s = Const('s', TS.S)
        try:
            if what == 'atom':
                E.assume(isatom(t))
                r = E.call(E.getattr(e1, 'eval_atom'), [Tm(TREE, t)], {})
            else:
                r = E.call(E.getattr(e1, 'eval_operation'), [Tm(TREE, t), E.alloc(ListC(TREE, s))], {})
        except PyExc as ex:
            E.emit(BoolVal(cname == 'Evaluator' and issubclass(ex.cls, NoEvaluationRuleError)), f'{cname} without rules raises only NoEvaluationRuleError', 'raises')
            return
        if cname == 'Evaluator':
            E.emit(BoolVal(False), 'an evaluator without a rule raises NoEvaluationRuleError', 'raises')
        elif what == 'atom':
            E.emit(E.term(r, TREE) == t, 'a transformer leaves atoms unchanged', 'post')
        else:
            u = E.term(r, TREE)
            k = z3.Int('k')
            E.emit(And(Not(isatom(u)), TS.len(kids(u)) == 1 + TS.len(s), TS.at(kids(u), 0) == t), 'a transformer keeps the head', 'post')
            E.emit(fa(k, Implies(And(0 <= k, k < TS.len(s)), TS.at(kids(u), k + 1) == TS.at(s, k)), TS.at(s, k)), 'a transformer keeps the arguments', 'post')


class TransformerCall(Evaluate):
    """The same for transformers (should they come to override it)."""
    target = 'protosym.core.evaluate:Transformer.__call__'
    name = 'Transformer.__call__'
    variants = ('no values',)
    cls = 'Transformer'
    at_calls = False
