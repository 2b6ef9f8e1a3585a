import gc, itertools, weakref
from cas import *
import numpy
from protosym.core.differentiate import DiffProperties, diff_forward
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOpN, SymDifferentiator, SymEvaluator, star
from protosym.core.tree import ForwardGraph, SubsFunc, Tree, forward_graph, topological_sort, topological_split
from protosym.simplecas import Expr, Integer, Matrix, Function, Symbol, a, b, lambdify, one, zero
from protosym.simplecas.expr import Add, Mul, expressify

use_simplecas()
import warnings
warnings.simplefilter('ignore')
FRESH = itertools.count()


def rename(s, m):
    """The spec with its symbols renamed."""
    if isinstance(s, str):
        return m.get(s, s)
    if isinstance(s, list):
        return [rename(x, m) for x in s]
    return {'dag': [rename(x, m) for x in s['dag']]} if isinstance(s, dict) else s


class World:
    def __init__(self, case, tag=''):
        m = {n: n + tag for n in 'xyz'} | ({'@f': '@f' + tag, '@g': '@g' + tag} if tag else {})
        n = lambda s: rename(s, m)
        self.x, self.y, self.z = (tree(m['x']), tree(m['y']), tree(m['z']))
        self.f, self.g = tree(m.get('@f', '@f')), tree(m.get('@g', '@g'))
        self.t, self.u = tree(n(case['e'])), tree(n(case['u']))
        self.E, self.U = Expr(self.t), Expr(self.u)
        self.X, self.Y, self.Z = Expr(self.x), Expr(self.y), Expr(self.z)
        # inputs that can change
        self.exclude = {self.u, self.x}
        self.noexclude = set()
        self.params = [self.x, self.y, self.z]
        self.args = [self.X, self.Y, self.Z]
        self.values = {self.x: 0.5, self.y: 1.25, self.z: 2.0}
        self.evalues = {self.X: 0.5, self.Y: 1.25, self.Z: 2.0}
        self.reps = {self.X: self.U, self.U: self.Y} if self.U != self.X else {self.X: self.Y}
        self.reps2 = {self.X: 3, 2: self.Y}
        self.rows = [[self.E, 0, self.X], [self.U, self.E, 2]]
        self.rows2 = [[0, self.U, 1], [self.X, self.Y, 0]]
        self.M, self.N = Matrix(self.rows), Matrix(self.rows2)
        self.Z = Matrix([[0, 0, 0], [0, 0, 0]])
        self.sub = SubsFunc(self.t, self.params)
        self.fun = self.E.as_function(self.X, self.Y)
        self.parts = [p for p in vars(self.sub).values() if isinstance(p, list)] if hasattr(self.sub, '__dict__') else []
        self.version = {}
        self.ev, self.other = Evaluator(), Evaluator()
        self.tr, self.tr2 = Transformer(), Transformer()
        self.tr.add_opn(self.f, lambda args: Tree(self.g, *args))
        self.sev, self.sev2 = SymEvaluator('one'), SymEvaluator('two')
        self.d, self.d2 = (SymDifferentiator(Expr, add=Add, mul=Mul, zero=zero, one=one) for _ in '12')
        ev = self.ev
        ev.add_atom_generic(lambda t: ('atom', t))
        ev.add_op_generic(lambda h, a: ('op', h, tuple(a)))
        self.sev[Symbol[a]] = PyFunc1(lambda s: ('sym', s))(a)
        self.sev[Integer[a]] = PyFunc1(lambda s: ('int', s))(a)
        self.sev[AtomRule[a]] = AtomFunc(lambda s: ('any', s))(a)
        self.sev[HeadRule(a, b)] = HeadOp(lambda h, args: ('op', h, tuple(args)))(a, b)
        for h in (Add, Expr(tree('@List'))):
            self.d.add_distributive_rule(h)
        self.register('ev', 0)
        self.register('sev', 0)
        self.register('d', 0)

    def register(self, what, k):
        self.version[what] = k
        if what == 'ev':
            self.ev.add_opn(self.f, lambda args: ('f', k, tuple(args)))
        elif what == 'sev':
            F = Expr(self.f)
            self.sev[F(star(a))] = PyOpN(lambda args: ('f', k, tuple(args)))(a)
        elif what == 'd':
            F = Expr(self.f)
            self.d[F(a), a] = (k + 1000) * a

    def inputs(self):
        w = self
        return (set(w.exclude), set(w.noexclude), list(w.params), list(w.args), list(w.values.items()), list(w.evalues.items()), list(w.reps.items()), list(w.reps2.items()),
                [list(r) for r in w.rows], [list(r) for r in w.rows2], [list(p) for p in w.parts])

    def containers(self):
        w = self
        return [w.exclude, w.noexclude, w.params, w.args, w.values, w.evalues, w.reps, w.reps2, w.rows, w.rows2] + w.rows + w.rows2


def expected(w, t, what):
    """What the evaluator `what` gives, with the rules registered last."""
    out = {}
    T = types()
    for u in parts(t):
        if not u.children:
            v = u.value
            out[u] = ('atom', u) if what == 'ev' else ('sym', v.value) if v.atom_type is T['S'] else ('int', v.value) if v.atom_type is T['I'] else ('any', u)
        else:
            args = tuple(out[c] for c in u.children[1:])
            out[u] = ('f', w.version[what], args) if u.children[0] is w.f else ('op', u.children[0], args)
    return out[t]


def lam(w, what):
    f = lambdify(w.args, what)
    r = f(0.5, 1.25, 2.0)
    return r if isinstance(r, float) else r.tobytes()


OPS = {
    'sort': lambda w: topological_sort(w.t),
    'sort heads': lambda w: topological_sort(w.t, heads=True),
    'sort exclude': lambda w: topological_sort(w.t, heads=True, exclude=w.exclude),
    'sort exclude nothing': lambda w: topological_sort(w.t, exclude=w.noexclude),
    'split': lambda w: topological_split(w.t),
    'split exclude': lambda w: topological_split(w.t, exclude=w.exclude),
    'graph': lambda w: forward_graph(w.t),
    'substitute': lambda w: w.sub(w.y, w.u, w.z),
    'substitute again': lambda w: w.sub(w.u, w.x, w.u),
    'substitute call': lambda w: SubsFunc(w.t, w.params).call((w.u, w.u, w.t)),
    'xreplace': lambda w: w.E.xreplace(w.reps),
    'xreplace ints': lambda w: w.E.xreplace(w.reps2),
    'function': lambda w: (w.fun(w.U, 2), w.fun(w.X, w.X)),
    'transform': lambda w: w.tr(w.t),
    'transform values': lambda w: w.tr(w.t, {w.x: w.u}),
    'f64': lambda w: w.E.eval_f64(w.evalues),
    'f64 other': lambda w: w.E.eval_f64({w.X: 1.5, w.Y: 2.5, w.Z: 3.5}),
    'f64 none': lambda w: w.E.eval_f64(),
    'repr': lambda w: (w.E.eval_repr(), str(w.E), repr(w.U), str(w.t), repr(w.M)),
    'latex': lambda w: (w.E.eval_latex(), w.U._repr_latex_()),
    'count': lambda w: (w.E.count_ops_tree(), w.E.count_ops_graph(), w.U.count_ops_graph()),
    'expand': lambda w: w.E.bin_expand(),
    'diff': lambda w: w.E.diff(w.X),
    'diff y': lambda w: w.E.diff(w.Y),
    'diff twice': lambda w: w.E.diff(w.X, 2),
    'diff no rule': lambda w: Function('nope')(w.E).diff(w.X),
    'to sympy': lambda w: w.E.to_sympy(),
    'from sympy': lambda w: (Expr.from_sympy(w.E.to_sympy()), Matrix.from_sympy(w.M.to_sympy())),
    'expressify': lambda w: (expressify(w.E.to_sympy()), expressify(3)),
    'code': lambda w: w.E.to_llvm_ir(w.args),
    'matrix code': lambda w: w.M.to_llvm_ir(w.args),
    'lambdify': lambda w: lam(w, w.E),
    'lambdify matrix': lambda w: lam(w, w.M),
    'matrix': lambda w: Matrix(w.rows),
    'matrix bad': lambda w: Matrix([*w.rows, [1]]),
    'tolist': lambda w: (w.M.tolist(), w.N.tolist()),
    'entry': lambda w: (w.M[0, 0], w.M[1, 2], w.N[0, 0]),
    'entry bad': lambda w: w.M[2, 0],
    'plus': lambda w: w.M + w.N,
    'plus itself': lambda w: w.M + w.M,
    'plus zero': lambda w: w.M + w.Z,
    'zero plus': lambda w: w.Z + w.N,
    'zero plus zero': lambda w: w.Z + w.Z,
    'zero diff': lambda w: w.Z.diff(w.X),
    'plus bad': lambda w: w.M + Matrix([[1]]),
    'matrix diff': lambda w: w.M.diff(w.X),
    'matrix diff plus': lambda w: w.N.diff(w.X) + w.M.diff(w.X),
    'arithmetic': lambda w: (w.E + w.U, w.E * 2, 1 - w.E, w.E ** w.U, -w.U, w.X / w.E),
    'parts': lambda w: (w.E.args, w.t.children),
}
EVS = {'evaluate': lambda w: w.ev(w.t), 'evaluate u': lambda w: w.ev(w.u), 'evaluate.evaluate': lambda w: w.ev.evaluate(w.t, {}), 'evaluate values': lambda w: w.ev(w.t, w.values)}
REGS = ('ev', 'sev', 'd')
SLOW = ('lambdify', 'lambdify matrix', 'to sympy', 'from sympy', 'expressify')


def frozen(r):
    if isinstance(r, (list, tuple)):
        return (type(r).__name__,) + tuple(frozen(x) for x in r)
    if isinstance(r, (set, frozenset)):
        return ('set', frozenset(r))
    if isinstance(r, dict):
        return ('dict', tuple((frozen(k), frozen(v)) for k, v in r.items()))
    if isinstance(r, ForwardGraph):
        return ('graph', frozen(r.atoms), frozen(r.heads), frozen(r.operations))
    if isinstance(r, Matrix):
        return ('matrix', r.shape, frozen(r.tolist()))
    if isinstance(r, BaseException):
        return ('raises', type(r).__name__)
    if isinstance(r, float) and r != r:
        return ('nan',)
    return r


def run(w, op):
    try:
        return op(w)
    except Exception as e:
        e.__traceback__ = None
        return e


def lists(r):
    """All lists, sets and dicts of a result."""
    if isinstance(r, (list, set, dict)):
        yield r
    if isinstance(r, (list, tuple)):
        for x in r:
            yield from lists(x)
    if isinstance(r, ForwardGraph):
        for x in (r.atoms, r.heads, r.operations):
            yield from lists(x)


def spoil(r):
    for c in list(lists(r)):
        if isinstance(c, list):
            c.append('spoilt')
            c.reverse()
            del c[1:]
        elif isinstance(c, set):
            c.clear()
            c.add('spoilt')
        else:
            c.clear()


def check(case):
    if 'release' in case:
        return release(case)
    w = World(case)
    before = w.inputs()
    m0 = (frozen(w.M), frozen(w.N), frozen(w.Z))
    seen = {}
    for n, step in enumerate(case['seq']):
        if step in REGS:
            w.register(step, n + 1)
            continue
        if step == 'other':
            others(w)
            continue
        if step == 'compiled':
            compiled(w)
            continue
        if step in EVS:
            r = run(w, EVS[step])
            if step != 'evaluate values':
                eq(r, expected(w, w.u if step.endswith(' u') else w.t, 'ev'), f'{step} with the rules registered last')
            continue
        if step == 'sym evaluate':
            r = run(w, lambda w: w.sev(w.E))
            eq(r, expected(w, w.t, 'sev'), f'{step} with the rules registered last')
            continue
        if step == 'd call':
            k = w.version['d'] + 1000
            F = Expr(w.f)
            eq(run(w, lambda w: w.d(F(w.X) + w.X, w.X)), run(w, lambda w: Add(Mul(Integer(k), w.X), one)), f'{step} with the rule registered last')
            continue
        op = OPS[step]
        r = run(w, op)
        if step not in SLOW:
            mine = {id(c) for c in w.containers()}
            want(not any(id(c) in mine for c in lists(r)), f'{step} returns one of its inputs')
            r2 = run(w, op)
            both = {id(c) for c in lists(r)}
            want(not any(id(c) in both for c in lists(r2)), f'{step} returns the same list or set twice')
            eq(frozen(r2), frozen(r), f'{step} done twice')
            if isinstance(r, Matrix):
                want(r is not r2 and r is not w.M and r is not w.N and r is not w.Z, f'{step} returns an existing matrix')
        fr = frozen(r)
        if step in seen:
            eq(fr, seen[step], f'{step} after {case["seq"][:n]}')
        seen[step] = fr
        spoil(r)
        eq(w.inputs(), before, f'the arguments after {step}')
        eq((frozen(w.M), frozen(w.N), frozen(w.Z)), m0, f'the matrices after {step}')
        if step not in SLOW:
            eq(frozen(run(w, op)), fr, f'{step} after its result was changed')


def compiled(w):
    """What a compiled function returned is not touched by later calls."""
    try:
        f, g = w.compiled
    except AttributeError:
        try:
            w.compiled = f, g = lambdify(w.args, w.M), lambdify(w.args, w.E)
        except Exception:
            return
    at = [(0.5, 1.25, 2.0), (1.5, 0.25, 3.0)]
    r = [f(*v) for v in at]
    copies = [numpy.array(x) for x in r]
    want(r[0] is not r[1] and not numpy.shares_memory(r[0], r[1]), 'a compiled function returns the same array twice')
    r[1][...] = 77.0
    s = f(*at[0])
    want(r[0].tobytes() == copies[0].tobytes(), 'an array returned by a compiled function changes later')
    want(s.tobytes() == copies[0].tobytes() and f(*at[1]).tobytes() == copies[1].tobytes(), 'a compiled function gives other values after its result was changed')
    want(repr(g(*at[0])) == repr(g(*at[0])), 'a compiled function gives other values later')


def others(w):
    """Rules registered in one object are not seen by another one."""
    n = next(FRESH)
    w.other.add_atom_generic(lambda t: n)
    w.other.add_op_generic(lambda h, a: n)
    w.other.add_opn(w.f, lambda a: n)
    w.other.add_atom(types()['S'], lambda v: n)
    eq(w.other(w.t), n, 'another evaluator')
    w.tr2.add_opn(tree('@Add'), lambda args: tree(n))
    w.tr2.add_atom(types()['S'], lambda v: tree(n))
    w.sev2[Symbol[a]] = PyFunc1(lambda s: n)(a)
    w.sev2[Integer[a]] = PyFunc1(lambda s: n)(a)
    w.sev2[AtomRule[a]] = AtomFunc(lambda s: n)(a)
    w.sev2[HeadRule(a, b)] = HeadOp(lambda h, args: n)(a, b)
    w.sev2[Expr(w.f)(star(a))] = PyOpN(lambda args: n)(a)
    eq(w.sev2(w.E), n, 'another evaluator')
    w.d2.add_distributive_rule(Expr(tree('@Mul')))
    w.d2[Expr(tree('@sin'))(a), a] = a
    raises(NoEvaluationRuleError, lambda: Evaluator()(w.t), 'a new evaluator')
    raises(NoEvaluationRuleError, lambda: SymEvaluator('new')(w.E), 'a new evaluator')
    same(Transformer()(w.t), w.t, 'a new transformer')
    nd = SymDifferentiator(Expr, add=Add, mul=Mul, zero=zero, one=one)
    raises(KeyError, lambda: nd(Expr(w.f)(w.X), w.X), 'a new differentiator')
    raises(KeyError, lambda: nd(Expr(tree('@sin'))(w.X), w.X), 'a new differentiator')
    raises(BadRuleError, lambda: w.sev.__setitem__(Expr(w.f)(a, a), 'nothing'), 'a bad rule')
    raises(BadRuleError, lambda: w.sev.__setitem__(Expr(w.f)(a), PyOpN(lambda args: n)(a)), 'a bad rule')
    raises(TypeError, lambda: w.d.__setitem__((Expr(w.f)(a, a), a), a), 'a bad rule')


def release(case):
    """What is no longer used is not kept."""
    w = World(case, tag=f'_{next(FRESH)}')
    refs = [weakref.ref(w.t), weakref.ref(w.E), weakref.ref(w.x), weakref.ref(w.X), weakref.ref(w.M), weakref.ref(w.ev), weakref.ref(w.d), weakref.ref(w.u)]
    for step in case['release']:
        if step in REGS:
            w.register(step, 5)
        elif step == 'other':
            others(w)
        elif step == 'compiled':
            compiled(w)
        elif step == 'sym evaluate':
            run(w, lambda w: w.sev(w.E))
        elif step == 'd call':
            run(w, lambda w: w.d(Expr(w.f)(w.X) + w.X, w.X))
        else:
            run(w, (OPS | EVS)[step])
    del w
    gc.collect()
    names = ['the expression', 'the user-level expression', 'the symbol', 'the user-level symbol', 'the matrix', 'the evaluator', 'the differentiator', 'the other expression']
    left = [n for n, r in zip(names, refs) if r() is not None and not (n in ('the expression', 'the user-level expression') and shared(case['e'])) and not (n == 'the other expression' and shared(case['u']))]
    want(not left, f'{", ".join(left)} is kept after {case["release"]}')


def shared(s):
    """Without a symbol of its own the expression may be in use elsewhere."""
    if isinstance(s, dict):
        return all(shared(x) for x in s['dag'])
    if isinstance(s, list):
        return all(shared(x) for x in s)
    return s not in ('x', 'y', 'z', '@f', '@g')


def cases(rng, deadline):
    S = [('x', 'y'), (['@Add', 'x', ['@Mul', 2, 'y'], 'x'], ['@sin', 'x']), (['@f', 'x'], ['@f', ['@f', 'x']]), (['@sin', ['@Mul', 'x', ['@cos', 'x']]], ['@Mul', 'x', ['@cos', 'x']]),
         (['@Add', ['@f', 'x', 'y'], ['@f', ['@g', 'x'], 'z']], ['@g', 'x']), (['@pow', 'x', 2], 2), (['@Add', ['@pow', ['@Add', 'x', 1], 3], ['@sin', 'y'], ['@Mul', 'x', 'y', 'z']], ['@Mul', 'x', 'y', 'z']),
         (['@List', 'x', ['@Add', 'x', 'y']], ['@List']), (3, 'x'), (deep(30, '@sin'), deep(3, '@Add', True))]
    names = list(OPS)
    ev = list(EVS) + ['sym evaluate', 'd call', 'other'] + list(REGS)
    slow = SLOW + ('compiled',)
    fast = [n for n in names if n not in SLOW]
    for e, u in S:
        for n in names + ev:
            yield {'e': e, 'u': u, 'release': [n]}
        yield {'e': e, 'u': u, 'seq': ['compiled', 'arithmetic', 'compiled']}
        yield {'e': e, 'u': u, 'seq': fast + fast[::-1]}
        for r in REGS:
            yield {'e': e, 'u': u, 'seq': ['evaluate', 'evaluate u', 'sym evaluate', 'd call', r, 'evaluate', 'evaluate.evaluate', 'evaluate u', 'sym evaluate', 'd call', 'other', r, 'evaluate values', 'evaluate', 'sym evaluate', 'd call']}
        yield {'e': e, 'u': u, 'seq': names + ['other'] + names}
        yield {'e': e, 'u': u, 'release': fast}
    while True:
        e = rand_expr(rng, rng.randint(1, 9), heads=HEADS + (('@f', '@g', '@List') if rng.random() < .4 else ()), intexp=rng.random() < .7)
        u = rng.choice(['x', 'y', 2, ['@sin', 'x'], rand_expr(rng, rng.randint(1, 4))])
        pick = lambda n: [rng.choice(fast + ev + ev if rng.random() < .9 else slow) for _ in range(n)]
        if rng.random() < .3:
            yield {'e': e, 'u': u, 'release': pick(rng.randint(1, 4))}
        else:
            s = pick(rng.randint(2, 6))
            yield {'e': e, 'u': u, 'seq': s + pick(rng.randint(0, 3)) + s}


if __name__ == '__main__':
    main(cases, check, 'all operations on 10 pairs of expressions, each alone and in two orders; random histories of at most 15 operations and rule registrations')
