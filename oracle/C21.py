import sys
from cas import *
from protosym.core.differentiate import DiffProperties, diff_forward
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, SymDifferentiator, SymEvaluator
from protosym.core.tree import SubsFunc, Tree, forward_graph, topological_sort, topological_split
from protosym.simplecas import Expr, Matrix, a, b, one, zero
from protosym.simplecas.expr import Add, Mul

use_simplecas()
NAMES = {'plain': ('@f', '@g'), 'real': ('@Add', '@Mul', '@sin', '@pow', '@cos')}


def shape(kind, head, n):
    """A deep expression (n levels) of the given shape."""
    h, x, y = tree(head), tree('x'), tree('y')
    t = x
    one_ = head in ('@sin', '@cos')
    for i in range(n):
        if one_:
            t = Tree(h, t)
        elif head == '@pow':
            t = Tree(h, t, tree(2)) if kind != 'right' else Tree(h, y, t)
        elif kind == 'left':
            t = Tree(h, t, y)
        elif kind == 'right':
            t = Tree(h, x, t)
        elif kind == 'shared':
            t = Tree(h, t, t)
        elif kind == 'middle':
            t = Tree(h, y, tree(i % 7), t, x)
        elif kind == 'alternating':
            t = Tree(h, t, y) if i % 2 else Tree(tree('@sin'), t)
        elif kind == 'ladder':
            t = Tree(h, Tree(tree('@cos'), t), t)
    return t


def count_all(t):
    ev = Evaluator()
    ev.add_atom_generic(lambda u: 1)
    ev.add_op_generic(lambda h, v: 1 + len(v))
    return ev(t)


def Evaluator_():
    ev = Evaluator()
    ev.add_atom_generic(lambda u: 1)
    ev.add_op_generic(lambda h, v: 1 + len(v))
    return ev


def derivative(t):
    d = SymDifferentiator(Expr, add=Add, mul=Mul, zero=zero, one=one)
    for n in ('@f', '@pow'):
        h = Expr(tree(n))
        d[h(a, b), a] = a * b
        d[h(a, b), b] = a * b
    for n in ('@sin', '@cos'):
        h = Expr(tree(n))
        d[h(a), a] = a
    return d(Expr(t), Expr(tree('x')))


OPS = {
    'topological_sort': lambda t: topological_sort(t),
    'topological_sort heads': lambda t: topological_sort(t, heads=True),
    'topological_sort exclude': lambda t: topological_sort(t, heads=True, exclude={tree('y')}),
    'topological_split': lambda t: topological_split(t),
    'forward_graph': lambda t: forward_graph(t),
    'substitution': lambda t: SubsFunc(t, [tree('x')])(tree('z')),
    'substitution of the top': lambda t: SubsFunc(t, [t, tree('y')])(tree('z'), tree('x')),
    'substitution unrelated': lambda t: SubsFunc(t, [tree('z')])(tree('x')),
    'function': lambda t: Expr(t).as_function(Expr(tree('x')), Expr(tree('y')))(Expr(tree('y')), 2),
    'xreplace': lambda t: Expr(t).xreplace({Expr(tree('x')): Expr(tree('z'))}),
    'evaluation': count_all,
    'evaluation with values': lambda t: Evaluator_()(t, {tree('x'): 1, tree('y'): 2}),
    'evaluation with other values': lambda t: Evaluator_()(t, {tree('z'): 1, tree(['@sin', 'z']): 2, tree('@sin'): 3, tree(2): 4}),
    'user-level evaluation with values': lambda t: Expr(t).eval_f64({Expr(tree(s)): 0.5 for s in ('x', 'y', 'z', ['@sin', 'z'], 2)}),
    'transformation with values': lambda t: Transformer()(t, {tree('x'): tree('y'), tree(['@sin', 'z']): tree('x')}),
    'transformation': lambda t: Transformer()(t),
    'diff_forward': lambda t: diff_forward(t, tree('z'), DiffProperties(zero=tree(0), one=tree(1), add=tree('@Add'), mul=tree('@Mul'))),
    'derivative by rules': derivative,
    'count_ops_graph': lambda t: Expr(t).count_ops_graph(),
    'count_ops_tree': lambda t: Expr(t).count_ops_tree(),
    'bin_expand': lambda t: Expr(t).bin_expand(),
}
TEXT = {
    'str': lambda t: str(Expr(t)),
    'repr': lambda t: repr(Expr(t)),
    'eval_repr': lambda t: Expr(t).eval_repr(),
    'eval_latex': lambda t: Expr(t).eval_latex(),
    '_repr_latex_': lambda t: Expr(t)._repr_latex_(),
}
REAL = {
    'diff': lambda t: Expr(t).diff(Expr(tree('x'))),
    'diff unrelated': lambda t: Expr(t).diff(Expr(tree('z'))),
    'to_llvm_ir': lambda t: Expr(t).to_llvm_ir([Expr(tree('x')), Expr(tree('y'))]),
    'matrix to_llvm_ir': lambda t: Matrix([[Expr(t), 1], [0, Expr(tree('x'))]]).to_llvm_ir([Expr(tree('x')), Expr(tree('y'))]),
    'matrix diff': lambda t: Matrix([[Expr(t), 1]]).diff(Expr(tree('x'))),
    'eval_f64': lambda t: f64(t),
}
ALL = OPS | TEXT | REAL


def f64(t):
    try:
        return Expr(t).eval_f64({Expr(tree('x')): 1.0, Expr(tree('y')): 0.5})
    except OverflowError:
        return None


def quiet(f):
    """Errors other than the depth of recursion are what other properties are about."""
    def g(t):
        try:
            return f(t)
        except RecursionError:
            raise
        except Exception as e:
            return e
    return g


class TooMany(BaseException):
    pass


def depth(f, limit=None):
    """Greatest depth of Python calls during f(), and the number of calls."""
    now = best = calls = 0

    def prof(frame, what, arg):
        nonlocal now, best, calls
        if what == 'call':
            now += 1
            calls += 1
            if now > best:
                best = now
            if limit is not None and calls > limit:
                sys.setprofile(None)
                raise TooMany
        elif what == 'return':
            now -= 1
    sys.setprofile(prof)
    try:
        f()
    finally:
        sys.setprofile(None)
    return best


def check(case):
    if 'op' in case:
        f = quiet(ALL[case['op']])
        mk = lambda n: shape(case['shape'], case['head'], n)
        if case['what'] == 'depth':
            n1, n2 = case['n']
            if not 3 <= n1 < n2:
                return
            s, l = mk(n1), mk(n2)
            depth(lambda: f(s))
            d1, d2 = depth(lambda: f(s)), depth(lambda: f(l))
            want(d2 <= d1 + 5, f'{case["op"]} nests {d1} calls for {n1} levels and {d2} for {n2}')
        else:
            t = mk(case['n'])
            try:
                depth(lambda: f(t), limit=20000 + 500 * case['n']) if case['what'] == 'shared' else f(t)
            except TooMany:
                raise Fail(f'{case["op"]} does the shared parts of {case["n"]} levels again and again')
            except RecursionError:
                raise Fail(f'{case["op"]}: RecursionError for {case["n"]} levels')
        return
    counting(case)


def counting(case):
    """Every rule is applied once for every distinct subexpression."""
    t = tree(case['e'])
    ps = parts(t)
    if case['how'] in ('values', 'sym values'):
        given = {u for u in ps if not u.children and (u.value.value in ('x', 'y', 2))}
    else:
        given = set()
    log = []

    def seen(u):
        log.append(u)
        if len(log) > 3 * len(ps) + 3:
            raise Fail('rules are applied again and again')
        return u
    vals = {u: u for u in given}
    how = case['how']
    if how in ('plain', 'values', 'forward'):
        ev = Evaluator()
        if case.get('typed'):
            T = types()
            for k in 'ISF':
                ev.add_atom(T[k], lambda v, k=k: seen(Tree.atom(T[k](v))))
            for n in ('@f', '@g', '@Add', '@Mul'):
                ev.add_opn(tree(n), lambda v, n=n: seen(Tree(tree(n), *v)))
            for n in ('@sin', '@cos', '@pow'):
                ev.add_op2(tree(n), lambda *v, n=n: seen(Tree(tree(n), *v)))
        else:
            ev.add_atom_generic(seen)
        ev.add_op_generic(lambda h, v: seen(Tree(h, *v)))
        r = ev(t, vals) if how == 'values' else ev.eval_forward(t, {}) if how == 'forward' else ev(t)
    elif how == 'transformer':
        ev = Transformer()
        ev.add_atom_generic(seen)
        ev.add_op_generic(lambda h, v: seen(Tree(h, *v)))
        r = ev(t)
    else:
        ev = SymEvaluator('count')
        ev[AtomRule[a]] = AtomFunc(seen)(a)
        ev[HeadRule(a, b)] = HeadOp(lambda h, v: seen(Tree(h, *v)))(a, b)
        r = ev(Expr(t), {Expr(u): u for u in given}) if how == 'sym values' else ev(Expr(t))
    same(r, t, 'the value')
    if t in given and t.children == ():
        want(not log, 'a rule is applied to an atom with a value')
        return
    n = {}
    for u in log:
        n[u] = n.get(u, 0) + 1
    for u in ps:
        k = n.pop(u, 0)
        want(k == (0 if u in given else 1), f'rule applied {k} times to the subexpression {short(u)}')
    want(not n, 'a rule is applied to something that is not a subexpression')


def cases(rng, deadline):
    shapes = {'@f': ('left', 'right', 'middle', 'ladder', 'alternating'), '@Add': ('left', 'right', 'middle', 'ladder', 'alternating'), '@Mul': ('left', 'right', 'alternating'), '@sin': ('left',), '@pow': ('left', 'right')}
    hows = ('plain', 'values', 'forward', 'transformer', 'sym', 'sym values')
    for e in ('x', 2, ['@f', 'x', 'x'], ['@f', ['@g', 'x'], ['@g', 'x']], ['@Add', ['@f', 'x', 2], ['@Mul', ['@f', 'x', 2], 'y', ['@f', 'x', 2]]], ['@f'], ['@f', ['@f'], ['@f'], '@f'],
              {'dag': ['x'] + [['@f', f'#{i}', f'#{i}'] for i in range(40)]}, {'dag': ['x', 'y'] + [['@f', f'#{i + 1}', f'#{i}'] for i in range(40)]}):
        for how in hows:
            yield {'e': e, 'how': how}
            yield {'e': e, 'how': how, 'typed': True}
    for name in ALL:
        for head, kinds in shapes.items():
            if name in REAL and head == '@f':
                continue
            if name == 'eval_f64' and head == '@pow':
                continue
            for kind in kinds:
                if kind == 'ladder' and name in TEXT:
                    continue
                if name in ('diff', 'matrix diff', 'derivative by rules') and kind in ('middle', 'ladder', 'alternating'):
                    continue
                yield {'op': name, 'head': head, 'shape': kind, 'what': 'depth', 'n': [6, 70]}
    for name in OPS | {n: f for n, f in REAL.items()}:
        for head in ('@f', '@Add', '@Mul'):
            if name in REAL and head == '@f' or name == 'count_ops_tree' and False:
                continue
            yield {'op': name, 'head': head, 'shape': 'shared', 'what': 'shared', 'n': 24}
            yield {'op': name, 'head': head, 'shape': 'ladder', 'what': 'shared', 'n': 24}
    for name in ALL:
        for head, kind in (('@Add', 'left'), ('@Add', 'right'), ('@sin', 'left')):
            if name not in TEXT or head == '@sin':
                yield {'op': name, 'head': head, 'shape': kind, 'what': 'deep', 'n': 1500 if name in TEXT or 'diff' in name or 'deriv' in name else 4000}
    while True:
        for _ in range(20):
            e = rand_pool(rng, rng.randint(1, 20), heads=('@Add', '@Mul', '@pow', '@f', '@sin', '@g'))[-1]
            yield {'e': e, 'how': rng.choice(hows), 'typed': rng.random() < .5}
        name = rng.choice(list(ALL))
        head = rng.choice([h for h in shapes if not (name in REAL and h == '@f' or name == 'eval_f64' and h == '@pow')])
        kind = rng.choice([k for k in shapes[head] if not (k == 'ladder' and name in TEXT) and not (name in ('diff', 'matrix diff', 'derivative by rules') and k in ('middle', 'ladder', 'alternating'))])
        n = rng.randint(4, 30)
        yield {'op': name, 'head': head, 'shape': kind, 'what': 'depth', 'n': [n, n + rng.randint(10, 100)]}


if __name__ == '__main__':
    main(cases, check, 'call depth of every operation for expressions of up to 130 levels (6 shapes), success for 1500 to 4000 levels, counts of rule applications for random expressions of at most 20 operations and shared towers of 40 levels')
