from common import *
from protosym.core.tree import topological_sort, topological_split, forward_graph, Tree


def check(case):
    t = tree(case['expr'])
    X = None if case['exclude'] is None else {tree(s) for s in case['exclude']}
    X0 = None if X is None else set(X)
    ts = topological_sort(t, exclude=X)
    r = topological_split(t, exclude=X) if X is not None else topological_split(t)
    eq(X, X0, 'excluded set after the call')
    want(isinstance(r, tuple) and len(r) == 3, 'split is not a triple')
    atoms, heads, nodes = r
    eq(atoms, [e for e in ts if not e.children], 'atoms')
    eq(nodes, [e for e in ts if e.children], 'nodes')
    eq(set(heads), {e.children[0] for e in ts if e.children}, 'heads')
    want(isinstance(heads, (set, frozenset)), 'heads is not a set')
    atoms.append(t)
    nodes.clear()
    if isinstance(heads, set):
        heads.clear()
    atoms2, heads2, nodes2 = topological_split(t, exclude=X0)
    eq((atoms2, nodes2), ([e for e in ts if not e.children], [e for e in ts if e.children]), 'split after modifying an earlier result')
    if X is None:
        g = forward_graph(t)
        at = [e for e in ts if not e.children]
        nd = [e for e in ts if e.children]
        eq(list(g.atoms), at, 'graph atoms')
        eq(set(g.heads), {e.children[0] for e in nd}, 'graph heads')
        eq(len(g.operations), len(nd), 'number of operations')
        stack = list(g.atoms)
        for (h, idx), n in zip(g.operations, nd):
            same(h, n.children[0], 'operation head')
            eq(len(idx), len(n.children) - 1, 'number of indices')
            for i, c in zip(idx, n.children[1:]):
                want(0 <= i < len(stack), f'index {i} out of range {len(stack)}')
                same(stack[i], c, 'argument')
            stack.append(Tree(h, *[stack[i] for i in idx]))
        eq(stack, at + nd, 'rebuilt values')
        same(stack[-1], t, 'rebuilt expression')
        g.atoms.append(None)
        g.operations.clear()
        g2 = forward_graph(t)
        eq(list(g2.atoms), at, 'graph atoms of a second graph')
        eq(len(g2.operations), len(nd), 'operations of a second graph')


def cases(rng, deadline):
    for s in big_specs():
        yield {'expr': s, 'exclude': None}
    for s in small_specs(depth=2, heads=('@f',), maxar=2):
        yield {'expr': s, 'exclude': None}
    for s in lookalikes():
        yield {'expr': s, 'exclude': None}
        yield {'expr': s, 'exclude': [s[1]]}
    while True:
        pool = rand_pool(rng, rng.randint(1, 14))
        e = alike(rng, pool[-1]) if rng.random() < .3 else pool[-1]
        yield {'expr': e, 'exclude': None}
        yield {'expr': e, 'exclude': [rng.choice(pool) for _ in range(rng.randint(0, 3))]}


if __name__ == '__main__':
    main(cases, check, 'random expressions of at most 15 compound parts; all over {f; x,y} to depth 2; up to 130 arguments, depth 1500')
