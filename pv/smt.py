"""SMT layer: sorts, the axiomatised sequence theory, and obligation discharge.

Everything the verifier asserts is first order: uninterpreted sorts with
quantified axioms (instantiated by explicit triggers), linear integer
arithmetic, arrays for sets and dictionaries, and datatypes for tuples.
"""
from __future__ import annotations
import subprocess, tempfile, time, os
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, BoolVal, IntVal, Const,
                Function, DeclareSort, IntSort, BoolSort, ArraySort, Select, Store,
                IntNumRef, BoolRef, MultiPattern, is_app, is_quantifier, is_var)

TreeS = DeclareSort('Tree')
AtomS = DeclareSort('Atom')
ATypeS = DeclareSort('AType')
ValS = DeclareSort('PyVal')
StrS = DeclareSort('PyStr')
I = IntSort()
B = BoolSort()


QIDS = {} if os.environ.get('PV_PROF') else None


def pat(*ts):
    return MultiPattern(*ts) if len(ts) > 1 else ts[0]


def fa(vs, body, *pats, qid=None):
    """ForAll with explicit triggers (each trigger a term or a tuple of terms)."""
    ps = [pat(*p) if isinstance(p, tuple) else p for p in pats]
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    kw = {}
    if ps:
        kw['patterns'] = ps
    if QIDS is not None:
        qid = f'Q{len(QIDS)}'
        QIDS[qid] = str(body)[:300].replace('\n', ' ') + '   @@ ' + str(ps)[:150].replace('\n', ' ')
    if qid:
        kw['qid'] = qid
    return ForAll(list(vs), body, **kw)


def touch(t):
    """A trivially true fact that puts the term t into the solver."""
    return Function(f'touch:{t.sort()}', t.sort(), B)(t)


IMUL = Function('product', I, I, I)


def imul(x, y):
    """x*y; a product of two unknown integers stays uninterpreted (only commutativity is used)."""
    x, y = (z3.IntVal(v) if isinstance(v, int) else v for v in (x, y))
    if z3.is_int_value(z3.simplify(x)) or z3.is_int_value(z3.simplify(y)):
        return x * y
    x, y = z3.simplify(x), z3.simplify(y)
    return IMUL(*sorted((x, y), key=lambda t: t.sexpr()))


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Axioms:
    """name-of-symbol -> axioms; only those whose symbols occur are used."""

    def __init__(self):
        self.by_symbol = {}      # decl name -> list of formulas

    def add(self, symbols, *formulas):
        if isinstance(symbols, str):
            symbols = [symbols]
        for s in symbols:
            self.by_symbol.setdefault(s, []).extend(formulas)


AX = Axioms()


class SeqTh:
    _all = {}

    def __new__(cls, elem):
        key = elem.name() if not isinstance(elem, z3.ArraySortRef) else str(elem)
        key = key.replace(' ', '').replace('(', '<').replace(')', '>')
        if key in cls._all:
            return cls._all[key]
        self = object.__new__(cls)
        cls._all[key] = self
        self.elem = elem
        n = self.name = 'Seq<' + key + '>'
        S = self.S = DeclareSort(n)
        F = lambda nm, *a: Function(nm + ':' + key, *a)
        self.len = F('len', S, I)
        self.at = F('at', S, I, elem)
        self.empty = Const('empty:' + key, S)
        self.snoc = F('snoc', S, elem, S)
        self.cat = F('cat', S, S, S)
        self.take = F('take', S, I, S)
        self.drop = F('drop', S, I, S)
        self.rev = F('rev', S, S)
        self.upd = F('upd', S, I, elem, S)
        self.rep = F('rep', elem, I, S)
        self.mem = F('mem', S, elem, B)
        self.idx = F('idx', S, elem, I)
        SeqTh.by_sort[S.name()] = self
        s, s2 = Const('s', S), Const('s2', S)
        x = Const('x', elem)
        i, j, k = z3.Ints('i j k')
        L, at = self.len, self.at
        AX.add(L.name(), fa(s, L(s) >= 0, L(s)),
               fa(s, Implies(L(s) == 0, s == self.empty), L(s)))
        AX.add(self.empty.decl().name(), L(self.empty) == 0)
        sn = self.snoc(s, x)
        AX.add(self.snoc.name(),
               fa([s, x], And(L(sn) == L(s) + 1, at(sn, L(s)) == x), sn),
               fa([s, x, i], Implies(And(0 <= i, i < L(s)), at(sn, i) == at(s, i)),
                  at(sn, i), (sn, at(s, i))))
        c = self.cat(s, s2)
        AX.add(self.cat.name(),
               fa([s, s2], L(c) == L(s) + L(s2), c),
               fa([s, s2, i], Implies(And(0 <= i, i < L(c)),
                                      at(c, i) == If(i < L(s), at(s, i), at(s2, i - L(s)))), at(c, i)),
               fa([s, s2, i], Implies(And(0 <= i, i < L(s)), at(c, i) == at(s, i)), (c, at(s, i))),
               fa([s, s2, i], Implies(And(0 <= i, i < L(s2)), at(c, i + L(s)) == at(s2, i)), (c, at(s2, i))))
        t = self.take(s, j)
        AX.add(self.take.name(),
               fa([s, j], Implies(0 <= j, L(t) == If(j <= L(s), j, L(s))), t),
               fa([s, j, i], Implies(And(0 <= i, i < j, i < L(s)), at(t, i) == at(s, i)),
                  at(t, i), (t, at(s, i))))
        d = self.drop(s, j)
        AX.add(self.drop.name(),
               fa([s, j], Implies(0 <= j, L(d) == If(j <= L(s), L(s) - j, 0)), d),
               fa([s, j, i], Implies(And(0 <= i, 0 <= j, i + j < L(s)), at(d, i) == at(s, i + j)), at(d, i)),
               fa([s, j, i], Implies(And(0 <= j, j <= i, i < L(s)), at(d, i - j) == at(s, i)), (d, at(s, i))))
        AX.add(self.cat.name(), fa(s, self.cat(self.empty, s) == s, self.cat(self.empty, s)),
               fa(s, self.cat(s, self.empty) == s, self.cat(s, self.empty)))
        r = self.rev(s)
        AX.add(self.rev.name(),
               fa(s, L(r) == L(s), r),
               fa([s, i], Implies(And(0 <= i, i < L(s)), at(r, i) == at(s, L(s) - 1 - i)), at(r, i)),
               fa([s, i], Implies(And(0 <= i, i < L(s)), at(r, L(s) - 1 - i) == at(s, i)), (r, at(s, i))))
        u = self.upd(s, j, x)
        AX.add(self.upd.name(),
               fa([s, j, x], L(u) == L(s), u),
               fa([s, j, x], Implies(And(0 <= j, j < L(s)), at(u, j) == x), u),
               fa([s, j, x, i], Implies(And(0 <= i, i < L(s), i != j), at(u, i) == at(s, i)),
                  at(u, i), (u, at(s, i))))
        p = self.rep(x, j)
        AX.add(self.rep.name(),
               fa([x, j], L(p) == If(j < 0, 0, j), p),
               fa([x, j, i], Implies(And(0 <= i, i < j), at(p, i) == x), at(p, i)))
        m = self.mem(s, x)
        AX.add([self.mem.name()],
               fa([s, x], Implies(m, And(0 <= self.idx(s, x), self.idx(s, x) < L(s),
                                         at(s, self.idx(s, x)) == x)), m),
               fa([s, i], Implies(And(0 <= i, i < L(s)), self.mem(s, at(s, i))), at(s, i)))
        return self

    def lit(self, items):
        t = self.empty
        for it in items:
            t = self.snoc(t, it)
        return t


SeqTh.by_sort = {}


def seq_of(term):
    return SeqTh.by_sort.get(term.sort().name())


# ---- tree theory --------------------------------------------------------
TS = SeqTh(TreeS)
kids = Function('kids', TreeS, TS.S)
mk = Function('mk', TS.S, TreeS)
isatom = Function('isatom', TreeS, B)
height = Function('height', TreeS, I)
aval = Function('aval', TreeS, AtomS)
mkleaf = Function('mkleaf', AtomS, TreeS)
atype = Function('atype', AtomS, ATypeS)
avalue = Function('avalue', AtomS, ValS)
mkatom = Function('mkatom', ATypeS, ValS, AtomS)
_t = Const('t', TreeS)
_s = Const('s', TS.S)
_a = Const('a', AtomS)
_ty = Const('ty', ATypeS)
_v = Const('v', ValS)
_i = z3.Int('i')
AX.add('kids', fa(_t, isatom(_t) == (TS.len(kids(_t)) == 0), kids(_t)),
       fa(_t, Implies(Not(isatom(_t)), mk(kids(_t)) == _t), kids(_t)))
AX.add('isatom', fa(_t, isatom(_t) == (TS.len(kids(_t)) == 0), isatom(_t)))
AX.add('mk', fa(_s, Implies(TS.len(_s) >= 1, And(kids(mk(_s)) == _s, Not(isatom(mk(_s))))), mk(_s)))
AX.add('height', fa(_t, height(_t) >= 0, height(_t)),
       fa([_t, _i], Implies(And(0 <= _i, _i < TS.len(kids(_t))),
                            height(TS.at(kids(_t), _i)) < height(_t)), TS.at(kids(_t), _i)))
AX.add('mkleaf', fa(_a, And(isatom(mkleaf(_a)), aval(mkleaf(_a)) == _a), mkleaf(_a)))
AX.add('aval', fa(_t, Implies(isatom(_t), mkleaf(aval(_t)) == _t), aval(_t)))
AX.add('mkatom', fa([_ty, _v], And(atype(mkatom(_ty, _v)) == _ty, avalue(mkatom(_ty, _v)) == _v), mkatom(_ty, _v)))
AX.add(['atype', 'avalue'], fa(_a, mkatom(atype(_a), avalue(_a)) == _a, atype(_a), avalue(_a)))


def head(t):
    return TS.at(kids(t), IntVal(0))


def targs(t):
    return TS.drop(kids(t), IntVal(1))


def nargs(t):
    return TS.len(kids(t)) - 1


def arg(t, i):
    return TS.at(kids(t), i + 1)


# ---- tuples --------------------------------------------------------------
_tups = {}


def tupsort(sorts):
    key = '(' + ','.join(str(s) for s in sorts) + ')'
    if key not in _tups:
        D = z3.Datatype('Tup' + key.replace(' ', ''))
        D.declare('tup' + key.replace(' ', ''), *[(f'p{n}:' + key.replace(' ', ''), s) for n, s in enumerate(sorts)])
        D = D.create()
        _tups[key] = (D, D.constructor(0), [D.accessor(0, n) for n in range(len(sorts))])
    return _tups[key]


_dicts = {}


def dictsort(k, v):
    key = f'{k}->{v}'.replace(' ', '')
    if key not in _dicts:
        D = z3.Datatype('Dict<' + key + '>')
        D.declare('mkdict' + key, ('dom' + key, ArraySort(k, B)), ('val' + key, ArraySort(k, v)))
        D = D.create()
        _dicts[key] = (D, D.constructor(0), D.accessor(0, 0), D.accessor(0, 1))
    return _dicts[key]


_opts = {}


def optsort(s):
    key = str(s).replace(' ', '')
    if key not in _opts:
        D = z3.Datatype('Opt<' + key + '>')
        D.declare('none:' + key)
        D.declare('some:' + key, ('unsome:' + key, s))
        D = D.create()
        _opts[key] = D
    return _opts[key]


# ---- symbols used in a formula -----------------------------------------
def symbols(formulas):
    seen, out, todo = set(), set(), list(formulas)
    while todo:
        f = todo.pop()
        h = f.get_id()
        if h in seen:
            continue
        seen.add(h)
        if is_quantifier(f):
            todo.append(f.body())
            for n in range(f.num_patterns()):
                todo.extend(f.pattern(n).children())
        elif is_app(f):
            out.add(f.decl().name())
            todo.extend(f.children())
    return out


def relevant_axioms(formulas, extra=()):
    """All axioms whose symbols occur (transitively)."""
    done, out, ids = set(), [], set()
    todo = symbols(formulas)
    while todo:
        s = todo.pop()
        if s in done:
            continue
        done.add(s)
        for ax in AX.by_symbol.get(s, ()):
            if ax.get_id() not in ids:
                ids.add(ax.get_id())
                out.append(ax)
                todo |= symbols([ax]) - done
    return out


def skolemise(goal, names=None):
    """Peel a goal into a list of (hypotheses, quantifier free-ish goal)."""
    out = []

    def go(hyps, g):
        if z3.is_and(g):
            for c in g.children():
                go(hyps, c)
        elif z3.is_implies(g):
            go(hyps + [g.arg(0)], g.arg(1))
        elif is_quantifier(g) and g.is_forall():
            cs = [Const(f'sk!{g.var_name(n)}!{uid()}', g.var_sort(n)) for n in range(g.num_vars())]
            go(hyps, z3.substitute_vars(g.body(), *reversed(cs)))
        elif z3.is_not(g) and z3.is_or(g.arg(0)):
            for c in g.arg(0).children():
                go(hyps, Not(c))
        elif z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == B:
            go(hyps + [g.arg(0)], g.arg(1))
            go(hyps + [Not(g.arg(0))], g.arg(2))
        elif z3.is_eq(g) and g.arg(0).sort() == B and (z3.is_quantifier(g.arg(0)) or z3.is_quantifier(g.arg(1))):
            go(hyps + [g.arg(0)], g.arg(1))
            go(hyps + [g.arg(1)], g.arg(0))
        elif z3.is_app(g) and g.decl().name().startswith('touch:'):
            pass                    # true by definition
        else:
            out.append((hyps, g))

    go([], goal)
    return out


def ext_goal(g):
    """Add extensionality instances for the equations in a (negated) goal."""
    extra = []
    seen = set()
    todo = [g]
    while todo:
        f = todo.pop()
        if f.get_id() in seen or is_quantifier(f):
            continue
        seen.add(f.get_id())
        if z3.is_eq(f) or z3.is_distinct(f):
            extra += ext_terms(f.arg(0), f.arg(1))
        todo.extend(f.children())
    return extra


def seq_ext(th, a, b):
    w = Const(f'w!{uid()}', I)
    return Or(a == b, th.len(a) != th.len(b),
              And(0 <= w, w < th.len(a), th.at(a, w) != th.at(b, w)))


def ext_terms(a, b, depth=0):
    out = []
    th = seq_of(a)
    if a.eq(b):
        return out
    if th is not None:
        out.append(seq_ext(th, a, b))
    elif a.sort() == TreeS:
        ka, kb = kids(a), kids(b)
        out.append(seq_ext(TS, ka, kb))
        out.append(Implies(And(isatom(a), isatom(b), aval(a) == aval(b)), a == b))
    elif a.sort().kind() == z3.Z3_ARRAY_SORT:
        x = Const(f'x!{uid()}', a.sort().domain())
        out.append(Or(a == b, Exists([x], Select(a, x) != Select(b, x))))
    if depth < 3 and is_app(a) and is_app(b) and a.decl().eq(b.decl()) and a.num_args() > 0:
        for x, y in zip(a.children(), b.children()):
            out += ext_terms(x, y, depth + 1)
    return out


def _cfg(name, secs, **o):
    opts = {'smt.mbqi': False, 'auto_config': False}
    opts.update({'smt.' + k.replace('__', '.'): v for k, v in o.items() if k != 'auto'})
    if o.get('auto'):
        del opts['auto_config']
    return dict(name=name, timeout=int(secs * 1000), opts=opts)


# Quantifier instantiation is a search: many short attempts beat one long one.
def _round(secs, seed):
    return [
        _cfg('z3-ematch', secs * 1.5, arith__solver=2, random_seed=seed),
        dict(_cfg('z3-ematch', secs, arith__solver=2, random_seed=seed), pre=True),
        _cfg('z3-ematch', secs, auto=True, random_seed=seed),
        _cfg('z3-ematch', secs, case_split=3, qi__eager_threshold=20.0, random_seed=seed + 7),
        _cfg('z3-ematch', secs, random_seed=seed + 3),
        _cfg('z3-ematch', secs, arith__solver=2, qi__max_multi_patterns=10, random_seed=seed + 5),
        _cfg('z3-ematch', secs, case_split=3, random_seed=seed + 11),
    ]


CONFIGS = _round(1, 0) + [
    dict(name='z3-mbqi', timeout=3000, opts={}, pre=True),
    dict(_cfg('z3-ematch', 3, auto=True, random_seed=13), pre=True),
] + _round(4, 100) + [
    _cfg('z3-ematch', 8, relevancy=0),
    _cfg('z3-ematch', 8, qi__eager_threshold=100.0, random_seed=23),
    dict(name='z3-mbqi', timeout=10000, opts={}, pre=True),
    _cfg('z3-ematch', 20, case_split=3, qi__eager_threshold=20.0, random_seed=29),
]

LAST = _round(6, 200) + _round(6, 300) + [
    dict(name='z3-mbqi', timeout=20000, opts={}, pre=True),
]


LATE = lambda: False


def scale_timeouts(k):
    for c in CONFIGS:
        c['timeout'] *= k


def mk_solver(cfg, timeout=None):
    # SimpleSolver: no preprocessing, which could rewrite the terms the triggers look for
    s = z3.Solver() if cfg.get('pre') else z3.SimpleSolver()
    for k, v in cfg['opts'].items():
        s.set(k, v)
    s.set('timeout', timeout or cfg['timeout'])
    return s


def check_valid(hyps, goal, quick=False, timeout=None, configs=None):
    """-> (status, backend, seconds, smt2).  status: 'proved' | 'refuted?' | 'unknown'."""
    t0 = time.time()
    neg = Not(goal)
    exts = ext_goal(goal)
    fs = full(list(hyps) + [neg] + exts)
    last = 'unknown'
    smt2 = None
    for n, cfg in enumerate(configs or (CONFIGS[:1] if quick else CONFIGS)):
        if n and LATE():
            return last + '; time limit', 'z3', time.time() - t0, None
        s = mk_solver(cfg, timeout)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return 'proved', cfg['name'], time.time() - t0, None
        last = 'sat (candidate countermodel)' if r == z3.sat else 'unknown: ' + s.reason_unknown()
        smt2 = s
    if quick:
        return last, 'z3', time.time() - t0, None
    plain = z3.SimpleSolver()
    plain.add(*fs)
    txt = plain.to_smt2()
    st = run_cvc5(txt)
    if st == 'unsat':
        return 'proved', 'cvc5', time.time() - t0, None
    return last + '; cvc5: ' + st, 'z3+cvc5', time.time() - t0, txt


def run_cvc5(txt, seconds=12):
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write('(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('(set-info')))
        r = subprocess.run(['cvc5', '--tlimit', str(seconds * 1000), fh.name], capture_output=True, text=True,
                           timeout=seconds + 10)
        out = (r.stdout or r.stderr).strip().splitlines()
        return out[0][:200] if out else 'no output'
    except Exception as ex:
        return f'{type(ex).__name__}'
    finally:
        try:
            os.unlink(fh.name)
        except OSError:
            pass


# ---- quick checks during exploration ---------------------------------------
QUICK = {'n': 0, 't': 0.0}


def quick_unsat(fs, ms=400):
    t0 = time.time()
    QUICK['n'] += 1
    s = z3.SimpleSolver()
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    s.set('smt.arith.solver', 2)
    s.set('timeout', ms)
    fs = full(fs)
    s.add(*fs)
    r = s.check() == z3.unsat
    QUICK['t'] += time.time() - t0
    return r


def distinct_facts(fs):
    """Concrete objects of one kind with different names are different."""
    groups = {}
    seen, todo = set(), list(fs)
    while todo:
        f = todo.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if is_quantifier(f):
            todo.append(f.body())
        elif is_app(f):
            if f.num_args() == 0:
                n = f.decl().name()
                p = n.split('!', 1)[0]
                if p in ('T', 'AT', 'S', 'PV', 'K') and '!' in n:
                    groups.setdefault((p, f.sort().name()), {})[n] = f
            todo.extend(f.children())
    return [z3.Distinct(*[g[k] for k in sorted(g)]) for g in groups.values() if len(g) > 1]


def full(fs):
    fs = list(fs)
    fs = relevant_axioms(fs) + fs
    return fs + distinct_facts(fs)


def seq_ext2(th, a, b, w):
    return Or(a == b, th.len(a) != th.len(b), And(0 <= w, w < th.len(a), th.at(a, w) != th.at(b, w)))


def check_obl(hyps, goal, configs=None):
    """Discharge one obligation: its goal is split into parts, each proved on its own."""
    t0 = time.time()
    back = set()
    for hs, g in skolemise(goal):
        st, b, secs, txt = check_valid(list(hyps) + hs, g, configs=configs)
        back.add(b)
        if st != 'proved':
            return st + ' :: ' + str(g)[:400], b, time.time() - t0, txt
    return 'proved', '+'.join(sorted(back)) or 'trivial', time.time() - t0, None
