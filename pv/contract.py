"""Contracts, verification tasks and obligation discharge."""
from __future__ import annotations
import importlib, os, signal, sys, time, traceback, multiprocessing as mp, json
import z3
from . import smt, src
from .interp import *
from .execu import Exec
from .types import *
from . import models


DEADLINE = None
EXPLORE_LIMIT = 240
STOPFILE = None         # result of the concrete cross-check; once it has failed the proofs get GRACE more seconds
GRACE = 60
_stop = {}


def deadline():
    d = DEADLINE
    if STOPFILE is not None and 'at' not in _stop:
        try:
            with open(STOPFILE) as fh:
                txt = fh.read()
            failed = '"status": "failed"' in txt
            _stop['at'] = os.path.getmtime(STOPFILE) + GRACE if failed else float('inf')
        except OSError:
            pass
    if 'at' in _stop:
        d = _stop['at'] if d is None else min(d, _stop['at'])
    return d


def late(extra=0):
    d = deadline()
    return d is not None and time.time() > d + extra


smt.LATE = late


class NS:
    def __init__(ns, /, **kw):
        ns.__dict__.update(kw)


def resolve(path):
    """'pkg.mod:Class.attr' -> (object, owner) or None."""
    mod, _, q = path.partition(':')
    try:
        o = importlib.import_module(mod)
    except ImportError:
        return None
    owner = None
    for p in q.split('.') if q else []:
        owner = o
        if isinstance(o, type):
            a = None
            for k in o.__mro__:
                if p in k.__dict__:
                    a = k.__dict__[p]
                    break
            if a is None:
                return None
            if isinstance(a, (staticmethod, classmethod)):
                a = a.__func__
            elif isinstance(a, property):
                a = a.fget
            o = a
        else:
            if not hasattr(o, p):
                return None
            o = getattr(o, p)
    return o


class Contract:
    """Specification of one real function.

    target     'module:qualname'
    variants   names of the argument shapes the body is verified for
    setup      -> (args, kwargs): arbitrary arguments satisfying the types
    view       bound arguments -> namespace of logical values
    pre/post   lists of (label, formula)
    raises     [(exception class, condition)]: raised exactly when it holds
    result     the value a caller gets (fresh, then post is assumed)
    """
    target = None
    name = None
    variants = ('',)
    loops = ()
    optional = False         # callers may inline when absent
    at_calls = True          # replace calls by the contract
    allow_recursion = ()
    fresh_result = False
    evaluates = False        # counted in C21: the evaluation of a whole expression
    recursive = False

    def __init__(self):
        self.fn = resolve(self.target)
        self.name = self.name or self.target.split(':')[1]

    def setup(self, E, variant):
        raise NotImplementedError

    def view(self, E, b):
        return NS(**b)

    def pre(self, E, a):
        return []

    def ghost(self, E, a):
        """Facts assumed only while verifying the body (arbitrary ghost values)."""
        return []

    def post(self, E, a, res):
        return []

    def raises(self, E, a):
        return []

    def may_raise(self, E, a):
        """[(exception class, condition)]: raised only when it holds."""
        return []

    def result(self, E, a):
        raise NotImplementedError

    def modifies(self, E, a):
        return ()

    def body(self, E, args, kwargs):
        return E.call_fn(self.fn, args, kwargs)

    def loopspecs(self):
        return list(self.loops)

    def finish(self, E, a):
        """Extra obligations at normal exit."""

    # -- use at a call site ----------------------------------------------------
    def applicable(self, E, b):
        return True

    def bind(self, E, args, kwargs):
        node = src.func_node(self.fn)
        d = [Con(x) for x in (self.fn.__defaults__ or ())]
        kd = {k: Con(v) for k, v in (self.fn.__kwdefaults__ or {}).items()}
        return E.bind(node, args, kwargs, d, kd)

    def used(self, E, args, kwargs):
        return type(self).applicable is Contract.applicable or self.applicable(E, self.bind(E, args, kwargs))

    def apply(self, E, o, args, kwargs):
        b = self.bind(E, args, kwargs)
        if not self.applicable(E, b):
            return E.call_fn(o, args, kwargs)
        E.tick('evaluations' if self.evaluates else '')
        a = self.view(E, b)
        E.calls_used.add(self.name)
        for lab, f in self.pre(E, a):
            E.emit(f, f'precondition of {self.name}: {lab}', 'pre')
            E.assume(f)
        for cls, cond in self.raises(E, a):
            if isinstance(cond, bool):
                if cond:
                    raise PyExc(cls, f'{self.name} raises')
                continue
            E.require(Not(cond), cls, f'{self.name} does not raise {cls.__name__}')
        for cls, cond in self.may_raise(E, a):
            if E.branch(And(cond, E.fresh('raises', B))):
                raise PyExc(cls, f'{self.name} raises')
        for cell in self.modifies(E, a):
            raise Unsupported('modifying contract')
        res = self.result(E, a)
        for lab, f in self.post(E, a, res):
            E.assume(f)
        return res


class LemmaTask:
    """A fact about the specification functions, proved by induction on height etc."""
    name = 'lemma'
    variants = ('',)

    def obligations(self, variant):
        """-> [(label, hyps, goal)]"""
        raise NotImplementedError


class CheckTask:
    """Arbitrary verification code run in the engine (rule tables, structure)."""
    name = 'check'
    variants = ('',)
    loops = ()
    at_calls = True
    recursive = False
    allow_recursion = ()

    def loopspecs(self):
        return list(self.loops)

    def run(self, E, variant):
        raise NotImplementedError


def build_registry(contracts, exclude=None):
    reg = {}
    for c in contracts:
        if (c is exclude and not c.recursive) or c.fn is None or not c.at_calls:
            continue
        reg[id(c.fn)] = c
    return reg


def explore_task(task, variant, contracts):
    """-> dict with obligations (not yet discharged) and bookkeeping."""
    out = {'task': task.name, 'variant': variant, 'failures': [], 'paths': 0, 'obls': [], 'inlined': [], 'calls': [], 'notes': [], 'covers': []}
    t0 = time.time()
    if isinstance(task, LemmaTask):
        try:
            for lab, hy, goal in task.obligations(variant):
                out['obls'].append(Obl(list(hy), goal, lab, task.name, 'lemma'))
        except Exception as ex:
            out['failures'].append(('lemma cannot be stated', f'{type(ex).__name__}: {ex}'))
        out['explore_s'] = time.time() - t0
        return out
    isC = isinstance(task, Contract)
    kinds = getattr(task, 'kinds', None)
    if isC and task.fn is None:
        out['failures'].append((f'{task.name} exists', f'{task.target} not found'))
        out['explore_s'] = 0
        return out
    E = Exec(build_registry(contracts, task if isC else None), task)
    E.loopspecs = task.loopspecs()
    E.t_limit = t0 + EXPLORE_LIMIT
    E.allow_recursion = set(task.allow_recursion)
    covers = []

    def thunk():
        E.loc = task.name
        if not isC:
            if kinds:
                watch(E, task)
            task.run(E, variant)
            if kinds:
                E.emit(BoolVal(E.maxdepth <= 60), 'the depth of inlined calls is bounded', 'depth')
            covers.append(E.hyps())
            return
        args, kwargs = task.setup(E, variant)
        b = task.bind(E, args, kwargs)
        a = task.view(E, b)
        a.variant = variant
        E.ctx = a
        for lab, f in task.pre(E, a):
            E.assume(f)
        for lab, f in task.ghost(E, a):
            E.assume(f)
        rs = task.raises(E, a)
        mr = task.may_raise(E, a)
        E.raises = tuple(c for c, _ in rs + mr)
        pre = {c: E.content(c) for c in list(E.heap)}
        mod = set(task.modifies(E, a))
        res = None
        try:
            res = task.body(E, args, kwargs)
        except PyExc as ex:
            E.loc = f'{task.name} (exceptional exit)'
            conds = [cond for c, cond in rs + mr if issubclass(ex.cls, c)]
            if not conds:
                E.emit(BoolVal(False), f'no {ex.cls.__name__} ({ex.why})', 'safety')
            else:
                cs = [BoolVal(c) if isinstance(c, bool) else c for c in conds]
                E.emit(Or(*cs) if len(cs) > 1 else cs[0], f'{ex.cls.__name__} only when specified ({ex.why})', 'raises')
            if kinds and not conds and issubclass(ex.cls, AttributeError):
                E.emit(BoolVal(False), f'the objects involved have no attributes beyond those of their contract ({ex.why})', kinds[0])
            frame(E, pre, set(), task)      # an operation that fails changes nothing
            if kinds:
                E.emit(BoolVal(True), 'nothing outside the call is written', 'frame')
            covers.append(E.hyps())
            return
        E.loc = f'{task.name} (exit)'
        for c, cond in rs:
            E.emit(Not(cond) if not isinstance(cond, bool) else BoolVal(not cond), f'{c.__name__} raised when specified', 'raises')
        for lab, f in task.post(E, a, res):
            E.emit(f, lab, 'post')
        task.finish(E, a)
        frame(E, pre, mod, task)
        if task.fresh_result or kinds and not getattr(task, 'returns_given', False):
            fresh(E, res, pre)
        if kinds:
            E.emit(BoolVal(True), 'nothing outside the call is written', 'frame')
            E.emit(BoolVal(E.maxdepth <= 60), 'the depth of inlined calls is bounded', 'depth')
        covers.append(E.hyps())

    try:
        E.explore(thunk)
    except Unsupported as ex:
        out['failures'].append(('within the verified subset', f'{E.loc}: {ex}'))
    except src.SourceMismatch as ex:
        out['failures'].append(('source is the running code', str(ex)))
    except PyExc as ex:
        out['failures'].append((f'no {ex.cls.__name__}', f'{E.loc}: {ex.why}'))
    except RecursionError:
        out['failures'].append(('within the verified subset', 'recursion'))
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        out['failures'].append(('within the verified subset', f'{E.loc}: {type(ex).__name__}: {ex} [{tb.name}:{tb.lineno}]'))
        if os.environ.get('PV_DEBUG') == '2':
            traceback.print_exc()
    out['paths'] = E.npaths
    out['obls'] = [o for o in E.obls.values() if not kinds or o.kind in kinds]
    out['inlined'] = sorted({f'{f.__module__}.{f.__qualname__}' for f in E.inlined})
    out['calls'] = sorted(E.calls_used)
    out['notes'] = sorted(E.notes)
    out['trusted'] = sorted(E.trusted)
    out['covers'] = covers
    out['explore_s'] = time.time() - t0
    return out


def watch(E, task):
    """Frame obligations for every call that a verification task makes."""
    inner, depth = type(E).call, [0]

    def call(f, args, kwargs):
        if depth[0]:
            return inner(E, f, args, kwargs)
        depth[0] = 1
        pre = {c: E.content(c) for c in list(E.heap)}
        loc = E.loc
        ok = False
        try:
            r = inner(E, f, args, kwargs)
            ok = True
            return r
        except PyExc:
            ok = True
            raise
        finally:
            depth[0] = 0
            if ok:
                E.loc = task.name
                frame(E, pre, set(getattr(task, 'mutable', lambda E, f, args: ())(E, f, args)), task)
                E.emit(BoolVal(True), 'nothing outside the call is written', 'frame')
                E.loc = loc
    E.call = call


def frame(E, pre, mod, task):
    for c, rec in pre.items():
        if c in mod or c not in E.heap:
            continue
        now = E.content(c)
        if now is rec:
            continue
        try:
            if isinstance(rec, ObjC):
                for k in now.fields:
                    if k not in rec.fields:
                        E.emit(BoolVal(False), f'no attribute {k} is added to an argument object', 'frame')
                for k in rec.fields:
                    if k not in now.fields or not E_same(E, rec.fields[k], now.fields[k]):
                        E.emit(BoolVal(False), f'argument object field {k} is not modified', 'frame')
                continue
            ty, t0 = E.rec_type_term(rec)
            ty2, t1 = E.rec_type_term(E.listc(now, ty))
            E.emit(t0 == t1, 'arguments are not modified', 'frame')
        except Unsupported:
            E.emit(BoolVal(False), 'arguments are not modified', 'frame')


def E_same(E, a, b):
    from .execu import same_value
    return same_value(a, b)


def fresh(E, res, pre):
    if isinstance(res, Ref):
        E.emit(BoolVal(res.cell not in pre and not isinstance(E.heap[res.cell], Fwd)), 'the result is a new object', 'frame')
    elif isinstance(res, TupV):
        for x in res.items:
            fresh(E, x, pre)


# ---- discharge ---------------------------------------------------------------
def discharge(o, timeout=None):
    st, back, secs, txt = smt.check_obl(o.hyps, o.goal)
    return st, back, secs, txt


def vacuous(out):
    """A task is suspicious if no exit is reachable."""
    if not out['covers']:
        return 'no path reaches the end of the function'
    for hy in out['covers'][:8]:
        if not smt.quick_unsat(hy, ms=1500):
            return None
    return 'every path contradicts the assumptions'


def work(job):
    task, variant, contracts, sem, tmo = job
    out = explore_task(task, variant, contracts)
    res = {k: v for k, v in out.items() if k not in ('obls', 'covers')}
    res['obligations'] = []
    for lab, why in out['failures']:
        res['obligations'].append(dict(label=lab, where=task.name, kind='engine', status='failed', detail=why, backend='engine', secs=0.0))
    if not isinstance(task, LemmaTask) and not out['failures']:
        v = vacuous(out)
        if v:
            res['obligations'].append(dict(label='specification is satisfiable', where=task.name, kind='vacuity', status='failed', detail=v, backend='z3', secs=0.0))
    obls = out['obls']
    if not obls and not out['failures'] and not getattr(task, 'kinds', None):
        res['obligations'].append(dict(label='at least one obligation', where=task.name, kind='vacuity', status='failed', detail='none generated', backend='engine', secs=0.0))
    n = len(obls)
    k = min(8, max(1, n // 6))
    parts = []
    ctx = mp.get_context('fork')
    pipes, found = [], {}
    for p in range(k):
        r, w = ctx.Pipe(False)
        pr = ctx.Process(target=part, args=(obls[p::k], w, sem))
        pr.start()
        w.close()
        pipes.append((r, pr, p))
    for r, pr, p in pipes:
        try:
            got = r.recv()
        except EOFError:
            got = [dict(label=o.label, where=o.where, kind=o.kind, status='failed', detail='solver process died', backend='none', secs=0.0) for o in obls[p::k]]
        pr.join()
        found[p] = got
    again = [(p, i) for p, got in found.items() for i, d in enumerate(got) if d['kind'] != 'engine' and d['status'] != 'proved' and not d['detail'].startswith('time limit')]
    if again and len(again) <= 4 and not late():      # a busy machine: once more, with more time and other seeds
        pipes = []
        for p, i in again:
            r, w = ctx.Pipe(False)
            pr = ctx.Process(target=part, args=([obls[p::k][i]], w, None, smt.LAST))
            pr.start()
            w.close()
            pipes.append((r, pr, p, i))
        for r, pr, p, i in pipes:
            try:
                got = r.recv()
                if got[0]['status'] == 'proved':
                    found[p][i] = got[0]
            except EOFError:
                pass
            pr.join()
    for p in sorted(found):
        res['obligations'].extend(found[p])
    return res


def part(obls, w, sem, cfgs=None):
    out, nfail = [], 0
    for o in obls:
        if sem is not None:
            sem.acquire()
        try:
            cfg = cfgs or (smt.CONFIGS[:1] if nfail >= 2 else None)
            st, back, secs, txt = ('time limit', 'none', 0.0, None) if late() else smt.check_obl(o.hyps, o.goal, cfg)
        except Exception as ex:
            st, back, secs, txt = f'error {type(ex).__name__}: {ex}', 'none', 0.0, None
        finally:
            if sem is not None:
                sem.release()
        d = dict(label=o.label, where=o.where, kind=o.kind, status='proved' if st == 'proved' else 'failed', detail='' if st == 'proved' else st, backend=back, secs=round(secs, 3))
        if st != 'proved':
            nfail += 1
            d['goal'] = str(o.goal)[:1500]
            d['smt2'] = (txt or '')[:200000]
        out.append(d)
    w.send(out)
    w.close()


def run_tasks(tasks, contracts, ncpu=8, verbose=False):      # a task may bring its own contracts
    """tasks: [(task, variant)] -> results (in order)."""
    ctx = mp.get_context('fork')
    sem = ctx.Semaphore(ncpu)
    pending = list(enumerate(tasks))
    running, results = [], {}
    while pending or running:
        while pending and len(running) < ncpu:
            n, (t, v) = pending.pop(0)
            r, w = ctx.Pipe(False)
            pr = ctx.Process(target=_wrap, args=((t, v, getattr(t, 'own_contracts', None) or contracts, sem, None), w))
            pr.start()
            w.close()
            running.append((n, r, pr, t, v))
        ready = mp.connection.wait([r for _, r, _, _, _ in running], timeout=5)
        if late(45):
            for n, r, pr, t, v in running:
                if r not in ready:
                    try:
                        os.killpg(pr.pid, signal.SIGKILL)
                    except OSError:
                        pr.kill()
            for n, (t, v) in pending:
                results[n] = dict(task=t.name, variant=v, obligations=[dict(label='verification finished', where=t.name, kind='engine', status='failed', detail='time limit', backend='none', secs=0.0)], inlined=[], calls=[], notes=[], paths=0, explore_s=0, failures=[])
            pending = []
        for item in list(running):
            n, r, pr, t, v = item
            if r in ready:
                try:
                    results[n] = r.recv()
                except EOFError:
                    results[n] = dict(task=t.name, variant=v, obligations=[dict(label='verification finished', where=t.name, kind='engine', status='failed', detail='time limit' if late(45) else 'verifier process died', backend='none', secs=0.0)], inlined=[], calls=[], notes=[], paths=0, explore_s=0, failures=[])
                pr.join()
                running.remove(item)
                if verbose:
                    x = results[n]
                    bad = [o for o in x['obligations'] if o['status'] != 'proved']
                    print(f"  {t.name}[{v}]: {len(x['obligations'])} obligations, {len(bad)} failed, {x['paths']} paths, explore {x['explore_s']:.1f}s", flush=True)
    return [results[n] for n in range(len(tasks))]


def _wrap(job, w):
    os.setpgrp()
    try:
        w.send(work(job))
    except Exception as ex:
        traceback.print_exc()
        t = job[0]
        w.send(dict(task=t.name, variant=job[1], obligations=[dict(label='verification finished', where=t.name, kind='engine', status='failed', detail=f'{type(ex).__name__}: {ex}', backend='none', secs=0.0)], inlined=[], calls=[], notes=[], paths=0, explore_s=0, failures=[]))
    w.close()
