"""Search for contradictions among the assumptions (offline; not part of the checks).

vac.py PROP... : for the exits of every function task and the hypotheses of every lemma, several solver runs try to
derive False; a contradiction is printed with the assumptions it needs.  A dead path shows up too: its core
contains the branch conditions.
"""
import sys, os, time, multiprocessing as mp
sys.path.insert(0, '/verif')
sys.path.insert(0, os.environ.get('PVREPO', '/repo') + '/src')
from pv import props, smt, contract
from pv.contract import LemmaTask
import z3

SEEDS, SECS = int(os.environ.get('SEEDS', 4)), int(os.environ.get('SECS', 6))


def attempt(fs, seed):
    s = z3.SimpleSolver() if seed % 2 else z3.Solver()
    if seed % 4 == 3:
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    s.set('smt.random_seed', 31 * seed + 4)
    s.set('timeout', SECS * 1000)
    ps = [z3.Bool(f'P{i}') for i in range(len(fs))]
    for p, f in zip(ps, fs):
        s.add(z3.Implies(p, f))
    if s.check(*ps) == z3.unsat:
        return [fs[int(str(c)[1:])] for c in s.unsat_core()]


def one(job):
    prop, k = job
    p = props.get(prop)
    t, v = p.tasks[k]
    out, todo = [], []
    if isinstance(t, LemmaTask):
        todo = [(lab, list(hy)) for lab, hy, g in t.obligations(v)]
    else:
        o = contract.explore_task(t, v, p.contracts)
        todo = [(f'exit {n}', hy) for n, hy in enumerate(o['covers'][:4])]
    for lab, hy in todo:
        fs = smt.full(hy)
        for seed in range(SEEDS):
            core = attempt(fs, seed)
            if core is not None:
                out.append((lab, [str(c)[:700] for c in core]))
                break
    return prop, t.name, v, len(todo), out


if __name__ == '__main__':
    seen, jobs = set(), []
    for prop in sys.argv[1:]:
        for k, (t, v) in enumerate(props.get(prop).tasks):
            key = (type(t).__module__, type(t).__name__, t.name, v)
            if key not in seen:
                seen.add(key)
                jobs.append((prop, k))
    with mp.get_context('spawn').Pool(int(os.environ.get('JOBS', 6)), maxtasksperchild=1) as pool:
        for prop, name, v, n, out in pool.imap_unordered(one, jobs, chunksize=1):
            print(f'{prop} {name}[{v}]: {n} looked at, {len(out)} contradictory', flush=True)
            for lab, core in out:
                print('   ***', lab, 'core of', len(core))
                for c in core:
                    print('        ', c.replace('\n', ' '))
