"""check.py <property> : discharge every obligation of a property on /repo's source."""
from __future__ import annotations
import argparse, json, os, subprocess, sys, tempfile, time, shutil, importlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_DIR = os.environ.get('PVREPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


def start_oracle(pid, budget, seed, out, tmp):
    script = os.path.join(ROOT, 'oracle', f'{pid}.py')
    if not os.path.exists(script):
        return None
    env = dict(os.environ)
    env['PYTHONPATH'] = os.path.join(REPO_DIR, 'src') + os.pathsep + os.path.join(ROOT, 'oracle')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    env['PYTHONHASHSEED'] = str(seed % 4294967295)
    return subprocess.Popen([VENV_PY, script, '--budget', str(budget), '--seed', str(seed), '--out', out],
                            env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish_oracle(p, out, limit):
    if p is None:
        return None
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {'status': 'timeout', 'cases': 0}
    if os.path.exists(out):
        try:
            with open(out) as fh:
                return json.load(fh)
        except ValueError:
            pass
    return {'status': 'error', 'cases': 0, 'text': txt[-3000:]}


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'known: property={pid} '):
                out.append(line[len(f'known: property={pid} '):])
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f'pv-{pid}-')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tmp, 'pyc0')
    sys.path.insert(0, os.path.join(REPO_DIR, 'src'))
    try:
        return run(pid, a, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, a, seed, t0, tmp):
    evdir = os.environ.get('PVEVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    quick_budget = 15 if a.tier == 'quick' else 120
    search_budget = 150 if a.tier == 'quick' else 600
    oout = os.path.join(tmp, 'oracle.json')
    orc = None if a.no_oracle else start_oracle(pid, quick_budget, seed, oout, tmp)
    results, prop, load_error = [], None, None
    try:
        from . import props
        prop = props.get(pid)
        from . import contract
        contract.DEADLINE = t0 + (380 if a.tier == 'quick' else 2400)
        if a.tier == 'thorough':
            from . import smt
            smt.scale_timeouts(4)
        contract.STOPFILE = None if orc is None else oout
        contract.EXPLORE_LIMIT = 240 if a.tier == 'quick' else 1200
        results = contract.run_tasks(prop.tasks, prop.contracts, verbose=a.verbose)
    except Exception as ex:
        import traceback
        load_error = traceback.format_exc()
        if prop is None:
            results = [dict(task='load', variant='', obligations=[dict(label='the program can be loaded', where='import', kind='engine', status='failed', detail=f'{type(ex).__name__}: {ex}', backend='none', secs=0)], inlined=[], calls=[], notes=[], paths=0, explore_s=0)]
        else:
            results = [dict(task='run', variant='', obligations=[dict(label='verification finished', where='engine', kind='engine', status='failed', detail=f'{type(ex).__name__}: {ex}', backend='none', secs=0)], inlined=[], calls=[], notes=[], paths=0, explore_s=0)]
    ores = finish_oracle(orc, oout, quick_budget + 120)
    obls = [dict(o, task=r['task'], variant=r['variant']) for r in results for o in r['obligations']]
    failed = [o for o in obls if o['status'] != 'proved']
    if os.environ.get('PVOBLS'):
        with open(os.environ['PVOBLS'], 'w') as fh:
            json.dump([{k: v for k, v in o.items() if k != 'smt2'} for o in obls], fh)
    found = ores if ores and ores.get('status') == 'failed' else None
    searched = None
    if failed and not found and not a.no_oracle:
        # replay of the failed obligation against the real code: search for a failing input
        o2 = os.path.join(tmp, 'search.json')
        p = start_oracle(pid, search_budget, seed + 1000, o2, tmp)
        searched = finish_oracle(p, o2, search_budget + 90)
        if searched and searched.get('status') == 'failed':
            found = searched
    if not failed and ores is not None and ores.get('status') in ('error', 'timeout'):
        failed = [dict(label='cross-check of the real code ran', where='oracle', kind='oracle', status='failed', detail=(ores.get('text') or ores['status'])[-1500:], backend='cpython', secs=0, task='oracle', variant='')]
    wall = time.time() - t0
    write_evidence(pid, a.tier, seed, prop, results, obls, failed, ores, searched, wall, evdir, bool(failed or found))
    for k in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {k}')
    nf = sum(1 for o in obls if o['status'] == 'proved')
    print(f'{pid}: {nf}/{len(obls)} obligations discharged in {len(results)} verification tasks, '
          f'cross-check {(ores or {}).get("status", "none")} ({(ores or {}).get("cases", 0)} cases), {wall:.1f}s')
    if a.verbose or failed:
        for o in failed[:12]:
            print(f"  undischarged: [{o['task']}{'/' + o['variant'] if o['variant'] else ''}] {o['where']}: {o['label']} -- {str(o['detail'])[:300]}")
        if load_error and a.verbose:
            print(load_error)
    if not failed and not found:
        return 0
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f'{pid}.json')
    rec = {'property': pid, 'failed_obligations': failed[:20]}
    if found:
        rec['failing_input'] = found.get('case')
        rec['observed'] = found.get('observed')
        rec['how'] = f'PYTHONPATH={REPO_DIR}/src:{ROOT}/oracle {VENV_PY} {ROOT}/oracle/{pid}.py --replay {rp}'
    else:
        rec['search'] = {k: v for k, v in (searched or {}).items() if k != 'text'}
    if load_error:
        rec['traceback'] = load_error[-4000:]
    with open(rp, 'w') as fh:
        json.dump(rec, fh, indent=1, default=str)
    if found:
        print(f"  failing input: {json.dumps(found.get('case'), default=str)[:600]}")
        print(f"  observed: {str(found.get('observed'))[:600]}")
        print(f'VIOLATION property={pid} replay={rp}')
    else:
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    return 1


BASE_TRUST = [
    'pv: the obligation generator (symbolic execution of the real source of /repo) and its models of Python built-ins (pv/models.py)',
    'z3 5.3.2 and cvc5 1.1.2 when they answer unsat',
    'the axioms of the logic of finite sequences, sets, finite trees (pv/smt.py) and of the specification functions (pv/specs)',
    'CPython 3.12 compiles the source text as its language reference says (the bytecode that runs is compared with a fresh compilation of the text)',
]
BASE_ASSUME = [
    'termination: loops run over finite collections that do not change meanwhile, while loops and recursive contracts have decreasing measures (kinds inv, pre); that calls through contracts of other properties are not circular is not proved',
    'integers are mathematical, as Python integers are; floating point is treated as real arithmetic',
    'Tree children are finite and well-founded (trees are built bottom-up); class Tree, Atom, Sym objects compare by identity (checked by C01)',
    'the text of exception messages is not verified',
    'no MemoryError, KeyboardInterrupt or RecursionError is raised between statements',
]


def cycles(results):
    """Contracts whose verification uses themselves through other contracts."""
    g = {}
    for r in results:
        g.setdefault(r['task'], set()).update(r['calls'])
    out = set()
    for a in g:
        seen, todo = set(), [x for x in g[a] if x != a]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [y for y in g.get(x, ()) if y != x]
        if a in seen:
            out.add(a)
    return sorted(out)


def write_evidence(pid, tier, seed, prop, results, obls, failed, ores, searched, wall, evdir, bad):
    proved = [o for o in obls if o['status'] == 'proved']
    by = {}
    for o in proved:
        for b in o['backend'].split('+'):
            by[b] = by.get(b, 0) + 1
    kinds = {}
    for o in obls:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    cov = {
        'obligations': len(obls),
        'discharged': len(proved),
        'checker_cmd': f'python3-vt check.py {pid} --tier {tier}',
        'trusted_base': BASE_TRUST + (prop.trusted if prop else []),
        'functions_under_contract': sorted({r['task'] for r in results}),
        'tasks': [dict(task=r['task'], variant=r['variant'], obligations=len(r['obligations']), paths=r['paths'], explore_s=round(r['explore_s'], 2)) for r in results],
        'functions_executed_symbolically': sorted({f for r in results for f in r['inlined']}),
        'callee_contracts_used': sorted({f for r in results for f in r['calls']}),
        'obligations_by_kind': kinds,
        'discharged_by_backend': by,
        'solver_seconds': round(sum(o['secs'] for o in obls), 2),
        'slowest_obligation_s': max([o['secs'] for o in obls], default=0),
        'samples': [f"{o['task']}/{o['variant']} {o['where']}: {o['label']}" for o in proved[:: max(1, len(proved) // 25)]][:30],
        'undischarged': [f"{o['where']}: {o['label']}" for o in failed[:30]],
        'cross_check_bounded': {k: v for k, v in (ores or {}).items() if k in ('status', 'cases', 'distinct', 'bound')},
        'notes': sorted({n for r in results for n in r.get('notes', [])}),
    }
    cov['circular_contract_calls'] = cycles(results)
    if searched:
        cov['counterexample_search'] = {k: v for k, v in searched.items() if k in ('status', 'cases', 'distinct', 'bound')}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level if prop else 'proof', 'coverage': cov,
          'assumptions': BASE_ASSUME + (prop.assumptions if prop else []), 'wall_s': round(wall, 2), 'violations': 1 if bad else 0}
    with open(os.path.join(evdir, f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
