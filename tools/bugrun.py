"""Run the checks against the planted bugs: python3 tools/bugrun.py [ID...] [--check Cxx]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    k = f'{ROOT}/seeded/{i}'
    pid = json.load(open(k + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='bugrun-')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['git', 'apply', k + '/patch.diff'], cwd=d + '/r', check=True)
        p = subprocess.run(['python3-vt', 'check.py', pid], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, PVREPO=d + '/r', PVEVIDENCE=d + '/ev'))
        lines = p.stdout.strip().splitlines()
        head = next((l for l in lines if 'obligations discharged' in l), '')
        undis = [l.strip() for l in lines if 'undischarged:' in l]
        return f'{i}: exit {p.returncode} {lines[-1] if lines else p.stderr[-300:]}\n    {head}\n    ' + '\n    '.join(u[:220] for u in undis[:3]) + '\n    ' + ' '.join(l.strip()[:300] for l in lines if 'failing input' in l or 'observed' in l)
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(os.listdir(f'{ROOT}/seeded'))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
