"""Plant bugs: python3 plant.py FILE... ; each FILE defines BUGS, a list of
dicts id, property, edits [(file, old, new)], demo (Python text), needs, what.
A bug is kept in /verif/seeded when it builds, passes the tests and its demo
fails with it and passes without it (all in a scratch copy of /repo)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
SEED = '/verif/seeded'


def run(cmd, cwd, env=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    rc, out = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--benchmark-disable', '--xdoctest', 'tests', 'benchmarks', 'src/protosym'], d, env)
    return out.strip().splitlines()[-1], out


def one(b, base):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('__pycache__'))
        r = d + '/r'
        for f, old, new in b['edits']:
            p = f'{r}/src/protosym/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{b["id"]}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        rc, diff = run(['git', 'diff'], r)
        last, out = tests(r)
        strip = lambda s: s.split(' in ')[0]
        if strip(last) != strip(base):
            return f'{b["id"]}: tests: {last}\n' + '\n'.join(l for l in out.splitlines() if l.startswith('FAILED'))[:600]
        demo = d + '/demo'
        os.makedirs(demo)
        open(demo + '/demo.py', 'w').write(b['demo'])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        a = run([PY, demo + '/demo.py'], r, dict(env, PYTHONPATH='/repo/src'))
        c = run([PY, demo + '/demo.py'], r, dict(env, PYTHONPATH=r + '/src'))
        if a[0] != 0:
            return f'{b["id"]}: demo fails on the unchanged tree: {a[1][-600:]}'
        if c[0] == 0:
            return f'{b["id"]}: demo passes with the patch'
        k = f'{SEED}/{b["id"]}'
        os.makedirs(k, exist_ok=True)
        open(k + '/patch.diff', 'w').write(diff)
        shutil.copy(demo + '/demo.py', k + '/demo.py')
        open(k + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(k + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(k + '/meta.json', 'w'), indent=1)
        return f'{b["id"]}: kept'
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)['BUGS']]
    base, _ = tests('/repo')
    print('base:', base)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda b: one(b, base), bugs):
            print(r)
