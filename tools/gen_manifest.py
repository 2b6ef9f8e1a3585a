"""Write MANIFEST.json from properties.jsonl and the list of checks present."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
PENDING = 'no check has been built yet'
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid not in NA and os.path.exists(os.path.join(ROOT, 'pv', 'specs', pid + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'python3-vt check.py {pid} --tier quick',
            'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'contract-based deductive verification: obligations generated from the real Python source, discharged by SMT (z3, cvc5)',
            'level': 'proof',
            'level_note': NOTES.get(pid, 'every obligation generated from /repo\'s current source is discharged by an SMT solver for all inputs and iterations; the obligation generator, its models of Python built-ins and the axioms of the logic are trusted; a bounded run of the real code cross-checks the specification and supplies failing inputs'),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, PENDING)})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.exit(0)" && /opt/venv/bin/python -c "import protosym"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
