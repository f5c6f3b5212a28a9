"""Writes MANIFEST.json: every property with a module in sim/props."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python3 sim/main.py'
NOTES = json.load(open(os.path.join(VERIF, 'tools', 'notes.json')))
NA = NOTES.pop('not_applicable')
checks = []
na = []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(VERIF, 'sim/props', p.lower() + '.py')):
        checks.append({
            'property': p,
            'quick_cmd': '%s %s --tier quick' % (PY, p),
            'thorough_cmd': '%s %s --tier thorough' % (PY, p),
            'technique': NOTES[p]['technique'],
            'level': 'exploration',
            'level_note': NOTES[p]['note'] + ' ' + NOTES['common'],
        })
    else:
        na.append({'property': p, 'reason': NA.get(
            p, 'No check yet (work in progress).')})
doc = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python3 tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Deterministic simulation with fault injection (see DESIGN.md). '
             'No hooks in /repo: storage, factories, handlers, uuid source '
             'and lock primitives are existing seams. --seed, --runs, '
             '--replay FILE and --determinism are further options of '
             'sim/main.py.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
