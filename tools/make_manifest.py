"""Regenerates /verif/MANIFEST.json from props_meta.py, for every property which has a module."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props_meta import META

LEVEL = ('Exploration: real executions are observed and decided one by one; nothing is claimed about executions which were '
    'not generated. ')
checks = []
for pid in sorted(META):
    if not os.path.exists(os.path.join(HERE, 'props', pid + '.py')):
        continue
    m = META[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s' % pid,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
        'technique': m['technique'], 'level': m['level'],
        'level_note': LEVEL + '%d generated cases per run (%d thorough). %s' % (m['quick'], m['thorough'],
            '; '.join(m['assumptions']))})
json.dump({'version': 1, 'setup_cmd': '/opt/venv-pypy/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import scheme"',
    'checks': checks, 'not_applicable': [], 'notes': 'No hooks are needed in /repo: every observation is made through public '
    'interfaces. Known and fixed findings are in known_findings.txt; the design is in DESIGN.md.'},
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
