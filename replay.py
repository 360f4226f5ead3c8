#!/usr/bin/env python3
"""replay.py FILE - run the failing case of a replay file again on the real code."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
spec = json.load(open(sys.argv[1]))
for f in spec.get('failed', []):
    print('failed obligation: %s\n%s\n%s' % (f['name'], f['why'], f.get('output', '')))
if 'concrete' in spec:
    sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', os.path.join(HERE, 'rt', 'run.py'), '--replay', os.path.abspath(sys.argv[1])],
        env=dict(os.environ, PYTHONPATH=os.environ.get('VERIF_REPO', '/repo'), MPLBACKEND='Agg')))
print('no failing input was found'); sys.exit(1)
