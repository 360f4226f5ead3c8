"""mkseed.py ID PROP FILE: (stdin: json {old,new,demo,needs,breaks}) - make a planted change:
checks that it applies, passes the stable tests, and that its demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    for f, old, new in edits:
        s = open(r + '/' + f).read(); assert s.count(old) == 1, (id, f, s.count(old), old)
        open(r + '/' + f, 'w').write(s.replace(old, new))
    p = sh('git diff', r).stdout
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh(d + '/demo.sh', '/repo'); b = sh(d + '/demo.sh', r)
    t = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests' % r, r)
    ok = a.returncode == 0 and b.returncode != 0 and ' failed' not in t.stdout and 'error' not in t.stdout.splitlines()[-1]
    c = ''
    if ok:
        c = sh('VERIF_REPO=%s python3 /verif/check.py %s' % (r, prop), '/verif')
        c = 'caught %s' % [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'obligation' in l or l.startswith('contract')][:3] if c.returncode == 1 else 'MISSED rc=%s %s' % (c.returncode, c.stdout[-300:])
    print(id, 'ok' if ok else 'BAD', a.returncode, a.stdout[-300:], b.returncode, b.stdout.strip().splitlines()[-1:] , t.stdout.splitlines()[-1], c)
    shutil.rmtree(w)
if __name__ == '__main__':
    sys.path.insert(0, '/verif/tools')
    import seeds
    for s in seeds.SEEDS:
        if len(sys.argv) < 2 or s['id'] in sys.argv[1:]: make(**s)
