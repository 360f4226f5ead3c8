#!/usr/bin/env python3
"""check.py PROPERTY - decide one property on /repo's current working tree.

1. The verifier (vc/) generates the proof obligations of the property's
   contracts (contracts/<property>.py) from the source in /repo and has
   them discharged by the SMT back ends, in a process under python3-vt.
2. The same contracts are evaluated on the real code for generated inputs
   (rt/), under the interpreter /repo runs with: the search for concrete
   failing inputs, and the bounded stand-in for what is out of the
   verifier's reach.
Exit 0: everything held. Exit 1: a line "VIOLATION property=.. replay=..".
"""
import json, os, subprocess, sys, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

def env():
    e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
    e['VERIF_REPO'] = REPO
    return e

def start_search(prop, work, tag, seed, budget, scale):
    out = os.path.join(work, 'rt_%s.json' % tag)
    cmd = [PY, '-B', os.path.join(HERE, 'rt', 'run.py'), prop, str(seed), str(budget), out, str(scale)]
    p = subprocess.Popen(cmd, cwd=work, env=env(), stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))
    return p, out

def end_search(p, out, budget):
    try:
        p.wait(budget*2 + 150)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
    try:
        return json.load(open(out))
    except (IOError, ValueError):
        err = open(out + '.err').read()[-3000:]
        return dict(contracts={}, violations=[], evaluations=0, truncated=True,
            crash='exit %s: %s' % (p.returncode, err))

def known():
    res = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('finding:'): res.append(dict(x.split('=', 1) for x in l[8:].split('|')[0].split()) | dict(text=l.split('|', 1)[1].strip()))
    return res

def write_replay(prop, n, spec):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%d.json' % (prop, n))
    spec = dict(spec, property=prop, repo=REPO,
        how='python3 /verif/replay.py %s' % path)
    json.dump(spec, open(path, 'w'), indent=1)
    return path

def main():
    prop = sys.argv[1]
    thorough = TIER == 'thorough'
    work = tempfile.mkdtemp(prefix='vchk_')
    try:
        return run(prop, thorough, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, thorough, work):
    budget, scale = (300, 200) if thorough else (16, 24)
    searches = [start_search(prop, work, '0', SEED, budget, scale)]
    if thorough:
        searches += [start_search(prop, work, str(k), SEED + 1000*k, budget, scale) for k in (1, 2)]
    contract = os.path.join(HERE, 'contracts', prop.lower() + '.py')
    proof = None
    if os.path.exists(contract):
        out = os.path.join(work, 'proof.json')
        cmd = [VT, '-B', os.path.join(HERE, 'vc', 'prove.py'), prop, out]
        e = env(); e.pop('PYTHONPATH')
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3000 if thorough else 560)
            log = p.stdout[-4000:]
        except subprocess.TimeoutExpired as ex:
            log = 'the verifier ran out of time: ' + str(ex.stdout)[-3000:]
        try:
            proof = json.load(open(out))
        except (IOError, ValueError):
            proof = dict(ok=False, obligations=0, discharged=0, failed=[dict(name='verifier', why='no result', output=log)],
                functions=[], assumptions=[], solver_s=0., backends={}, harnesses=[])
    rts = [end_search(p, o, budget) for p, o in searches]
    if proof is not None and not proof['ok'] and not any(r['violations'] for r in rts):
        # search harder for an input that shows the failure
        extra = [start_search(prop, work, 'x%d' % k, SEED + 77 + k, 60, 30) for k in range(4)]
        rts += [end_search(p, o, 60) for p, o in extra]
    viol, seen = [], set()
    for r in rts:
        for v in r['violations']:
            k = (v['contract'], v['kind'], v['message'][:40])
            if k in seen: continue
            seen.add(k)
            viol.append(v)
    listed = [k for k in known() if k.get('property') == prop]
    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    rc = 0
    for n, v in enumerate(viol[:5]):
        path = write_replay(prop, n, dict(concrete=v, failed=(proof or {}).get('failed', [])[:5]))
        print('contract %s, case %s: %s: %s' % (v['contract'], v['case'], v['kind'], v['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    failed = [f for f in (proof or {}).get('failed', []) if f['why'] == 'failed']
    undecided = [f for f in (proof or {}).get('failed', []) if f['why'] != 'failed']
    for f in (failed + undecided)[:10]:
        print('%s %s: %s' % ('FAILED OBLIGATION' if f['why'] == 'failed' else 'UNDECIDED', f['name'], f['output'][:300]))
    if failed:
        if not viol:
            path = write_replay(prop, 0, dict(obligation=failed[0]['name'], failed=proof['failed'][:20]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    # code outside the verifier's reach is not a violation: the larger bounded search above stands in
    crash = [r['crash'] for r in rts if r.get('crash')]
    if crash and not rc:
        path = write_replay(prop, 0, dict(obligation='run-time contracts', failed=[dict(name='run-time contracts', why='the real code could not be run', output=crash[0])]))
        print(crash[0])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    evaluations = sum(r['evaluations'] for r in rts)
    bounded = {}
    for r in rts:
        for k, v in r['contracts'].items(): bounded[k] = bounded.get(k, 0) + v
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = [c['level'] for c in man['checks'] if c['property'] == prop][0]
    cov = dict(evaluations=evaluations, distinct_nontrivial=sum(r.get('distinct', 0) for r in rts),
        rule='a case is generated from (seed, contract, case number) and the contract of this property evaluated on the real code for it; non-trivial: it drew random input, and differently from all others; bounded, not counted as proved',
        samples=[dict(contract=k, cases=v) for k, v in bounded.items()])
    if proof is not None:
        cov.update(obligations=proof['obligations'], discharged=proof['discharged'],
            checker_cmd='python3-vt vc/prove.py %s OUT.json' % prop,
            trusted_base=proof['assumptions'], functions_under_contract=proof['functions'],
            undecided=[dict(name=f['name'], reason=f['output'][:500]) for f in undecided],
            back_ends=proof['backends'], solver_s=proof['solver_s'], harnesses=proof['harnesses'])
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=SEED, level=level, coverage=cov,
        assumptions=(proof or {}).get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(viol) + (1 if rc and not viol else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if rc == 0:
        print('%s %s: %s obligations discharged, %d cases of the run-time contracts' % (prop, 'holds (bounded; the proof is undecided)' if undecided else 'holds', proof and proof['discharged'], evaluations))
    return rc

if __name__ == '__main__':
    sys.exit(main())
