"python3-vt -B prove.py Cxx OUT.json [harness name...]: prove the contracts of a property"
import sys, os, json, time, importlib.util, multiprocessing as mp
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.path.insert(0, os.path.join(here, '..', 'contracts'))
sys.dont_write_bytecode = True
def load(prop):
    import api
    p = os.path.join(here, '..', 'contracts', prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('contract_' + prop, p)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return api, m
def one(a):
    prop, k, dl = a
    api, m = load(prop)
    return api.prove_harness(api.HARNESSES[k], dl)
def main():
    prop, out = sys.argv[1], sys.argv[2]
    only = sys.argv[3:]
    dl = time.time() + float(os.environ.get('VC_DEADLINE', 420))
    api, m = load(prop)
    hs = [(k, h) for k, h in enumerate(api.HARNESSES) if h['prop'] == prop and (not only or h['name'] in only)]
    jobs = [(prop, k, dl) for k, h in hs]
    if os.environ.get('VC_TRACE') or len(jobs) == 1: res = [one(j) for j in jobs]
    else:
        with mp.Pool(min(8, len(jobs))) as p:
            qs = [p.apply_async(one, (j,)) for j in jobs]; res = []
            for q, (k, h) in zip(qs, hs):
                try: res.append(q.get(max(1, dl + 30 - time.time())))
                except mp.TimeoutError: res.append(dict(name=h['name'], prop=prop, fns=h['fns'], doc=h['doc'], unsupported='out of time', failed=[], proved=0, obligations=0, by={}, paths=0, loops=0, path_questions=0, solver_s=0., total_s=0., names=[], safety=0, covered=0))
            p.terminate()
    failed = []
    for r in res:
        for n, w in r['failed']: failed.append(dict(name='%s: %s' % (r['name'], n), why='failed', output=w))
        if r['unsupported']: failed.append(dict(name='%s: (not verified)' % r['name'], why='unsupported', output=r['unsupported']))
    by = {}
    for r in res:
        for b, n in r['by'].items(): by[b] = by.get(b, 0) + n
    fns = sorted({f for r in res for f in r['fns']})
    tot = dict(ok=not failed and bool(res), obligations=sum(r['obligations'] for r in res), discharged=sum(r['proved'] for r in res), failed=failed,
        functions=fns, assumptions=list(getattr(m, 'ASSUMPTIONS', [])), solver_s=round(sum(r['solver_s'] for r in res), 2), backends=by,
        harnesses=[dict(r, failed=len(r['failed'])) for r in res], bounded=list(getattr(m, 'BOUNDED', [])))
    if out == '-':
        for r in res:
            print('%s %s: %d/%d obligations, %d paths, %d loops, %.1fs (%.1fs solver), %d failed %s' % ('OK' if not r['failed'] and not r['unsupported'] else 'FAIL', r['name'], r['proved'], r['obligations'], r['paths'], r['loops'], r['total_s'], r['solver_s'], len(r['failed']), r['unsupported'] or ''))
            for n, w in r['failed']: print('    FAILED', n, '|', w[:1200])
    else: json.dump(tot, open(out, 'w'), indent=1)
    return 0 if tot['ok'] else 1
if __name__ == '__main__': sys.exit(main())
