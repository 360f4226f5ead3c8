"""Usage: run.py PROPERTY SEED BUDGET_SECONDS OUT.json [scale]   - search
          run.py --replay FILE                                 - one failing case again
"""
import importlib, json, os, sys, time, traceback, faulthandler, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
import common
MODS = ['rt_traj', 'rt_seq', 'rt_io', 'rt_scene', 'rt_an', 'rt_interp', 'rt_misc']

class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

DISTINCT = set() # cases that passed, by what they drew from the generator
def one(fn, seed, name, case):
    import zlib
    rng = np.random.default_rng([seed, zlib.crc32(name.encode()), case])
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(60)
    start = str(rng.bit_generator.state)
    try:
        fn(rng, case)
        end = str(rng.bit_generator.state)
        if end != start: DISTINCT.add(hash((name, end)))
        return None
    except common.Violation as e:
        return 'postcondition', str(e), ''
    except Timeout:
        return 'termination', 'no result within 60 s', ''
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return 'exception', '%s: %s' % (type(e).__name__, e), traceback.format_exc()
    finally:
        signal.alarm(0)

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODS:
        if os.path.exists(os.path.join(here, m + '.py')):
            importlib.import_module(m)
    if sys.argv[1] == '--replay':
        spec = json.load(open(sys.argv[2]))
        c = spec['concrete']
        fn = [f for n, f, k in common.REG[spec['property']] if n == c['contract']][0]
        r = one(fn, c['seed'], c['contract'], c['case'])
        print(r and '\n'.join(r) or 'holds')
        return 1 if r else 0
    prop, seed, budget, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    scale = float(sys.argv[5]) if len(sys.argv) > 5 else 1.
    res = dict(property=prop, contracts={}, violations=[], evaluations=0, truncated=False)
    t0 = time.time()
    todo = common.REG.get(prop, [])
    for k, (name, fn, n) in enumerate(todo):
        n = max(1, int(n*scale)); done = 0; found = 0
        end = t0 + budget*(k + 1)/len(todo)
        for case in range(n):
            if case >= 3 and time.time() > end:
                res['truncated'] = True
                break
            r = one(fn, seed, name, case); done += 1
            if r:
                res['violations'].append(dict(contract=name, seed=seed, case=case, kind=r[0], message=r[1], trace=r[2]))
                found += 1
                if found >= 2: break
        res['contracts'][name] = done
        res['evaluations'] += done
    res['distinct'] = len(DISTINCT)
    json.dump(res, open(out, 'w'))
    return 0
if __name__ == '__main__':
    sys.exit(main())
