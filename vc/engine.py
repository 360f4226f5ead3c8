"""The verification condition generator: exploration of the paths of a harness, loop
summaries, and the discharge of obligations by SMT solvers."""
import os, sys, time, traceback, subprocess, tempfile, gc, select, pickle
import z3
from core import *
import core, vals, arr, coll, nla, algebra, loader as loadermod, models

sys.setrecursionlimit(20000)
ROOT = os.environ.get('VERIF_REPO', '/repo')
QR = int(os.environ.get('VC_QR', 400000))        # resource limit of a path question
PR = [(4000000, {}), (8000000, {'smt.random_seed': 3}), (8000000, {'smt.random_seed': 7, 'smt.arith.solver': 2})]
NPAR = int(os.environ.get('VC_NPAR', 4))
CVC5_T = int(os.environ.get('VC_CVC5', 8))

class Stats:
    def __init__(s): s.feas = 0; s.feas_s = 0.; s.prove_s = 0.; s.obl = 0; s.paths = 0; s.sums = 0; s.by = {}; s.covers = 0

class Engine:
    def __init__(s, name):
        s.name = name
        s.stats = Stats(); s.flags = {}
        s.stack = []; s.qc = {}
        s.max_dec = 4000; s.max_paths = 4000
        s.failed = []; s.proved = []
        s.deadline = None; s.max_fail = 12; s.few = 3
        s.seen_fail = set()
    def new_solver(s, rl=QR, **k):
        sv = z3.SolverFor('AUFNIRA') if False else z3.SimpleSolver()
        sv.set('smt.mbqi', False); sv.set('smt.auto_config', False)
        sv.set('rlimit', rl); sv.set('timeout', 60000)
        for a, b in k.items(): sv.set(a, b)
        return sv
    def push(s, prefix): s.stack.append(prefix)
    def quick(s, r, f, tmo=None):
        "is f entailed (as far as can be seen cheaply)?"
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return r.dead_facts() if False else False
        key = (r.hdig.hexdigest(), len(r.taken), len(r.facts), r.scopes, f.get_id())
        h = s.qc.get(key)
        if h is not None: return h[0]
        t0 = time.time()
        r.solver.push(); r.solver.add(nla.ab(z3.Not(f))[0])
        if tmo: r.solver.set('timeout', tmo)
        res = r.solver.check() == z3.unsat
        r.solver.pop()
        if tmo: r.solver.set('timeout', 60000)
        s.stats.feas += 1; s.stats.feas_s += time.time() - t0
        s.qc[key] = (res, f)
        return res
    def obligation(s, r, name, goal, kind):
        if r.replaying(): return
        if s.deadline and time.time() > s.deadline: raise Unsupported('out of time')
        if any(f.escaped for f in r.frames): return
        parts = conj(goal)
        for g in parts:
            s.stats.obl += 1
            t0 = time.time()
            ok, by, why = s.discharge(r, g)
            s.stats.prove_s += time.time() - t0
            if os.environ.get('VC_TRACE'): print('   %s %-8s %.2fs %s' % ('ok ' if ok else 'NO ', by, time.time() - t0, name), flush=True)
            if ok:
                s.stats.by[by] = s.stats.by.get(by, 0) + 1
                s.proved.append((name, kind))
            else:
                s.fail(name, why + '\ngoal: ' + str(g)[:1500])
                if os.environ.get("VC_DUMP") and os.environ.get("VC_DUMPNAME", name) == name: open(os.environ['VC_DUMP'], 'w').write(s.smt2(r, g))
        if r.taken is not None: r.add(zb(goal) if not isinstance(goal, bool) else z3.BoolVal(True))
    def pure(s, r, name, g, facts=()):
        "an obligation which does not depend on the facts (but on those given)"
        if r.replaying(): return
        s.stats.obl += 1
        t0 = time.time()
        sv = z3.Solver(); sv.set('timeout', 20000)
        ap = nla.problem(list(facts), g) if facts else None
        if ap: ap = nla.SQUARES + ap
        for f in ap or list(facts) + [z3.Not(g)]: sv.add(f)
        c = sv.check()
        s.stats.prove_s += time.time() - t0
        if os.environ.get('VC_TRACE'): print('   %s %-8s %.2fs %s' % (c, 'lemma', time.time() - t0, name), flush=True)
        if c == z3.unsat: s.stats.by['z3'] = s.stats.by.get('z3', 0) + 1; s.proved.append((name, 'lemma'))
        else: s.fail(name, 'lemma: %s' % c)
    def fail(s, name, why):
        s.failed.append((name, why))
        if len(s.failed) > s.max_fail: raise Unsupported('many obligations fail')
    def discharge(s, r, g):
        if g is True: return True, 'simplify', ''
        g = zb(g)
        g0 = g; g = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(g): return True, 'simplify', ''
        why = []
        facts = r.known()
        ap = nla.problem(facts, g)
        if ap is not None:
            for seed in (0, 11, 5):
                sv = s.new_solver(2000000 if not seed else 3000000, **({'smt.random_seed': seed} if seed else {}))
                for f in ap: sv.add(f)
                c = sv.check()
                if c == z3.unsat: return True, 'z3', ''
                if c == z3.sat or 'cancel' not in sv.reason_unknown() and 'resource' not in sv.reason_unknown(): break
            if algebra.prove(r, g0): return True, 'algebra', ''
            why.append('z3, products abstracted: %s %s' % (c, sv.reason_unknown() if c == z3.unknown else ''))
        left = s.deadline - time.time() if s.deadline else 1e9
        tmo = int(max(1, min(60 if ap is None else 12, left))*1000)
        for n, (rl, opts) in enumerate((PR if ap is None else PR[:2]) if len(s.failed) < s.few else PR[:1]):
            if n == 0 and ap is None and not r.dropped:
                r.solver.push(); r.solver.set('rlimit', rl); r.solver.set('timeout', tmo); r.solver.add(z3.Not(g))
                c = r.solver.check(); reason = r.solver.reason_unknown() if c == z3.unknown else ''
                r.solver.pop(); r.solver.set('rlimit', QR); r.solver.set('timeout', 60000)
            else:
                sv = s.new_solver(rl, **opts); sv.set('timeout', tmo)
                for f in facts: sv.add(f)
                sv.add(z3.Not(g))
                c = sv.check(); reason = sv.reason_unknown() if c == z3.unknown else ''
            if c == z3.unsat: return True, 'z3', ''
            why.append('z3: %s %s' % (c, reason))
            if c == z3.sat: break
            if n == 1:
                c = s.cvc5(r, g)
                if c == 'unsat': return True, 'cvc5', ''
                why.append('cvc5: ' + c)
        return False, '-', '; '.join(why)
    def smt2(s, r, g):
        sv = z3.Solver()
        for f in r.known(): sv.add(f)
        sv.add(z3.Not(g))
        return '(set-logic ALL)\n' + sv.to_smt2()
    def cvc5(s, r, g):
        if not CVC5_T: return 'off'
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(s.smt2(r, g))
            p = subprocess.run(['cvc5', '--tlimit=%d' % (CVC5_T*1000), '--rlimit=3000000', f.name], capture_output=True, text=True, timeout=CVC5_T + 10)
            return p.stdout.strip().split('\n')[0] or p.stderr[:100]
        except Exception as e: return 'error %s' % e
        finally: os.unlink(f.name)
    def parallel(s, r, jobs):
        "parts of a harness in processes of their own: what they return (facts made in them are dropped)"
        if r.replaying() or r.frames: raise Unsupported('parallel parts after a decision')
        out = [None]*len(jobs); live = {}; todo = list(range(len(jobs)))
        try:
            while todo or live:
                while todo and len(live) < NPAR:
                    k = todo.pop(0); rd, wr = os.pipe()
                    sys.stdout.flush(); sys.stderr.flush()
                    pid = os.fork()
                    if not pid:
                        try:
                            os.close(rd)
                            import ctypes; ctypes.CDLL(None).prctl(1, 9)
                            s.part(r, jobs[k], wr)
                        finally: os._exit(0)
                    os.close(wr); live[rd] = (pid, k, [])
                for rd in select.select(list(live), [], [])[0]:
                    b = os.read(rd, 1 << 20)
                    pid, k, buf = live[rd]
                    if b: buf.append(b); continue
                    os.close(rd); del live[rd]; os.waitpid(pid, 0)
                    if not buf: raise Unsupported('a parallel part ended')
                    st, proved, failed, unsup, val = pickle.loads(b''.join(buf))
                    t = s.stats
                    t.feas += st.feas; t.feas_s += st.feas_s; t.prove_s += st.prove_s; t.obl += st.obl; t.sums += st.sums
                    for x, n in st.by.items(): t.by[x] = t.by.get(x, 0) + n
                    s.proved += proved; s.failed += failed
                    if unsup is not None: raise Unsupported(unsup)
                    if len(s.failed) > 12: raise Unsupported('many obligations fail')
                    out[k] = val
        finally:
            for rd, (pid, k, buf) in live.items():
                os.kill(pid, 9); os.waitpid(pid, 0); os.close(rd)
        return out
    def part(s, r, job, wr):
        s.stats = Stats(); s.proved = []; s.failed = []; s.max_fail = 3; s.few = 1
        n = len(s.stack); unsup = val = None
        try:
            with Scope(r, None, None, 0): val = job()
            if len(s.stack) != n: unsup = 'a decision in a parallel part'
        except Unsupported as e: unsup = str(e)
        except Signal as e: unsup = 'a parallel part stopped: %s %s' % (type(e).__name__, e)
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None: tb = tb.tb_next
            txt = traceback.format_exc()
            if os.environ.get('VC_TRACE'): print(txt)
            if os.path.dirname(tb.tb_frame.f_code.co_filename) == os.path.dirname(os.path.abspath(__file__)) and isinstance(e, (AttributeError, NameError, AssertionError, z3.Z3Exception)) and not getattr(e, 'modelled', False): unsup = 'internal error: ' + txt[-800:]
            else: s.fail('no exception %s: %s' % (type(e).__name__, e), txt[-1500:])
        sys.stdout.flush()
        b = pickle.dumps((s.stats, s.proved, s.failed, unsup, val))
        while b: b = b[os.write(wr, b):]
    # ------------------------------------------------------------ exploration
    def execute(s, fn, prefix):
        s.stats.paths += 1
        if s.stats.paths > s.max_paths: raise Unsupported('too many paths')
        if s.deadline and time.time() > s.deadline: raise Unsupported('out of time')
        r = Run(s, prefix)
        CUR.run = r
        if os.environ.get('VC_TRACE'): print('path', [d if isinstance(d, bool) else d[0] for d in prefix], flush=True)
        out = None
        try:
            try:
                fn(r)
                out = ('end', r)
            except StopPath as e: out = ('stop', str(e))
            except NeedSummary as e: out = ('need', e)
            except BodyEnd as e: out = ('body', e)
            except Unsupported: raise
            except RecursionError: raise Unsupported('recursion')
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next is not None: tb = tb.tb_next
                if os.path.dirname(tb.tb_frame.f_code.co_filename) == os.path.dirname(os.path.abspath(__file__)) and isinstance(e, (AttributeError, NameError, AssertionError, z3.Z3Exception)) and not getattr(e, 'modelled', False):
                    raise Unsupported('internal error: ' + traceback.format_exc()[-800:])
                out = ('exc', e, traceback.format_exc())
            if r.need is not None: out = ('need', r.need)
            elif r.ended is not None: out = ('body', r.ended)
            if out[0] == 'need': return out
            if out[0] == 'body':
                e = out[1]
                b = Body('change' if e.changed else 'end', r, e.frame)
                b.why = e.changed
                return ('body', b)
            if r.frames:
                # left the arbitrary iteration
                if out[0] == 'stop' and 'escaped' not in out[1]: return out
                return ('body', Body('escape', r, r.frames[-1]))
            if out[0] == 'exc':
                if not r.replaying():
                    CUR.run = r
                    if s.discharge(r, z3.BoolVal(False))[0]: return ('stop', 'cannot happen')
                    if os.environ.get('VC_TRACE'): print(out[2])
                    if os.environ.get('VC_FACTS'): print(*[f for k, f in r.facts], sep='\n')
                    s.fail('no exception %s: %s' % (type(out[1]).__name__, out[1]), out[2][-1500:])
            return out
        finally:
            CUR.run = None
    def explore(s, fn, prefix):
        saved, s.stack = s.stack, [prefix]
        outs = []
        while s.stack:
            p = s.stack.pop()
            out = s.execute(fn, p)
            if out[0] == 'need':
                P = out[1].prefix
                S = s.summarize(fn, P, out[1].where)
                kinds = {b.kind for b in S.others}
                for k in sorted(kinds): s.stack.append(P + [('one', S, k)])
                s.stack.append(P + [('sum', S)])
            else: outs.append(out)
        s.stack = saved
        return outs
    def summarize(s, fn, P, where):
        s.stats.sums += 1
        H = ()
        for attempt in range(8):
            # the locations whose values an iteration finds are those of a recurrence
            outs = s.explore(fn, P + [('enter', H or 0)])
            S = Summary([o[1] for o in outs if o[0] == 'body'], s, P)
            S.where = where; S.H = H
            if not s.flags.get('rec'): break
            S.carried -= {int(h.split(':')[1]) for h in H if h[0] in 'SN'}
            H2 = coll.joinH(H, coll.needs(S))
            if H2 == H: break
            H = H2
        else: raise Unsupported('the values which iterations pass on')
        if os.environ.get('VC_TRACE'): print('summary', where, [(b.kind, getattr(b, 'why', None), list(b.effects)) for b in S.bodies], 'carried', S.carried)
        return S
    def verify(s, fn):
        outs = s.explore(fn, [])
        ends = [o for o in outs if o[0] == 'end']
        s.ends = len(ends)
        return outs

def conj(g):
    if isinstance(g, bool): return [g]
    if z3.is_and(g): return [y for x in g.children() for y in conj(x)]
    if z3.is_implies(g) and z3.is_and(g.arg(1)): return [z3.Implies(g.arg(0), y) for y in conj(g.arg(1))]
    return [g]
