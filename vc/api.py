"""What contract files are written in."""
import os, sys, time, json, types
import z3
from core import *
from vals import *
import core, vals, arr, coll, strs, npm, models, engine
import loader as loadermod
from arr import SArr, SRec, asarr, dim, pdim, dtype
from coll import SList, SSeq, GenSeq, SSet, SDict

HARNESSES = []
def harness(prop, fns, name=None, **opts):
    def deco(f):
        HARNESSES.append(dict(prop=prop, fns=[fns] if isinstance(fns, str) else list(fns), name=name or f.__name__, f=f, doc=(f.__doc__ or '').strip(), opts=opts))
        return f
    return deco
LOADERS = {}
ASSUME = set()       # assumptions used, reported

def rec_names(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): todo.append(e.body()); continue
        if not z3.is_app(e): continue
        nm = e.decl().name()
        if nm.startswith('rec!'): out.add(nm.rstrip('+-'))
        todo += e.children()
    return out
class H:
    def __init__(s, r, ld):
        s.r, s.loader = r, ld
        s.eng = r.engine
    # -- code
    def mod(s, name): return s.loader.load(name)
    def load(s, *names):
        ms = [s.loader.load(n) for n in names]
        return ms[0] if len(ms) == 1 else ms
    def stub(s, modname, attr, fn):
        "replace a function by its contract, in all modules that have it"
        m = s.loader.load(modname)
        old = getattr(m, attr, None)
        if old is None: return False
        for q in s.loader.mods.values():
            for k, v in list(q.__dict__.items()):
                if v is old: q.__dict__[k] = fn
        return True
    # -- symbols
    def int(s, name, lo=None, hi=None):
        e = s.r.const(name, I)
        if lo is not None: s.r.assume(e >= ie(lo))
        if hi is not None: s.r.assume(e <= ie(hi))
        return SInt(e)
    def real(s, name, lo=None):
        e = s.r.const(name, R)
        if lo is not None: s.r.assume(e > lo)
        return SReal(e)
    def bool(s, name): return SBool(s.r.const(name, B))
    def dim(s, name, lo=0): return s.int(name, lo)
    def array(s, name, shape, kind='f', rng=None):
        """an array of unknown contents; kind 'f' 'i' 'b' or 'd' (opaque)"""
        a = arr.fresh_arr(name, arr.dims(shape), {'f': 'float64', 'i': 'int64', 'b': 'bool', 'd': 'data'}.get(kind, kind))
        if rng is not None: 
            vs = [s.r.bound('a') for _ in a.dims]
            v = a.at(*vs)
            cs = []
            if rng[0] is not None: cs.append(v.e >= ie(rng[0]))
            if rng[1] is not None: cs.append(v.e < ie(rng[1]))
            s.r.assume(FA(vs, zimp(zand(*[arr.within(x, d) for x, d in zip(vs, a.dims)]), zand(*cs)), [v.e]))
        return a
    def func(s, name, *sorts): return s.r.func(name, *sorts)
    # -- logic
    def assume(s, c): s.r.assume(zb(tobool(c)) if not isz(c) else c)
    def all(s, n, body, name='q', lo=0, pats=None):
        "ForAll 0 <= k < n: body(k) as a z3 formula"
        k = s.r.bound(name)
        b = zb(tobool(body(SInt(k))))
        return FA(k, zimp(zand(arr.zcmp('<=', ie(lo), k), arr.zcmp('<', k, ie(n))), b), pats(k) if pats else (arr.good_pats(b, k) or None))
    def ex(s, n, body, name='q', lo=0):
        k = s.r.bound(name)
        b = zb(tobool(body(SInt(k))))
        return z3.Exists(k, zb(zand(arr.zcmp('<=', ie(lo), k), arr.zcmp('<', k, ie(n)), b)))
    def prove(s, c, name, kind='post'):
        s.r.prove(name, tobool(c) if not isz(c) else c, kind)
    def guess(s, c):
        "a fact which may help, if it is easily seen to hold"
        f = zb(tobool(c)) if not isz(c) else c
        if s.r.engine.quick(s.r, f): s.r.add(f); return True
        return False
    def forall(s, n=None, name='j', lo=0): return ScopeS(s.r, n, name, lo)
    def without(s, *names):
        "from here on, general facts on these functions are left out of the proofs"
        s.r.dropped = s.r.dropped | {n.name() if hasattr(n, 'name') else n for n in names}
    def given(s, *conds): return core.Scope(s.r, None, None, 0, [zb(tobool(c)) for c in conds])
    def parallel(s, jobs): return s.r.engine.parallel(s.r, jobs)
    def hint(s, *terms):
        "ground terms for instantiation: no content"
        for t in terms:
            t = t.e if isinstance(t, SVal) else t
            if not isz(t): continue
            h = z3.Function('hint_%s' % t.sort(), t.sort(), B)
            s.r.add(h(t) == h(t)) if False else s.r.add(h(t))
    def least(s, n, pred, x0, name='least'):
        "the least k in [0, n) with pred, given that pred(x0): exists by well-ordering"
        r = s.r
        m = r.const(name, I); k = r.bound('k')
        x = ie(x0)
        pm = zb(tobool(pred(SInt(m)))); pk = zb(tobool(pred(SInt(k)))); px = zb(tobool(pred(x0)))
        r.assume(z3.Implies(z3.And(px, lift(x) >= 0, lift(x) < lift(ie(n))), z3.And(m >= 0, m <= x, pm, FA(k, zimp(zand(0 <= k, k < m), znot(pk)), arr.good_pats(pk, k) or None))))
        return SInt(m)
    def rec_of(s, x):
        "the recurrence (see coll.Rec) of an array's contents, of a list's length, or in a value"
        regs = [r for r in s.r.notes.get('recs', [])]
        if isinstance(x, SArr): c = [r for r in regs if r.what == 'S' and r.store is x.store]
        elif isinstance(x, SList): c = [r for r in regs if r.what == 'N' and r.lst is x]
        else:
            t = x.e if isinstance(x, SVal) else x
            names = rec_names(t) if isz(t) else set()
            c = [r for r in regs if r.name in names]
        if len(c) != 1: raise Unsupported('the recurrence of a value')
        return c[0]
    def induct(s, rec, inv, what, out=(), hints=lambda i, *ix: None):
        """inv(i, *ix) of the value before iteration i, of a recurrence: by induction. It is then a fact"""
        def all_(i, upto, f):
            from contextlib import ExitStack
            with ExitStack() as st:
                f(i, *[st.enter_context(s.forall(pdim(d), 'x')) for d in rec.dims])
        at = list(zip(rec.encl, [lift(ie(x)) for x in out])) if out else []
        inx = lambda e: substz(lift(e), at)
        lo, end, hi = mkint(inx(rec.lo)), mkint(inx(rec.end)), mkint(inx(rec.hi))
        out = [lift(ie(x)) for x in out]
        all_(lo, 0, lambda i, *ix: (hints(i, *ix), s.prove(inv(i, *ix), what + ': before the first iteration')))
        i = s.r.bound('i'); ix = [s.r.bound('x') for d in rec.dims]
        def general(i, cond):
            b = zb(tobool(inv(SInt(i), *[SInt(x) for x in ix])))
            b = zb(zimp(zand(cond, *[arr.within(x, d) for x, d in zip(ix, rec.dims)]), b))
            v = rec.f(*(list(out or rec.encl) + [i] + ix))
            return b, v
        with s.forall(hi, 'i', lo) as k:
            if ix:
                b, v = general(ie(k), True); s.r.assume(FA(ix, b, [v]))
            else: s.assume(inv(k))
            rec.step(k, out)
            all_(k, 0, lambda i, *ix: (hints(i, *ix), s.prove(inv(i + 1, *ix), what + ': after each iteration')))
        b, v = general(i, zand(lift(ie(lo)) <= i, i <= lift(ie(end))))
        s.r.assume(FA([i] + ix, b, [v]))
    def counters(s):
        "the numbers which a past loop steps up or down by one: by induction, what they are"
        out = []
        for rec in list(s.r.notes.get('recs', [])):
            if rec.what != 'L' or rec.kind != 'i' or rec.dims or rec.encl: continue
            step = None
            with s.forall(mkint(lift(rec.hi)), 'i', mkint(lift(rec.lo))) as k:
                rec.step(k)
                for c in (1, -1):
                    if step is None and s.r.engine.quick(s.r, zb(ie(rec.V(ie(k) + 1)) == ie(rec.V(ie(k))) + c)): step = c
            if step is None: continue
            v0 = ie(rec.init())
            s.induct(rec, lambda i: rec.V(ie(i)) == mkint(v0 + step*(lift(ie(i)) - lift(rec.lo))), 'a number that is counted')
            out.append(rec)
        return out
    def lemma(s, name, f, *terms):
        "a fact of arithmetic, proved by itself for all reals, and then for these"
        xs = [z3.Real('lem%d' % k) for k in range(len(terms))]
        g = zb(tobool(f(*[SReal(x) for x in xs])))
        s.r.pure(name, g)
        s.r.assume(z3.substitute(g, *[(x, re_(t)) for x, t in zip(xs, terms)]))
    def writes(s, t, *ix):
        "instances: if iteration t of a past loop writes the element ix, that is written, and last by it or a later one"
        t = lift(ie(t)); ix = [lift(ie(x)) for x in ix]
        for nd, f in s.r.notes.get('lastwr', []):
            if nd == len(ix): s.r.add(f(t, *ix))
        for f in s.r.notes.get('paths', []): s.r.add(f(t))
    def by(s, name, goal, *facts):
        "the facts are proved, and the goal from them alone"
        fs = [zb(tobool(f)) if not isz(f) else f for f in facts]; g = zb(tobool(goal)) if not isz(goal) else goal
        for q, f in enumerate(fs): s.r.prove(name + ' (premise)' if not os.environ.get('VC_TRACE') else name + ' (premise %d)' % q, f, 'lemma')
        s.r.pure(name, g, fs)
        s.r.assume(g)
    def cover(s): s.r.cover = True
class ScopeS(core.Scope):
    def __enter__(s):
        s.n = None if s.n is None else ie(s.n); s.lo = ie(s.lo)
        return SInt(core.Scope.__enter__(s))

def fld(x, **k): return x

def prove_harness(hd, deadline=None):
    e = engine.Engine(hd['name'])
    e.deadline = deadline
    e.flags.update(hd['opts'])
    models.EXTRA.clear()
    ld = loadermod.Loader(engine.ROOT)
    for m in sorted(os.listdir(os.path.join(engine.ROOT, 'flowtracks'))):
        if m.endswith('.py') and m != '__init__.py':
            try: ld.load('flowtracks.' + m[:-3])
            except (Signal, Exception): ld.mods.pop('flowtracks.' + m[:-3], None)
    npaths = [0, 0]
    def fn(r):
        ld.reset(); models.EXTRA.clear()
        h = H(r, ld)
        hd['f'](h)
        r.alive()
        if r.frames: return
        npaths[0] += 1
        if npaths[1] == 0:
            # reachability: the facts of a completed path must not be contradictory
            sv = e.new_solver(4000000)
            for k, f in r.facts: sv.add(f)
            if sv.check() != z3.unsat: npaths[1] += 1
    t0 = time.time()
    res = dict(name=hd['name'], prop=hd['prop'], fns=hd['fns'], doc=hd['doc'])
    unsup = None
    try: e.verify(fn)
    except Unsupported as x:
        unsup = str(x)
        if e.flags.get('dict') == 'invariants' and unsup != 'many obligations fail': e.failed.clear()      # another way to keep things: what failed says nothing
        if os.environ.get('VC_TB'): import traceback; traceback.print_exc()
    except Signal as x: unsup = 'signal %s' % type(x).__name__
    except Exception as x:
        import traceback
        unsup = 'internal error %s' % traceback.format_exc()[-1500:]
    if unsup is None and npaths[1] == 0: unsup = 'no reachable path (vacuous)'
    if unsup is None and not e.proved and not e.failed: unsup = 'no obligations'
    res.update(unsupported=unsup, failed=e.failed, proved=len(e.proved), obligations=e.stats.obl, by=e.stats.by, paths=e.stats.paths, loops=e.stats.sums,
        path_questions=e.stats.feas, solver_s=round(e.stats.feas_s + e.stats.prove_s, 2), total_s=round(time.time() - t0, 2), names=sorted({n for n, k in e.proved}),
        safety=sum(1 for n, k in e.proved if k == 'safety'), covered=npaths[1])
    return res
