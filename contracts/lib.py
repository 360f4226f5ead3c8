"""Shared parts of the contracts: symbolic inputs, and contracts of callees (each proved in the
contract file named) which stand for them in their callers."""
from api import *
TR = 'flowtracks.trajectory'; SQ = 'flowtracks.sequence'
def fro(*arrs):
    for a in arrs: a.store.static = True
    return arrs if len(arrs) > 1 else arrs[0]

def farr(f, shape, kind='f', outer=()):
    "array with element function f(outer..., ix...)"
    return SArr(arr.dims(shape), lambda *ix: wrap(f(*outer, *[lift(x) for x in ix])), {'f': 'float64', 'i': 'int64', 'd': 'data', 'b': 'bool'}[kind])

class Trajs:
    """n trajectories: trajectory k has L(k) >= 1 points at the consecutive times start(k)...,
    any positions and velocities, id tid(k), and other properties of any values."""
    def __init__(s, h, n, name='tr', extra=(), ids='any', minlen=1, times='consecutive'):
        r = h.r
        s.h, s.n = h, n
        s.L = r.func(name + '_len', I, I); s.start = r.func(name + '_start', I, I); s.tid = r.func(name + '_id', I, I)
        s.pos = r.func(name + '_pos', I, I, I, R); s.vel = r.func(name + '_vel', I, I, I, R)
        s.extra = {k: (r.func('%s_%s' % (name, k), I, I, DATA) if sh == () else r.func('%s_%s' % (name, k), I, I, I, DATA), sh) for k, sh in extra}
        k = r.bound('t')
        r.assume(FA(k, zimp(arr.within(k, ie(n)), s.L(k) >= minlen), [s.L(k)]))
        s.cls = h.mod(TR).Trajectory
        if times == 'any':      # any strictly increasing times
            s.time = r.func(name + '_time', I, I, I)
            a, b = r.bound('a'), r.bound('b')
            r.assume(FA([k, a, b], z3.Implies(a < b, s.time(k, a) < s.time(k, b)), [(s.time(k, a), s.time(k, b))]))
        else:
            st = s.start
            s.time = lambda k, t: st(k) + t
    def make(s, k):
        k = lift(k)
        L = arr.dimsimp(s.L(k))
        kw = {}
        for nm, (f, sh) in s.extra.items(): kw[nm] = fro(farr(f, (L,) + sh, 'd', (k,)))
        tm = SArr((L,), lambda t: mkint(s.time(k, lift(t))), 'int64')
        return s.cls(fro(farr(s.pos, (L, 3), 'f', (k,))), fro(farr(s.vel, (L, 3), 'f', (k,))), fro(tm), mkint(s.tid(k)), **kw)
    def list(s): return SList.of(ie(s.n), s.make)
    def end(s, k): return s.start(lift(ie(k))) + s.L(lift(ie(k))) - 1
    def active(s, k, frame, segs=False):
        k = lift(ie(k)); f = lift(ie(frame))
        return SBool(z3.And(s.start(k) <= f, f + (1 if segs else 0) <= s.end(k)))
    def at(s, k, frame, c):
        k = lift(ie(k)); return s.pos(k, lift(ie(frame)) - s.start(k), lift(c))
    def samepos(s, a, b, frame):
        return SBool(z3.And(*[s.at(a, frame, c) == s.at(b, frame, c) for c in range(3)]))

def same3(a, i, b, j):
    return (a.at(i, 0) == b.at(j, 0)) & (a.at(i, 1) == b.at(j, 1)) & (a.at(i, 2) == b.at(j, 2))

def stub_mark_unique_rows(h):
    "the contract proved in c04.py; equal arguments give equal results"
    memo = []
    def mark_unique_rows(all_rows):
        r = h.r
        a = asarr(all_rows)
        if len(a.dims) != 2: raise IndexError('too many indices')
        n = a.dims[0]
        r.safety(zb(arr.zcmp('>=', a.dims[1], 3)), 'mark_unique_rows: at least 3 columns')
        a = a.copy()
        for b, res in memo:
            if arr.deq(b.dims[0], n) is True or (isz(arr.deq(b.dims[0], n)) and r.engine.quick(r, arr.deq(b.dims[0], n))):
                q = r.bound('e')
                if r.engine.quick(r, zb(zimp(arr.within(q, n), tobool(same3(a, q, b, q))))): return res.copy()
        m = r.const('uniq_n', I); f = r.func('uniq_row', I, I); of = r.func('uniq_of', I, I)
        k, k2, i = r.bound('k'), r.bound('k'), r.bound('i')
        S = lambda x, y: zb(tobool(same3(a, x, a, y)))
        r.assume(z3.And(m >= 0, m <= lift(n), (m == 0) == (lift(n) == 0)))
        r.assume(FA(k, zimp(arr.within(k, m), arr.within(f(k), n)), [f(k)]))
        r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < m), z3.And(f(k) < f(k2), z3.Not(S(f(k), f(k2))))), [(f(k), f(k2))]))
        pats = [of(i)]
        r.assume(FA(i, zimp(arr.within(i, n), z3.And(of(i) >= 0, of(i) < m, S(f(of(i)), i))), pats))
        res = SArr((m,), lambda q: mkint(f(lift(q))), 'int64')
        res.uniq_of = of
        memo.append((a, res)); h.r.notes.setdefault('uniq', []).append((a, res, of))
        return res.copy()
    return h.stub(TR, 'mark_unique_rows', mark_unique_rows)

import tabm, models
SC = 'flowtracks.scene'
FIELDS = [('trajid', 'i', ()), ('time', 'i', ()), ('pos', 'f', (3,)), ('velocity', 'f', (3,)), ('accel', 'd', (3,)), ('extra', 'd', ())]
class HDF:
    """an HDF file: a /particles table of n rows with any contents, /bounds with one row per
    trajectory (or absent)"""
    def __init__(s, h, name, fields=FIELDS, minrows=1, bounds=True, attrs=False):
        s.h, s.name = h, name
        s.n = h.dim(name + '_rows', minrows)
        s.dt = tabm.schema(fields)
        rec = arr.new_rec(ie(s.n), s.dt)
        for c in rec.cols.values(): c.store.static = True
        s.rec = rec
        s.table = tabm.VTable(rec, 'particles')
        s.nodes = {'/particles': s.table}
        if bounds:
            s.nb = h.dim(name + '_ntraj')
            s.bounds = arr.new_rec(ie(s.nb), tabm.schema([('trajid', 'i', ()), ('first', 'i', ()), ('last', 'i', ())]))
            for c in s.bounds.cols.values(): c.store.static = True
            s.nodes['/bounds'] = tabm.VTable(s.bounds, 'bounds')
        if attrs:
            s.table._v_attrs._d['min_pos'] = h.array(name + '_min', (3,), 'f'); s.table._v_attrs._d['max_pos'] = h.array(name + '_max', (3,), 'f')
    def col(s, c): return s.rec.cols[c]
    def sel(s, pred):
        "the stored rows with the predicate (of a row's number), in stored order"
        return s.rec[SArr((s.rec.n,), lambda i: mkbool(simp(zb(tobool(pred(i))))), 'bool')]
    def intime(s, first, last):
        t = s.col('time')
        return lambda i: mkbool(zand(True if first is None else tobool(t.at(i) >= first), True if last is None else tobool(t.at(i) < last)))
def hdf_files(h, *files):
    models.EXTRA['tables'] = tabm.Tables({f.name: f.nodes for f in files})
    for f in files: f.table.__dict__['attrs0'] = dict(f.table._v_attrs._d)
def same_rows(h, got, want, fields, what):
    "got(field) has the same number of items as the selected rows, and the same values"
    for f in fields:
        g = got(f); w = want.cols[f]
        h.prove(g.shape[0] == w.shape[0], '%s: as many values of %s' % (what, f))
        h.prove(len(g.dims) == len(w.dims) and g.dims[1:] == w.dims[1:], '%s: item shape of %s' % (what, f))
        with h.forall(w.shape[0], 'row') as j:
            if len(w.dims) == 1: h.prove(g.at(j) == w.at(j), '%s: %s of the row' % (what, f))
            else:
                with h.forall(w.shape[1], 'c') as c: h.prove(g.at(j, c) == w.at(j, c), '%s: %s of the row' % (what, f))
RANGES = ('none', 'both', 'first', 'last')
def frame_range(h, kind):
    a, b = h.int('first'), h.int('last')
    return {'none': None, 'both': (a, b), 'first': (a, None), 'last': (None, b)}[kind]
def ends(h, hdf, rng):
    "first and last frame of a range, over this file's data"
    t = hdf.col('time')
    first = rng[0] if rng is not None and rng[0] is not None else t.min()
    last = rng[1] if rng is not None and rng[1] is not None else t.max() + 1
    return first, last
def chunk_of(h, m, n, need, what, depth=0):
    """m items made in order for some of n things, at least for those with need(k): the thing
    which an item is for (a strictly increasing function)"""
    r = h.r; m, n = ie(m), ie(n)
    if r.engine.quick(r, zb(arr.deq(lift(m), n))): return lambda t: lift(ie(t))
    for c in [c[0] for c in r.comps]:
        if r.engine.quick(r, zb(arr.deq(c.cnt, m))) and r.engine.quick(r, zb(arr.deq(c.n, n))):
            with h.forall(n, 'thing') as k:
                h.assume(need(ie(k)))
                h.prove(c.m(lift(ie(k))), what)
            return c.sel
    # one item for the thing i, the first, and the others for a selection of those after it
    for i, lo, n1 in r.notes.get('ones', []):
        if not r.engine.quick(r, zb(arr.deq(lift(n1), n))): continue
        for c in [c[0] for c in r.comps]:
            if r.engine.quick(r, zb(arr.deq(lift(c.cnt) + 1, m))) and r.engine.quick(r, zb(arr.deq(lift(c.n), lift(n) - 1 - i))):
                with h.forall(n, 'thing') as k:
                    h.assume(need(ie(k)))
                    h.prove((k >= SInt(i)) & ((k == SInt(i)) | mkbool(zb(tobool(c.m(lift(ie(k)) - 1 - i))))), what)
                return lambda t: z3.If(lift(ie(t)) >= 1, 1 + i + c.sel(lift(ie(t)) - 1), i)
    # none for the thing i or those before it, and the items for a selection of those after it
    for i, lo, n1 in r.notes.get('ones', []):
        if not r.engine.quick(r, zb(arr.deq(lift(n1), n))): continue
        for c in [c[0] for c in r.comps]:
            if r.engine.quick(r, zb(arr.deq(lift(c.cnt), m))) and r.engine.quick(r, zb(arr.deq(lift(c.n), lift(n) - 1 - i))):
                with h.forall(n, 'thing') as k:
                    h.assume(need(ie(k)))
                    h.prove((k > SInt(i)) & mkbool(zb(tobool(c.m(lift(ie(k)) - 1 - i)))), what)
                return lambda t: 1 + i + c.sel(lift(ie(t)))
    # items for some of those which were selected before
    if depth < 2:
        for c2 in [c[0] for c in r.comps]:
            if not r.engine.quick(r, zb(arr.deq(lift(c2.n), n))) or r.engine.quick(r, zb(arr.deq(lift(c2.cnt), n))): continue
            n2 = lift(c2.cnt)
            if not (r.engine.quick(r, zb(arr.deq(n2, m))) or any(r.engine.quick(r, zb(arr.deq(lift(c[0].n), n2))) for c in r.comps) or any(r.engine.quick(r, zb(arr.deq(lift(n1), n2))) for i, lo, n1 in r.notes.get('ones', []))): continue
            with h.forall(n, 'thing') as k:
                h.assume(need(ie(k)))
                h.prove(c2.m(lift(ie(k))), what)
            f = chunk_of(h, m, n2, lambda j: (h.hint(c2.sel(lift(ie(j)))), need(c2.sel(lift(ie(j)))))[1], what, depth + 1)
            return lambda t: c2.sel(lift(ie(f(t))))
    h.prove(pdim(m) == pdim(n), what)
    return lambda t: lift(ie(t))
def fam_hints(h, its, args):
    "hints: for selections made in iterations of past loops, the ranks of items and the first item"
    for c, e, jj, ixs in h.r.families:
        if len(ixs) != 1: continue
        for i in its:
            sub = [(ixs[0][0], lift(ie(i)))]
            h.hint(substz(c.sel(z3.IntVal(0)), sub), *[substz(c.rank(lift(ie(a))), sub) for a in args])

IN = 'flowtracks.interpolation'
def eudist(tp, ip, i, j):
    return npm.sqrt_(sum((tp.at(j, c) - ip.at(i, c))*(tp.at(j, c) - ip.at(i, c)) for c in range(3)))
def stub_select_neighbs(h):
    "the contract proved in c25.py (of the marks without a radius: that they are on eligible tracers)"
    memo = []
    def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None, companionship=None):
        r = h.r
        tp, ip = asarr(tracer_pos).copy(), asarr(interp_points).copy()
        cp = None if companionship is None else asarr(companionship).copy()
        if radius is None and num_neighbs is None: raise ValueError('Either radius or num_neighbs must be given.')
        el = lambda i, j: lnot(same3(tp, j, ip, i)) if cp is None else lnot(same3(tp, j, ip, i)) & lnot((cp.at(i) >= 0) & (cp.at(i) == j))
        d = SArr((ip.dims[0], tp.dims[0]), lambda i, j: select(el(i, j), eudist(tp, ip, i, j), 0.), 'float64')
        if radius is not None: u = SArr((ip.dims[0], tp.dims[0]), lambda i, j: el(i, j) & (eudist(tp, ip, i, j) < radius), 'bool')
        else:
            f = r.func('use', I, I, B); i, j = r.bound('i'), r.bound('j')
            r.assume(FA([i, j], z3.Implies(f(i, j), zb(tobool(el(i, j)))), [f(i, j)]))
            u = SArr((ip.dims[0], tp.dims[0]), lambda i, j: mkbool(f(lift(i), lift(j))), 'bool')
        return d, u
    return h.stub(IN, 'select_neighbs', select_neighbs)
import scipym
def distinct(h, tp, n):
    "tracers in different positions"
    a, b = h.r.bound('a'), h.r.bound('b')
    h.r.assume(FA([a, b], zimp(zand(0 <= a, a < b, b < ie(n)), znot(tobool(same3(tp, a, tp, b)))), [(tp.at(a, 0).e, tp.at(b, 0).e)]))
class Interp:
    "tracers in different positions, points, and the parameters of an interpolant"
    def __init__(s, h, comp=False, rad=False, tag=''):
        models.EXTRA['scipy'] = scipym.SCIPY; stub_select_neighbs(h)
        s.h = h
        s.n, s.m = h.dim('ntracers' + tag, 1), h.dim('npoints' + tag)
        s.tp, s.ip = fro(h.array('tracers' + tag, (s.n, 3)), h.array('points' + tag, (s.m, 3)))
        s.cp = fro(h.array('companion' + tag, (s.m,), 'i', rng=(-1, s.n))) if comp else None
        distinct(h, s.tp, s.n)
        s.K = h.int('num' + tag, 1)
        s.radius = h.real('radius' + tag, 0) if rad else None
    def dist(s, i, j): return eudist(s.tp, s.ip, i, j)
    def eligible(s, i, j):
        e = lnot(same3(s.tp, j, s.ip, i))
        if s.cp is not None: e = e & lnot(s.cp.at(i) == j)
        if s.radius is not None: e = e & (s.dist(i, j) < s.radius)
        return e
def total(s, f, *more):
    "the sums over the neighbours of each point"
    return SArr((ie(s.m), ie(s.K)) + tuple(ie(d) for d in more), lambda *ix: f(*[SInt(lift(x)) for x in ix]), 'float64').sum(axis=1)
def cases():
    for comp in (False, True):
        for rad in (False, True): yield comp, rad, ('_companions' if comp else '') + ('_radius' if rad else ''), '%s companions, %s radius' % ('with' if comp else 'no', 'with' if rad else 'no')

class Stored(HDF):
    """the file which is written for m trajectories (trs, with the different ids): the rows of the
    first, then those of the second, ..., and one row of bounds for each. row(q, t) is the row of
    point t; own(i) the trajectory which the row i is of"""
    def __init__(s, h, name, trs, m, extra=()):
        r = h.r
        s.h, s.name, s.trs, s.m = h, name, trs, m
        S = r.func('block', I, I); own = r.func('own', I, I); s.S, s.own = S, own
        M = lift(ie(m)); L = trs.L
        # the definition of a concatenation: where blocks start, and the order of blocks
        a, b, i = r.bound('a'), r.bound('b'), r.bound('i')
        r.assume(S(0) == 0)
        r.assume(FA(a, zimp(zand(0 <= a, a < M), S(a + 1) == S(a) + L(a)), [S(a + 1)]))
        r.assume(FA(a, zimp(zand(0 <= a, a < M), S(a + 1) == S(a) + L(a)), [L(a)]))
        r.assume(FA([a, b], zimp(zand(0 <= a, a < b, b <= M), S(a) + L(a) <= S(b)), [(S(a), S(b))]))
        r.assume(FA([a, b], zimp(zand(0 <= a, a < b, b < M), trs.tid(a) != trs.tid(b)), [(trs.tid(a), trs.tid(b))]))
        s.n = mkint(S(M))
        r.assume(S(M) >= 1)
        r.assume(FA(i, zimp(zand(0 <= i, i < S(M)), zand(0 <= own(i), own(i) < M, S(own(i)) <= i, i < S(own(i)) + L(own(i)))), [own(i)]))
        props = [('trajid', 'i', ()), ('time', 'i', ()), ('pos', 'f', (3,)), ('velocity', 'f', (3,))] + [(k, 'd', sh) for k, sh in extra]
        s.dt = tabm.schema(props)
        off = lambda i: lift(i) - S(own(lift(i)))
        def col(p, kd, sh):
            v = values(trs, p)[1]
            f = lambda i, *c: v(own(lift(i)), *([] if p == 'trajid' else [off(i)]), *c)
            return fro(SArr((S(M),) + sh, f, {'i': 'int64', 'f': 'float64', 'd': 'data'}[kd]))
        s.rec = arr.SRec(S(M), {p: col(p, kd, sh) for p, kd, sh in props}, s.dt)
        s.table = tabm.VTable(s.rec, 'particles')
        s.nb = m
        bc = lambda f: fro(SArr((M,), f, 'int64'))
        s.bounds = arr.SRec(M, dict(trajid=bc(lambda q: mkint(trs.tid(lift(q)))), first=bc(lambda q: mkint(trs.time(lift(q), z3.IntVal(0)))), last=bc(lambda q: mkint(trs.time(lift(q), L(lift(q)) - 1)))), tabm.schema([('trajid', 'i', ()), ('first', 'i', ()), ('last', 'i', ())]))
        s.nodes = {'/particles': s.table, '/bounds': tabm.VTable(s.bounds, 'bounds')}
    def of(s, q):
        "the rows with the id of trajectory q, shown to be its block: the selection"
        h = s.h; q = lift(ie(q))
        ids = s.col('trajid')
        want = s.sel(lambda i: ids.at(i) == mkint(s.trs.tid(q)))
        contiguous(h, want.n, s.rec.n, s.S(q), s.S(q) + s.trs.L(q), lambda i: h.hint(s.own(ie(i)), s.trs.tid(s.own(ie(i))), s.S(s.own(ie(i)))))
        return want
def values(trs, f):
    "property f of trajectory i: its item shape, and the value (at a time point and component)"
    if f == 'trajid': return (), lambda i, *t: mkint(trs.tid(i))
    if f == 'time': return (), lambda i, t: mkint(trs.time(i, lift(ie(t))))
    if f in ('pos', 'velocity'): return (3,), lambda i, t, c: wrap((trs.pos if f == 'pos' else trs.vel)(i, lift(ie(t)), lift(ie(c))))
    g, sh = trs.extra[f]
    return sh, lambda i, t, *c: wrap(g(i, lift(ie(t)), *[lift(ie(x)) for x in c]))
def contiguous(h, cnt, n, a, b, hint):
    """a selection (with cnt items) of n things which selects exactly those from a until b: item j is
    a + j. Proved by induction over j; the conclusion is then a fact"""
    r = h.r
    c = [c for c in arr.selections(r, cnt) if arr.deq(c.n, n) is True][-1]
    A, Bd = mkint(a), mkint(b)
    with h.forall(n, 'i') as i:
        hint(i)
        h.prove(mkbool(zb(tobool(c.m(ie(i)))) == zb(tobool((A <= i) & (i < Bd)))), 'selected are the things of one block')
    sel = lambda j: mkint(c.sel(lift(ie(j)))); rank = lambda i: c.rank(lift(ie(i)))
    h.prove((A < Bd) & (A >= 0) & (Bd <= mkint(lift(n))), 'a block of those things')
    h.hint(rank(A), c.sel(rank(A)))
    h.prove(sel(0) == A, 'the first item is the first of the block')
    with h.forall(Bd - A - 1, 'j') as j:
        h.assume((j < mkint(lift(cnt))) & (sel(j) == A + j))
        k = A + j + 1; h.hint(rank(k), c.sel(rank(k)), c.sel(ie(j + 1)), c.sel(ie(j)))
        h.prove((j + 1 < mkint(lift(cnt))) & (sel(j + 1) == k), 'then each next item is the next of the block')
    j = r.bound('j')
    r.assume(FA(j, zimp(zand(0 <= j, j < lift(ie(Bd - A))), zand(c.sel(j) == lift(ie(A)) + j, j < lift(cnt))), [c.sel(j)]))
    l = mkint(lift(cnt)) - 1; h.hint(c.sel(ie(l)), c.sel(ie(Bd - A)), c.sel(ie(Bd - A - 1)))
    h.prove(mkint(lift(cnt)) == Bd - A, 'as many items as the block has')
def stub_in_frame(h):
    "the contract proved in c05.py, for trajectories with consecutive times; equal arguments give equal results"
    memo = []; calls = h.r.notes.setdefault('in_frame', [])
    def trajectories_in_frame(trajects, frame_num, start_times=None, end_times=None, segs=False):
        r = h.r; q = coll.as_seq(trajects); n = q.n; frame = frame_num
        if not isinstance(segs, bool): segs = bool(segs)
        tm = lambda k: q.get(k).time()
        first = lambda k: tm(k).at(0)
        last = lambda k: tm(k).at(tm(k).dims[0] - 1 if not isz(tm(k).dims[0]) else arr.dsub(tm(k).dims[0], 1))
        if start_times is not None and end_times is not None:
            for a, f, w in ((start_times, first, 'first'), (end_times, last, 'last')):
                a = asarr(a); r.safety(zb(arr.deq(a.dims[0], n)), 'trajectories_in_frame: as many times as trajectories')
                k = r.bound('k')
                r.safety(FA(k, zimp(arr.within(k, n), tobool(a.at(k) == f(k))), None), 'trajectories_in_frame: the %s times of the trajectories' % w)
        active = lambda k: (first(k) <= frame) & (frame + (1 if segs else 0) <= last(k))
        at = lambda k, c: q.get(k).pos().at(ie(frame - first(k)), c)
        same = lambda a, b: (at(a, 0) == at(b, 0)) & (at(a, 1) == at(b, 1)) & (at(a, 2) == at(b, 2))
        for n2, fr, sg, first2, last2, at2, res in memo:
            if sg is not segs or arr.deq(n, n2) is not True or not r.engine.quick(r, zb(arr.deq(fr, ie(frame)))): continue
            k = r.bound('e')
            eq = (first(k) == first2(k)) & (last(k) == last2(k))
            for c in range(3): eq = eq & (at(k, c) == at2(k, c))
            if r.engine.quick(r, zb(zimp(arr.within(k, n), tobool(eq)))): return res.copy()
        m = r.const('in_frame_n', I); f = r.func('in_frame', I, I); of = r.func('in_frame_of', I, I)
        r.engine.flags.setdefault('in_frames', {})[str(of.decl)] = (f.decl, of.decl, m.decl() if not m.num_args() else m.decl(), len(f.ix))
        k, k2, i = r.bound('k'), r.bound('k'), r.bound('i')
        r.assume(z3.And(m >= 0, m <= lift(n)))
        r.assume(FA(k, zimp(arr.within(k, m), z3.And(f(k) >= 0, f(k) < lift(n), zb(tobool(active(f(k)))))), [f(k)]))
        r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < m), z3.And(f(k) < f(k2), z3.Not(zb(tobool(same(f(k), f(k2))))))), [(f(k), f(k2))]))
        r.assume(FA(i, zimp(zand(arr.within(i, n), tobool(active(i))), z3.And(of(i) >= 0, of(i) < m, zb(tobool(same(f(of(i)), i))))), [of(i)]))
        res = SArr((m,), lambda x: mkint(f(lift(x))), 'int64')
        memo.append((n, ie(frame), segs, first, last, at, res)); calls.append((trajects, frame, segs, f, m, of))
        return res.copy()
    return h.stub(TR, 'trajectories_in_frame', trajectories_in_frame)
class Stale:
    "the value of an attribute which an iteration leaves behind: nothing may depend on it"
    vc_static = True
    def __getattribute__(s, k):
        if k.startswith('__') or k == 'vc_static': return object.__getattribute__(s, k)
        raise Unsupported('an attribute left by an earlier iteration is used')
    def odd(s, *a): raise Unsupported('an attribute left by an earlier iteration is used')
    __eq__ = __bool__ = __len__ = __iter__ = __getitem__ = __add__ = __sub__ = __lt__ = __le__ = __gt__ = __ge__ = __call__ = odd
    __hash__ = object.__hash__
def inside(v):
    "what may change in the value of an attribute while it stays the same object"
    if isinstance(v, GenSeq): return (v.pos, v.busy)
    if isinstance(v, SList): return (v.n0.get_id() if isz(v.n0) else v.n0, [id(x) for x in v.tail], id(v.get0))
    if isinstance(v, dict): return [(q, id(x)) for q, x in dict.items(v)]
    if isinstance(v, list): return [id(x) for x in v]
    return None
class Iteration:
    """an iterator object of the code under contract, made anew by start(), which is to give n items;
    check(k, item) states what item k is. By induction over the number of items taken: whole number
    attributes have what they were, and a constant for each item more; others do not change, or are
    stale. check is proved of the first item from the actual state, of any other from that state, and
    that the iteration ends after n. Each is a part of the proof on its own (a path which ends there).
    A generator is its sequence of items."""
    def __init__(s, h, start, n, check, what=''):
        s.h, s.start, s.n, s.check, s.what = h, start, n, check, what
        s.memo = h.eng.flags.setdefault('iterations', {})
        s.case = lambda nm: h.r.fork(h.r.const('case_' + nm, B))
    def run(s):
        "the proof; and the state after it is that before start()"
        h, r, n = s.h, s.h.r, s.n
        s.it = it = loadermod.v_iter(s.start())
        if isinstance(it, (GenSeq, SSeq, SList)):
            s.rule = None
            lst = SList(); lst.extend(it)
            h.prove(lst.vc_len() == n, s.what + 'as many items as frames')
            with h.forall(n, 'k') as k: s.check(k, lst.get(ie(k)))
            return
        s.s0 = dict(it.__dict__); key = s.what
        s.inner = {f: inside(v) for f, v in s.s0.items()}
        if s.case(s.what + 'first item'):
            h.assume(n >= 1)
            item = s.step()
            rule, gone = s.found()
            if key in s.memo:
                old, g = s.memo[key]
                if g != gone: raise Unsupported('attributes that an iteration removes')
                for f in set(old) | set(rule):
                    a, b = old.get(f, 0), rule.get(f, 0)
                    if a != b: 
                        if a is not None and b is not None: raise Unsupported('an attribute which counts in some cases')
                        rule[f] = None
            s.memo[key] = rule, gone
            s.check(SInt(z3.IntVal(0)), item)
            raise core.StopPath()
        if key not in s.memo: raise core.StopPath()         # no first item
        s.rule, s.gone = s.memo[key]
        if s.case(s.what + 'any other item'):
            with h.forall(n, 'k', 1) as k:
                s.at(k)
                item = s.step()
                s.follows(k + 1)
                s.check(k, item)
            raise core.StopPath()
        if s.case(s.what + 'end'):
            if r.fork(zb(tobool(n >= 1))): s.at(n)
            s.ends()
            raise core.StopPath()
    def taken(s, k):
        "the state after an iteration: complete, or abandoned after k items, k >= 1"
        s.run()
        if s.rule is None: return
        if s.case(s.what + 'complete'):
            if s.h.r.fork(zb(tobool(s.n >= 1))): s.at(s.n)
            s.ends()
        else:
            s.h.assume((k >= 1) & (k <= s.n))
            s.at(k)
    def found(s):
        s1 = s.it.__dict__; rule = {}
        for f, v in s1.items():
            old = s.s0.get(f)
            if f in s.s0 and old is v:
                a, b = s.inner[f], inside(v)
                if isinstance(v, GenSeq):
                    d = simp(lift(b[0]) - lift(a[0]))
                    if b[1] != a[1] or not z3.is_int_value(d): raise Unsupported('an iterator within the iterator')
                    if d.as_long(): rule[f] = ('position', d.as_long())
                elif a != b: raise Unsupported('an attribute which changes within')
                continue
            rule[f] = None
            if isinstance(v, (SInt, int)) and isinstance(old, (SInt, int)) and not isinstance(v, bool):
                d = simp(lift(ie(v)) - lift(ie(old)))
                if z3.is_int_value(d): rule[f] = d.as_long()
        return rule, set(s.s0) - set(s1)
    def step(s):
        try: return s.it.__next__()
        except StopIteration:
            s.h.prove(False, s.what + 'an item for each frame')
            raise core.StopPath()
    def at(s, k):
        "the state after k items"
        d = {f: v for f, v in s.s0.items() if f not in s.gone}
        for f, w in s.rule.items():
            if isinstance(w, tuple): d[f].pos, d[f].busy = arr.dadd(s.inner[f][0], dimsimp(lift(ie(k))*w[1])), False
            else: d[f] = Stale() if w is None else s.s0[f] + w*k
        s.it.__dict__.clear(); s.it.__dict__.update(d)
    def follows(s, k):
        d = s.it.__dict__
        s.h.prove(set(d) == (set(s.s0) - s.gone) | set(s.rule), s.what + 'the attributes of the iterator')
        for f, v in d.items():
            w = s.rule.get(f, 0)
            if w is None: continue
            if isinstance(v, GenSeq):
                s.h.prove(v is s.s0[f], s.what + 'an attribute which does not change')
                d = w[1] if isinstance(w, tuple) else 0
                s.h.prove(mkint(lift(v.pos)) == mkint(lift(s.inner[f][0])) + d*k, s.what + 'an iterator which goes on')
                continue
            if w == 0 and f in s.inner and inside(v) != s.inner[f]: raise Unsupported('an attribute which changes within')
            if w == 0: s.h.prove(v is s.s0[f], s.what + 'an attribute which does not change')
            else: s.h.prove(v == s.s0[f] + w*k, s.what + 'an attribute which counts')
    def ends(s):
        try: s.it.__next__()
        except StopIteration: return
        s.h.prove(False, s.what + 'the end of the iteration')
