from lib import *
IO = 'flowtracks.io'
import mapm
ASSUMPTIONS = ['ids in frames are not negative; times of frames increase; at least one frame is not empty (the rest of flowtracks has no file without rows)']
EXTRA = (('accel', (3,)), ('mass', ()))
class Snaps:
    "n frames in time order, each with any number of particles of different ids, at least one not empty"
    def __init__(s, h, extra=()):
        r = h.r; s.h = h; s.n = h.dim('nframes', 1)
        s.N = r.func('count', I, I); s.tm = r.func('when', I, I); s.id = r.func('id', I, I, I)
        s.pos = r.func('fpos', I, I, I, R); s.vel = r.func('fvel', I, I, I, R)
        s.extra = {k: (r.func('f_' + k, I, I, DATA) if sh == () else r.func('f_' + k, I, I, I, DATA), sh) for k, sh in extra}
        a, b, i = r.bound('a'), r.bound('b'), r.bound('i')
        r.assume(FA(a, s.N(a) >= 0, [s.N(a)]))
        r.assume(FA([a, b], zimp(a < b, s.tm(a) < s.tm(b)), [(s.tm(a), s.tm(b))]))
        r.assume(FA([a, i], zand(s.id(a, i) >= 0, s.id(a, i) < mapm.limit()), [s.id(a, i)]))
        r.assume(mapm.limit() >= 1)
        s.cls = h.mod(TR).ParticleSnapshot
    def make(s, k):
        k = lift(k); L = arr.dimsimp(s.N(k))
        kw = {nm: fro(farr(f, (L,) + sh, 'd', (k,))) for nm, (f, sh) in s.extra.items()}
        ids = SArr((L,), lambda i: mkint(s.id(k, lift(i))), 'int64')
        return s.cls(fro(farr(s.pos, (L, 3), 'f', (k,))), fro(farr(s.vel, (L, 3), 'f', (k,))), mkint(s.tm(k)), fro(ids), **kw)
    def list(s): return SList.of(ie(s.n), s.make)
    def values(s, p):
        "item shape and values of a property"
        if p in s.extra: f, sh = s.extra[p]; return sh, lambda k, i, *c: wrap(f(lift(ie(k)), lift(ie(i)), *[lift(ie(x)) for x in c]))
        f = {'trajid': s.id, 'pos': s.pos, 'velocity': s.vel}.get(p)
        if f is None: return (), lambda k, i: mkint(s.tm(lift(ie(k))))
        return (() if p == 'trajid' else (3,)), lambda k, i, *c: wrap(f(lift(ie(k)), lift(ie(i)), *[lift(ie(x)) for x in c]))
    def ghosts(s):
        """first(k), last(k): the first and last frames with a particle of trajectory k (all frames, if none);
        j0, jl: the first such particle in the former, one in the latter"""
        r = s.h.r
        s.first, s.last, s.j0, s.jl = [r.func(x, I, I) for x in ('first', 'last', 'j0', 'jl')]
        f, i, k = r.bound('f'), r.bound('i'), r.bound('k'); n = ie(s.n); x = s.id(f, i)
        r.assume(FA([f, i], zimp(zand(0 <= f, f < n, 0 <= i, i < s.N(f)), zand(s.first(x) <= f, f <= s.last(x), zimp(s.first(x) == f, s.j0(x) <= i))), [x]))
        a, b = s.first(k), s.last(k)
        r.assume(FA(k, zand(0 <= a, a <= n, zimp(a < n, zand(0 <= s.j0(k), s.j0(k) < s.N(a), s.id(a, s.j0(k)) == k, a <= b, b < n, 0 <= s.jl(k), s.jl(k) < s.N(b), s.id(b, s.jl(k)) == k))), [a]))
def keys_met(h, S, there):
    "by induction over frames and particles: which keys the dictionary has"
    frames, inner = [], []
    for rec in h.r.notes.get('recs', []):
        if rec.what != 'S' or rec.store is not there: continue
        (frames if h.r.engine.quick(h.r, lift(rec.hi) == ie(S.n)) else inner).append(rec)
    ones = h.r.notes.get('ones', [])
    if len(frames) != 1 or len(inner) > 1 or len(ones) != len(inner): raise Unsupported('the loop over frames')
    def within_frame(rec, f, out=()):
        f = lift(ie(f))
        h.induct(rec, lambda j, x: zimp(S.N(f) > 0, zb(tobool(rec.V(ie(j), ie(x), out=list(out) or None))) == zor(S.first(ie(x)) < f, zand(S.first(ie(x)) == f, S.j0(ie(x)) < lift(ie(j))))),
            'keys after a part of a frame', out=out, hints=lambda j, x: h.hint(S.first(ie(x)), *([S.id(f, lift(ie(j)))] if not isinstance(j, int) else [])))
    for rec, (f, lo, n1) in zip(inner, ones): within_frame(rec, f)
    rec = frames[0]
    parts = set()
    for b in rec.summ.ends:
        t = b.recpost[rec.h](z3.Int('smp')); parts |= rec_names(lift(t.e if isinstance(t, SVal) else t))
    parts = [h.r.engine.flags['recs'][n] for n in parts if n != rec.name]
    parts = [p for p in parts if p.what == 'S' and p.encl]
    if len(parts) != 1: raise Unsupported('the loop over particles')
    def step(i, x):
        h.hint(S.first(ie(x)))
        if lift(ie(i)).eq(lift(rec.lo)): return
        within_frame(parts[0], i, (lift(ie(i)),))
    h.induct(rec, lambda i, x: zb(tobool(rec.V(ie(i), ie(x)))) == (S.first(ie(x)) < lift(ie(i))), 'keys after some frames', hints=step)
    # the same, for what is known in each part of each frame
    p = parts[0]; lo = mkint(lift(rec.lo))
    with h.forall(S.n, 'frame', lo) as i: within_frame(p, i, (lift(ie(i)),))
    i, j, x = h.r.bound('i'), h.r.bound('j'), h.r.bound('x')
    h.r.assume(FA([i, j, x], zimp(zand(lift(rec.lo) <= i, i < ie(S.n), S.N(i) > 0, 0 <= j, j <= S.N(i), 0 <= x, x < mapm.limit()), zb(tobool(p.V(j, x, out=[i]))) == zor(S.first(x) < i, zand(S.first(x) == i, S.j0(x) < j))), [p.f(i, j, x)]))
def save(extra):
    def f(h):
        hdf_files(h)
        S = Snaps(h, extra)
        x = h.int('x', 0); h.assume((x < S.n) & (mkint(S.N(x.e)) > 0))
        h.mod(IO).save_frames_hdf('out.h5', S.list())
        nodes = models.EXTRA['tables'].files['out.h5']
        h.prove(models.EXTRA['tables'].files['written out.h5'].closed == 1, 'the file is complete')
        P, Bt = nodes['/particles'], nodes['/bounds']
        props = ['trajid', 'time', 'pos', 'velocity'] + [e for e, sh in extra]
        h.prove(sorted(P.dt.fields) == sorted(props), 'a column for each property')
        for p in props: h.prove(tuple(P.dt.fields[p][0].shape) == S.values(p)[0], 'item shape of a column')
        h.prove(sorted(Bt.dt.fields) == ['first', 'last', 'trajid'], 'columns of the bounds')
        m = P.chunks.vc_len()
        some = lambda k: mkint(S.N(lift(ie(k)))) > 0
        s = chunk_of(h, m, S.n, some, 'each frame which is not empty is saved')
        with h.forall(m, 'q') as q:
            k = mkint(s(ie(q))); N = mkint(S.N(ie(k)))
            rec = P.chunks.get(ie(q))
            h.prove(pdim(rec.n) == N, 'a row for each particle')
            with h.forall(N, 'i') as i:
                for p in props:
                    sh, v = S.values(p)
                    if sh == (): h.prove(rec.cols[p].at(i) == v(k, i), 'value of %s' % p)
                    else:
                        for c in range(3): h.prove(rec.cols[p].at(i, c) == v(k, i, c), 'value of %s' % p)
            with h.forall(m, 'q2') as q2:
                h.assume(q < q2); h.prove(mkint(s(ie(q))) < mkint(s(ie(q2))), 'frames in order')
        S.ghosts()
        nk, key, pos, mp = h.r.notes['keys'][-1]
        keys_met(h, S, mp.there.store)
        if any(rec.what == 'S' and rec.store is mp.vals.store for rec in h.r.notes.get('recs', [])): raise Unsupported('bounds computed from bounds so far')
        h.prove(Bt.chunks.vc_len() == mkint(nk), 'bounds for each key')
        with h.forall(mkint(nk), 'q') as q:
            b = Bt.chunks.get(ie(q)); t = b.cols['trajid'].at(0)
            h.hint(S.first(ie(t)))
            h.prove(b.n == 1, 'one row of bounds')
            h.prove(mkint(S.first(ie(t))) < S.n, 'of a trajectory in the frames')
            h.hint(S.id(S.first(ie(t)), S.j0(ie(t))), S.id(S.last(ie(t)), S.jl(ie(t))))
            for f0 in (S.first(ie(t)), S.last(ie(t))):
                for c in (0, 1): h.writes(f0, ie(t), z3.IntVal(c)); h.writes(S.j0(ie(t)), ie(t), z3.IntVal(c)); h.writes(S.jl(ie(t)), ie(t), z3.IntVal(c))
            h.prove(b.cols['first'].at(0) == mkint(S.tm(S.first(ie(t)))), 'the first frame it appears in')
            h.prove(b.cols['last'].at(0) == mkint(S.tm(S.last(ie(t)))), 'the last frame it appears in')
            with h.forall(mkint(nk), 'q2') as q2:
                h.assume(q < q2); h.prove(lnot(t == Bt.chunks.get(ie(q2)).cols['trajid'].at(0)), 'none twice')
        with h.forall(S.n, 'frame') as k:
            with h.forall(mkint(S.N(ie(k))), 'particle') as i:
                a = S.id(ie(k), ie(i)); p = pos(a)
                h.prove((mkint(p) >= 0) & (mkint(p) < mkint(nk)), 'bounds for each trajectory')
                h.prove(Bt.chunks.get(p).cols['trajid'].at(0) == mkint(a), 'of its id')
        box(h, S, P._v_attrs)
    return f
def box(h, S, attrs):
    for which, at, less in (('minimum', attrs.min_pos, lambda a, b: a <= b), ('maximum', attrs.max_pos, lambda a, b: a >= b)):
        at = asarr(at)
        h.prove(len(at.dims) == 1 and at.dims[0] == 3, 'three coordinates')
        rec = h.rec_of(at.at(z3.Int('smp')))
        V = lambda i, c: rec.V(lift(ie(i)), lift(ie(c)))
        def step(i, c):
            for f0, lo, n1 in h.r.notes.get('ones', []): h.hint(S.pos(f0, z3.IntVal(0), lift(ie(c))))
            for v in [rec.init(lift(ie(c)))] + [b.recpost[rec.h](lift(ie(c))) for b in rec.summ.ends]:
                for e in real3(v): h.hint(substz(e, [(rec.summ.idx, lift(ie(i)))]) if isz(e) else e)
        h.induct(rec, lambda i, c: zand(*[znot(e) for e in real3(V(i, c))[1:]]), 'the %s is finite' % which, hints=step)
        with h.forall(S.n, 'frame') as F:
            with h.forall(mkint(S.N(ie(F))), 'particle') as Q:
                x = lambda c: mkreal(S.pos(ie(F), ie(Q), lift(ie(c))))
                h.induct(rec, lambda i, c: zimp(ie(F) < lift(ie(i)), zb(tobool(less(V(i, c), x(c))))), 'at most the %s of the frames so far' % which, hints=lambda i, c: (step(i, c), h.hint(S.pos(ie(F), ie(Q), lift(ie(c))), S.pos(lift(ie(i)), ie(Q), lift(ie(c))), S.N(lift(ie(i))))))
                with h.forall(3, 'c') as c: h.prove(less(at.at(c), x(c)), 'no position is beyond the %s' % which)
        b = h.func('any', I, R); f, q, c = h.r.bound('f'), h.r.bound('q'), h.r.bound('c')
        with h.given(FA([f, q, c], zimp(zand(0 <= f, f < ie(S.n), 0 <= q, q < S.N(f), 0 <= c, c < 3), zb(tobool(less(mkreal(b(c)), mkreal(S.pos(f, q, c)))))), [S.pos(f, q, c)])):
            h.induct(rec, lambda i, c: zb(tobool(less(mkreal(b(ie(c))), V(i, c)))), 'the %s is of positions' % which, hints=step)
            with h.forall(3, 'c') as c: h.prove(less(mkreal(b(ie(c))), at.at(c)), 'the %s is reached' % which)
for nm, e in (('save', ()), ('save_extra', EXTRA)): harness('C14', [IO + '.save_frames_hdf', TR + '.Frame.as_dict', TR + '.Frame.ext_schema'], nm, rec=True, **{'dict': True})(save(e))
class StoredFrames(Stored):
    "the file which is written for m frames with particles (S, m <= all of them): the rows of the first, the second..."
    def __init__(s, h, name, S, m):
        class Blocks: pass
        t = Blocks(); t.L, t.tid, t.time, t.pos, t.vel, t.extra = S.N, S.tm, (lambda k, i: S.tm(k)), S.pos, S.vel, S.extra
        Stored.__init__(s, h, name, t, m, [(k, sh) for k, (f, sh) in S.extra.items()])
        cols = dict(s.rec.cols)
        cols['trajid'] = fro(SArr((s.n.e,), lambda i: mkint(S.id(s.own(lift(i)), lift(i) - s.S(s.own(lift(i))))), 'int64'))
        s.rec = arr.SRec(s.n.e, cols, s.dt); s.table = tabm.VTable(s.rec, 'particles')
        s.nb = h.dim('nbounds'); s.bounds = arr.new_rec(ie(s.nb), tabm.schema([('trajid', 'i', ()), ('first', 'i', ()), ('last', 'i', ())]))
        for c in s.bounds.cols.values(): c.store.static = True
        s.nodes = {'/particles': s.table, '/bounds': tabm.VTable(s.bounds, 'bounds')}
    def of(s, q, t):
        "the rows with the time t of frame q, shown to be its block"
        h = s.h; q = lift(ie(q)); tm = s.col('time')
        want = s.sel(lambda i: tm.at(i) == t)
        contiguous(h, want.n, s.rec.n, s.S(q), s.S(q) + s.trs.L(q), lambda i: h.hint(s.own(ie(i)), s.trs.tid(s.own(ie(i))), s.S(s.own(ie(i)))))
        return want
def read(h):
    "a file as save_frames_hdf writes it, read by iter_frames"
    S = Snaps(h, EXTRA); k = h.r.bound('k')
    h.assume(FA(k, S.N(k) >= 1, [S.N(k)]))      # those which are saved
    st = StoredFrames(h, 'f.h5', S, S.n); hdf_files(h, st)
    sc = h.mod(SC).Scene('f.h5'); T = h.mod(TR)
    lst = SList(); lst.extend(sc.iter_frames())
    a, b = sc.frame_range(); n = lst.vc_len()
    h.hint(S.tm(z3.IntVal(0)), S.tm(ie(S.n) - 1))
    rows = lambda q: h.hint(st.own(st.S(lift(ie(q)))), st.S(lift(ie(q))), st.rec.cols['time'].at(st.S(lift(ie(q)))))
    def frame(snap, t, q):
        h.prove(isinstance(snap, T.ParticleSnapshot), 'a snapshot')
        h.prove(snap.time() == t, 'of its time')
        props = ['trajid', 'pos', 'velocity'] + [e for e, sh in EXTRA]
        h.prove(sorted(snap.schema()) == sorted(props), 'the properties')
        st.of(q, t); N = mkint(S.N(lift(ie(q))))
        for p in props:
            sh, v = S.values(p); got = snap.__dict__[p]()
            h.prove((got.shape[0] == N) & (tuple(got.dims[1:]) == sh), 'as many values of %s' % p)
            with h.forall(N, 'i') as i:
                if sh == (): h.prove(got.at(i) == v(q, i), 'value of %s' % p)
                else:
                    for c in range(3): h.prove(got.at(i, c) == v(q, i, c), 'value of %s' % p)
    with h.forall(S.n, 'q') as q:
        t = mkint(S.tm(ie(q))); x = mkint(st.S(ie(q))); own = st.own(st.S(ie(q)))
        h.hint(st.S(ie(q + 1)), S.tm(own))
        h.prove(mkint(own) == q, 'its first row is of this frame')
        h.prove((st.col('time').at(x) == t) & (x < st.n), 'with its time')
        h.prove((t >= a) & (t - a < n), 'the frame is read')
    with h.forall(n, 'j') as j:
        s = lst.get(ie(j)); h.prove(s.time() == a + j, 'frames in order, one for each time')
        with h.forall(S.n, 'q') as q:
            h.assume(mkint(S.tm(ie(q))) == a + j)
            frame(s, a + j, q)
        with h.forall(s.pos().shape[0], 'i') as i:
            want = st.sel(lambda r: st.col('time').at(r) == a + j)
            row = [c for c in arr.selections(h.r, want.n) if arr.deq(c.n, st.rec.n) is True][-1].sel(ie(i)); h.hint(st.own(row))
            h.prove((mkint(st.own(row)) >= 0) & (mkint(st.own(row)) < S.n) & (mkint(S.tm(st.own(row))) == a + j), 'particles are of the frame of that time')
harness('C14', [SC + '.Scene.' + f for f in ('__init__', 'set_frame_range', 'iter_frames', '_iter_frame_arrays')], 'read')(read)
def info(attrs):
    def f(h):
        hdf = HDF(h, 'f.h5', attrs=attrs); hdf_files(h, hdf)
        sc = h.mod(SC).Scene('f.h5')
        lo, hi = sc.bounding_box(); lo, hi = asarr(lo), asarr(hi); pos = hdf.col('pos')
        h.prove(len(lo.dims) == 1 and lo.dims[0] == 3 and len(hi.dims) == 1 and hi.dims[0] == 3, 'three coordinates of each')
        if attrs:
            with h.forall(3, 'c') as c:
                h.prove(lo.at(c) == hdf.table._v_attrs.min_pos.at(c), 'the minimum in the file')
                h.prove(hi.at(c) == hdf.table._v_attrs.max_pos.at(c), 'the maximum in the file')
        else:
            with h.forall(3, 'c') as c:
                with h.forall(hdf.n, 'row') as i:
                    h.hint(pos.at(i, c))
                    h.prove((lo.at(c) <= pos.at(i, c)) & (pos.at(i, c) <= hi.at(c)), 'no position is beyond')
                b = h.real('any')
                with h.given(h.all(hdf.n, lambda i: pos.at(i, c) >= b)): h.prove(lo.at(c) >= b, 'the minimum is reached')
                with h.given(h.all(hdf.n, lambda i: pos.at(i, c) <= b)): h.prove(hi.at(c) <= b, 'the maximum is reached')
        tags = asarr(sc.trajectory_tags())
        h.prove((tags.shape[0] == hdf.nb) & (tags.shape[1] == 3), 'a tag for each trajectory')
        with h.forall(hdf.nb, 'q') as q:
            for c, p in enumerate(('trajid', 'first', 'last')): h.prove(tags.at(q, c) == hdf.bounds.cols[p].at(q), 'its ' + p)
    f.__doc__ = 'any file, %s the box in its attributes: bounding box and tags' % ('with' if attrs else 'without')
    return f
for a in (True, False): harness('C14', [SC + '.Scene.bounding_box', SC + '.Scene.trajectory_tags', SC + '.Scene.collect'], 'info' + ('' if a else '_no_attributes'))(info(a))
