from lib import *
S = SQ + '.Sequence.'
FNS = [S + x for x in ('__init__', '__iter__', 'next', 'iter_subrange', 'particle_trajectories', 'tracer_trajectories', 'set_particle_selector', 'set_tracer_selector')] + [TR + '.take_snapshot', TR + '.ParticleSet.__init__', TR + '.ParticleSet.schema']
ASSUMPTIONS = ['Sequence: trajectories() and the selectors give at least one trajectory of each kind, at consecutive times (what is read of which format: C09-C16, C18)', 'the first frame of a range is not after its last']
EXTRA = {'tracers': [('accel', (3,))], 'particles': [('accel', (3,)), ('companion', ())]}
def make(h, select):
    h.mod(SQ); stub_in_frame(h)
    src = {}
    a, b, rate = h.int('first'), h.int('last'), h.real('rate')
    for nm in ('tracers', 'particles'):
        n = h.dim('n' + nm, 1)
        t = Trajs(h, n, name=nm, extra=EXTRA[nm])
        if select:
            all_ = SList.of(h.dim('all ' + nm).e, lambda k: None); sel = t.list()
        else: all_ = sel = t.list()
        src[nm] = ('file of ' + nm, t, n, all_, sel)
    smooth = False
    ml = h.real('minlen', 0)
    def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None, iter_allowed=False):
        for nm, (text, t, n, all_, sel) in src.items():
            if fname == text:
                h.prove((first == a) & (last == b), 'the range of the sequence is read: ' + nm)
                h.prove(frate == rate, 'frame rate for reading: ' + nm)
                h.prove(fmt is None or fmt == ('format of', fname), 'format: ' + nm)
                h.prove(traj_min_len == ml, 'minimal length: ' + nm)
                return all_
        h.prove(False, 'the files of the sequence are read')
    h.stub('flowtracks.io', 'trajectories', trajectories)
    h.stub('flowtracks.io', 'infer_format', lambda fn: ('format of', fn))
    Q = h.mod(SQ)
    seq = Q.Sequence((a, b), rate, Q.Particle(1., 2.), src['particles'][0], src['tracers'][0], smooth, ml)
    if select:
        def selector(nm):
            def f(lst):
                h.prove(lst is src[nm][3], 'the selector gets the trajectories which are read: ' + nm)
                return src[nm][4]
            return f
        seq.set_particle_selector(selector('particles')); seq.set_tracer_selector(selector('tracers'))
    return seq, src, a, b
def item(h, src, frame, pair, what):
    T = h.mod(TR)
    for nm, (text, t, n, all_, sel) in src.items():
        h.prove(len(pair) == 2, what + 'two frames')
        snaps = [getattr(f, nm) for f in pair]
        call = [c for c in h.r.notes['in_frame'] if arr.deq(coll.as_seq(c[0]).n, ie(n)) is True and h.r.engine.quick(h.r, zb(tobool(c[1] == frame)))]
        h.prove(len(call) >= 1, what + 'the trajectories of the frame: ' + nm)
        _, f0, segs, f, m, of = call[-1]
        for k, s in enumerate(snaps):
            w = what + '%s of the %s: ' % (nm, ('frame', 'next frame')[k])
            h.prove(isinstance(s, T.ParticleSnapshot), w + 'a snapshot')
            h.prove(s.time() == frame + k, w + 'time')
            props = ['pos', 'velocity'] + [p for p, sh in EXTRA[nm]]
            h.prove(sorted(s.as_dict()) == sorted(props + ['trajid']), w + 'properties')
            for p in props + ['trajid']: h.prove(s.__dict__[p]().shape[0] == mkint(m), w + 'one for each trajectory with both frames')
            if h.r.engine.quick(h.r, m == 0): continue
            with h.forall(mkint(m), 'j') as j:
                i = f(lift(ie(j))); off = frame + k - mkint(t.start(i))
                h.prove((mkint(i) >= 0) & (mkint(i) < n) & t.active(i, frame, True), w + 'of a trajectory with both frames')
                h.prove(s.trajid().at(j) == mkint(t.tid(i)), w + 'trajectory id')
                for p in props:
                    sh, v = values(t, p)
                    for c in ([()] if sh == () else [(c,) for c in range(3)]): h.prove(s.__dict__[p]().at(j, *c) == v(i, off, *c), w + 'values of ' + p)
                with h.forall(mkint(m), 'j2') as j2:
                    h.assume(j < j2)
                    h.prove(mkint(i) < mkint(f(lift(ie(j2)))), w + 'each trajectory once')
        with h.forall(n, 'i') as i:
            h.assume(t.active(i, frame, True))
            h.hint(of(ie(i)), f(of(ie(i))))
            h.prove(h.ex(mkint(m), lambda j: t.samepos(SInt(f(ie(j))), i, frame)), what + nm + ': every trajectory with both frames, or one in its position')
def iterate(h, src, start, a, b, what):
    return Iteration(h, start, b - a, lambda k, pair: item(h, src, a + k, pair, what), what).run()
@harness('C07', FNS)
def whole(h):
    "any range, any selected trajectories; the whole sequence"
    seq, src, a, b = make(h, True)
    h.assume(a <= b)
    iterate(h, src, lambda: seq, a, b, '')
@harness('C07', FNS)
def subrange(h):
    "any subrange, any trajectories, which are not selected from"
    seq, src, a, b = make(h, False)
    x, y = h.int('x'), h.int('y'); h.assume(x <= y)
    iterate(h, src, lambda: seq.iter_subrange(x, y), x, y, '')
def later(first, second):
    def f(h):
        seq, src, a, b = make(h, False)
        h.assume(a <= b)
        rng = []
        for k, kind in enumerate((first, second)):
            if kind == 'whole': rng.append((a, b, lambda: seq))
            else:
                x, y = h.int('x%d' % k), h.int('y%d' % k); h.assume(x <= y)
                rng.append((x, y, lambda x=x, y=y: seq.iter_subrange(x, y)))
        (x, y, start), (x2, y2, start2) = rng
        it = Iteration(h, start, y - x, lambda k, pair: None, 'first: ')
        it.taken(h.int('taken'))
        iterate(h, src, start2, x2, y2, 'later: ')
    f.__doc__ = 'the %s, after the %s, complete or abandoned after any number (at least one) of items' % (second, first)
    return f
for i, j in (('whole', 'whole'), ('subrange', 'whole'), ('whole', 'subrange'), ('subrange', 'subrange')): harness('C07', FNS, '%s_after_%s' % (j, i))(later(i, j))
@harness('C07', FNS)
def reselected(h):
    "selectors set after trajectories were used: any selected trajectories"
    seq, src, a, b = make(h, False)
    h.assume(a <= b)
    loadermod.v_iter(seq)
    new = {}
    for nm, setter in (('particles', seq.set_particle_selector), ('tracers', seq.set_tracer_selector)):
        n = h.dim('n2' + nm, 1); t = Trajs(h, n, name=nm + '2', extra=EXTRA[nm])
        new[nm] = (src[nm][0], t, n, src[nm][3], t.list())
        setter(lambda lst, nm=nm: new[nm][4])
    iterate(h, new, lambda: seq, a, b, '')
