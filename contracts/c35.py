from lib import *
import cfgm
IO = 'flowtracks.io'
ASSUMPTIONS = ['configparser: run as it is; numbers are read back as they were written',
    'read_frame_data: trajectories() gives at least one trajectory of each kind, at consecutive times (what is read of which format: C09-C16, C18)']
EXTRA = [('accel', (3,)), ('companion', ())]
def config(h, **items):
    models.EXTRA['configparser'] = cfgm.MODULE
    cfg = cfgm.ConfigParser()
    for sec in ('Particle', 'Scene'): cfg.add_section(sec)
    for k, v in items.items():
        sec = 'Particle' if k in ('diameter', 'density') else 'Scene'
        cfg.set(sec, k.replace('frame_rate', 'frame rate').replace('_frame', ' frame').replace('_xfile', ' file'), v.replace('%', '%%') if isinstance(v, str) else strs.hole('s', v))
    cfg.written('conf')
FD = [IO + '.read_frame_data', TR + '.take_snapshot', TR + '.ParticleSet.__init__', 'flowtracks.particle.Particle.__init__']
@harness('C35', FD)
def frame_data(h):
    "any numbers, any tracer and particle trajectories"
    h.mod(IO)
    stub_in_frame(h)
    diam, dens, rate, frame = h.real('diam'), h.real('dens'), h.real('rate'), h.int('frame')
    src = {}
    for nm in ('tracers', 'particles'):
        n = h.dim('n' + nm, 1)
        t = Trajs(h, n, name=nm, extra=EXTRA)
        src[nm] = (cfgm.Text(nm), t, n, t.list())
    config(h, diameter=diam, density=dens, frame_rate=rate, frame=frame, tracer_file=src['tracers'][0], part_file=src['particles'][0])
    def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None, iter_allowed=False):
        for nm, (text, t, n, lst) in src.items():
            if fname == text:
                h.prove((first <= frame) & (last >= frame + 1), 'the frame and the next are read: ' + nm)
                h.prove(frate == rate, 'frame rate for reading: ' + nm)
                h.prove(fmt is None or fmt == ('format of', fname), 'format: ' + nm)
                h.prove(traj_min_len is None or traj_min_len <= 2, 'trajectories with both frames are not too short: ' + nm)
                return lst
        h.prove(False, 'the configured files are read')
    h.stub(IO, 'trajectories', trajectories)
    h.stub(IO, 'infer_format', lambda fn: ('format of', fn))
    part, fr, a, b = h.mod(IO).read_frame_data('conf')
    h.prove((part.diam == diam) & (part.density == dens), 'particle'); h.prove(fr == rate, 'frame rate')
    T = h.mod(TR)
    for nm, (text, t, n, lst) in src.items():
        snaps = getattr(a, nm), getattr(b, nm)
        call = [c for c in h.r.notes['in_frame'] if coll.as_seq(c[0]).n is lst.n or arr.deq(coll.as_seq(c[0]).n, ie(n)) is True]
        h.prove(len(call) == 1, 'the trajectories of the frame: ' + nm)
        _, f0, segs, f, m, of = call[0]
        for k, s in enumerate(snaps):
            w = '%s of the %s: ' % (nm, ('frame', 'next frame')[k])
            h.prove(isinstance(s, T.ParticleSnapshot), w + 'a snapshot')
            h.prove(s.time() == frame + k, w + 'time')
            h.prove(sorted(s.as_dict()) == ['accel', 'companion', 'pos', 'trajid', 'velocity'], w + 'properties')
            for p in ('pos', 'velocity', 'accel', 'companion', 'trajid'): h.prove(s.__dict__[p]().shape[0] == mkint(m), w + 'one for each trajectory with both frames')
            if h.r.engine.quick(h.r, m == 0): continue
            with h.forall(mkint(m), 'j') as j:
                i = f(lift(ie(j))); off = frame + k - mkint(t.start(i))
                h.prove((mkint(i) >= 0) & (mkint(i) < n) & t.active(i, frame, True), w + 'of a trajectory with both frames')
                h.prove(s.trajid().at(j) == mkint(t.tid(i)), w + 'trajectory id')
                for p in ('pos', 'velocity', 'accel', 'companion'):
                    sh, v = values(t, p)
                    for c in ([()] if sh == () else [(c,) for c in range(3)]): h.prove(s.__dict__[p]().at(j, *c) == v(i, off, *c), w + 'values of ' + p)
                with h.forall(mkint(m), 'j2') as j2:
                    h.assume(j < j2)
                    h.prove(mkint(i) < mkint(f(lift(ie(j2)))), w + 'each trajectory once')
        with h.forall(n, 'i') as i:
            h.assume(t.active(i, frame, True))
            h.hint(of(ie(i)), f(of(ie(i))))
            h.prove(h.ex(mkint(m), lambda j: t.samepos(SInt(f(ie(j))), i, frame)), nm + ': every trajectory with both frames, or one in its position')
DS = [SC + '.read_dual_scene', SC + '.DualScene.__init__', SC + '.DualScene.iter_frames', SC + '.Scene.set_frame_range', 'flowtracks.particle.Particle.__init__']
@harness('C35', DS)
def dual_scene(h):
    "any numbers, any files"
    diam, dens, rate, first, last = h.real('diam'), h.real('dens'), h.real('rate'), h.int('first'), h.int('last')
    tr, pa = cfgm.Text('tracers'), cfgm.Text('particles')
    A, B = HDF(h, tr), HDF(h, pa); hdf_files(h, A, B)
    config(h, diameter=diam, density=dens, frame_rate=rate, first_frame=first, last_frame=last, tracers_xfile=tr, particles_xfile=pa)
    S = h.mod(SC); T = h.mod(TR)
    sc = S.read_dual_scene('conf')
    h.prove(isinstance(sc, S.DualScene), 'a dual scene')
    h.prove((sc.part.diam == diam) & (sc.part.density == dens), 'particle'); h.prove(sc.frate == rate, 'frame rate')
    h.prove(sc.get_particles_path() == pa, 'path of the particles')
    r = sc.get_range()
    h.prove((r[0] == first) & (r[1] == last + 1), 'the range has the configured last frame')
    for s, f, w in ((sc.get_tracers(), A, 'tracers'), (sc.get_particles(), B, 'particles')):
        q = s.frame_range(); h.prove((q[0] == first) & (q[1] == last + 1), 'range of the ' + w)
        got = s.collect(SList(['pos'])); want = f.sel(f.intime(first, last + 1))
        same_rows(h, lambda _: got[0], want, ['pos'], w + ' of the configured file and range')
