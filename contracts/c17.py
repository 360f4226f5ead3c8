from lib import *
S = SC + '.Scene.'
FNS = [S + '__init__', S + 'set_frame_range', S + 'frame_range', S + 'iter_frames', S + '_iter_frame_arrays', S + 'frame_by_time']
def snapshot_is(h, snap, hdf, t, what, T):
    h.prove(isinstance(snap, T.ParticleSnapshot), 'a snapshot')
    h.prove(snap.time() == t, 'time of the snapshot')
    tm = hdf.col('time')
    want = hdf.sel(lambda i: tm.at(i) == t)
    props = [f for f in hdf.rec.cols if f != 'time']
    h.prove(sorted(snap.schema()) == sorted(props), 'exactly the stored properties')
    same_rows(h, lambda f: snap.__dict__[f](), want, props, what)
def case(kind):
    def f(h):
        T = None
        hdf = HDF(h, 'f.h5'); hdf_files(h, hdf)
        S = h.mod(SC); T = h.mod(TR)
        rng = frame_range(h, kind)
        sc = S.Scene('f.h5', rng)
        first, last = ends(h, hdf, rng)
        a, b = sc.frame_range()
        h.prove((a == first) & (b == last), 'frame_range gives the range')
        fr = sc.iter_frames()
        lst = SList(); lst.extend(fr)
        n = lst.vc_len()
        h.prove(n == select(last - first > 0, last - first, 0), 'one snapshot for each frame number in the range')
        with h.forall(n, 'k') as k: snapshot_is(h, lst.get(ie(k)), hdf, first + k, 'frame', T)
        # a second iteration, and a changed range
        rng2 = (h.int('first2'), h.int('last2'))
        sc.set_frame_range(rng2)
        lst2 = SList(); lst2.extend(sc.iter_frames())
        n2 = lst2.vc_len()
        h.prove(n2 == select(rng2[1] - rng2[0] > 0, rng2[1] - rng2[0], 0), 'after set_frame_range: one snapshot for each frame number')
        with h.forall(n2, 'k') as k: snapshot_is(h, lst2.get(ie(k)), hdf, rng2[0] + k, 'after set_frame_range', T)
        sc.set_frame_range(None)
        first3, last3 = ends(h, hdf, None)
        lst3 = SList(); lst3.extend(sc.iter_frames())
        h.prove(lst3.vc_len() == select(last3 - first3 > 0, last3 - first3, 0), 'after removing the range: one snapshot for each frame number')
        with h.forall(lst3.vc_len(), 'k') as k: snapshot_is(h, lst3.get(ie(k)), hdf, first3 + k, 'after removing the range', T)
        t = h.int('t')
        snapshot_is(h, sc.frame_by_time(t), hdf, t, 'frame_by_time', T)
    f.__doc__ = 'range given by: ' + kind
    return f
for kind in RANGES: harness('C17', FNS, 'frames_range_' + kind)(case(kind))
