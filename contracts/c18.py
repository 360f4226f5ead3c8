from lib import *
S = SC + '.Scene.'
FNS = [S + '__init__', S + 'set_frame_range', S + 'iter_trajectories', S + 'trajectory_by_id', S + 'trajectory_ids']
def traj_is(h, tr, hdf, tid, rng, what, T):
    h.prove(isinstance(tr, T.Trajectory), 'a trajectory')
    h.prove(tr.trajid() == tid, 'id of the trajectory')
    ids = hdf.col('trajid'); inr = hdf.intime(*(rng or (None, None)))
    want = hdf.sel(lambda i: (ids.at(i) == tid) & inr(i))
    props = [f for f in hdf.rec.cols if f != 'trajid']
    h.prove(sorted(tr.schema()) == sorted(props), 'exactly the stored properties')
    same_rows(h, lambda f: tr.__dict__[f](), want, props, what)
def check(h, sc, hdf, rng, bounds, T, tag):
    lst = SList(); lst.extend(sc.iter_trajectories())
    n = lst.vc_len()
    ids = hdf.col('trajid')
    if bounds:
        bid = hdf.bounds.cols['trajid']
        h.prove(n == hdf.nb, tag + 'one trajectory for each stored id')
        with h.forall(n, 'k') as k: traj_is(h, lst.get(ie(k)), hdf, bid.at(k), rng, tag + 'trajectory', T)
    else:
        with h.forall(n, 'k') as k:
            a = lst.get(ie(k)).trajid()
            for f, w, pos in h.r.notes.get('unique', []): h.hint(f(ie(k)), w(ie(k)), ids.at(mkint(w(ie(k)))))
            h.prove(h.ex(hdf.n, lambda i: ids.at(i) == a), tag + 'the id is stored')
            traj_is(h, lst.get(ie(k)), hdf, a, rng, tag + 'trajectory', T)
            with h.forall(n, 'k2') as k2:
                h.assume(k < k2)
                h.prove(lnot(a == lst.get(ie(k2)).trajid()), tag + 'no id twice')
        with h.forall(hdf.n, 'i') as i:
            for f, w, pos in h.r.notes.get('unique', []): h.hint(pos(ie(i)), f(pos(ie(i))))
            h.prove(h.ex(n, lambda k: lst.get(ie(k)).trajid() == ids.at(i)), tag + 'every stored id')
    tid = h.int('tid')
    traj_is(h, sc.trajectory_by_id(tid), hdf, tid, rng, tag + 'trajectory_by_id', T)
def case(kind, bounds):
    def f(h):
        hdf = HDF(h, 'f.h5', bounds=bounds); hdf_files(h, hdf)
        S, T = h.mod(SC), h.mod(TR)
        rng = frame_range(h, kind)
        sc = S.Scene('f.h5', rng)
        check(h, sc, hdf, rng, bounds, T, '')
        rng2 = (h.int('first2'), h.int('last2'))
        sc.set_frame_range(rng2)
        check(h, sc, hdf, rng2, bounds, T, 'after set_frame_range: ')
        sc.set_frame_range(None)
        check(h, sc, hdf, None, bounds, T, 'after removing the range: ')
    f.__doc__ = 'range given by: %s; %s bounds table' % (kind, 'with a' if bounds else 'without')
    return f
for kind in RANGES: harness('C18', FNS, 'trajectories_range_' + kind)(case(kind, True))
harness('C18', FNS, 'trajectories_no_bounds_table')(case('both', False))
ASSUMPTIONS = ['the /bounds table of a scene file holds each trajectory id once (proved of the writers in C13, C14)']
