from lib import *
def setup(h):
    T = h.mod(TR); stub_mark_unique_rows(h)
    n = h.dim('ntr'); tr = Trajs(h, n)
    return T, n, tr, tr.list(), h.int('frame')
def segs_case(h, segs):
    T, n, tr, lst, frame = setup(h)
    res = T.trajectories_in_frame(lst, frame, segs=segs)
    spec(h, n, tr, frame, segs, res)
    st = SArr((ie(n),), lambda k: mkint(tr.start(lift(k))), 'int64'); en = SArr((ie(n),), lambda k: mkint(tr.end(k)), 'int64')
    res2 = T.trajectories_in_frame(lst, frame, st, en, segs)
    h.prove(res.shape[0] == res2.shape[0], 'as many with given times')
    with h.forall(res.shape[0], 'k') as k: h.prove(res.at(k) == res2.at(k), 'the same with given times')
def spec(h, n, tr, frame, segs, res):
    m = res.shape[0]
    with h.forall(m, 'k') as k:
        a = res.at(k)
        h.prove((a >= 0) & (a < n), 'indices of the list')
        h.prove(tr.active(a, frame, segs), 'active in the frame')
        with h.forall(m, 'k2') as k2:
            h.assume(k < k2)
            b = res.at(k2)
            h.prove(a < b, 'strictly increasing')
            h.prove(lnot(tr.samepos(a, b, frame)), 'distinct positions')
    with h.forall(n, 'i') as i:
        h.assume(tr.active(i, frame, segs))
        for c in h.r.comps:
            x = c[0].rank(ie(i)); h.hint(x)
            for a, u, of in h.r.notes.get('uniq', []):
                y = of(x); z = u.at(mkint(y))
                h.hint(y, z)
                for d in h.r.comps:
                    if d is not c:
                        h.hint(d[0].rank(c[0].sel(ie(z))), d[0].rank(ie(i)))
        h.prove(h.ex(m, lambda k: tr.samepos(SInt(lift(ie(res.at(k)))), i, frame)), 'every active trajectory, or one in its position')
@harness('C05', 'flowtracks.trajectory.trajectories_in_frame')
def active_in_frame(h):
    "segs=False; start and end times computed or given"
    segs_case(h, False)
@harness('C05', 'flowtracks.trajectory.trajectories_in_frame')
def active_in_segment(h):
    "segs=True"
    segs_case(h, True)
