from lib import *
S = SC + '.Scene.'
FNS = [S + 'iter_segments', S + '_iter_frame_arrays', S + '__init__', S + 'set_frame_range', SC + '.pairwise']
def in_both(h, hdf, t, tn):
    "rows of the frame t whose trajectory has a row in the frame tn"
    tm, ids = hdf.col('time'), hdf.col('trajid')
    rows = hdf.sel(lambda i: tm.at(i) == t); others = hdf.sel(lambda i: tm.at(i) == tn)
    rid, oid = rows.cols['trajid'], others.cols['trajid']
    return rows[SArr((rows.n,), lambda i: mkbool(h.ex(pdim(others.n), lambda j: oid.at(j) == rid.at(i))), 'bool')]
def snap_is(h, s, want, t, what, T, hdf):
    h.prove(isinstance(s, T.ParticleSnapshot), 'a snapshot')
    h.prove(s.time() == t, 'time of the ' + what)
    props = [f for f in hdf.rec.cols if f != 'time']
    h.prove(sorted(s.schema()) == sorted(props), 'exactly the stored properties')
    same_rows(h, lambda f: s.__dict__[f](), want, props, what)
def check(h, sc, hdf, first, last, T, tag):
    lst = SList(); lst.extend(sc.iter_segments())
    n = lst.vc_len()
    h.prove(n == select(last - first > 1, last - first - 1, 0), tag + 'one pair for each frame which has a next one in the range')
    with h.forall(n, 'k') as k:
        f, g = lst.get(ie(k))
        t = first + k
        w = in_both(h, hdf, t, t + 1)
        snap_is(h, f, w, t, tag + 'frame', T, hdf)
        v = in_both(h, hdf, t + 1, t)
        snap_is(h, g, v, t + 1, tag + 'next frame', T, hdf)
def case(kind):
    def f(h):
        hdf = HDF(h, 'f.h5'); hdf_files(h, hdf)
        S, T = h.mod(SC), h.mod(TR)
        rng = frame_range(h, kind)
        sc = S.Scene('f.h5', rng)
        check(h, sc, hdf, *ends(h, hdf, rng), T, '')
        rng2 = (h.int('first2'), h.int('last2'))
        sc.set_frame_range(rng2)
        check(h, sc, hdf, *rng2, T, 'after set_frame_range: ')
    f.__doc__ = 'range given by: ' + kind
    return f
for kind in RANGES: harness('C19', FNS, 'segments_range_' + kind)(case(kind))
