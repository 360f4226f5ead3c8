from lib import *
import cfgm
AS = 'flowtracks.an_scene.AnalysedScene.'
FNS = [AS + x for x in ('__init__', 'collect', '_iter_frame_arrays')] + [SC + '.Scene._iter_frame_arrays', SC + '.gen_query_string', SC + '.read_dual_scene']
ASSUMPTIONS = ['configparser: run as it is; numbers are read back as they were written',
    'in the particle and analysis tables a trajectory id occurs once in a frame, and the rows of a frame are in the same order in both (proved of Scene.iter_segments in C19, bounded of analyse in C22)']
PF = [('trajid', 'i', ()), ('time', 'i', ()), ('pos', 'f', (3,)), ('velocity', 'f', (3,)), ('diam', 'f', ())]
AF = [('trajid', 'i', ()), ('time', 'i', ()), ('fluid', 'f', (3,)), ('reyn', 'f', ())]
class An:
    def __init__(s, h):
        s.h = h
        models.EXTRA['configparser'] = cfgm.MODULE
        s.first, s.last = h.int('first'), h.int('last')
        tr, pa = 'tr.h5', 'pa.h5'
        s.T, s.P, s.A = HDF(h, tr), HDF(h, pa, fields=PF), HDF(h, 'an.h5', fields=AF, bounds=False, minrows=0)
        s.A.nodes = {'/analysis': s.A.table}
        hdf_files(h, s.T, s.P, s.A)
        s.A.table._v_attrs._d['config'] = 'conf'
        cfg = cfgm.ConfigParser()
        for sec in ('Particle', 'Scene'): cfg.add_section(sec)
        for k, v in (('diameter', h.real('diam')), ('density', h.real('dens'))): cfg.set('Particle', k, strs.hole('s', v))
        for k, v in (('frame rate', h.real('rate')), ('first frame', s.first), ('last frame', s.last - 1)): cfg.set('Scene', k, strs.hole('s', v))
        cfg.set('Scene', 'tracers file', tr); cfg.set('Scene', 'particles file', pa)
        cfg.written('conf')
        h.assume(s.first < s.last)
        p, q, i, j = [h.r.bound(x) for x in 'pqij']
        row = lambda X: (lambda x: X.col('time').at(x).e, lambda x: X.col('trajid').at(x).e)
        pt, pi = row(s.P); at, ai = row(s.A)
        s.pt, s.pi, s.at, s.ai = pt, pi, at, ai
        for t, d, X in ((pt, pi, s.P), (at, ai, s.A)):
            h.r.assume(FA([p, q], zimp(zand(arr.within(p, ie(X.n)), arr.within(q, ie(X.n)), p < q, t(p) == t(q)), d(p) != d(q)), [(d(p), d(q))]))
        # the order of rows: two particles of a frame
        h.r.assume(FA([p, q, i, j], zimp(zand(*[arr.within(x, ie(X.n)) for x, X in ((p, s.P), (q, s.P), (i, s.A), (j, s.A))], pt(p) == pt(q), at(i) == pt(p), at(j) == pt(p), pi(p) == ai(i), pi(q) == ai(j), p < q), i < j), [(pi(p), pi(q), ai(i), ai(j))]))
def cond(X, where):
    def p(i):
        ok = SBool(z3.BoolVal(True))
        for f, (a, b, inv) in (where or {}).items():
            if f not in X.rec.cols: continue
            v = X.col(f).at(i)
            ok = ok & (((v < a) | (v >= b)) if inv else ((v >= a) & (v < b)))
        return ok
    return p
def matching(h, an, t, where):
    "the rows of frame t which satisfy the conditions and are in both tables: of particles, of the analysis"
    pc, ac = cond(an.P, where), cond(an.A, where)
    rows = an.P.sel(lambda i: (an.P.col('time').at(i) == t) & pc(i)); oth = an.A.sel(lambda i: (an.A.col('time').at(i) == t) & ac(i))
    rid, oid = rows.cols['trajid'], oth.cols['trajid']
    w = rows[SArr((rows.n,), lambda i: mkbool(h.ex(pdim(oth.n), lambda j: oid.at(j) == rid.at(i))), 'bool')]
    v = oth[SArr((oth.n,), lambda i: mkbool(h.ex(pdim(rows.n), lambda j: rid.at(j) == oid.at(i))), 'bool')]
    return rows, oth, w, v
def comp_of(h, cnt, n):
    return [c for c in arr.selections(h.r, cnt) if arr.deq(c.n, n) is True][-1]
def align(h, an, rows, oth, w, v, tag):
    """row i of w and row i of v have the same id: F takes a row of w to that of v with its id, and G
    back. Both are strictly increasing, so F(i) >= i and G(j) >= j, and G(F(i)) = i"""
    r = h.r
    R, O = comp_of(h, rows.n, an.P.rec.n), comp_of(h, oth.n, an.A.rec.n); W, V = comp_of(h, w.n, rows.n), comp_of(h, v.n, oth.n)
    F, G = r.func('F', I, I), r.func('G', I, I)
    def one(w, W, R, v, V, O, oth, F, J):
        wid, vid, oid = w.cols['trajid'], v.cols['trajid'], oth.cols['trajid']
        i = r.bound('i')
        with h.forall(w.n, 'i') as k:
            h.hint(W.sel(ie(k)))
            h.prove(h.ex(pdim(oth.n), lambda j: oid.at(j) == wid.at(k)), tag + 'a matching row has one with its id')
        r.assume(FA(i, zimp(arr.within(i, w.n), zand(arr.within(J(i), oth.n), tobool(oid.at(mkint(J(i))) == wid.at(mkint(i))))), [J(i)]))
        with h.forall(w.n, 'i') as k:
            x = J(ie(k)); h.hint(x, V.rank(x), V.sel(V.rank(x)), W.sel(ie(k)))
            h.prove((mkint(V.rank(x)) >= 0) & (mkint(V.rank(x)) < pdim(v.n)) & (vid.at(mkint(V.rank(x))) == wid.at(k)), tag + 'which is matching too')
        r.assume(FA(i, zimp(arr.within(i, w.n), zand(arr.within(F(i), v.n), tobool(vid.at(mkint(F(i))) == wid.at(mkint(i))))), [F(i)]))
    one(w, W, R, v, V, O, oth, F, r.func('J', I, I)); one(v, V, O, w, W, R, rows, G, r.func('K', I, I))
    def up(w, W, R, v, V, O, F, what):
        with h.forall(w.n, 'i') as a:
            with h.forall(w.n, 'i2') as b:
                h.assume(a < b)
                fa, fb = F(ie(a)), F(ie(b))
                h.hint(fa, fb, *[x for c, k in ((W, ie(a)), (W, ie(b)), (V, fa), (V, fb)) for x in (c.sel(k), (R if c is W else O).sel(c.sel(k)))])
                h.prove(mkint(fa) < mkint(fb), tag + what + ' in the same order')
        a, b = r.bound('a'), r.bound('b')
        r.assume(FA([a, b], zimp(zand(0 <= a, a < b, b < lift(w.n)), F(a) < F(b)), [(F(a), F(b))]))
        with h.forall(w.n, 'i') as a:
            h.hint(F(0), F(ie(a)), F(ie(a) - 1))
            h.assume((a == 0) | (mkint(F(ie(a) - 1)) >= a - 1))
            h.prove(mkint(F(ie(a))) >= a, tag + what + ' not before')
        r.assume(FA(a := r.bound('a'), zimp(arr.within(a, w.n), F(a) >= a), [F(a)]))
    up(w, W, R, v, V, O, F, 'of particles'); up(v, V, O, w, W, R, G, 'of the analysis')
    with h.forall(w.n, 'i') as i:
        f = F(ie(i)); g = G(f); h.hint(f, g, *[R.sel(W.sel(k)) for k in (ie(i), g)])
        h.prove(mkint(g) == i, tag + 'a particle with the id is the same')
    r.assume(FA(a := r.bound('a'), zimp(arr.within(a, w.n), F(a) == a), [F(a)]))
    h.hint(F(lift(w.n) - 1), G(lift(v.n) - 1))
    h.prove(pdim(w.n) == pdim(v.n), tag + 'as many rows of both')
    return F
def check(h, an, keys, where, res, tag):
    h.prove(len(list(res)) == len(keys), tag + 'one array for each key')
    n = an.last - an.first
    cats = []
    for k, f in enumerate(keys):
        g = res[k]; sh = dict((x, s) for x, _, s in PF + AF)[f]
        h.prove(tuple(g.dims[1:]) == sh, tag + 'item shape of ' + f)
        h.prove(pdim(g.cat[2]) == n, tag + 'a part for each frame')
        cats.append(g.cat[0])
    with h.forall(n, 'frame') as f:
        t = an.first + f
        rows, oth, w, v = matching(h, an, t, where)
        for k, key in enumerate(keys):
            c = res[k].chunk(ie(f))
            same_rows(h, lambda _: c, w if key in an.P.rec.cols else v, [key], tag + 'of the matching rows')
        F = align(h, an, rows, oth, w, v, tag)
        with h.forall(w.n, 'i') as i:
            h.hint(F(ie(i)))
            h.prove(w.cols['trajid'].at(i) == v.cols['trajid'].at(i), tag + 'the same particle')
            h.prove((w.cols['time'].at(i) == t) & (v.cols['time'].at(i) == t), tag + 'in the frame')
        for k in range(1, len(keys)): h.prove(pdim(res[k].chunk(ie(f)).dims[0]) == pdim(res[0].chunk(ie(f)).dims[0]), tag + 'as many values of each key in a frame')
    a = h.r.bound('a')
    for k in range(1, len(keys)):
        ln = lambda x, k=k: lift(res[k].chunk(x).dims[0])
        h.assume(FA(a, zimp(arr.within(a, ie(n)), lift(res[k].chunk(a).dims[0]) == lift(res[0].chunk(a).dims[0])), [cats[k](a)]))
        h.prove(mkint(cats[k](0)) == mkint(cats[0](0)), tag + 'values of the first frame at the start')
        with h.forall(n, 'frame') as f:
            e = ie(f); h.hint(cats[k](e), cats[0](e), cats[k](e + 1), cats[0](e + 1))
            h.assume(mkint(cats[k](e)) == mkint(cats[0](e)))
            h.prove(mkint(cats[k](e + 1)) == mkint(cats[0](e + 1)), tag + 'values of a frame at the same place')
        h.assume(FA(a, zimp(zand(0 <= a, a <= ie(n)), cats[k](a) == cats[0](a)), [cats[k](a)]))
        h.hint(cats[k](ie(n)), cats[0](ie(n)))
        h.prove(res[k].shape[0] == res[0].shape[0], tag + 'as many values of each key')
    for k, key in enumerate(keys):
        with h.forall(n, 'frame') as f:
            off = mkint(cats[0](ie(f))); c = res[k].chunk(ie(f))
            with h.forall(pdim(c.dims[0]), 'i') as i:
                h.hint(cats[k](ie(f)), cats[0](ie(f)), res[k].cat[1](ie(off + i)))
                h.prove((off + i >= 0) & (off + i < res[k].shape[0]), tag + 'place of a value')
                if len(c.dims) == 1: h.prove(res[k].at(off + i) == c.at(i), tag + 'value of ' + key)
                else:
                    for q in range(3): h.prove(res[k].at(off + i, q) == c.at(i, q), tag + 'value of ' + key)
def rngs(h, spec):
    out = SDict()
    for f, inv in spec: out[f] = (h.real('min_' + f), h.real('max_' + f), inv)
    return out
CASES = dict(all=(['pos', 'reyn'], None), one_key=(['fluid'], []), particle_condition=(['reyn', 'diam', 'fluid'], [('diam', False)]), analysis_condition=(['pos'], [('reyn', True)]),
    both_conditions=(['fluid', 'pos'], [('reyn', False), ('diam', True)]))
for name, (keys, where) in CASES.items():
    def body(h, keys=keys, where=where):
        an = An(h)
        sc = h.mod('flowtracks.an_scene').AnalysedScene('an.h5')
        wh = None if where is None else rngs(h, where)
        check(h, an, keys, wh, sc.collect(SList(keys), wh), '')
    body.__doc__ = 'keys %s; conditions on %s, any limits' % (', '.join(keys), ', '.join('%s%s' % (f, ' (inverted)' if i else '') for f, i in where or []) or 'nothing')
    harness('C24', FNS, 'collect_' + name)(body)
@harness('C24', [AS + 'trajectory_by_id', AS + 'iter_trajectories', SC + '.Scene.trajectory_by_id'])
def trajectory_by_id(h):
    """any id of a trajectory with at least one point; and iter_trajectories for each stored id. The analysis
    has one row for each point but the last, in order (proved of Scene.iter_segments in C19)"""
    an = An(h)
    sc = h.mod('flowtracks.an_scene').AnalysedScene('an.h5'); T = h.mod(TR)
    def one(tid, tr, w):
        inr = an.P.intime(an.first, an.last)
        want = an.P.sel(lambda i: (an.P.col('trajid').at(i) == tid) & inr(i)); more = an.A.sel(lambda i: an.A.col('trajid').at(i) == tid)
        h.prove(isinstance(tr, T.Trajectory), w + 'a trajectory')
        h.prove(tr.trajid() == tid, w + 'id')
        h.prove(sorted(tr.schema()) == sorted(['pos', 'time', 'velocity', 'diam', 'fluid', 'reyn']), w + 'properties')
        for f in ('pos', 'velocity', 'diam', 'time', 'fluid', 'reyn'):
            g = tr.__dict__[f](); src = want if f in an.P.rec.cols else more
            x = src.cols[f]; n = pdim(src.n) - (1 if src is want else 0)
            h.prove(g.shape[0] == n, w + 'as many values of ' + f); h.prove(g.dims[1:] == x.dims[1:], w + 'item shape of ' + f)
            with h.forall(n, 'i') as i:
                for c in ([()] if len(x.dims) == 1 else [(q,) for q in range(3)]): h.prove(g.at(i, *c) == x.at(i, *c), w + 'value of ' + f)
    def points(tid):
        inr = an.P.intime(an.first, an.last)
        want = an.P.sel(lambda i: (an.P.col('trajid').at(i) == tid) & inr(i)); more = an.A.sel(lambda i: an.A.col('trajid').at(i) == tid)
        return want.n, more.n
    tid = h.int('tid')
    a, b = points(tid); h.assume((pdim(a) >= 1) & (pdim(b) == pdim(a) - 1))
    one(tid, sc.trajectory_by_id(tid), '')
    lst = SList(); lst.extend(sc.iter_trajectories())
    bid = an.P.bounds.cols['trajid']
    h.prove(lst.vc_len() == an.P.nb, 'one trajectory for each stored id')
    with h.forall(an.P.nb, 'k') as k:
        a, b = points(bid.at(k)); h.assume((pdim(a) >= 1) & (pdim(b) == pdim(a) - 1))
        one(bid.at(k), lst.get(ie(k)), 'each stored: ')
