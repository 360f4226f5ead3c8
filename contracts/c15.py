from lib import *
import filem, re
from npm import NpzFile
IO = 'flowtracks.io'
ASSUMPTIONS = ['numpy.savez(name, a=...) writes a file name.npz which numpy.load gives back with the arrays under their names, numpy.save a file name.npy; os.listdir gives each file of a directory once, in any order; different ids are told apart by %d and int()']
EXTRA = (('accel', (3,)), ('mass', ()))
OTHERS = ('free.npy', 'traj_7.npy', 'notes.txt', 'traj_7.npz.bak')
def dim2(h, f, k): return arr.dimsimp(f(k))
class Adds:
    "an added array for each trajectory, by its id: any values, one row for each point or for anything else"
    def __init__(s, h, name):
        s.name = name; s.m = h.func(name + '_len', I, I); s.val = h.func(name + '_val', I, I, I, R)
        k = h.r.bound('k'); h.r.assume(FA(k, s.m(k) >= 0, [s.m(k)]))
    def get(s, i):
        i = lift(ie(i))
        return fro(farr(s.val, (arr.dimsimp(s.m(i)), 2), 'f', (i,)))
class ById:
    "a dictionary by trajectory id"
    vc_static = True
    def __init__(s, a): s.a = a
    def __getitem__(s, i): return s.a.get(i)
    def get(s, i, d=None): return s.a.get(i)
    def __contains__(s, i): return True
def same(h, got, a, i, what):
    i = lift(ie(i))
    h.prove((got.shape[0] == mkint(a.m(i))) & (got.shape[1] == 2) & (len(got.dims) == 2), what + ': shape')
    with h.forall(mkint(a.m(i)), 't') as t:
        for c in range(2): h.prove(got.at(t, c) == mkreal(a.val(i, lift(ie(t)), z3.IntVal(c))), what)
def save(adds, free, there):
    def f(h):
        n = h.dim('ntraj')
        trs = Trajs(h, n, extra=EXTRA, times='any')
        A = [Adds(h, nm) for nm in adds]
        files, plain, made = SList(), SList(), SList()
        def make(p, *a, exist_ok=False, **k):
            if there and not exist_ok: raise FileExistsError(p)
            made.append(p)
        models.EXTRA['os'] = filem.OS(exists=lambda p: there, path_isdir=lambda p: there, makedirs=make, mkdir=make)
        models.EXTRA['savez'] = lambda fn, *a, **k: files.append((fn, SDict(k)))
        models.EXTRA['save'] = lambda fn, v, *a, **k: plain.append((fn, v))
        fr = {nm: farr(h.func(nm, I, R), (h.dim('n' + nm),), 'f') for nm in free}
        h.mod(IO).save_trajectories('out', trs.list(), SDict({a.name: ById(a) for a in A}), **fr)
        h.prove(files.vc_len() == n, 'one file for each trajectory')
        h.prove(there or 'out' in made.tail, 'the directory is made if it is not there')
        if not SBool(ie(n) > 0): return
        with h.forall(n, 'k') as k:
            fn, data = files.get(ie(k))
            i = mkint(trs.tid(ie(k)))
            h.prove(name_is(fn, 'out/traj_', i), 'the name of the file has the id')
            h.prove(sorted(data) == sorted(['traj:' + p for p in ['pos', 'velocity', 'time'] + [e for e, sh in EXTRA]] + list(adds)), 'the arrays of the file')
            L = mkint(trs.L(ie(k)))
            for p in ['time', 'pos', 'velocity'] + [e for e, sh in EXTRA]:
                sh, v = values(trs, p); got = data['traj:' + p]
                h.prove((got.shape[0] == L) & (tuple(got.dims[1:]) == sh), 'as many values of %s' % p)
                with h.forall(L, 't') as t:
                    if sh == (): h.prove(got.at(t) == v(lift(ie(k)), t), 'value of %s' % p)
                    else:
                        for c in range(3): h.prove(got.at(t, c) == v(lift(ie(k)), t, c), 'value of %s' % p)
            for a in A: same(h, data[a.name], a, i, 'added array')
        h.prove(plain.vc_len() == len(free), 'the free arrays')
        got = {fn: v for fn, v in plain.tail}
        for nm in free:
            v = got.get('out/' + nm)
            h.prove(v is not None and v.shape[0] == fr[nm].shape[0], 'a free array')
            with h.forall(fr[nm].shape[0], 't') as t: h.prove(v.at(t) == fr[nm].at(t), 'a free array')
    return f
def name_is(fn, pre, i):
    if not fn.startswith(pre): return False
    rest = fn[len(pre):]
    if rest.endswith('.npz'): rest = rest[:-4]
    m = strs.HOLE.fullmatch(rest)
    if m is None: return False
    spec, v = strs.get(m)
    return v == i if re.fullmatch('(0?[0-9]*d)|[srd]', spec) and isinstance(v, SInt) else False
for nm, adds, free, there in (('save', ('recon', 'fit'), (), True), ('save_new_dir', (), ('wall',), False), ('save_free', ('recon',), ('wall', 'mesh'), True)):
    harness('C15', [IO + '.save_trajectories', TR + '.Frame.as_dict', TR + '.Trajectory.as_dict'] if nm == 'save' else [IO + '.save_trajectories'], nm)(save(adds, free, there))
def points(h, t, q):
    "the points which selections made so far have at t"
    out = [c[0].sel(lift(ie(t))) for c in h.r.comps]
    for c, e, jj, ixs in h.r.families:
        if len(ixs) == 1:
            for x in (q, q - 1): out.append(substz(c.sel(lift(ie(t))), [(ixs[0][0], lift(ie(x)))]))
    return out
def load(adds, first, last):
    def f(h):
        n = h.dim('files'); r = h.r
        trs = Trajs(h, n, extra=EXTRA, times='any')
        A = [Adds(h, nm) for nm in adds]
        kind = h.func('kind', I, I); inv = h.func('file_of', I, I)
        k = r.bound('k')
        r.assume(FA(k, zand(kind(k) >= 0, kind(k) <= len(OTHERS)), [kind(k)]))
        r.assume(FA(k, zand(trs.tid(k) >= 0, inv(trs.tid(k)) == k), [trs.tid(k)]))
        def name(k):
            k = lift(k)
            for q, nm in enumerate(OTHERS):
                if SBool(kind(k) == q + 1): return nm
            r.assume(kind(k) == 0)
            return strs.fmt('traj_%d.npz', mkint(trs.tid(k)))
        def listdir(d):
            if d not in ('res', 'res/'): raise FileNotFoundError(d)
            return SList.of(ie(n), name)
        def npload(fn):
            if not fn.startswith('res/traj_') or not fn.endswith('.npz'): raise FileNotFoundError(fn)
            m = strs.HOLE.fullmatch(fn[9:-4])
            if m is None: raise FileNotFoundError(fn)
            i = ie(strs.get(m)[1]); k = lift(inv(lift(i))); k = trs_index(r, trs, i, k)
            t = trs.make(k).as_dict()
            return NpzFile({**{'traj:' + p: fro(v) for p, v in dict.items(t)}, **{a.name: a.get(mkint(lift(i))) for a in A}})
        models.EXTRA['os'] = filem.OS(listdir=listdir); models.EXTRA['load'] = npload
        a, b = h.int('first') if first else None, h.int('last') if last else None
        out, got = h.mod(IO).load_trajectories('res', a, b) if first or last else h.mod(IO).load_trajectories('res')
        m = out.vc_len()
        return check(h, n, trs, A, kind, a, b, out, got)
    return f
def trs_index(r, trs, i, k):
    i = simp(lift(i))
    if z3.is_app(i) and i.decl().eq(trs.tid.f if hasattr(trs.tid, 'f') else trs.tid(z3.IntVal(0)).decl()): return i.arg(0)
    return k
def check(h, n, trs, A, kind, a, b, out, got):
    m = out.vc_len(); ranged = a is not None or b is not None
    inside = lambda t: zand(True if a is None else lift(ie(t)) >= ie(a), True if b is None else lift(ie(t)) <= ie(b))
    tm = lambda i, t: trs.time(lift(ie(i)), lift(ie(t)))
    wit = h.func('point_in_range', I, I)        # a point in the range, if there is one
    k, t = h.r.bound('k'), h.r.bound('t')
    h.r.assume(FA([k, t], zimp(zand(0 <= t, t < trs.L(k), inside(trs.time(k, t))), zand(0 <= wit(k), wit(k) < trs.L(k), inside(trs.time(k, wit(k))))), [trs.time(k, t)]))
    def need(i):
        w = wit(lift(ie(i))); hints(i, w)
        return SBool(kind(lift(ie(i))) == 0) & (SBool(zand(0 <= w, w < trs.L(lift(ie(i))), inside(tm(i, w)))) if ranged else True)
    def hints(i, u):
        i = lift(ie(i)); cs = [c[0] for c in h.r.comps]; ones = [x for x, lo, n1 in h.r.notes.get('ones', [])]
        for c in cs: h.hint(c.rank(lift(ie(u))), c.sel(z3.IntVal(0)))
        its = [i] + [c.rank(i) for c in cs]
        its += [t - 1 - x for t in its for x in ones]
        for t in its: h.hint(*[c.rank(t) for c in cs])
        fam_hints(h, its, [u])
    def none(what, cond):
        with h.forall(n, 'k') as k: h.assume(cond(k)); h.prove(False, what)
    if not m > 0:
        none('a trajectory for each file with points in the range', need)
    else:
        s = chunk_of(h, m, n, need, 'a trajectory for each file with points in the range')
        with h.forall(m, 'q') as q:
            i = mkint(s(ie(q))); L = mkint(trs.L(lift(ie(i)))); tr = out.get(ie(q)); d = tr.as_dict()
            h.prove((i >= 0) & (i < n) & SBool(kind(lift(ie(i))) == 0), 'of a data file')
            h.prove(tr.trajid() == mkint(trs.tid(lift(ie(i)))), 'id')
            h.prove(set(d) == {'time', 'pos', 'velocity'} | {e for e, sh in EXTRA}, 'the properties')
            W = d['time'].shape[0]
            for p in d:
                sh, v = values(trs, p); g = d[p]
                h.prove((g.shape[0] == W) & (tuple(g.dims[1:]) == sh), 'as many values of %s' % p)
            def same_point(t, u):
                out = mkbool(True)
                for p in d:
                    sh, v = values(trs, p); g = d[p]
                    for c in ([()] if sh == () else [(c,) for c in range(3)]): out = out & (g.at(t, *c) == v(lift(ie(i)), u, *c))
                return out
            if not ranged:
                h.prove(W == L, 'all points')
                with h.forall(W, 't') as t: h.prove(same_point(t, t), 'the same values')
            else:
                w = wit(lift(ie(i))); hints(i, w)
                h.prove(W >= 1, 'not empty')
                with h.forall(W, 't') as t:
                    for u in points(h, t, q): h.hint(tm(i, u), u)
                    h.prove(SBool(inside(lift(ie(d['time'].at(t))))), 'in the range')
                    h.prove(h.ex(L, lambda u: same_point(t, u)), 'a point of the trajectory')
                    with h.forall(W, 't2') as t2:
                        h.assume(t < t2)
                        for u in points(h, t2, q): h.hint(tm(i, u), u)
                        h.prove(d['time'].at(t) < d['time'].at(t2), 'in order')
                with h.forall(L, 'u') as u:
                    h.assume(SBool(inside(tm(i, u))))
                    hints(i, u)
                    h.prove(h.ex(W, lambda t: same_point(t, u)), 'each point in the range')
    file = lambda k: SBool(kind(lift(ie(k))) == 0)
    if not A: h.prove(len(got) == 0, 'no added arrays'); return
    if len(got) == 0: none('added arrays of each file', file); return
    h.prove(set(got) == {x.name for x in A}, 'the names of added arrays')
    for x in A:
        log = got[x.name].log; w = log.vc_len()
        if not w > 0: none('added arrays of each file', file); continue
        s = chunk_of(h, w, n, file, 'added arrays of each file')
        with h.forall(w, 'e') as e:
            key, v = log.get(ie(e)); i = mkint(s(ie(e)))
            h.prove(file(i), 'of a data file')
            h.prove(key == mkint(trs.tid(lift(ie(i)))), 'under the id of the trajectory')
            same(h, v, x, key, 'added array')
for nm, adds, a, b in (('load', ('recon', 'fit'), False, False), ('load_plain', (), False, False), ('load_range', ('recon',), True, True), ('load_first', ('recon',), True, False), ('load_last', (), False, True)):
    harness('C15', [IO + '.load_trajectories', TR + '.Trajectory.__init__', TR + '.ParticleSet.__init__'], nm)(load(adds, a, b))
