from lib import *
import filem
IO = 'flowtracks.io'
ASSUMPTIONS = ['numpy.loadtxt with ndmin=2 gives the chosen columns of all rows of a text table (at least one row); scipy.io.loadmat gives the records as they were stored; re, os.listdir: see vc/filem.py']
OTHERS = ('trajAcc', 'trajAcc.', 'trajAccX7', 'notes.txt', 'trajAcc.12.bak', 'xtrajAcc.12')
class AccDir:
    "any number of files in a directory: data files, with any number of rows, and others"
    def __init__(s, h, path='d/trajAcc.%d'):
        r = h.r; s.path = path; s.h = h
        s.dir, s.base = path.rsplit('/', 1) if '/' in path else ('.', path)
        s.n = h.dim('files'); s.kind = h.func('kind', I, I); s.frame = h.func('frame', I, I)
        s.rows = h.func('rows', I, I); s.cell = h.func('cell', I, I, I, R); s.age = h.func('age', I, I, I)
        k = r.bound('k')
        r.assume(FA(k, zand(s.kind(k) >= 0, s.kind(k) <= len(OTHERS), s.frame(k) >= 0), [s.frame(k)]))
        r.assume(FA(k, s.rows(k) >= 1, [s.rows(k)]))
        i = r.bound('i')
        r.assume(FA([k, i], s.age(k, i) >= 0, [s.age(k, i)]))
        s.reads = []
        models.EXTRA['os'] = filem.OS(listdir=s.listdir); models.EXTRA['loadtxt'] = s.loadtxt
    def name(s, k):
        k = lift(k)
        for q, nm in enumerate(OTHERS):
            if SBool(s.kind(k) == q + 1): return nm
        s.h.r.assume(s.kind(k) == 0)
        return strs.fmt(s.base, mkint(s.frame(k)))
    def listdir(s, d):
        if d not in (s.dir, s.dir + '/'): raise FileNotFoundError(d)
        return SList.of(ie(s.n), s.name)
    def loadtxt(s, fname, usecols=None, ndmin=0, **k):
        if k or usecols is None or nat(ndmin) != 2: raise Unsupported('loadtxt otherwise')
        pre, post = s.path.split('%d')
        if not (fname.startswith(pre) and fname.endswith(post)): raise FileNotFoundError(fname)
        m = strs.HOLE.fullmatch(fname[len(pre):len(fname) - len(post)])
        if m is None: raise FileNotFoundError(fname)
        spec, v = strs.get(m)
        f = lift(ie(v)); cols = [nat(c) for c in usecols]
        def at(i, j):
            j = nat(j)
            val = lambda c: arr.cast(mkint(s.age(f, lift(i))), 'f') if c == 33 else mkreal(s.cell(f, lift(i), z3.IntVal(c)))
            if not isz(j): return val(cols[j])
            return arr.pick([(lambda c=c: val(c)) for c in cols], j)
        return SArr((s.rows(f), len(cols)), at, 'float64')
class AccFiles(AccDir):
    "trajAcc files by frame number, with rows of the trajectories which begin in the file's frame"
    def __init__(s, h, path='d/trajAcc.%d'):
        AccDir.__init__(s, h, path)
        s.there = h.func('there', I, B)
        models.EXTRA['os'] = filem.OS(exists=s.exists)
        f, i = h.r.bound('f'), h.r.bound('i')
        h.r.assume(FA(f, s.age(f, z3.IntVal(0)) == 0, [s.rows(f)]))
    def number(s, fname):
        pre, post = s.path.split('%d')
        if not (fname.startswith(pre) and fname.endswith(post)): return None
        m = strs.HOLE.fullmatch(fname[len(pre):len(fname) - len(post)])
        if m is None: return None
        return lift(ie(strs.get(m)[1]))
    def exists(s, fname):
        f = s.number(fname)
        return False if f is None else SBool(s.there(f))
    def loadtxt(s, fname, **k):
        f = s.number(fname)
        if f is None: raise FileNotFoundError(fname)
        s.h.r.safety(s.there(f), 'reads files which are there')
        return AccDir.loadtxt(s, fname, **k)
def collect(seg):
    def f(h):
        stub_mark_unique_rows(h)
        D = AccFiles(h); frame = h.int('frame')
        h.assume(SBool(D.there(ie(frame))))
        out = h.mod(IO).collect_particles('d/trajAcc.%d', frame, *((True,) if seg else ()))
        cs = h.counters()
        L = asarr(out)
        h.prove(len(L.dims) == (3 if seg else 2) and (L.shape[-1] == 7) & (L.shape[0] == 2 if seg else True), 'a table with 7 columns')
        m = L.shape[-2]; at = lambda l, p, c: L.at(l, p, c) if seg else L.at(p, c)
        uq, ct = h.r.notes.get('uniq', []), h.r.notes.get('cats', [])
        if len(uq) != 1 or len(ct) != 1: raise Unsupported('the rows which are collected')
        a, res, of = uq[0]; off, wh, n, tot = ct[0]
        age = lambda f, i: mkint(D.age(lift(ie(f)), lift(ie(i))))
        def rows(i): return starts(h, D, ie(i))
        def row(i, q, f, s, layer, d):
            for c in range(6): h.prove(at(layer, q, c) == mkreal(D.cell(lift(ie(f)), lift(ie(s)), z3.IntVal(c))), 'position and velocity')
            h.prove(at(layer, q, 6) == arr.cast(i + d, 'f'), 'age')
        with h.forall(m, 'p') as p:
            q = res.at(p); i = mkint(wh(ie(q))); f = frame - i
            s = mkint(rows(i).sel(ie(q) - off(ie(i))))
            h.prove((i >= 0) & (s >= 0) & (s < mkint(D.rows(ie(f)))), 'a row of a file')
            with h.forall(i + 1, 'back') as b: h.hint(*[c.V(ie(b)) for c in cs]); h.prove(SBool(D.there(ie(frame - b))), 'this file and those after it are there')
            h.prove(age(f, s) == i, 'of a particle which is in the frame')
            row(i, p, f, s, 0, 0)
            if seg:
                h.prove((s + 1 < mkint(D.rows(ie(f)))) & (age(f, s + 1) == i + 1), 'and in the next')
                row(i, p, f, s + 1, 1, 1)
            with h.forall(m, 'p2') as p2:
                h.assume(p2 < p); q2 = res.at(p2)
                h.prove(lnot(zand(*[zb(tobool(at(0, p, c) == at(0, p2, c))) for c in range(3)])), 'no two in one position')
        with h.forall(None, 'back') as i:
            h.assume(i >= 0)
            k = h.r.bound('f'); h.assume(FA(k, zimp(zand(ie(frame - i) <= k, k <= ie(frame)), D.there(k)), [D.there(k)]))
            f = frame - i; h.hint(D.there(ie(frame) - lift(n)))
            h.prove(i < mkint(n), 'the file is read')
            with h.forall(mkint(D.rows(ie(f))), 's') as s:
                h.assume(age(f, s) == i)
                if seg: h.assume((s + 1 < mkint(D.rows(ie(f)))) & (age(f, s + 1) == i + 1))
                j = rows(i).rank(ie(s)); q = off(ie(i)) + j
                h.prove((mkint(q) >= 0) & (mkint(q) < mkint(tot)), 'the row is collected')
                h.prove(wh(q) == ie(i), 'as of this file'); h.prove(rows(i).sel(q - off(ie(i))) == ie(s), 'the same row')
                p = mkint(of(q)); h.prove((p >= 0) & (p < m), 'its position is found')
                h.hint(res.at(p))
                h.prove(zand(*[zb(tobool(at(0, p, c) == mkreal(D.cell(ie(f), ie(s), z3.IntVal(c))))) for c in range(3)]), 'in its position')
    return f
for nm, seg in (('collect', False), ('collect_segments', True)):
    harness('C16', [IO + '.collect_particles'], nm, rec=True, **{'while': True})(collect(seg))
def acc(path, first, last):
    def f(h):
        D = AccDir(h, path)
        a, b = h.int('first') if first else None, h.int('last') if last else None
        out = h.mod(IO).trajectories_acc(path, a, b) if first or last else h.mod(IO).trajectories_acc(path)
        ex = h.r.notes.get('extends', [])
        h.prove(len(ex) == 1, 'trajectories of each file'); lst, off, wh, lo, hi, tot = ex[0]
        h.prove(out.vc_len() == mkint(tot), 'all trajectories')
        data = lambda k: SBool(zand(D.kind(lift(ie(k))) == 0, True if a is None else D.frame(lift(ie(k))) >= ie(a), True if b is None else D.frame(lift(ie(k))) <= ie(b)))
        with h.forall(out.vc_len(), 'p') as p:
            w = wh(ie(p)); fr = D.frame(w); t = out.get(ie(p)); d = t.as_dict()
            h.prove((mkint(w) >= 0) & (mkint(w) < D.n) & data(mkint(w)), 'of a data file in the range')
            h.prove(t.trajid() == p, 'numbered, so without repetition')
            h.prove(set(d) == {'pos', 'velocity', 'accel', 'time'}, 'the properties')
            L = t._pos.shape[0]
            h.prove(L >= 1, 'not empty')
            h.prove(all(d[q].shape[0] == L and len(d[q].dims) == (1 if q == 'time' else 2) for q in d), 'as many of each')
            s = begin(h, D, w, ie(p) - off(w))
            h.prove((s >= 0) & (s + L <= mkint(D.rows(fr))), 'a part of the rows of the file')
            age = lambda i: mkint(D.age(fr, lift(ie(i))))
            h.prove(age(s) == 0, 'begins with age 0')
            with h.given(lift(ie(s + L)) < D.rows(fr)): h.prove(age(s + L) == 0, 'up to the next one')
            with h.forall(L, 'i') as i:
                with h.given(lift(ie(i)) >= 1): 
                    inside(h, D, w, s + i); h.prove(age(s + i) != 0, 'up to the next one and no further')
                h.prove(d['time'].at(i) == mkint(D.frame(w)) + age(s + i), 'frame of the file and age')
                for q, c0 in (('pos', 0), ('velocity', 3), ('accel', 6)):
                    h.prove(d[q].shape[1] == 3, 'three components')
                    for c in range(3): h.prove(d[q].at(i, c) == mkreal(D.cell(fr, lift(ie(s + i)), z3.IntVal(c0 + c))), q)
        with h.forall(D.n, 'file') as k:
            h.assume(data(k)); fr = D.frame(lift(ie(k)))
            with h.forall(mkint(D.rows(fr)), 'row') as s:
                h.assume(D.age(fr, ie(s)) == 0)
                c = starts(h, D, ie(k))
                j = c.rank(ie(s)); p = off(ie(k)) + j
                h.prove((mkint(p) >= 0) & (mkint(p) < out.vc_len()), 'a trajectory for each row with age 0')
                h.prove(wh(p) == ie(k), 'which is of this file')
                h.prove(begin(h, D, wh(p), p - off(wh(p))) == s, 'and begins there')
    return f
def starts(h, D, k):
    "the selection of the rows with age 0 of a file"
    for c, e, jj, ixs in h.r.families:
        if len(ixs) == 1: return Fam(c, ixs[0][0], k)
    raise Unsupported('the rows where trajectories begin')
class Fam:
    def __init__(s, c, i, k): s.c, s.i, s.k = c, i, k
    def sel(s, j): return substz(s.c.sel(j), [(s.i, lift(s.k))])
    def rank(s, j): return substz(s.c.rank(j), [(s.i, lift(s.k))])
    @property
    def cnt(s): return substz(lift(s.c.cnt), [(s.i, lift(s.k))])
def begin(h, D, k, j): return mkint(starts(h, D, k).sel(j))
def inside(h, D, k, row): h.hint(starts(h, D, k).rank(lift(ie(row))))
for nm, a, b in (('acc', True, True), ('acc_first', True, False), ('acc_last', False, True), ('acc_all', False, False)):
    harness('C16', [IO + '.trajectories_acc', TR + '.Trajectory.__init__', TR + '.ParticleSet.__init__'], nm, rec=True)(acc('d/trajAcc.%d', a, b))
harness('C16', [IO + '.trajectories_acc'], 'acc_here', rec=True)(acc('trajAcc.%d', True, True))
NAMES = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf']
class Records:
    "an (n,1) array of records, as read from a Matlab file"
    vc_static = True
    def __init__(s, n, get): s.n, s.get = n, get; s.shape = (n, 1)
    def __getitem__(s, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and not isinstance(key[1], slice) and nat(key[1]) in (0, -1): return SList.of(ie(s.n), s.get)
        raise Unsupported('indexing of records')
    def ravel(s, *a): return SList.of(ie(s.n), s.get)
    squeeze = flatten = ravel
def mat(more):
    def f(h):
        n = h.dim('records'); ln = h.func('len', I, I); val = {q: h.func(q, I, I, R) for q in NAMES + ['t', 'id']}
        k = h.r.bound('k'); h.r.assume(FA(k, ln(k) >= 1, [ln(k)]))
        def record(k):
            k = lift(k)
            d = {q: fro(SArr((ln(k), 1), lambda i, j, q=q: mkreal(val[q](k, lift(i))), 'float64')) for q in NAMES + ['t']}
            d['trajid'] = fro(SArr((ln(k), 1), lambda i, j: mkreal(val['id'](k, z3.IntVal(0))), 'float64'))
            return SDict(d)
        files = {'x.mat': SDict({'__header__': b'', '__version__': '1.0', **({'directory': 'abc'} if more == 'before' else {}), 'traj': Records(n, record), **({'directory': 'abc'} if more == 'after' else {})})}
        models.EXTRA['os'] = filem.OS()
        sio = models.NS('scipy.io', loadmat=lambda fn, **k: files[fn])
        models.EXTRA['scipy.io'] = sio; models.EXTRA['scipy'] = models.NS('scipy', io=sio)
        out = h.mod(IO).trajectories_mat('x.mat')
        h.prove(out.vc_len() == n, 'one trajectory for each record')
        with h.forall(n, 'k') as k:
            t = out.get(ie(k)); d = t.as_dict(); L = mkint(ln(ie(k)))
            h.prove(set(d) == {'pos', 'velocity', 'accel', 'time'}, 'the properties')
            h.prove(t.trajid() == mkreal(val['id'](ie(k), z3.IntVal(0))), 'the recorded id')
            h.prove(all(d[q].shape[0] == L and len(d[q].dims) == (1 if q == 'time' else 2) for q in d), 'one value for each point')
            for q, c0 in (('pos', 0), ('velocity', 3), ('accel', 6)): h.prove(d[q].shape[1] == 3, 'three components')
            with h.forall(L, 'i') as i:
                h.prove(d['time'].at(i) == mkreal(val['t'](ie(k), ie(i))), 'the recorded times')
                for q, c0 in (('pos', 0), ('velocity', 3), ('accel', 6)):
                    for c in range(3): h.prove(d[q].at(i, c) == mkreal(val[NAMES[c0 + c]](ie(k), ie(i)))/1000, q)
    return f
for m in ('none', 'before', 'after'): harness('C16', [IO + '.trajectories_mat', TR + '.Trajectory.__init__', TR + '.ParticleSet.__init__'], 'mat' if m == 'none' else 'mat_directory_' + m)(mat(m))
