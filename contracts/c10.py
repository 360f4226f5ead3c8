from lib import *
import filem
IO = 'flowtracks.io'
ASSUMPTIONS = ['numpy.loadtxt with a record type of floating point fields gives the values of the chosen columns of the rows after skiprows lines, one record (0 dimensions) if there is one row; a count line is not a row of the table; re, os.listdir: see vc/filem.py', 'one file for each frame number']
FMT = {'ptvis': ([('prev', 'i4', ()), ('next', 'i4', ()), ('pos', 'f8', (3,))], 1), 'xuap': ([('prev', 'i4', ()), ('next', 'i4', ()), ('pos', 'f8', (3,)), ('pos_int', 'f8', (3,)), ('vel', 'f8', (3,)), ('acc', 'f8', (3,))], 0)}
class PtvDir:
    "any number of files in a directory: one for each of some frames, with any number of rows, and others"
    def __init__(s, h, path, kind):
        r = h.r; s.path = path; s.h = h
        s.dir, s.base = path.rsplit('/', 1) if '/' in path else ('.', path)
        s.cols, s.header = FMT[kind]
        stem = s.base.split('%')[0]
        s.others = (stem, stem[:-1], stem + 'X7', 'notes.txt', stem + '12.bak', 'x' + stem + '12', stem[:-1] + 'x12')
        s.ncols = sum(3 if sh else 1 for _, _, sh in s.cols)
        s.n = h.dim('files'); s.kind = h.func('kind', I, I); s.frame = h.func('frame', I, I)
        s.rows = h.func('rows', I, I); s.cell = h.func('cell', I, I, I, R); s.link = h.func('link', I, I, I, I)
        s.extra = r.const('extra_column', B) if kind == 'xuap' else False
        k, k2 = r.bound('k'), r.bound('k2')
        r.assume(FA(k, zand(s.kind(k) >= 0, s.kind(k) <= len(s.others), s.frame(k) >= 0), [s.frame(k)]))
        r.assume(FA([k, k2], zimp(zand(0 <= k, k < k2, k2 < ie(s.n), s.kind(k) == 0, s.kind(k2) == 0), s.frame(k) != s.frame(k2)), [(s.frame(k), s.frame(k2))]))
        r.assume(FA(k, s.rows(k) >= 0, [s.rows(k)]))
        c = r.bound('c'); f = r.bound('f')
        r.assume(FA([f, k, c], zand(s.link(f, k, c) >= -2, s.link(f, k, c) < 2**31), [s.link(f, k, c)]))
        models.EXTRA['os'] = filem.OS(listdir=s.listdir); models.EXTRA['loadtxt'] = s.loadtxt
    def name(s, k):
        k = lift(k)
        for q, nm in enumerate(s.others):
            if SBool(s.kind(k) == q + 1): return nm
        s.h.r.assume(s.kind(k) == 0)
        return strs.fmt(s.base, mkint(s.frame(k)))
    def listdir(s, d='.'):
        if d not in (s.dir, s.dir + '/'): raise FileNotFoundError(d)
        return SList.of(ie(s.n), s.name)
    def value(s, f, i, c):
        "in column c of a row"
        if c < 2: return arr.cast(mkint(s.link(f, i, z3.IntVal(c))), 'f')
        return mkreal(s.cell(f, i, z3.IntVal(c)))
    def loadtxt(s, fname, dtype=float, skiprows=0, usecols=None, ndmin=0, **k):
        if k or nat(ndmin) not in (0, 1): raise Unsupported('loadtxt otherwise')
        dt = arr.dtype(dtype)
        if dt.fields is None: raise Unsupported('loadtxt of a plain table')
        pre, post = s.path.split('%d')
        if not (fname.startswith(pre) and fname.endswith(post)): raise FileNotFoundError(fname)
        m = strs.HOLE.fullmatch(fname[len(pre):len(fname) - len(post)])
        if m is None: raise FileNotFoundError(fname)
        f = lift(ie(strs.get(m)[1])); sk = nat(skiprows)
        if not isinstance(sk, int): raise Unsupported('lines to skip')
        if sk < s.header: raise ValueError('the count line is not a row of the table')
        lost = sk - s.header; n = s.rows(f)
        if lost: n = dimsimp(z3.If(n >= lost, n - lost, z3.IntVal(0)))
        if usecols is None:
            if s.extra is not False and SBool(s.extra): raise ValueError('more columns than fields')
            use = list(range(s.ncols))
        else: use = [nat(c) for c in usecols]
        if any(not isinstance(c, int) or not 0 <= c < s.ncols for c in use): raise Unsupported('columns otherwise')
        if len(use) != sum(3 if dt[nm].shape else 1 for nm in dt.names): raise ValueError('columns and fields')
        cols, at = {}, 0
        for nm in dt.names:
            d = dt[nm]; base = arr.dtype(d.name); w = use[at:at + (3 if d.shape else 1)]; at += len(w)
            if tuple(d.shape) not in ((), (3,)): raise Unsupported('fields of another shape')
            if base.kind == 'i' and any(c > 1 for c in w): raise ValueError('not whole numbers')
            if base.kind == 'i' and s.header == 0: raise ValueError('whole numbers may be written with a point')
            conv = lambda v, b=base: arr.castto(v, b)
            if d.shape: cols[nm] = arr.SArr((n, 3), lambda i, j, w=w, conv=conv: conv(arr.pick([(lambda c=c: s.value(f, lift(i) + lost, c)) for c in w], j)) if isz(j) else conv(s.value(f, lift(i) + lost, w[j])), base)
            else: cols[nm] = arr.SArr((n,), lambda i, w=w, conv=conv: conv(s.value(f, lift(i) + lost, w[0])), base)
        rec = arr.SRec(n, cols, dt)
        if nat(ndmin) == 0 and SBool(lift(n) == 1): return rec[0]
        return rec
class Reader(Exception): pass
def frames(kind, path, first, last, whole=False):
    def f(h):
        io = h.mod(IO)
        D = PtvDir(h, path, kind)
        a, b = h.int('first') if first else None, h.int('last') if last else None
        limits = {}
        if first: limits['first'] = a
        if last: limits['last'] = b
        if kind == 'xuap': limits['xuap'] = True
        data = lambda k: zand(D.kind(lift(ie(k))) == 0, True if a is None else D.frame(lift(ie(k))) >= ie(a), True if b is None else D.frame(lift(ie(k))) <= ie(b))
        need = [c for c in D.cols if c[0] not in ('pos_int', 'acc')]
        def check(k, item):
            if not (isinstance(item, (tuple, list)) and len(item) == 2): raise Unsupported('items of the reader otherwise')
            num, tab = item; ke = lift(ie(k)); w = lift(ie(num))
            q = h.r.bound('q')
            h.prove(z3.Exists(q, z3.And(q >= 0, q < ie(D.n), zb(data(mkint(q))), D.frame(q) == w)), 'of a data file in the range')
            if not (z3.is_int_value(ke) and ke.as_long() == 0):
                h.prove(mkint(substz(w, [(ke, ke - 1)])) < num, 'in order, each once')
            if not isinstance(tab, arr.SRec): raise Unsupported('tables of the reader otherwise')
            h.prove(all(nm in tab.cols for nm, _, _ in need), 'the fields of the format')
            h.prove(tab.shape[0] == mkint(D.rows(w)), 'all rows of the file')
            with h.forall(mkint(D.rows(w)), 'i') as i:
                c0 = 0
                for nm, t, sh in D.cols:
                    if (nm, t, sh) in need:
                        h.prove(len(tab[nm].dims) == (2 if sh else 1) and (not sh or tab[nm].shape[1] == 3), 'shape of ' + nm)
                        h.prove(tab[nm].dtype.kind == t[0], 'type of ' + nm)
                        for j in range(3 if sh else 1):
                            if t == 'i4': h.prove(tab[nm].at(i) == mkint(D.link(w, lift(ie(i)), z3.IntVal(c0))), 'values of ' + nm)
                            else: h.prove(tab[nm].at(i, j) == D.value(w, lift(ie(i)), c0 + j), 'values of ' + nm)
                    c0 += 3 if sh else 1
        real = io.FramesIterator
        def reader(*args, **kw):
            it = real(*args, **kw)
            sel = arr.comp_fn(ie(D.n), lambda k: SBool(zb(data(mkint(k)))))
            Iteration(h, lambda: it, mkint(lift(sel.cnt)), check, 'frames').run()
            raise Reader()
        h.stub(IO, 'FramesIterator', reader)
        try:
            out = h.mod(IO).iter_trajectories_ptvis(path, **limits)
            for t in coll.vc_iter(out, None): break
        except Reader: return
        raise Unsupported('frames are read otherwise')
    return f
for nm, kind, path, a, b in (('frames', 'ptvis', 'd/ptv_is.%d', True, True), ('frames_first', 'ptvis', 'd/ptv_is.%d', True, False), ('frames_last', 'ptvis', 'd/ptv_is.%d', False, True), ('frames_all', 'ptvis', 'd/ptv_is.%d', False, False), ('frames_here', 'ptvis', 'ptv_is.%d', True, True), ('frames_xuap', 'xuap', 'd/xuap.%d', True, True)):
    harness('C10', [IO + '.FramesIterator.__init__', IO + '.FramesIterator.__iter__', IO + '.FramesIterator.__next__', IO + '.iter_trajectories_ptvis (how frames are read)'], nm, rec=True)(frames(kind, path, a, b))
