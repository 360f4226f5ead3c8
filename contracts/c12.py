from lib import *
IO = 'flowtracks.io'
FNS = [IO + '.trajectories', IO + '.infer_format', SC + '.Scene.__init__', SC + '.Scene.set_frame_range', SC + '.Scene.iter_trajectories']
ASSUMPTIONS = ['the /bounds table of an HDF file holds each trajectory id once (proved of the writers in C13, C14)', 'load_trajectories, trajectories_mat, trajectories_acc, (iter_)trajectories_ptvis: called as they are specified in C15, C16, C10']
NAMES = dict(hdf=('f.h5', 'd/f.hdf'), npz=('res/',), mat=('x.mat',), acc=('d/trajAcc.%d',), ptvis=('d/ptv_is.%d', 'all.txt'), xuap=('d/xuap.%d',))
MINS = (None, 'any')
def minlen(h, ml): return None if ml is None else h.int('minlen')
def least(ml): return 2 if ml is None else select(ml >= 1, ml, 1)
def as_list(h, x, it, what):
    h.prove(isinstance(x, SList) or it, what + 'a list')
    lst = SList(); lst.extend(x)
    return lst
def rng_of(h, kind):
    r = frame_range(h, kind)
    return (None, None) if r is None else r
def hdf(kind, ml, it, bounds=True):
    def f(h):
        H = HDF(h, 'f.h5', bounds=bounds); hdf_files(h, H)
        first, last = rng_of(h, kind); m = minlen(h, ml)
        io, T = h.mod(IO), h.mod(TR)
        for fmt in (None, 'hdf'):
            lst = as_list(h, io.trajectories('f.h5', first, last, h.real('frate'), fmt, m, it) if fmt else io.trajectories('f.h5', first, last, h.real('frate'), traj_min_len=m, iter_allowed=it), it, '')
            ids, tm, bid = H.col('trajid'), H.col('time'), H.bounds.cols['trajid']
            rows = lambda k: H.sel(lambda i: (ids.at(i) == bid.at(k)) & (True if first is None else tm.at(i) >= first) & (True if last is None else tm.at(i) <= last))
            n = lst.vc_len()
            s = chunk_of(h, n, H.nb, lambda k: pdim(rows(mkint(lift(k))).n) >= least(m), 'each trajectory which is long enough in the range')
            with h.forall(n, 'k') as k:
                x = mkint(s(ie(k))); tr = lst.get(ie(k)); want = rows(x)
                h.prove(pdim(want.n) >= least(m), 'no shorter trajectory')
                h.prove(isinstance(tr, T.Trajectory) and tr.trajid() == bid.at(x), 'id')
                props = [p for p in H.rec.cols if p != 'trajid']
                h.prove(sorted(tr.schema()) == sorted(props), 'exactly the stored properties')
                same_rows(h, lambda p: tr.__dict__[p](), want, props, 'trajectory')
    f.__doc__ = 'HDF file, range: %s, minimal length: %s, %s' % (kind, ml, 'iterator' if it else 'list')
    return f
for kind in RANGES: harness('C12', FNS, 'hdf_' + kind)(hdf(kind, None if kind == 'none' else 'any', kind in ('first', 'none')))
harness('C12', FNS, 'hdf_both_default')(hdf('both', None, True))
def others(fmt, it):
    "formats read by another function: its trajectories, those long enough"
    def f(h):
        io = h.mod(IO)
        n = h.dim('ntraj'); trs = Trajs(h, n)
        first, last, fr = h.int('first'), h.int('last'), h.real('frate')
        calls = []
        def reader(nm, res):
            def g(*a, **k): calls.append((nm, a, k)); return res
            return g
        lst0 = trs.list()
        h.stub(IO, 'load_trajectories', reader('npz', (lst0, {})))
        h.stub(IO, 'trajectories_mat', reader('mat', lst0)); h.stub(IO, 'trajectories_acc', reader('acc', lst0))
        for given in (False, True):
            for name in NAMES[fmt]:
                for ml in MINS:
                    m = minlen(h, ml); del calls[:]
                    lst = as_list(h, io.trajectories(name, first, last, fr, fmt if given else None, m, it), it, '')
                    h.prove(len(calls) == 1 and calls[0][0] == fmt, 'read as ' + fmt)
                    a, k = calls[0][1:]
                    a = dict(zip(('fname', 'res_dir', 'first', 'last')[:1] + ('first', 'last'), a), **k)
                    h.prove(a.get('fname', a.get('res_dir')) == name, 'of the file')
                    if fmt != 'mat': h.prove(a.get('first') is not None and (a['first'] == first) & (a.get('last', SReal(h.r.const('none', R))) == last), 'in the range')
                    long = lambda i: mkint(trs.L(lift(ie(i)))) >= least(m)
                    s = chunk_of(h, lst.vc_len(), n, long, 'each trajectory which is long enough')
                    with h.forall(lst.vc_len(), 'k') as q:
                        x = s(ie(q)); h.prove(long(x), 'no shorter trajectory')
                        h.prove(lst.get(ie(q)).trajid() == mkint(trs.tid(x)), 'the trajectory')
                        h.prove(lst.get(ie(q)).pos().shape[0] == mkint(trs.L(x)), 'all of it')
    f.__doc__ = 'format %s, %s' % (fmt, 'iterator' if it else 'list')
    return f
for fmt in ('npz', 'mat', 'acc'):
    for it in (False, True): harness('C12', FNS[:2], fmt + ('_iter' if it else ''))(others(fmt, it))
def ptvis(fmt):
    def f(h):
        io = h.mod(IO)
        n = h.dim('ntraj')
        first, last, fr = h.int('first'), h.int('last'), h.real('frate')
        calls = []; trs = []; made = []
        def it_(fname, first=None, last=None, frate=1., xuap=False, traj_min_len=None):
            calls.append((fname, first, last, frate, xuap, traj_min_len))
            # none shorter than the minimal length
            trs[:] = [Trajs(h, n, name='tr%d' % len(made), minlen=lift(ie(least(traj_min_len))))]; made.append(1)
            return coll.GenSeq.of(trs[0].list())
        h.stub(IO, 'iter_trajectories_ptvis', it_)
        for given in (False, True):
            for name in NAMES[fmt]:
                for ml in MINS:
                    for it in (False, True):
                        m = minlen(h, ml); del calls[:]
                        lst = as_list(h, io.trajectories(name, first, last, fr, fmt if given else None, m, it), it, '')
                        h.prove(len(calls) == 1, 'read once')
                        a = calls[0]
                        h.prove(a[0] == name and bool(a[4]) == (fmt == 'xuap'), 'read as %s, of the file' % fmt)
                        h.prove((a[1] == first) & (a[2] == last) & (a[3] == fr), 'range and frame rate')
                        h.prove(a[5] is None if m is None else a[5] == m, 'minimal length')
                        h.prove(lst.vc_len() == n, 'all trajectories')
                        with h.forall(n, 'k') as q:
                            h.prove(lst.get(ie(q)).trajid() == mkint(trs[0].tid(ie(q))), 'the trajectory')
    f.__doc__ = 'format ' + fmt
    return f
for fmt in ('ptvis', 'xuap'): harness('C12', FNS[:2] + [IO + '.trajectories_ptvis'], fmt)(ptvis(fmt))
@harness('C12', IO + '.infer_format')
def formats(h):
    "each kind of name"
    io = h.mod(IO)
    for fmt, names in NAMES.items():
        for n in names: h.prove(io.infer_format(n) == fmt, 'format of %s' % n)
def table(kind):
    def f(h):
        H = HDF(h, 'f.h5', bounds=False); hdf_files(h, H)
        first, last = rng_of(h, kind); io, T = h.mod(IO), h.mod(TR)
        lst = SList(); lst.extend(io.trajectories_table('f.h5', first, last))
        ids, tm = H.col('trajid'), H.col('time')
        with h.forall(lst.vc_len(), 'k') as k:
            tr = lst.get(ie(k)); a = tr.trajid()
            want = H.sel(lambda i: (ids.at(i) == a) & (True if first is None else tm.at(i) >= first) & (True if last is None else tm.at(i) <= last))
            props = [p for p in H.rec.cols if p != 'trajid']
            h.prove(sorted(tr.schema()) == sorted(props), 'exactly the stored properties')
            same_rows(h, lambda p: tr.__dict__[p](), want, props, 'trajectory')
            with h.forall(lst.vc_len(), 'k2') as k2:
                h.assume(k < k2); h.prove(lnot(a == lst.get(ie(k2)).trajid()), 'none twice')
        with h.forall(H.n, 'i') as i:
            for f, w, pos in h.r.notes.get('unique', []): h.hint(pos(ie(i)), f(pos(ie(i))))
            h.prove(h.ex(lst.vc_len(), lambda k: lst.get(ie(k)).trajid() == ids.at(i)), 'every stored id')
    f.__doc__ = 'trajectories_table, range: ' + kind
    return f
for kind in RANGES: harness('C12', IO + '.trajectories_table', 'table_' + kind)(table(kind))
