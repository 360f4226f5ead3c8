from lib import *
IO = 'flowtracks.io'
FNS = [IO + '.save_particles_table', TR + '.Frame.as_dict', TR + '.Trajectory.ext_schema', TR + '.Frame.ext_schema', TR + '.Trajectory.__len__']
EXTRA = (('accel', (3,)), ('mass', ()))
def saved(h, trim, extra, k):
    "save any trajectories with different ids, at least one of them longer than 2k; the written file"
    hdf_files(h)
    n = h.dim('ntraj', 1)
    trs = Trajs(h, n, extra=extra, times='any')
    x = h.int('x', 0); h.assume((x < n) & (mkint(trs.L(x.e)) > 2*k))
    h.mod(IO).save_particles_table('out.h5', trs.list(), trim)
    return trs, n, models.EXTRA['tables'].files['out.h5']
def case(trimmed, extra):
    def f(h):
        k = h.int('trim', 0) if trimmed else 0
        trs, n, nodes = saved(h, k if trimmed else None, extra, k)
        h.prove(models.EXTRA['tables'].files['written out.h5'].closed == 1, 'the file is complete')
        P, B = nodes['/particles'], nodes['/bounds']
        props = ['trajid', 'time', 'pos', 'velocity'] + [e for e, sh in extra]
        h.prove(sorted(P.dt.fields) == sorted(props), 'a column for each property')
        for p in props: h.prove(tuple(P.dt.fields[p][0].shape) == values(trs, p)[0], 'item shape of a column')
        h.prove(sorted(B.dt.fields) == ['first', 'last', 'trajid'], 'columns of the bounds')
        m = P.chunks.vc_len()
        long = lambda i: mkint(trs.L(lift(ie(i)))) > 2*k
        s = chunk_of(h, m, n, long, 'each trajectory which is long enough is saved')
        h.prove(B.chunks.vc_len() == m, 'bounds for each saved trajectory')
        with h.forall(m, 'q') as q:
            i = s(q); L = mkint(trs.L(lift(ie(i))))
            h.prove(long(i), 'a saved trajectory is long enough')
            rec = P.chunks.get(ie(q))
            h.prove(pdim(rec.n) == L - 2*k, 'as many rows as points left')
            with h.forall(L - 2*k, 't') as t:
                for p in props:
                    sh, v = values(trs, p)
                    if sh == (): h.prove(rec.cols[p].at(t) == v(lift(ie(i)), t + k), 'value of %s' % p)
                    else:
                        for c in range(3): h.prove(rec.cols[p].at(t, c) == v(lift(ie(i)), t + k, c), 'value of %s' % p)
            b = B.chunks.get(ie(q))
            h.prove(b.n == 1, 'one row of bounds')
            for c, want in (('trajid', mkint(trs.tid(lift(ie(i))))), ('first', mkint(trs.time(lift(ie(i)), lift(ie(k))))), ('last', mkint(trs.time(lift(ie(i)), lift(ie(L - 1 - k)))))):
                h.prove(b.cols[c].at(0) == want, 'bounds: ' + c)
    f.__doc__ = 'any trajectories, %s, %s' % ('any trim' if trimmed else 'not trimmed', 'with other properties' if extra else 'no other properties')
    return f
for trimmed in (False, True):
    for extra in ((), EXTRA): harness('C13', FNS, 'save%s%s' % ('_trim' if trimmed else '', '_extra' if extra else ''))(case(trimmed, extra))

def same_traj(h, tr, trs, q, extra, what):
    T = h.mod(TR); q = lift(ie(q)); L = mkint(trs.L(q))
    h.prove(isinstance(tr, T.Trajectory), what + 'a trajectory')
    h.prove(tr.trajid() == mkint(trs.tid(q)), what + 'id')
    props = ['time', 'pos', 'velocity'] + [e for e, sh in extra]
    h.prove(sorted(tr.schema()) == sorted(props), what + 'the properties')
    for p in props:
        sh, v = values(trs, p)
        got = tr.__dict__[p]()
        h.prove((got.shape[0] == L) & (tuple(got.dims[1:]) == sh), what + 'as many values of %s' % p)
        with h.forall(L, 't') as t:
            if sh == (): h.prove(got.at(t) == v(q, t), what + 'value of %s' % p)
            else:
                for c in range(3): h.prove(got.at(t, c) == v(q, t, c), what + 'value of %s' % p)
def reader(which):
    def f(h):
        m = h.dim('nsaved', 1)
        trs = Trajs(h, m, extra=EXTRA, times='any')
        st = Stored(h, 'f.h5', trs, m, EXTRA); hdf_files(h, st)
        SCM, io = h.mod(SC), h.mod(IO)
        if which == 'scene':
            sc = SCM.Scene('f.h5')
            lst = SList(); lst.extend(sc.iter_trajectories())
            h.prove(lst.vc_len() == m, 'one trajectory for each saved')
            with h.forall(m, 'q') as q:
                st.of(q)
                same_traj(h, lst.get(ie(q)), trs, q, EXTRA, '')
            ids, tags = sc.trajectory_ids(), sc.trajectory_tags()
            h.prove((ids.shape[0] == m) & (tags.shape[0] == m) & (tags.shape[1] == 3), 'an id and a tag for each')
            with h.forall(m, 'q') as q:
                h.prove(ids.at(q) == mkint(trs.tid(ie(q))), 'id of each')
                for j, c in enumerate(('trajid', 'first', 'last')): h.prove(tags.at(q, j) == st.bounds.cols[c].at(q), 'tag of each: ' + c)
        elif which == 'by_id':
            sc = SCM.Scene('f.h5')
            with h.forall(m, 'q') as q:
                st.of(q)
                same_traj(h, sc.trajectory_by_id(mkint(trs.tid(ie(q)))), trs, q, EXTRA, '')
        elif which == 'trajectories':
            lst = SList(); lst.extend(io.trajectories('f.h5', None, None, 1., traj_min_len=1))
            n = lst.vc_len()
            s = chunk_of(h, n, m, lambda k: (st.of(k), mkbool(True))[1], 'each saved trajectory')
            with h.forall(n, 'k') as k:
                x = mkint(s(ie(k))); h.hint(x, st.S(ie(x)))
                h.prove((x >= 0) & (x < m), 'a saved trajectory')
                st.of(x)
                same_traj(h, lst.get(ie(k)), trs, x, EXTRA, '')
        else:
            lst = io.trajectories_table('f.h5')
            n = lst.vc_len()
            at = lambda k: lst.get(ie(k))
            with h.forall(n, 'k') as k:
                a = at(k).trajid()
                for f, w, pos in h.r.notes.get('unique', []): h.hint(f(ie(k)), w(ie(k)), st.own(w(ie(k))))
                h.prove(h.ex(m, lambda q: mkint(trs.tid(ie(q))) == a), 'a saved trajectory')
                x = h.int('which', 0); h.assume((x < m) & (mkint(trs.tid(ie(x))) == a))
                st.of(x)
                same_traj(h, at(k), trs, x, EXTRA, '')
                with h.forall(n, 'k2') as k2:
                    h.assume(k < k2)
                    h.prove(lnot(a == at(k2).trajid()), 'none twice')
            with h.forall(m, 'q') as q:
                i = mkint(st.S(ie(q))); h.hint(st.own(ie(i)))
                for f, w, pos in h.r.notes.get('unique', []): h.hint(pos(ie(i)), f(pos(ie(i))))
                h.prove(h.ex(n, lambda k: at(k).trajid() == mkint(trs.tid(ie(q)))), 'each saved trajectory')
    f.__doc__ = 'a file as save_particles_table writes it, read by: ' + which
    return f
S = SC + '.Scene.'
for which, fns in (('scene', [S + '__init__', S + 'iter_trajectories', S + 'trajectory_ids', S + 'trajectory_tags']), ('by_id', [S + 'trajectory_by_id']), ('table', [IO + '.trajectories_table']), ('trajectories', [IO + '.trajectories', IO + '.infer_format'])):
    harness('C13', fns, 'read_' + which)(reader(which))
