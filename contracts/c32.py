from lib import *
PA = 'flowtracks.pairs'
FNS = [PA + '.particle_pairs', TR + '.take_snapshot', TR + '.ParticleSet.__init__', TR + '.ParticleSet.schema']
def subterms(t):
    seen, todo = {}, [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen[e.get_id()] = e; todo += e.children()
    return seen.values()
def unique(h, t, n, name):
    "different ids, not negative: the trajectory with an id, as a function"
    inv = h.func(name, I, I); a = h.r.bound('a')
    h.r.assume(FA(a, zimp(arr.within(a, ie(n)), zand(t.tid(a) >= 0, inv(t.tid(a)) == a)), [t.tid(a)]))
    return inv
@harness('C32', FNS, rec=True)
def pairs(h):
    "any primary and secondary trajectories with different ids, any requests of primary particles"
    h.mod(PA); stub_in_frame(h)
    n, m, q = h.dim('nprim', 1), h.dim('nsec'), h.dim('requests', 1)
    P, S = Trajs(h, n, name='prim'), Trajs(h, m, name='sec')
    prim = unique(h, P, n, 'prim_with'); unique(h, S, m, 'sec_with')
    ids, tp = fro(h.array('ids', (q,), 'i'), h.array('tp', (q,), 'i'))
    who = lambda k: prim(ids.at(lift(k)).e)       # the trajectory of a request
    k = h.r.bound('k')
    h.r.assume(FA(k, zimp(arr.within(k, ie(q)), zand(0 <= who(k), who(k) < ie(n), P.tid(who(k)) == ids.at(k).e, 0 <= tp.at(k).e, tp.at(k).e < P.L(who(k)))), [ids.at(k).e]))
    h.hint(ids.at(0), who(z3.IntVal(0)))
    pi, pt = h.mod(PA).particle_pairs(P.list(), S.list(), ids, tp)
    h.prove((pi.shape[0] == q) & (pt.shape[0] == q), 'as many pairs as requests')
    rec = h.rec_of(pt)
    apps = lambda t, d: list({e.get_id(): e for e in subterms(t) if z3.is_app(e) and e.decl().eq(d)}.values())
    calls = []      # what trajectories_in_frame gave for the secondary trajectories
    def found(k):
        "the secondary trajectory which is found for a request, and the number of its frame in the loop"
        t = lift(ie(pi.at(k)))
        js = [e.arg(0) for e in apps(t, S.tid.decl)]
        if len(js) != 1: raise Unsupported('the secondary trajectory of a pair')
        ws = [(e.arg(0), f, of, cnt) for f, of, cnt, nix in h.eng.flags['in_frames'].values() for e in apps(js[0], f)]
        if len(ws) != 1: raise Unsupported('the frame of a pair')
        calls[:] = [ws[0][1:]]
        return mkint(js[0]), ws[0][0]
    fr = lambda k: mkint(P.start(who(lift(ie(k))))) + tp.at(k)
    def cand(k, l): return S.active(l, fr(k), True)
    def dist2(k, l): return sum((SReal(P.pos(who(lift(ie(k))), tp.at(k).e, lift(c))) - SReal(S.at(l, fr(k), c)))**2 for c in range(3))
    def hints(k):
        h.hint(who(lift(ie(k)))); w = who(lift(ie(k)))
        for c in [c[0] for c in h.r.comps]:
            if arr.deq(c.n, ie(n)) is True: h.hint(c.rank(w)); h.writes(c.rank(w), k)
        for f, at, pos in h.r.notes['unique']:
            h.hint(pos(lift(ie(k))), f(pos(lift(ie(k))))); h.writes(pos(lift(ie(k))), k)
    nof = lambda w: calls[0][2](w) == 0
    of = lambda w, l: calls[0][1](w, lift(ie(l)))
    inf = lambda w, x: calls[0][0](w, x)
    h.without('orders', 'writes', *[at for f, at, pos, nix in h.eng.flags['uniques'].values()])
    def found_in(k):
        hints(k)
        us = [f(pos(lift(ie(k)))) for f, at, pos in h.r.notes['unique']]
        h.prove(zor(*[u == fr(k).e for u in us if u.sort() == I]), 'the frame of the request is one of the frames')
        j, w = found(k)
        h.hint(w)
        h.prove(zor(*[f(w) == fr(k).e for f, at, pos in h.r.notes['unique'] if f(w).sort() == I]), 'found in an iteration for its frame')
        return j, w
    with h.forall(q, 'k') as k:
        j, w = found_in(k)
        with h.given(nof(w)):
            h.prove(pi.at(k) == -1, 'no secondary trajectory in the frame: -1')
            with h.forall(m, 'l') as l:
                h.hint(of(w, l), inf(w, of(w, l))); h.prove(lnot(cand(k, l)), 'then there is none in this frame and the next')
        with h.given(znot(nof(w))):
            h.prove((j >= 0) & (j < m), 'one of the secondary trajectories')
            h.prove(cand(k, j), 'in this frame and the next')
            h.prove((pi.at(k) == mkint(S.tid(ie(j)))), 'its id')
            col = ie(j).arg(1); row = col.arg(col.num_args() - 1)
            fams = [substz(c.sel(row), [(ixs[0][0], w)]) for c, e, jj, ixs in h.r.families if len(ixs) == 1]
            rk = row.arg(row.num_args() - 1)
            for f, at, pos, nix in h.eng.flags['uniques'].values():
                if nix == 1: h.hint(pos(w, rk), f(w, pos(w, rk)))
            rs = [c[0].rank(who(lift(ie(k)))) for c in h.r.comps if arr.deq(c[0].n, ie(n)) is True]
            for c, e, jj, ixs in h.r.families:
                if len(ixs) == 1:
                    for x in rs: h.hint(substz(c.rank(x), [(ixs[0][0], w)]), substz(c.sel(c.rank(x)), [(ixs[0][0], w)]))
            h.prove(zor(*[c[0].sel(x) == who(lift(ie(k))) for c in h.r.comps if arr.deq(c[0].n, ie(n)) is True for x in fams]), 'compared with the primary trajectory of the request')
            g, put, gx, least = h.eng.flags['argexts'][col.decl().name()]
            value = lambda c: subst(g(*put((row,), lift(c))), [(gx[0], w)])
            def premises(v):
                out = []
                for e in subterms(re_(v)):
                    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: out.append(e.arg(0))
                    elif z3.is_app(e) and e.decl().eq(P.pos.decl): out += [e.arg(0) == who(lift(ie(k))), e.arg(1) == tp.at(k).e]
                    elif z3.is_app(e) and e.decl().eq(S.pos.decl): out.append(e.arg(1) == fr(k).e - S.start(e.arg(0)))
                return out
            import npm
            rooted = re_(value(col)).decl().eq(npm.SQRT)     # distances, or their squares
            plain = lambda v: mkreal(re_(v).arg(0)) if rooted else v
            dsq = lambda v: plain(value(v))
            h.by('the distance which is the least', dsq(col) == dist2(k, j), *premises(dsq(col)))
            with h.forall(m, 'l') as l:
                h.assume(cand(k, l)); h.hint(of(w, l), inf(w, of(w, l)))
                x = of(w, l)
                h.prove(S.samepos(mkint(inf(w, x)), l, fr(k)), 'one of the trajectories which are compared is in its position')
                h.by('the distance that is compared', dsq(x) == dist2(k, l), *premises(dsq(x)), *[S.at(inf(w, x), fr(k), c) == S.at(l, fr(k), c) for c in range(3)])
                h.r.add(substz(least(row, lift(x)), [(gx[0], w)]))
                order = []
                if rooted:
                    for v in (x, col): h.by('a square', dsq(v) >= 0)
                    npm.sqrt_order(re_(dsq(x)), re_(dsq(col)))
                    order = [zimp(zand(zb(tobool(dsq(x) >= 0)), zb(tobool(dsq(col) >= 0))), zb(tobool(dsq(x) < dsq(col))) == zb(tobool(value(x) < value(col)))), dsq(x) >= 0, dsq(col) >= 0]
                h.by('no other such trajectory is nearer', dist2(k, j) <= dist2(k, l), dsq(x) == dist2(k, l), dsq(col) == dist2(k, j), value(col) <= value(x), *order)
    def inv(i, k):
        j, w = found(k)
        return zand(zimp(nof(w), tobool(mkint(lift(ie(rec.V(ie(i), ie(k))))) == -1)), zimp(znot(nof(w)), tobool(mkint(lift(ie(rec.V(ie(i), ie(k))))) == fr(k) - select(j < i, mkint(S.start(ie(j))), 0))))
    b = h.r.bound('k'); j, w = found(b)
    h.r.assume(FA(b, zimp(arr.within(b, ie(q)), zand(zimp(nof(w), tobool(pi.at(b) == -1)), zimp(znot(nof(w)), tobool((j >= 0) & (j < m) & (pi.at(b) == mkint(S.tid(ie(j)))) & cand(b, j))))), [w]))     # as proved
    h.induct(rec, inv, 'time indices', hints=lambda i, k: (found_in(k), h.hint(S.tid(lift(ie(i))), S.tid(lift(ie(found(k)[0]))))))
    with h.forall(q, 'k') as k:
        j, w = found_in(k)
        with h.given(nof(w)): h.prove(pt.at(k) == -1, 'no secondary trajectory: the time index is -1')
        with h.given(znot(nof(w))): h.prove(pt.at(k) == fr(k) - mkint(S.start(ie(j))), 'the time index of the frame in the trajectory')
