from api import *
def same3(a, i, b, j):
    return (a.at(i, 0) == b.at(j, 0)) & (a.at(i, 1) == b.at(j, 1)) & (a.at(i, 2) == b.at(j, 2))
def neighbours(h, i):
    "ranks of row i and of its predecessor, in every ordering the code made: instantiation hints"
    for p in h.r.perms:
        if p.outd: continue
        t = p.inv(ie(i)); h.hint(t, p.p(t - 1), p.p(t), p.p(t + 1))
@harness('C04', 'flowtracks.trajectory.mark_unique_rows')
def mark_unique_rows(h):
    """for all arrays of n rows (or none) and w >= 3 columns: the result is strictly increasing row
    numbers, no two in one position, and some one in the position of every row"""
    n = h.dim('n'); w = h.dim('w', 3)
    rows = h.array('rows', (n, w), 'f')
    orig = rows.copy()
    res = h.mod('flowtracks.trajectory').mark_unique_rows(rows)
    m = res.shape[0]
    with h.forall(n, 'i') as i:
        with h.forall(w, 'c') as c: h.prove(rows.at(i, c) == orig.at(i, c), 'the input is not changed')
    with h.forall(m, 'k') as k:
        rk = res.at(k)
        h.prove((rk >= 0) & (rk < n), 'indices are row numbers')
        neighbours(h, rk)
        with h.forall(m, 'k2') as k2:
            h.assume(k < k2)
            rk2 = res.at(k2)
            h.prove(rk < rk2, 'strictly increasing')
            neighbours(h, rk2)
            h.prove(lnot(same3(orig, rk, orig, rk2)), 'no two selected rows have one position')
    with h.forall(n, 'i') as i:
        # the first of the rows in the position of row i, in each order the code made
        perms = [p for p in h.r.perms if not p.outd]
        for srt in perms:
            ord_ = lambda k: SInt(srt.p(ie(k)))
            h.hint(srt.inv(ie(i)))
            if not h.guess(mkbool(srt.p(srt.inv(ie(i))) == ie(i))): continue        # an order of other things
            f = h.least(srt.n, lambda k: same3(orig, ord_(k), orig, i), SInt(srt.inv(ie(i))))
            h.hint(srt.p(f.e - 1), srt.p(f.e), *[p.inv(f.e) for p in perms])
            h.guess(same3(orig, ord_(f), orig, i)); h.guess((f == 0) | lnot(same3(orig, ord_(f - 1), orig, ord_(f))))
            for c in h.r.comps:
                h.guess((f == 0) | mkbool(c[0].m(f.e - 1)))
                for d in (0, 1):
                    x = c[0].rank(f.e - d)
                    h.hint(x, x + 1, *[p.inv(x + e) for p in perms for e in (0, 1)])
        for p in perms: h.hint(p.inv(z3.IntVal(0)))
        h.prove(h.ex(m, lambda k: same3(orig, SInt(lift(ie(res.at(k)))), orig, i)), 'every position is selected')
