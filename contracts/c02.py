from lib import *
FNS = [TR + '.Trajectory.__getitem__', TR + '.Trajectory.__init__', TR + '.ParticleSet.create_property']
def make(h):
    T = h.mod(TR)
    n = h.dim('n')
    pos, vel = h.array('pos', (n, 3)), h.array('vel', (n, 3))
    time = h.array('time', (n,), 'i'); tid = h.int('id')
    return T.Trajectory(pos, vel, time, tid, foo=h.array('foo', (n, 2), 'd')), n, pos, vel, time, tid
def row(h, got, k, at, pos, vel, time, tid):
    ix = (k,) if k is not None else ()
    for c in range(3):
        h.prove(got.at(*ix, c) == pos.at(at, c), 'columns 0-2: position')
        h.prove(got.at(*ix, 3 + c) == vel.at(at, c), 'columns 3-5: velocity')
    h.prove(got.at(*ix, 6) == time.at(at), 'column 6: time')
    h.prove(got.at(*ix, 7) == tid, 'column 7: trajectory id')
def many(name, mk):
    def f(h):
        t, n, pos, vel, time, tid = make(h)
        sel, m, at = mk(h, n)
        got = t[sel]
        h.prove(len(got.dims) == 2 and got.dims[1] == 8, 'a table of 8 columns')
        h.prove(got.shape[0] == m, 'one row for each selected point')
        with h.forall(m, 'k') as k: row(h, got, k, at(k), pos, vel, time, tid)
    f.__doc__ = 'a selector which is ' + name
    harness('C02', FNS, 'rows_' + name.replace(' ', '_'))(f)
def sl(h, n):
    a, b = h.int('a', 0), h.int('b', 0)
    stop = select(b <= n, b, n)
    return slice(a, b), select(stop > a, stop - a, 0), lambda k: a + k
def mask(h, n):
    m = h.array('mask', (n,), 'b'); c = arr.comp_of(m)
    return m, mkint(c.cnt), lambda k: mkint(c.sel(k.e))
def idx(h, n):
    m = h.dim('m'); ix = h.array('ix', (m,), 'i', rng=(0, n))
    return ix, m, lambda k: ix.at(k)
def negidx(h, n):
    m = h.dim('m'); ix = h.array('ix', (m,), 'i', rng=(-n, n))
    return ix, m, lambda k: select(ix.at(k) < 0, ix.at(k) + n, ix.at(k))
def step(h, n):
    return slice(None, None, 2), mkint(arr.dimsimp((n.e + 1)/2)), lambda k: k*2
def back(h, n): return slice(None, None, -1), n, lambda k: n - 1 - k
many('a slice', sl); many('a boolean mask', mask); many('an index array', idx); many('an index array with negatives', negidx); many('every second point', step); many('a backward slice', back)
@harness('C02', FNS)
def single_row(h):
    "an integer (also negative) gives the single row"
    t, n, pos, vel, time, tid = make(h)
    i = h.int('i'); h.assume(i >= -n); h.assume(i < n)
    got = t[i]
    h.prove(got.dims == (8,), 'a row of 8 numbers')
    row(h, got, None, select(i < 0, i + n, i), pos, vel, time, tid)
