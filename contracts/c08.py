from lib import *
import invm
S = SQ + '.Sequence.'
FNS = [S + 'map_trajectories', S + 'particle_trajectories', TR + '.ParticleSet.schema']
ASSUMPTIONS = ['map_trajectories: the particle trajectories have different ids, not negative; the function gives a value for each trajectory of the frame and no others, in any order; iter_subrange gives the frames of the range in order (proved in C07)', 'the first frame of a range is not after its last']
class Token:
    "the part of the sequence at a frame"
    vc_static = True
    def __init__(s, f): s.f = f
    def __getattr__(s, k): raise AttributeError(k) if k.startswith(('vc_', '__')) else Unsupported('parts of a frame in map_trajectories')
class Results:
    "what the function gives for a frame: values by id, in some order"
    vc_static = True
    def __init__(s, W, f): s.W, s.f = W, f
    def seq(s, g):
        return coll.SSeq(arr.dimsimp(s.W.m(s.f)), g)
    def key(s, j): return mkint(s.W.key(s.f, lift(ie(j))))
    def items(s): return s.seq(lambda j: (s.key(j), s[s.key(j)]))
    def keys(s): return s.seq(s.key)
    def values(s): return s.seq(lambda j: s[s.key(j)])
    vc_seq = keys
    def __getitem__(s, k): return wrap(s.W.val(s.f, lift(ie(k))))
    def __getattr__(s, k): raise AttributeError(k) if k.startswith(('vc_', '__')) else Unsupported('results of the function')
    def __iter__(s): raise Unsupported('results of the function')
class World:
    def __init__(s, h, T, a, b):
        r = h.r; s.h, s.T, s.a, s.b = h, T, lift(ie(a)), lift(ie(b)); t = T
        s.owner = r.func('owner', I, I)          # the trajectory of an id, or -1
        s.m = r.func('results', I, I); s.key = r.func('result_id', I, I, I); s.pos = r.func('result_place', I, I, I); s.val = r.func('value', I, I, DATA)
        k, x, f, j = [r.bound(n) for n in 'kxfj']; n = lift(ie(t.n))
        inn = lambda k: zand(0 <= k, k < n)
        r.assume(invm.limit() >= 1)
        r.assume(FA(k, zimp(inn(k), zand(0 <= t.tid(k), t.tid(k) < invm.limit(), s.owner(t.tid(k)) == k)), [t.tid(k)]))
        r.assume(FA(x, zor(s.owner(x) == -1, zand(inn(s.owner(x)), t.tid(s.owner(x)) == x)), [s.owner(x)]))
        r.assume(FA(f, s.m(f) >= 0, [s.m(f)]))
        r.assume(FA([f, j], zimp(zand(0 <= j, j < s.m(f)), zand(0 <= s.key(f, j), s.key(f, j) < invm.limit(), s.owner(s.key(f, j)) >= 0, s.seg(s.owner(s.key(f, j)), f), s.pos(f, s.key(f, j)) == j)), [s.key(f, j)]))
        r.assume(FA([f, x], zimp(zand(s.owner(x) >= 0, s.seg(s.owner(x), f)), zand(0 <= s.pos(f, x), s.pos(f, x) < s.m(f), s.key(f, s.pos(f, x)) == x)), [s.pos(f, x)]))
        s.calls = z3.IntVal(0); s.asked = []; s.going = False; s.nframes = arr.dimsimp(s.b - s.a)
    def seg(s, k, f): return zand(s.T.start(k) <= f, f < s.T.start(k) + s.T.L(k) - 1)
    def lo(s, k): return z3.If(s.T.start(k) > s.a, s.T.start(k), s.a)
    def hi(s, k):
        e = s.T.start(k) + s.T.L(k) - 1
        return z3.If(e < s.b, e, s.b)
    def size(s, x): return s.hi(s.owner(x)) - s.lo(s.owner(x))
    def done(s, x, f):
        "segments of the trajectory of id x in the range before frame f"
        o = s.owner(x)
        t = z3.If(f < s.hi(o), f, s.hi(o)) - s.lo(o)
        return z3.If(t > 0, t, z3.IntVal(0))
    def there(s, x): return zand(s.owner(x) >= 0, s.size(x) >= 1)
    # the loops' invariants
    def find(s, seq):
        n = seq.n
        is_ = lambda m: arr.deq(n, m) is True
        if is_(ie(s.T.n)): return Alloc(s)
        if is_(s.nframes): return Frames(s)
        for f in s.asked:
            if is_(s.m(f)): return Inner(s, f)
        for c, nk, key, pos, fr, sc in s.h.r.notes.get('invkeys', []):
            if is_(nk):
                for m in s.h.r.notes['invmaps']:
                    if m.c is c: return Keys(s, m, key, pos)
        return None
class Inv:
    def __init__(s, W): s.W = W
    def put(s, i): s.c0 = s.W.calls
    def check(s, i, what): s.W.h.r.prove('no call of the function ' + what, s.W.calls == getattr(s, 'c0', s.W.calls))
    def hints(s, i, x): s.W.h.hint(s.W.owner(x))
    def around(s, i, body, prove): prove()
class Alloc(Inv):
    "over trajectories: empty lists and counters for those in the range"
    def state(s, m, c0):
        W = s.W
        return lambda i: invm.Content(lambda x: zb(zand(W.there(x), W.owner(x) < i)), lambda x: z3.IntVal(0), W.size, lambda x, q: invm.NONE, lambda x: z3.BoolVal(False))
    def around(s, i, body, prove):
        W = s.W; h = W.h; r = h.r
        if not body: return prove()
        k = simp(i - 1); t = W.T; L = t.L(k)
        A, B = W.lo(k) - t.start(k), W.hi(k) - t.start(k)
        cs = [c for c, key, e, j, fr, sc in r.comps if sc <= r.scopes and fr == r.frames]
        sel = [c for c in cs if arr.deq(c.n, L - 1) is True or r.engine.quick(r, zb(arr.deq(c.n, L - 1)))]
        h.hint(t.tid(k), W.owner(t.tid(k)))
        with r.scope(A < B):
            if sel: block(h, sel[-1], A, B)
            prove()
        with r.scope(A >= B):
            for c in sel[-1:]: h.hint(c.sel(z3.IntVal(0)))
            prove()
def block(h, c, A, B): contiguous(h, c.cnt, c.n, A, B, lambda i: None)
class Frames(Inv):
    "over frames: the results until now"
    def put(s, i): s.W.calls = i; s.W.going = True
    def check(s, i, what): s.W.h.r.prove('one call of the function for each frame ' + what, s.W.calls == i)
    def state(s, m, c0):
        W = s.W
        return lambda i: s.at(W.a + i)
    def at(s, f, more=lambda x: False):
        W = s.W
        num = lambda x: W.done(x, f) + z3.If(zb(more(x)), 1, 0)
        return invm.Content(lambda x: zb(W.there(x)), num, W.size, lambda x, q: z3.If(zb(zand(0 <= q, q < num(x))), W.val(W.lo(W.owner(x)) + q, x), invm.NONE), lambda x: z3.BoolVal(False))
class Inner(Frames):
    "over the results for a frame"
    def __init__(s, W, f): s.W, s.f = W, f
    put, check = Inv.put, Inv.check
    def state(s, m, c0):
        W, f = s.W, s.f
        return lambda j: s.at(f, lambda x: zand(W.owner(x) >= 0, W.seg(W.owner(x), f), W.pos(f, x) < j))
    def hints(s, i, x): s.W.h.hint(s.W.owner(x), s.W.pos(s.f, x), s.W.key(s.f, simp(i - 1)))
class Keys(Inv):
    "over ids in the results: lists become arrays"
    def __init__(s, W, m, key, pos): s.W, s.m, s.key, s.pos = W, m, key, pos; s.c = m.c
    def hints(s, i, x): s.W.h.hint(s.W.owner(x), s.pos(x), s.key(simp(i - 1)))
    def state(s, m, c0):
        met = lambda i: (lambda x: zb(s.pos(x) < i))
        fresh = any(x.c is invm.EMPTY for x in s.W.h.r.notes['invmaps'])      # a dictionary of their own for the arrays
        if m is s.m and not fresh: return lambda i: c0.but(arr=lambda x: z3.And(s.c.there(x), s.pos(x) < i))
        if c0 is invm.EMPTY: return lambda i: s.c.but(there=lambda x: z3.And(s.c.there(x), s.pos(x) < i), arr=lambda x: z3.BoolVal(True))
        return lambda i: c0
def case(history, whole):
    def f(h):
        invm.KIND.clear()
        Q = h.mod(SQ); r = h.r
        T = Trajs(h, h.dim('ntraj', 1), name='p', minlen=1)
        a, b, first, last = h.int('first'), h.int('last'), h.int('sub_first'), h.int('sub_last')
        h.assume(a <= b); h.assume(first <= last)
        if whole: first, last = a, b
        W = World(h, T, first, last)
        h.stub('flowtracks.io', 'trajectories', lambda fname, *x, **k: T.list())
        h.stub('flowtracks.io', 'infer_format', lambda fn: 'f')
        seq = Q.Sequence((a, b), 100., Q.Particle(1., 2.), 'particles', 'tracers', False, 0)
        def iter_subrange(self, f, l):
            h.prove((f == first) & (l == last), 'the range is gone over')
            return coll.SSeq(W.nframes, lambda i: (Token(simp(W.a + lift(i))), Token(simp(W.a + lift(i) + 1))))
        Q.Sequence.iter_subrange = iter_subrange
        extra = (h.real('x'), h.real('y'))
        def func(*args):
            k = 4 if history else 3
            if r.frames and not W.going: raise Unsupported('calls in another loop')
            h.prove(len(args) == k + 2 and args[0] is seq, 'arguments of the function: the sequence first')
            f, g = args[1:3]
            h.prove(isinstance(f, Token) and isinstance(g, Token), 'arguments of the function: frames')
            h.prove((f.f == W.a + W.calls) if isz(f.f) else False, 'the function is called for the frames in order')
            h.prove(g.f == f.f + 1, 'arguments of the function: the next frame')
            h.prove(args[k] is extra[0] and args[k + 1] is extra[1], 'arguments of the function: extra ones are last')
            if history: check(args[3], lambda x: W.done(x, f.f), False, 'history: ')
            W.calls = simp(W.calls + 1); W.asked.append(f.f)
            return Results(W, f.f)
        def check(d, num, isarr, what):
            m = getattr(d, 'map', None)
            if not isinstance(m, invm.Map): raise Unsupported('other results')
            c = m.c
            with h.forall(mkint(invm.limit()), 'id') as x:
                x = ie(x); h.hint(W.owner(x)); o = W.owner(x)
                h.prove(c.there(x) == zb(W.there(x)), what + 'of the trajectories with segments in the range')
                with r.scope(W.there(x)):
                    h.prove(zb(m.shape() == 'sequence'), what + 'time series')
                    h.prove(c.size(x) == W.size(x), what + 'one place for each segment in the range')
                    h.prove(c.arr(x) == z3.BoolVal(isarr), what + ('an array' if isarr else 'a list'))
                    with h.forall(mkint(num(x)), 'q') as q: h.prove(c.item(x, ie(q)) == W.val(W.lo(o) + ie(q), x), what + 'the result for that segment, in time order')
        r.notes['invariant'] = W.find
        kw = {} if whole else dict(subrange=(first, last))
        out = seq.map_trajectories(func, history=history, args=extra, **kw)
        h.prove(W.calls == W.b - W.a, 'the function is called once for each frame')
        check(out, lambda x: W.size(x), True, 'returned: ')
    return f
for hist in (False, True):
    for whole in (False, True):
        harness('C08', FNS, 'map%s%s' % ('_history' if hist else '', '_whole' if whole else ''), rec=True, **{'dict': 'invariants'})(case(hist, whole))
