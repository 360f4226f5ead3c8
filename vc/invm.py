"""Dictionaries under whole-number keys whose entries are numbers, lists or arrays, which loops of the code
change in place. Their contents are functions of the key. A loop that changes them needs an invariant from
the contract, which says what the contents are before iteration i: it is put in place of them for the
arbitrary iteration, and proved before the first and after each iteration (of all keys)."""
from core import *
from vals import *
import arr, coll
KIND = {}
def limit(): return z3.Int('keys!limit')
NONE = z3.Const('none!', DATA)
class Content:
    """functions of the key: there; num, for numbers; size, item (of the place too) and arr (is it an
    array and not a list), for sequences"""
    def __init__(s, there, num, size, item, arr): s.there, s.num, s.size, s.item, s.arr = there, num, size, item, arr
    def but(s, **k):
        c = Content(s.there, s.num, s.size, s.item, s.arr); c.__dict__.update(k); return c
EMPTY = Content(lambda x: z3.BoolVal(False), lambda x: z3.IntVal(0), lambda x: z3.IntVal(0), lambda x, q: NONE, lambda x: z3.BoolVal(False))
def at(f, k, v):
    "the function f, but v at k"
    return lambda x: z3.If(x == k, v, f(x))
class Map:
    vc_static = True
    def __init__(s):
        r = run(); s.c = EMPTY; s.epoch = 0; s.memo = {}
        s.num = len(r.notes.setdefault('invmaps', []))
        s.oid = r.newid(s)
        r.notes['invmaps'].append(s)
        if r.frames: raise Unsupported('a dictionary made in a loop')
    def take_effect(s, frame): return None
    def kinds(s): return run().engine.__dict__.setdefault('invkinds', {})
    def shape(s, kind=None):
        m = s.kinds()
        if kind is not None and m.setdefault(s.oid, kind) != kind: raise Unsupported('a dictionary with values of several kinds')
        return m.get(s.oid)
    def key(s, k):
        if not isinstance(nat(k), SInt): raise Unsupported('a dictionary with keys of several kinds')
        run().safety(zand(ie(k) >= 0, ie(k) < limit()), 'a key within the range of keys')
        return lift(ie(k))
    def has(s, k): return mkbool(simp(s.c.there(s.key(k))))
    def get(s, k):
        z = s.key(k)
        if not mkbool(simp(s.c.there(z))): raise KeyError(k)
        return s.view(z)
    def view(s, z):
        kd = s.shape()
        if kd is None: raise Unsupported('a value of a dictionary without any')
        if kd == 'number': return mkint(simp(s.c.num(z)))
        if mkbool(simp(s.c.arr(z))):
            it = s.c.item
            return arr.SArr((arr.dimsimp(s.c.size(z)),), lambda q: wrap(it(z, lift(q))), 'data')
        return View(s, z)
    def set(s, k, v):
        z = s.key(k); v = nat(v); r = run(); r.alive()
        c = s.c
        if isinstance(v, arr.SArr):
            if len(v.dims) != 1 or v.dtype.kind in 'bif': raise Unsupported('an array in a dictionary')
            s.shape('sequence'); g = v.reader(); v.store.sealed = True
            s.c = c.but(size=at(c.size, z, lift(v.dims[0])), item=lambda x, q: z3.If(x == z, datum(g(q)), c.item(x, q)), arr=at(c.arr, z, z3.BoolVal(True)))
            s.epoch += 1
        elif isinstance(v, coll.SList):
            s.shape('sequence'); n, g = v.snap()
            s.c = c.but(size=at(c.size, z, lift(n)), item=lambda x, q: z3.If(x == z, datum(g(q)), c.item(x, q)), arr=at(c.arr, z, z3.BoolVal(False)))
            v.__class__ = Given
            s.epoch += 1
        elif isinstance(v, View):
            if v.m is not s or v.epoch != s.epoch or not r.engine.quick(r, v.z == z): raise Unsupported('a list under two keys')
            return
        elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
            s.shape('number'); s.c = c.but(num=at(c.num, z, lift(ie(v))))
        else: raise Unsupported('a dictionary with symbolic keys and such values')
        s.c = s.c.but(there=at(c.there, z, z3.BoolVal(True)))
    def put(s, z, q, v):
        c = s.c; e = datum(v)
        s.c = c.but(item=lambda x, p: z3.If(z3.And(x == z, p == lift(q)), e, c.item(x, p)))
    def keys(s):
        r = run()
        for (c, n, key, pos, fr, sc) in r.notes.setdefault('invkeys', []):
            if c is s.c and sc <= r.scopes and fr == r.frames[:len(fr)]: return n, key
        n = r.const('nkeys', I); key, pos = r.func('key', I, I), r.func('key_pos', I, I)
        there = s.c.there
        r.assume(n >= 0)
        j, k = r.bound('j'), r.bound('k')
        r.assume(FA(j, zimp(zand(0 <= j, j < n), zand(0 <= key(j), key(j) < limit(), there(key(j)), pos(key(j)) == j)), [key(j)]))
        r.assume(FA(k, zimp(zand(0 <= k, k < limit(), there(k)), zand(0 <= pos(k), pos(k) < n, key(pos(k)) == k)), [pos(k)]))
        r.notes['invkeys'].append((s.c, n, key, pos, list(r.frames), r.scopes))
        return n, key
def datum(v):
    if v is None: return NONE
    e = lift(v.e) if isinstance(v, SVal) else None
    if e is None or e.sort() != DATA: raise Unsupported('such values in a list of results')
    return e
class Given(coll.SList):
    "a list that is an entry of a dictionary now: not to be used by its own name"
    def _bad(s, *a, **k): raise Unsupported('a list under two names')
    _read = _outer = vc_len = __len__ = __setitem__ = pop = insert = snap = get = append = extend = _bad
class View:
    "the list which is the entry under key z"
    vc_static = True
    def __init__(s, m, z): s.m, s.z, s.epoch = m, z, m.epoch
    def live(s):
        if s.epoch != s.m.epoch: raise Unsupported('a list by another name than its key')
        run().alive()
    @property
    def n(s): s.live(); return arr.dimsimp(s.m.c.size(s.z))
    def vc_len(s): return arr.pdim(s.n)
    def vc_seq(s):
        s.live(); it = s.m.c.item
        return coll.SSeq(s.n, lambda q: wrap(simp(it(s.z, lift(q)))))
    def vc_array(s):
        q = s.vc_seq()
        return arr.SArr((q.n,), lambda k: q.get(k), 'data')
    def __getitem__(s, k): return s.vc_seq()[k]
    def __setitem__(s, k, v):
        s.live(); k = nat(k)
        if not isinstance(k, (int, SInt)): raise Unsupported('assigning list slices')
        s.m.put(s.z, coll.norm_int(k, s.n, 'list index in range'), v)
    def _bad(s, *a, **k): raise Unsupported('a list in a dictionary')
    append = extend = pop = insert = __iter__ = __len__ = __eq__ = __add__ = __contains__ = _bad
    __hash__ = None
class NoInvariant(Unsupported):
    "the contract's invariant is of another way to keep things: what failed with it says nothing"
class Loop:
    "a loop that may change such dictionaries"
    def __init__(s, r, seq):
        s.r = r; s.maps = list(r.notes.get('invmaps', ())); s.inv = None
        find = r.notes.get('invariant')
        if s.maps and find is not None: s.inv = find(seq)
        s.before = [(m.c, m.epoch) for m in s.maps]
    def first(s, i):
        "the numbers which are kept are those of the invariant"
        if s.inv is None or s.r.replaying(): return
        for m, (c, e) in zip(s.maps, s.before):
            if m.shape() != 'number': continue
            want = s.inv.state(m, c)(lift(i)); r = s.r
            with r.forall(limit(), 'key') as x:
                s.inv.hints(lift(i), x)
                if not r.engine.discharge(r, zimp(want.there(x), zand(c.there(x), c.num(x) == want.num(x))))[0]: raise NoInvariant('numbers not as in the invariant')
    def put(s, i):
        if s.inv is None: return
        s.states = [s.inv.state(m, c) for m, (c, e) in zip(s.maps, s.before)]
        for m, f in zip(s.maps, s.states): m.c = f(lift(i)); m.epoch += 1
        s.given = [m.c for m in s.maps]
        s.inv.put(lift(i))
    def check(s, i, what, path=None):
        if s.inv is None:
            if any(m.c is not c for m, (c, e) in zip(s.maps, s.before)): raise Unsupported('a loop that changes a dictionary (needs an invariant)')
            return
        if not hasattr(s, 'states'): s.states = [s.inv.state(m, c) for m, (c, e) in zip(s.maps, s.before)]
        r = s.r; i = lift(i)
        idle = path and all(m.c is c for m, c in zip(s.maps, s.given))
        def ok(name, goal):
            if idle: fits(name, goal)       # perhaps this loop is not the one that fills it
            else: r.prove(name, goal)
        def fits(name, goal):
            "a number or list kept as the invariant has it"
            if not r.replaying() and not r.engine.discharge(r, simp(goal))[0]: raise NoInvariant('%s not as in the invariant' % name)
            r.prove(name, goal)
        def prove():
            s.inv.check(i, what)
            for m, f in zip(s.maps, s.states):
                want = f(i); got = m.c; kd = m.shape()
                with r.forall(limit(), 'key') as x:
                    s.inv.hints(i, x)
                    if kd == 'number':
                        fits('keys of numbers in a dictionary ' + what, got.there(x) == want.there(x))
                        with r.scope(want.there(x)): fits('numbers in a dictionary ' + what, got.num(x) == want.num(x))
                        continue
                    ok('keys of a dictionary ' + what, got.there(x) == want.there(x))
                    with r.scope(want.there(x)):
                        if kd != 'sequence': r.prove('numbers in a dictionary ' + what, got.num(x) == want.num(x))
                        fits('lists and arrays in a dictionary ' + what, got.arr(x) == want.arr(x))
                        ok('sizes of lists in a dictionary ' + what, got.size(x) == want.size(x))
                        with r.forall(want.size(x), 'place') as q: ok('items of lists in a dictionary ' + what, got.item(x, q) == want.item(x, q))
        s.inv.around(i, path, prove)
