"""Lists, sequences, sets and dictionaries with symbolic parts, and the loop rule."""
import sys, types
import z3
from core import *
from vals import *
import core, vals, arr
from arr import dim, pdim, dadd, dsub, zcmp, within, within_lo, dimsimp, deq, norm_int, comp_fn, substz, subst_raw

class SSeq:
    "a read-only sequence: n items, get(k) for an index term"
    def __init__(s, n, get): s.n, s.get = n, get
    def vc_len(s): return pdim(s.n)
    def __len__(s):
        if isz(s.n): raise Unsupported('native len()')
        return s.n
    def __iter__(s):
        if isz(s.n): raise Unsupported('native iteration over a symbolic sequence')
        return (s.get(k) for k in range(s.n))
    def vc_subst(s, pairs, memo): return SSeq(subst_raw(s.n, pairs), subst_get(s.get, pairs))
    def __getitem__(s, k): return SList.of(s.n, s.get)[k]
    def __reversed__(s): return SSeq(s.n, lambda k: s.get(dsub(dsub(s.n, 1), k)))

def subst_get(get, pairs):
    def g(k):
        if not isz(k): return subst(get(k), pairs)
        t = z3.FreshInt('sk')
        return subst(subst(get(t), pairs), [(t, k)])
    return g

class SList:
    """a list: a symbolic part (n items, get) and then concretely appended items."""
    def __init__(s, items=()):
        s.n0, s.get0 = 0, None
        s.tail = list(items)
        s.journal = []
        s.oid = run().newid(s) if CUR.run is not None else 0
        s.cache = {}; s.hv = None
    @classmethod
    def of(cls, n, get):
        r = cls()
        n = dimsimp(n)
        if not isz(n): r.tail = [get(k) for k in range(n)]
        else: r.n0, r.get0 = n, get
        return r
    def sym(s): return isz(s.n0)
    @property
    def n(s): return dadd(s.n0, len(s.tail)) if isz(s.n0) else s.n0 + len(s.tail)
    def _read(s): run().note_read(s.oid, obj=s)
    def snap(s):
        s._read()
        n0, get0, tail = s.n0, s.get0, list(s.tail)
        if not isz(n0): return len(tail), (lambda k: pick_item(tail, k))
        def get(k):
            if not tail: return get0(k)
            def rec(q):
                if q == len(tail): return get0(k)
                c = simp(zb(zcmp('==', k, dadd(n0, q))))
                if c is True: return tail[q]
                if c is False: return rec(q + 1)
                return merge(c, tail[q], rec(q + 1))
            return rec(0)
        return dadd(n0, len(tail)), get
    def get(s, k):
        key = (s.n0.get_id() if isz(s.n0) else s.n0, len(s.tail), k.get_id() if isz(k) else ('c', k))
        if key in s.cache:
            s._read()
            return s.cache[key][0]
        v = s.snap()[1](k)
        s.cache[key] = (v, k)
        return v
    def vc_len(s):
        if s.hv is not None:
            run().note_read(s.oid, 'len', obj=s)
            return pdim(dadd(s.hv[0], dsub(s.n, s.hv[1])))
        run().note_read(s.oid, 'len' if run().engine.flags.get('rec') else 'all', obj=s)
        return pdim(s.n)
    def __len__(s):
        s._read()
        if s.sym(): raise Unsupported('native len() of a symbolic list')
        return len(s.tail)
    def __bool__(s):
        s._read()
        if s.sym(): return run().fork(lift(s.n) > 0)
        return len(s.tail) > 0
    def __iter__(s):
        s._read()
        if s.sym(): raise Unsupported('native iteration over a symbolic list')
        return iter(s.tail)
    def _outer(s):
        r = run(); r.alive()
        if s.oid == 0 and r.frames: raise Unsupported('changing a module-level list in a loop')
        return any(s.oid <= f.oid0 for f in r.frames)
    def append(s, v):
        if s._outer(): s.journal.append((len(run().taken), 'append', v))
        s.tail.append(v)
    def extend(s, o):
        seq = o.take_all() if isinstance(o, GenSeq) else as_seq(o)
        if not isz(seq.n):
            for k in range(seq.n): s.append(seq.get(k))
            return
        if s._outer(): 
            s.journal.append((len(run().taken), 'extend', (seq.n, seq.get)))
        s._extend(seq.n, seq.get)
    def _extend(s, n, get):
        m, g = s.snap_quiet()
        s.n0 = dadd(m, n)
        s.tail = []; s.cache = {}
        def g2(k):
            c = simp(zb(zcmp('<', k, m)))
            if c is True: return g(k)
            if c is False: return get(dsub(k, m))
            return merge(c, g(k), get(dsub(k, m)))
        if not isz(s.n0):
            t = [g2(k) for k in range(s.n0)]; s.n0 = 0; s.get0 = None; s.tail = t
        else: s.get0 = g2 if not (not isz(m) and m == 0) else get
    def snap_quiet(s):
        r = run(); fr = r.frames; r.frames = []
        try: return s.snap()
        finally: r.frames = fr
    def __iadd__(s, o): s.extend(o); return s
    def __add__(s, o):
        r = SList(); r.extend(s); r.extend(o); return r
    def __radd__(s, o):
        r = SList(); r.extend(o); r.extend(s); return r
    def __mul__(s, k):
        k = nat(k)
        if isinstance(k, SInt):
            if s.sym() or len(s.tail) != 1: raise Unsupported('repeating a list symbolically')
            v = s.tail[0]
            return SList.of(arr.dim(k), lambda q: v)
        if s.sym(): raise Unsupported('repeating a symbolic list')
        return SList(s.tail*k)
    __rmul__ = __mul__
    def __getitem__(s, k):
        k = nat(k)
        n = s.n
        if isinstance(k, slice):
            st, ln, step = arr.slice_of(k, n)
            m, g = s.snap()
            return SList.of(ln, lambda q: g(dimsimp(lift(st) + step*lift(q)) if isz(st) or isz(q) else st + step*q))
        if not isinstance(k, (int, SInt)): raise TypeError('list indices must be integers')
        return s.get(norm_int(k, n, 'list index in range'))
    def __setitem__(s, k, v):
        k = nat(k)
        if s._outer(): raise Unsupported('assigning a list item in a loop')
        if isinstance(k, slice): raise Unsupported('assigning list slices')
        if not s.sym() and isinstance(k, int): s.tail[k] = v; s.cache = {}; return
        j = norm_int(k, s.n, 'list index in range')
        m, g = s.snap()
        s.cache = {}; s.tail = []
        s.n0 = m
        def g2(q):
            c = simp(zb(zcmp('==', q, j)))
            if c is True: return v
            if c is False: return g(q)
            return merge(c, v, g(q))
        s.get0 = g2
        if not isz(m): s.tail = [g2(q) for q in range(m)]; s.n0 = 0
    def pop(s, k=-1):
        if s.sym() or s._outer(): raise Unsupported('pop from a symbolic list')
        s.cache = {}
        return s.tail.pop(k)
    def insert(s, k, v):
        if s.sym() or s._outer(): raise Unsupported('insert')
        s.cache = {}; s.tail.insert(k, v)
    def copy(s): r = SList(); r.extend(s); return r
    def index(s, v):
        if s.sym(): raise Unsupported('index')
        for k, x in enumerate(s.tail):
            if x is v or x == v: return k
        raise ValueError()
    def count(s, v):
        if s.sym(): raise Unsupported('count')
        return sum(1 for x in s.tail if x == v)
    def reverse(s):
        if s.sym() or s._outer(): raise Unsupported('reverse')
        s.cache = {}; s.tail.reverse()
    def sort(s, key=None, reverse=False):
        if s._outer(): raise Unsupported('sort in a loop')
        if not s.sym() and all(not isinstance(x, SVal) for x in s.tail): s.tail.sort(key=key, reverse=reverse); return
        if key is not None or reverse: raise Unsupported('sorting a symbolic list by a key')
        import npm
        n, get = s.snap()
        if isz(n) and not isinstance(get(z3.FreshInt('sk')), (int, float, SInt, SReal)): raise Unsupported('sorting a list of other than numbers')
        a = npm.sort(arr.asarr(SList.of(n, get)))
        s.cache = {}; s.tail = []; s.n0, s.get0 = a.dims[0], a.at
        if not isz(s.n0): s.tail = [a.at(k) for k in range(s.n0)]; s.n0, s.get0 = 0, None
    def __eq__(s, o):
        if not isinstance(o, (SList, list)): return False
        if isinstance(o, SList) and o.sym() or s.sym(): raise Unsupported('comparing symbolic lists')
        return list(s) == list(o)
    def __ne__(s, o): return not s == o
    def __contains__(s, v):
        if s.sym(): return bool(SSet(s).has(v))
        return any(x is v or bool(x == v) for x in s.tail)
    def __hash__(s): return id(s)
    def __repr__(s): return '<list %s+%s>' % (s.n0, s.tail)
    def __reversed__(s):
        m, g = s.snap()
        return SSeq(m, lambda k: g(dsub(dsub(m, 1), k)))
    # loops
    def take_effect(s, frame):
        es = [(w, v) for p, w, v in s.journal if p >= frame.dec0]
        return ('append', es) if es else None
    def apply_summary(s, summ, lo, hi):
        r = run(); i = summ.idx
        per = [(b, [v for v in (b.effects[s.oid][1] if s.oid in b.effects else [])]) for b in summ.ends]
        if any(w == 'extend' for b, vs in per for w, v in vs): return s.apply_extend(per, i, lo, hi)
        counts = {len(vs) for b, vs in per}
        def value(which):
            "the which-th appended value of iteration t, over the paths that append it"
            use = [(b, vs[which][1]) for b, vs in per if len(vs) > which]
            def f(t):
                t = lift(t)
                res = subst(use[-1][1], [(i, t)])
                for b, v in reversed(use[:-1]):
                    res = merge(simp(zb(substz(zb(b.pc), [(i, t)]))), subst(v, [(i, t)]), res)
                return res
            return f
        total = dsub(hi, lo)
        if isz(total): total = dimsimp(z3.If(total < 0, z3.IntVal(0), total)) if not r.engine.quick(r, total >= 0) else total
        if len(counts) == 1:
            k = counts.pop()
            if k == 0: return
            fs = [value(q) for q in range(k)]
            if k == 1: get = lambda t: fs[0](dadd(lo, t))
            else:
                def get(t):
                    if not isz(t): return fs[t % k](dadd(lo, t//k))
                    res = fs[k-1](dadd(lo, dimsimp(t/k)))
                    for q in range(k - 2, -1, -1): res = merge(simp(t % k == q), fs[q](dadd(lo, dimsimp(t/k))), res)
                    return res
                total = arr.dmul(total, k)
        elif counts == {0, 1}:
            f = value(0)
            conds = [b.pc for b, vs in per if vs]
            m = lambda t: mkbool(simp(zb(substz(zb(zor(*conds)), [(i, lift(dadd(lo, t)))]))))
            c = comp_fn(total, m)
            total = dimsimp(c.cnt)
            get = lambda t: f(dadd(lo, c.sel(t)))
        else: raise Unsupported('a loop that appends different numbers of items')
        s._extend_j(total, get)
    def apply_extend(s, per, i, lo, hi):
        "iterations append varying numbers of items: like joining arrays"
        r = run()
        cnt = lambda vs: sum_dims([1 if w == 'append' else v[0] for w, v in vs])
        def ln(t):
            res = None
            for b, vs in reversed(per):
                v = substz(lift(cnt(vs)), [(i, t)])
                res = v if res is None else z3.If(zb(substz(zb(b.pc), [(i, t)])), v, res)
            return res
        off = r.func('eoff', I, I); wh = r.func('ewhich', I, I)
        a, b_, k = r.bound('a'), r.bound('b'), r.bound('k')
        lo_, hi_ = lift(lo), lift(hi)
        n = z3.If(hi_ > lo_, hi_, lo_); tot = r.const('etotal', I)
        r.assume(off(lo_) == 0); r.assume(tot == off(n)); r.assume(tot >= 0)
        r.assume(FA(a, zimp(zand(lo_ <= a, a < n), zand(off(a + 1) == off(a) + ln(a), off(a) >= 0, off(a) + ln(a) <= tot)), [off(a)]))
        r.assume(FA([a, b_], zimp(zand(lo_ <= a, a < b_, b_ <= n), off(a) + ln(a) <= off(b_)), [(off(a), off(b_))]))
        r.assume(FA(k, zimp(within(k, tot), zand(lo_ <= wh(k), wh(k) < n, off(wh(k)) <= k, k < off(wh(k)) + ln(wh(k)))), [wh(k)]))
        r.assume(FA([a, k], zimp(zand(lo_ <= a, a < n, off(a) <= k, k < off(a) + ln(a)), wh(k) == a), [(off(a), wh(k))]))
        def item(vs, q):
            "item q of those that a path adds"
            at = 0
            parts = []
            for w, v in vs:
                if w == 'append': parts.append((at, 1, lambda q, v=v: v)); at = dadd(at, 1)
                else: parts.append((at, v[0], v[1])); at = dadd(at, v[0])
            if not parts: return None
            st, m, f = parts[-1]
            res = f(dsub(q, st))
            for st, m, f in reversed(parts[:-1]): res = merge(simp(zb(zcmp('<', q, dadd(st, m)))), f(dsub(q, st)), res)
            return res
        def get(k):
            w = wh(k); q = z3.FreshInt('sk'); res = None
            for b, vs in reversed(per):
                v = item(vs, q)
                if v is None: continue
                v = subst(v, [(i, w)]); v = subst(v, [(q, dimsimp(lift(k) - off(w)))])
                res = v if res is None else merge(simp(zb(substz(zb(b.pc), [(i, w)]))), v, res)
            return res
        n0 = s.snap_quiet()[0]
        s.offs = (off, lo, n0)
        r.notes.setdefault('extends', []).append((s, off, wh, lo, hi, tot))
        s._extend_j(tot, get)
    def _extend_j(s, n, get):
        if s._outer(): s.journal.append((len(run().taken), 'extend', (n, get)))
        s._extend(n, get)
    def vc_subst(s, pairs, memo):
        r = SList()
        memo[id(s)] = (r, s)
        m, g = s.snap_quiet()
        if isz(m):
            n2 = dimsimp(substz(m, pairs))
            g2 = subst_get(g, pairs)
            r2 = SList.of(n2, g2)
            r.n0, r.get0, r.tail = r2.n0, r2.get0, r2.tail
        else: r.tail = [subst(v, pairs, memo) for v in s.tail]
        return r
def sum_dims(ds):
    t = 0
    for d in ds: t = dadd(t, d)
    return t
def pick_item(tail, k):
    if not isz(k): return tail[k]
    if not tail: raise Unsupported('item of an empty list')
    res = tail[-1]
    for q in range(len(tail) - 2, -1, -1): res = merge(simp(k == q), tail[q], res)
    return res
def merge_list(c, a, b):
    (n, g), (m, h) = a.snap(), b.snap()
    if not isz(n) and not isz(m) and n == m: 
        return SList([merge(c, g(k), h(k)) for k in range(n)])
    return SList.of(dimsimp(zite(c, n, m)), lambda k: merge(c, g(k), h(k)))

# ------------------------------------------------------------------ sets and dictionaries
class SSet:
    "a set of the items of a sequence (numbers), with symbolic membership"
    def __init__(s, seq):
        s.parts = []
        if seq is not None: s._add_seq(seq)
    def _add_seq(s, seq):
        seq = seq.take_all() if isinstance(seq, GenSeq) else as_seq(seq)
        r = run()
        n, get = seq.n, seq.get
        if not isz(n):
            vs = [get(k) for k in range(n)]
            s.parts.append(lambda x: mkbool(simp(zb(zor(*[tobool(x == v) for v in vs])))))
            s.items = (n, get)
            return
        q = r.bound('x'); k = r.bound('k')
        e = get(k)
        srt = lift(e.e if isinstance(e, SVal) else e).sort()
        x = z3.Const('%s_x' % r.fname('m'), srt)
        mem = r.func('mem', srt, B); wit = r.func('memat', srt, I)
        key = lambda v: v.e if isinstance(v, SVal) else lift(v, z3.RealVal(0) if srt == R else z3.IntVal(0))
        wv = key(get(wit(x)))
        r.assume(FA(x, zimp(mem(x), zand(within(wit(x), n), wv == x)), [mem(x)]))
        r.assume(FA(k, zimp(within(k, n), mem(key(e))), arr.good_pats(key(e), k) + [mem(key(e))]))
        def has(v):
            v = nat(v)
            t = v.e if isinstance(v, SVal) else lift(v, z3.RealVal(0) if srt == R else z3.IntVal(0))
            if t.sort() != srt:
                if srt == R: t = z3.ToReal(t)
                else:
                    t2 = z3.simplify(t)
                    return mkbool(z3.And(z3.IsInt(t2), mem(z3.ToInt(t2))))
            return mkbool(mem(t))
        s.parts.append(has)
        s.items = (n, get)
    def has(s, v): return mkbool(simp(zb(zor(*[tobool(p(v)) for p in s.parts]))))
    def __contains__(s, v): return bool(s.has(v))
    def _new(s, f):
        r = SSet(None); r.parts = [f]; r.items = None; return r
    def __and__(s, o):
        o = toset(o)
        return s._new(lambda v: mkbool(zand(tobool(s.has(v)), tobool(o.has(v)))))
    __rand__ = __and__
    def __or__(s, o):
        o = toset(o)
        return s._new(lambda v: mkbool(zor(tobool(s.has(v)), tobool(o.has(v)))))
    __ror__ = __or__
    def __sub__(s, o):
        o = toset(o)
        return s._new(lambda v: mkbool(zand(tobool(s.has(v)), znot(tobool(o.has(v))))))
    def __rsub__(s, o): return toset(o) - s
    intersection, union, difference = __and__, __or__, __sub__
    def __hash__(s): return id(s)
    def vc_subst(s, pairs, memo): raise Unsupported('a set in a loop result')
def toset(o):
    if isinstance(o, SSet): return o
    return SSet(SList(list(o))) if isinstance(o, (set, frozenset)) else SSet(o)

def symkey(k): return isinstance(k, SVal) or (isinstance(k, str) and '\ue000' in k)
class SDict(dict):
    """dictionary. Its known keys are kept as they are; what is stored under symbolic keys is kept in
    the order of storing (log: pairs of key and value), and can only be added to"""
    def __init__(s, *a, **k):
        dict.__init__(s, *a, **k)
        if any(symkey(q) for q in dict.keys(s)): raise Unsupported('a dictionary with symbolic keys')
        s.log = SList() if CUR.run is not None else None
        s.map = None
        if CUR.run is not None and CUR.run.engine.flags.get('dict') and not dict.__len__(s):
            if CUR.run.engine.flags['dict'] == 'invariants':
                import invm
                s.map = invm.Map()
            else:
                import mapm
                s.map = mapm.Map()
    def mapped(s):
        "entries under symbolic keys are kept in a map"
        return s.map is not None and not dict.__len__(s)
    def known(s):
        "reading: only what has known keys"
        if s.used(): raise Unsupported('a dictionary with symbolic keys')
        if s.log is not None:
            s.log._read()
            if s.log.sym() or s.log.tail: raise Unsupported('reading a dictionary with symbolic keys')
    def __setitem__(s, k, v):
        k = nat(k)
        if symkey(k):
            if s.mapped(): return s.map.set(k, v)
            if s.log is None: raise Unsupported('a dictionary with symbolic keys')
            if dict.__len__(s): raise Unsupported('a dictionary with known and symbolic keys')
            s.log.append((k, v)); return
        s.known()
        dict.__setitem__(s, k, v)
    def __getitem__(s, k):
        k = nat(k)
        if symkey(k) and s.mapped(): return s.map.get(k)
        s.known()
        if symkey(k): raise Unsupported('a dictionary with symbolic keys')
        return dict.__getitem__(s, k)
    def get(s, k, d=None):
        if symkey(k) and s.mapped(): return s.map.get(k) if s.map.has(k) else d
        s.known()
        if symkey(k): raise Unsupported('a dictionary with symbolic keys')
        return dict.get(s, k, d)
    def copy(s): return SDict(s)
    def __contains__(s, k):
        k = nat(k)
        if symkey(k) and s.mapped(): return bool(s.map.has(k))
        s.known()
        if symkey(k): raise Unsupported('a dictionary with symbolic keys')
        return dict.__contains__(s, k)
    def setdefault(s, k, d=None):
        k = nat(k)
        if symkey(k) and s.mapped():
            if not s.map.has(k): s.map.set(k, d)
            return s.map.get(k)
        s.known()
        if symkey(k): raise Unsupported('a dictionary with symbolic keys')
        return dict.setdefault(s, k, d)
    def used(s):
        "are there entries under symbolic keys"
        return s.mapped() and s.map.shape() is not None
    def seq(s, f):
        n, key = s.map.keys()
        q = SSeq(n, f(key)); q.keys_of = s.map, key
        return q
    def keys(s):
        if s.used(): return s.seq(lambda key: lambda j: mkint(key(lift(ie(j)))))
        s.known(); return dict.keys(s)
    def values(s):
        if s.used(): return s.seq(lambda key: lambda j: s.map.view(key(lift(ie(j)))))
        s.known(); return dict.values(s)
    def items(s):
        if s.used(): return s.seq(lambda key: lambda j: (mkint(key(lift(ie(j)))), s.map.view(key(lift(ie(j))))))
        s.known(); return dict.items(s)
    def __iter__(s): s.known(); return dict.__iter__(s)
    def __len__(s): s.known(); return dict.__len__(s)
    def pop(s, *a): s.known(); return dict.pop(s, *a)
    def popitem(s): s.known(); return dict.popitem(s)
    def clear(s): s.known(); dict.clear(s)
    def __delitem__(s, k):
        s.known()
        if symkey(nat(k)): raise Unsupported('a dictionary with symbolic keys')
        dict.__delitem__(s, k)
    def __or__(s, o): s.known(); return SDict(dict.__or__(s, o))
    def update(s, *a, **k): s.known(); dict.update(s, *a, **k)
    def __eq__(s, o): s.known(); return dict.__eq__(s, o)
    def __ne__(s, o): return not s == o
    __hash__ = None

# ------------------------------------------------------------------ iteration
class SRange(SSeq):
    def __init__(s, a, b, step=1):
        s.a, s.b, s.step = a, b, step
        if step == 1: n = dsub(b, a)
        elif step == -1: n = dsub(a, b)
        else: raise Unsupported('range step')
        if isz(n):
            r = run()
            if not r.engine.quick(r, n >= 0): n = dimsimp(z3.If(n < 0, z3.IntVal(0), n))
        else: n = max(n, 0)
        SSeq.__init__(s, n, lambda k: mkint(lift(a) + step*lift(k)) if isz(a) or isz(k) else a + step*k)

class GenSeq:
    """what a generator function of the code under contract yields, evaluated when first
    used. pos: how many items have been taken; `busy`: something else is taking them."""
    def __init__(s, thunk):
        s.thunk, s.lst, s.pos, s.busy = thunk, None, 0, False
        s.oid = run().newid(s) if CUR.run is not None else 0
    def force(s):
        if s.lst is None:
            s.lst = SList()
            s.thunk(s.lst)
        return s.lst
    def use(s):
        if s.busy: raise Unsupported('a generator that something else is consuming')
        if any(s.oid <= f.oid0 for f in run().frames): raise Unsupported('consuming an outer generator in a loop')
    def rest(s):
        "the items not taken yet"
        s.use()
        n, g = s.force().snap()
        p = s.pos
        if isz(p) or p != 0: return SSeq(dsub(n, p), lambda k: g(dadd(k, p)))
        return SSeq(n, g)
    def as_seq(s):
        "all remaining items are taken, in an order and to an extent not recorded"
        q = s.rest()
        s.busy = True
        return q
    def take_all(s):
        q = s.rest()
        s.pos = dadd(s.pos, q.n)
        return q
    def sym(s): return isz(s.force().snap_quiet()[0])
    def vc_next(s, *default):
        s.use()
        n, g = s.force().snap()
        c = zcmp('<', s.pos, n)
        if (run().fork(c) if isz(c) else c):
            v = g(s.pos); s.pos = dadd(s.pos, 1); return v
        if default: return default[0]
        raise StopIteration
    def __iter__(s): return s
    def __next__(s):
        if s.sym(): raise Unsupported('native iteration over a symbolic generator')
        return s.vc_next()
    def close(s): s.busy = True
    def take_effect(s, frame): return None
    def vc_subst(s, pairs, memo): return GenSeq.of(subst(s.force(), pairs, memo))
    @classmethod
    def of(cls, lst):
        g = cls(None); g.lst = lst; return g

def as_seq(x):
    if isinstance(x, SSeq): return x
    if isinstance(x, SList):
        n, g = x.n, x.get
        x._read()
        if x.sym():
            n, g0 = x.snap(); return SSeq(n, x.get if True else g0)
        items = list(x.tail)
        return SSeq(len(items), lambda k: pick_item(items, k))
    if isinstance(x, GenSeq): return x.as_seq()
    if isinstance(x, arr.SArr):
        if not x.dims: raise TypeError('iteration over a 0-d array')
        return SSeq(x.dims[0], lambda k: (x.at(k) if len(x.dims) == 1 else row_of(x, k)))
    if isinstance(x, arr.SRec): return SSeq(x.n, lambda k: x[mkint(k) if isz(k) else k])
    if isinstance(x, SSet):
        if x.items is None: raise Unsupported('iteration over a computed set')
        raise Unsupported('iteration over a set')
    if hasattr(x, 'vc_seq'): return x.vc_seq()
    if isinstance(x, SDict) and x.used(): return x.keys()
    if isinstance(x, dict): x = list(x)
    if isinstance(x, (list, tuple, str, range, set, frozenset)) or hasattr(x, '__iter__'):
        if isinstance(x, str): pass
        items = list(x)
        return SSeq(len(items), lambda k: pick_item(items, k))
    raise TypeError('%r object is not iterable' % type(x).__name__)
def row_of(x, k):
    vm = x.vmap
    return arr.SArr(x.dims[1:], dt=x.dtype, store=x.store, vmap=(lambda *ix: (k,) + ix) if vm is None else (lambda *ix: vm(k, *ix)))
def is_sym(x):
    "does iterating x need the loop rule?"
    if isinstance(x, SSeq): return isz(x.n)
    if isinstance(x, SList): return x.sym()
    if isinstance(x, GenSeq): return x.sym()
    if isinstance(x, (arr.SArr, arr.SRec)): return len(x.dims) > 0 and isz(x.dims[0])
    if isinstance(x, SSet): return True
    if isinstance(x, SDict): return x.used()
    if hasattr(x, 'vc_seq'): return isz(x.vc_seq().n)
    return False

def vc_zip(*its):
    if not any(is_sym(x) for x in its) and not any(isinstance(x, GenSeq) for x in its):
        return zip(*[iter(x) for x in its])
    r = run()
    seqs = [as_seq(native(x)) for x in its]
    ns = [q.n for q in seqs]
    n = ns[0]
    for m in ns[1:]:
        c = deq(n, m)
        if c is True: continue
        le = zcmp('<=', n, m)
        if le is True or (isz(le) and r.engine.quick(r, le)): continue
        ge = zcmp('>=', n, m)
        if ge is True or (isz(ge) and r.engine.quick(r, ge)): n = m; continue
        n = dimsimp(zite(le, n, m))
    return SSeq(n, lambda k: tuple(q.get(k) for q in seqs))
def native(x):
    return x
def vc_enumerate(x, start=0):
    if not is_sym(x): return enumerate(iter(x) if not hasattr(x, 'vc_seq') else x.vc_seq(), nat(start))
    q = as_seq(x)
    st = ie(start)
    return SSeq(q.n, lambda k: (mkint(lift(dadd(k, st))) if isz(dadd(k, st)) else dadd(k, st), q.get(k)))
def vc_map(f, *its):
    if not any(is_sym(x) for x in its): return map(f, *its)
    q = vc_zip(*its) if len(its) > 1 else as_seq(its[0])
    out = SList()
    for v in vc_iter(q, None): out.append(f(*v) if len(its) > 1 else f(v))
    return out
def vc_filter(f, x):
    if not is_sym(x): return filter(f, x)
    out = SList()
    for v in vc_iter(as_seq(x), None):
        if (f(v) if f is not None else v): out.append(v)
    return out

# ------------------------------------------------------------------ the loop rule
MAXSTAGES = 4
class Poison:
    "a variable whose value after a loop is not known"
    def __init__(s, name): object.__setattr__(s, '_n', name)
    def _bad(s, *a, **k): raise Unsupported('use of loop variable %s after its loop' % object.__getattribute__(s, '_n'))
    def __getattribute__(s, k):
        if k in ('_bad', '__class__', '_n'): return object.__getattribute__(s, k)
        raise Unsupported('use of loop variable %s after its loop' % object.__getattribute__(s, '_n'))
    __bool__ = __add__ = __radd__ = __getitem__ = __call__ = __iter__ = __eq__ = __len__ = __mul__ = __sub__ = __lt__ = __gt__ = __hash__ = __index__ = _bad

def heap_of(roots):
    """native mutable objects reachable, with their contents"""
    seen = {}; st = list(roots)
    for d, c in CUR.globals:
        if isinstance(d, type): seen[id(d)] = (d, dict(vars(d)))
        elif isinstance(d, dict): seen[id(d)] = (d, dict(d))
        elif isinstance(d, set) or type(d) is list: seen[id(d)] = (d, list(d))
    while st:
        x = st.pop()
        if id(x) in seen: continue
        if type(x) is Poison: continue
        if isinstance(x, (list, set)): kids = list(x); c = list(x)
        elif isinstance(x, dict): 
            kids = list(dict.values(x)); c = dict(dict.items(x))
            if isinstance(x, SDict) and x.log is not None: kids.append(x.log)
        elif isinstance(x, tuple): st.extend(x); continue
        elif isinstance(x, SList): st.extend(x.tail); continue
        elif isinstance(x, types.MethodType): st.append(x.__self__); continue
        elif isinstance(x, types.FunctionType):
            for cell in x.__closure__ or ():
                try: st.append(cell.cell_contents)
                except ValueError: pass
            continue
        elif isinstance(x, (SVal, arr.SArr, arr.SRec, type, types.ModuleType, Frame, Run, GenSeq)) or hasattr(x, 'vc_static') or isz(x): continue
        elif hasattr(x, '__dict__') and type(x).__module__.startswith(('flowtracks', 'vcmodel')): kids = list(x.__dict__.values()); c = dict(x.__dict__)
        else: continue
        seen[id(x)] = (x, c)
        st.extend(kids)
    return seen
def same_val(a, b):
    if a is b: return True
    if isinstance(a, SVal) and type(a) == type(b): return a.e.eq(b.e)
    if isinstance(a, (int, float, str, bool)) and type(a) == type(b): return a == b
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType): return a.__self__ is b.__self__ and a.__func__ is b.__func__
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same_val(x, y) for x, y in zip(a, b))
    return False
def heap_changed(h):
    for x, c in h.values():
        if isinstance(x, list):
            if len(x) != len(c) or not all(same_val(p, q) for p, q in zip(x, c)): return True
        elif isinstance(x, set):
            if list(x) != c: return True
        else:
            d = x if isinstance(x, dict) else x.__dict__
            if isinstance(x, SDict): d = dict(dict.items(x))
            if d.keys() != c.keys() or not all(same_val(d[k], c[k]) for k in c): return True
    return False

def vc_iter(it, meta):
    if isinstance(it, types.GeneratorType): raise Unsupported('native generator')
    if not is_sym(it):
        if hasattr(it, 'vc_seq'): it = it.vc_seq()
        yield from iter(it)
        return
    gen, p0 = None, 0
    if isinstance(it, GenSeq): gen, p0 = it, it.pos
    seq = as_seq(it)
    r = run(); r.alive()
    if r.engine.flags.get('dict') == 'invariants': 
        import invm
        def loop_inv(): return invm.Loop(r, seq)
        mkinv = loop_inv
    else: mkinv = lambda: None
    caller = sys._getframe(1)
    n = seq.n
    lo = 0
    for stage in range(MAXSTAGES + 1):
        if r.pos < len(r.dec):
            d = r.dec[r.pos]; r.pos += 1
            if isinstance(d, bool): raise Unsupported('non-deterministic re-execution')
        else:
            if stage == MAXSTAGES: raise Unsupported('a loop-carried value (needs an invariant)%s' % where(caller))
            ns = NeedSummary(); ns.prefix = list(r.taken); ns.where = where(caller)
            r.dead = True; r.need = ns
            raise ns
        base = r.digest()
        if d[0] == 'enter':
            i = z3.Int('i!%s' % r.digest())
            if mkinv.__name__ == 'loop_inv': mkinv().first(lo)
            r._take(d)
            fr = Frame(i, lo, n, r, caller, meta)
            r.add(within_lo(i, lo, n))
            fr.fact0 = len(r.facts)
            r.frames.append(fr)
            loc0 = dict(caller.f_locals)
            heap0 = heap_of(list(loc0.values()))
            H = d[1] or ()
            recs = [Rec(r, h, base, loc0, caller, lo, True) for h in H]
            for c in recs: c.enter(i, meta)
            inv = mkinv()
            if inv: inv.put(i)
            fr.recpost, fr.recneed, fr.other = {}, set(), False
            have = {c.nm for c in recs if c.what == 'L'}
            try:
                yield seq.get(i)
            except GeneratorExit:
                fr.escaped = True
                raise
            # the end of the arbitrary iteration
            if r.dead: raise StopPath()
            if inv: inv.check(dadd(i, 1), 'after each iteration', True)
            loc1 = caller.f_locals
            changed = None
            if meta is not None:
                for nm in meta['carried']:
                    a, b = loc0.get(nm, UNBOUND), loc1.get(nm, UNBOUND)
                    if nm in have: continue
                    if not same_val(a, b):
                        changed = nm
                        if r.engine.flags.get('rec'):
                            kd = local_kind(a, b)
                            if kd: fr.recneed.add('L:%s:%s' % (nm, kd))
                            else: fr.other = True
            for c in recs: c.leave(fr, loc1)
            if heap_changed(heap0): changed = changed or 'object state'; fr.other = True
            if r.engine.flags.get('rec'): store_needs(r, fr)
            r.dead = True
            e = BodyEnd(); e.changed = changed; e.frame = fr
            r.ended = e
            raise e
        summ = d[1]
        r._take(d)
        recs = [Rec(r, h, base, dict(caller.f_locals), caller, lo) for h in getattr(summ, 'H', ())]
        inv = mkinv()
        if inv: inv.check(lo, 'before the first iteration')
        if d[0] == 'sum':
            if inv and inv.inv is not None:
                r.safety(zcmp('<=', lo, n), 'a loop of not less than no iterations'); inv.put(n)
            for c in recs: c.before(summ, n)
            apply_summary(r, summ, lo, n)
            for c in recs: c.after(meta)
            if meta is not None: r.notes[('post', id(caller), meta['id'])] = True
            if gen is not None: gen.pos, gen.busy = dadd(p0, n), False
            return
        if d[0] == 'one':
            i = r.const('it', I)
            r.add(within_lo(i, lo, n))
            for c in recs: c.before(summ, i)
            apply_summary(r, summ, lo, i)
            for c in recs: c.after(meta, True)
            r.notes.setdefault('ones', []).append((i, lo, n))
            if inv: inv.put(i)
            if meta is not None: r.notes[('post', id(caller), meta['id'])] = True
            loc0 = dict(caller.f_locals)
            for c in recs:
                if c.what == 'L': loc0[c.nm] = r.notes['in', id(caller), meta['id'], c.nm]
            heap0 = heap_of(list(loc0.values()))
            if gen is not None: gen.pos, gen.busy = dadd(dadd(p0, i), 1), False
            yield seq.get(i)
            if gen is not None and d[2] == 'change': gen.busy = True
            if d[2] != 'change': raise StopPath('not an escaping path')
            if r.dead: raise StopPath()
            loc1 = caller.f_locals
            if not heap_changed(heap0) and all(same_val(loc0.get(x, UNBOUND), loc1.get(x, UNBOUND)) for x in (meta['carried'] if meta else ())):
                raise StopPath('not a changing path')
            lo = dadd(i, 1)
            continue
        raise Unsupported('decision %r' % (d,))
UNBOUND = object()
# ------------------------------------------------------------------ recurrences
# A location which iterations read and write (a local variable, an array's contents, the length of a
# list) has before iteration i the value V(i), a function not known; of it is known that V(lo) is
# the value before the loop and how V(i + 1) is made of V(i) (given where asked for: Rec.step).
KINDS = 'bidfF'
def val_kind(v):
    if isinstance(v, SBool) or isinstance(v, bool): return 'b'
    if isinstance(v, SInt) or isinstance(v, int): return 'i'
    if isinstance(v, float): return 'F' if v in (float('inf'), -float('inf')) else 'f'
    if isinstance(v, SReal): return 'F' if v.pinf is not False or v.ninf is not False else 'f'
    if isinstance(v, SVal) and hasattr(v, 'e') and str(v.e.sort()) == str(DATA): return 'd'
    return None
def join_kind(a, b):
    if a is None or b is None: return None
    if a == b: return a
    if {a, b} <= set('ifF'): return 'F' if 'F' in (a, b) else 'f'
    return None
def sample(n): return [z3.Int('smp%d' % k) for k in range(n)]
def arr_kind(a): return val_kind(a.at(*sample(len(a.dims))))
def local_kind(a, b):
    if a is UNBOUND or b is UNBOUND: return None
    a, b = nat(a), nat(b)
    if isinstance(a, arr.SArr) and isinstance(b, arr.SArr):
        if len(a.dims) != len(b.dims) or any(deq(x, y) is not True for x, y in zip(a.dims, b.dims)) or a.store is b.store: return None
        k = join_kind(arr_kind(a), arr_kind(b))
        return k
    return join_kind(val_kind(a), val_kind(b))
def joinH(H, need):
    out = {}
    for h in list(H) + sorted(need):
        w, nm, k = h.split(':')
        old = out.get((w, nm))
        k2 = k if old is None else join_kind(old, k)
        if k2 is None: raise Unsupported('a value of several kinds is passed on by a loop: ' + nm)
        out[w, nm] = k2
    return tuple(sorted('%s:%s:%s' % (w, nm, k) for (w, nm), k in out.items()))
def store_needs(r, fr):
    "the kinds of what this iteration changes"
    fr.wkinds = {}
    for oid, o in list(r.objs.items()):
        if oid > fr.oid0 or not o.take_effect(fr): continue
        if isinstance(o, arr.Store): fr.wkinds[oid] = val_kind(o.snapshot()(sample(len(o.shape))))
        elif isinstance(o, SList): fr.wkinds[oid] = 'list'
def needs(S):
    "what a loop's iterations pass on"
    bs = [b for b in S.bodies if b.kind == 'end' or not b.other]
    out = set().union(*[b.recneed for b in bs]) if bs else set()
    for oid in S.carried:
        ks = [b.wkinds[oid] for b in bs if oid in b.wkinds]
        if 'list' in ks:
            if S.readset[oid] == {'len'}: out.add('N:%d:i' % oid)
            continue
        if not ks or None in ks: continue
        for k in ks: out.add('S:%d:%s' % (oid, k))
    return out
class Rec:
    def __init__(s, r, h, base, loc, caller, lo, inside=False):
        s.r, s.h, s.caller, s.lo = r, h, caller, lo
        s.what, s.nm, s.kind = h.split(':')
        s.encl = list(r.idxs()[:-1]) if inside else list(r.idxs())
        if s.what == 'L':
            v = nat(loc.get(s.nm, UNBOUND))
            s.isarr = isinstance(v, arr.SArr)
            if s.isarr:
                s.dims, s.dt = v.dims, v.dtype
                if s.dt.kind == 'i' and s.kind in 'fF': s.dt = arr.dtype('f')
                g = v.reader(); s.init = lambda *ix: g(*ix)
            else: s.dims = (); s.init = lambda: v
        elif s.what == 'S':
            s.store = r.objs[int(s.nm)]
            r.note_read(int(s.nm), obj=s.store)
            s.dims = tuple(s.store.shape); g = s.store.snapshot(); s.init = lambda *ix: g(ix)
            s.kinit = join_kind(val_kind(g(sample(len(s.dims)))), s.kind)
        else:
            s.lst = r.objs[int(s.nm)]; s.dims = (); v = s.lst.vc_len(); s.init = lambda: v
        nm = 'rec!%s!%s' % (base, s.h.replace(':', '_'))
        srt = {'b': B, 'i': I, 'f': R, 'F': R, 'd': DATA}[s.kind]
        sg = [I]*(len(s.encl) + 1 + len(s.dims))
        s.f = z3.Function(nm, *(sg + [srt]))
        if s.kind == 'F': s.fp, s.fn = z3.Function(nm + '+', *(sg + [B])), z3.Function(nm + '-', *(sg + [B]))
        s.name = nm
    def V(s, i, *ix, out=None):
        a = list(s.encl if out is None else out) + [lift(i)] + [lift(x) for x in ix]
        if s.kind == 'F': return mkreal(s.f(*a), s.fp(*a), s.fn(*a))
        return wrap(s.f(*a))
    def put(s, i):
        if s.what == 'L':
            if s.isarr: return arr.SArr(s.dims, lambda *ix: s.V(i, *ix), s.dt)
            return s.V(i)
    def enter(s, i, meta):
        s.idx = i
        if s.what == 'L': s.r.notes[('in', id(s.caller), meta['id'], s.nm)] = s.put(i)
        elif s.what == 'S':
            st = s.store
            st._fn = lambda *ix: s.V(i, *ix); st.memo = {}; st.version += 1
        else: s.lst.hv = (lift(ie(s.V(i))), s.lst.n)
    def leave(s, fr, loc1):
        if s.what == 'L':
            v = nat(loc1.get(s.nm, UNBOUND))
            k = local_kind(s.put(s.idx), v)
            if k is None: raise Unsupported('a variable which a loop passes on: ' + s.nm)
            if k != s.kind: fr.recneed.add('L:%s:%s' % (s.nm, k))
            if s.isarr: g = v.reader(); fr.recpost[s.h] = lambda *ix: g(*ix)
            else: fr.recpost[s.h] = lambda: v
        elif s.what == 'S': 
            g = s.store.snapshot(); fr.recpost[s.h] = lambda *ix: g(ix)
            k = join_kind(val_kind(g(sample(len(s.dims)))), s.kinit)
            if k is None: raise Unsupported('contents which a loop passes on')
            if k != s.kind: fr.recneed.add('S:%s:%s' % (s.nm, k))
        else: v = s.lst.vc_len(); fr.recpost[s.h] = lambda: v
    def same(s, v, i, ix, out=None):
        "V(i, ix) is the value v"
        x = s.V(i, *ix, out=out)
        if s.kind == 'F':
            e, p, n = real3(v); e2, p2, n2 = real3(x)
            return zand(zb(zeq(p, p2)), zb(zeq(n, n2)), zb(zimp(zand(znot(p), znot(n)), e == e2)))
        if s.kind == 'f': return zb(re_(v) == x.e)
        if s.kind == 'b': return zb(tobool(v)) == x.e
        return zb(lift(v.e if isinstance(v, SVal) else v) == x.e)
    def inr(s, ix): return zand(*[within(x, d) for x, d in zip(ix, s.dims)])
    def gen(s, i, val, cond, out=None):
        ix = [run().bound('x') for _ in s.dims]
        body = zimp(zand(cond, s.inr(ix)), s.same(val(*ix), i, ix, out))
        if not ix: return zb(body)
        a = list(s.encl if out is None else out) + [lift(i)] + ix
        return FA(ix, body, [s.f(*a)])
    def before(s, summ, hi):
        s.summ = summ; s.hi = hi
        s.r.engine.flags.setdefault('recs', {})[s.name] = s
        if s.what == 'N': s.lst.offs = None
        s.r.assume(s.gen(s.lo, s.init, True))
    def last(s):
        if s.r.engine.quick(s.r, zb(zcmp('>=', s.hi, s.lo))): return lift(s.hi)
        return z3.If(lift(s.hi) > lift(s.lo), lift(s.hi), lift(s.lo))
    def after(s, meta, one=False):
        t = s.end = s.last()
        if s.what == 'L': s.r.notes[('in' if one else 'out', id(s.caller), meta['id'], s.nm)] = s.put(t)
        elif s.what == 'S': s.store.write(lambda *ix: True, lambda *ix: s.V(t, *ix))
        else:
            k = s.r.bound('k'); n0 = lift(ie(s.init()))
            s.r.assume(ie(s.V(t)) == ie(s.lst.vc_len()))
            if getattr(s.lst, 'offs', None): s.r.assume(FA(k, zimp(zand(lift(s.lo) <= k, k <= t), ie(s.V(k)) == n0 + s.lst.offs[0](k)), [ie(s.V(k)), s.lst.offs[0](k)]))
            else:
                c = {len(b.effects.get(int(s.nm), (0, ()))[1]) for b in s.summ.ends}
                if len(c) == 1: s.r.assume(FA(k, zimp(zand(lift(s.lo) <= k, k <= t), ie(s.V(k)) == n0 + c.pop()*(k - lift(s.lo))), [ie(s.V(k))]))
        s.r.notes.setdefault('recs', []).append(s)
    def step(s, i, out=()):
        "V(i + 1) of V(i)"
        r = run(); i = lift(ie(i)); out = [lift(ie(x)) for x in out]
        sub = [(s.summ.idx, i)] + list(zip(s.encl, out))
        cond = zand(lift(s.lo) <= i, i < lift(s.hi))
        cond = substz(zb(cond), sub)
        for b in s.summ.ends:
            post = b.recpost[s.h]
            ix = [r.bound('x') for _ in s.dims]
            v = subst(post(*ix), sub)
            body = zimp(zand(cond, substz(zb(b.pc), sub), substz(zb(s.inr(ix)), sub)), s.same(v, i + 1, ix, out or None))
            if not ix: r.assume(zb(body)); continue
            a = list(out or s.encl); 
            r.assume(FA(ix, body, [s.f(*(a + [i + 1] + ix)), s.f(*(a + [i] + ix))]))
def vc_in(mid, name, cur):
    r = CUR.run
    if r is None: return cur
    return r.notes.pop(('in', id(sys._getframe(1)), mid, name), cur)
def vc_outv(mid, name, cur):
    r = CUR.run
    if r is None: return cur
    return r.notes.pop(('out', id(sys._getframe(1)), mid, name), cur)
def vc_esc(mid):
    "an exception leaves a loop"
    r = CUR.run; fr = sys._getframe(1)
    if r is not None:
        for f in r.frames:
            if f.caller is fr and f.meta is not None and f.meta['id'] == mid:
                f.escaped = True
                raise StopPath('escaped')
def where(fr): return ' at %s:%d' % (fr.f_code.co_name, fr.f_lineno)

def apply_summary(r, summ, lo, hi):
    i = summ.idx
    if i is None:
        # no iteration can complete
        r.add(zb(zcmp('>=', lo, hi)))
        return
    inr = within_lo(i, lo, hi)
    for guard, f in summ.facts_at(lo, hi, r):
        body = zimp(zand(inr, *guard), f)
        r.assume(univ(i, body, f))
    fams = {}
    for b in summ.ends:
        for c, e, j, ixs in b.fams:
            fams.setdefault(tuple([c.cnt.decl().name()] + [zb(x[3]).get_id() for x in ixs]), (c, e, j, ixs, []))[4].append(b.pc)
    for c, e, j, ixs, pcs in fams.values():
        pc = True if len(pcs) == len(summ.ends) and len({id(b) for b in summ.ends}) == len(pcs) else zor(*pcs)
        r.families.append((c, e, j, ixs + [(i, lo, hi, pc)]))
    # every iteration takes one of the paths (the others are those that do not come to its end)
    cov = zimp(inr, zor(*[b.pc for b in summ.ends]))
    r.notes.setdefault('paths', []).append(lambda t: substz(zb(cov), [(i, t)]))
    if summ.others:
        if not summ.ends: r.add(zb(zcmp('>=', lo, hi)))
        else: r.assume(univ(i, cov, None))
    for oid, ws in summ.readset.items():
        for w in ws: r.note_read(oid, w)
    if summ.carried:
        raise Unsupported('a loop that reads what it writes (%s)' % ', '.join(type(r.objs[o]).__name__ for o in summ.carried if o in r.objs))
    oids = sorted({o for b in summ.ends for o in b.effects} - {int(h.split(':')[1]) for h in getattr(summ, 'H', ()) if h[0] == 'S'})
    for o in oids:
        r.objs[o].apply_summary(summ, lo, hi)
def univ(i, body, f):
    "ForAll i. body, with the index among the arguments of triggers"
    body = zb(body)
    if i.decl().name() not in consts_of(body): return body
    pats = None
    if f is not None and z3.is_quantifier(f) and f.is_forall():
        # pull the inner quantifier out: one prefix, combined triggers
        nv = f.num_vars()
        r = run()
        vs = [z3.Const('%s_u' % r.fname(f.var_name(k)), f.var_sort(k)) for k in range(nv)]
        inner = z3.substitute_vars(f.body(), *reversed(vs))
        # rebuild implication around inner
        guard = []
        b = body
        if z3.is_implies(b) and b.arg(1).eq(f): body2 = z3.Implies(b.arg(0), inner)
        elif b.eq(f): body2 = inner
        else: body2 = None
        if body2 is not None:
            pats = []
            for k in range(f.num_patterns()):
                p = f.pattern(k)
                ts = [z3.substitute_vars(c, *reversed(vs)) for c in p.children()]
                cs = set()
                for t in ts: cs |= consts_of(t)
                if i.decl().name() in cs: pats.append(tuple(ts))
            return FA([i] + vs, body2, pats or None)
    if f is not None: pats = arr.good_pats(f, i)
    return FA(i, body, pats or None)

def vc_post(mid, names, loc):
    fr = sys._getframe(1)
    r = CUR.run
    if r is None or not r.notes.pop(('post', id(fr), mid), None): return None
    return {nm: Poison(nm) for nm in names}
