"""The entries of a dictionary under symbolic whole-number keys, of numbers or small arrays: which keys
are there, and their values, are contents of two stores, as those of arrays (so loops that add,
change and look up entries are loops on arrays). Keys are at least 0 (a proof obligation)."""
from core import *
from vals import *
import arr, coll
WIDTH = 4
def limit(): return z3.Int('keys!limit')
class Given(coll.SList):
    "a list that has become an entry of a dictionary"
    def __getattribute__(s, k):
        if k.startswith('__'): return object.__getattribute__(s, k)
        raise Unsupported('a list that is also in a dictionary')
    def _no(s, *a, **k): raise Unsupported('a list that is also in a dictionary')
    __getitem__ = __setitem__ = __len__ = __iter__ = __add__ = __iadd__ = __mul__ = __contains__ = __eq__ = __ne__ = _no
    __hash__ = None
class ListView:
    "an entry that is a list, of a fixed length"
    vc_static = True
    def __init__(s, row): s.__dict__['row'] = row
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported('list.%s of an entry of a dictionary' % k)
    def ix(s, k):
        k = nat(k)
        if isinstance(k, (SVal, slice)): raise Unsupported('a part of an entry of a dictionary')
        if not -len(s) <= k < len(s): raise IndexError('list index out of range')
        return k % len(s)
    def __getitem__(s, k): return s.row[s.ix(k)]
    def __setitem__(s, k, v):
        v = nat(v)
        if not isinstance(v, (int, SInt)) or isinstance(v, bool): raise Unsupported('such values in an entry of a dictionary')
        s.row[s.ix(k)] = v
    def __len__(s): return s.row.dims[0]
    def vc_len(s): return s.row.dims[0]
    def __iter__(s): return iter([s.row[c] for c in range(len(s))])
class Map:
    vc_static = True
    def __init__(s):
        K = limit()
        s.there = arr.SArr((K,), lambda k: False, 'bool')
        s.vals = arr.SArr((K, WIDTH), lambda k, c: 0, 'int64')
        s.used = False
    def shape(s, sh=None):
        m = run().engine.__dict__.setdefault('mapshapes', {}); o = s.there.store.oid
        if sh is not None and m.setdefault(o, sh) != sh: raise Unsupported('a dictionary with values of several shapes')
        return m.get(o)
    def key(s, k):
        if not isinstance(nat(k), SInt): raise Unsupported('a dictionary with keys of several kinds')
        run().safety(zand(ie(k) >= 0, ie(k) < limit()), 'a key within the range of keys')
        return lift(ie(k))
    def has(s, k): return s.there.at(s.key(k))
    def view(s, k):
        sh = s.shape()
        if sh is None: raise Unsupported('a value of a dictionary without any')
        if sh == (): return s.vals.at(k, 0)
        if len(sh) == 2:
            row = s.vals[mkint(k)][:sh[1]]
            return ListView(row) if sh[0] == 'list' else tuple(row[c] for c in range(sh[1]))
        return s.vals[mkint(k)][:sh[0]]
    def get(s, k):
        z = s.key(k)
        if not s.there.at(z): raise KeyError(k)
        return s.view(z)
    def set(s, k, v):
        z = s.key(k); v = nat(v); r = run()
        known = zb(tobool(s.has(k))); known = r.engine.quick(r, known)
        if isinstance(v, arr.SArr):
            if len(v.dims) != 1 or isz(v.dims[0]) or v.dims[0] > WIDTH or v.dtype.kind != 'i': raise Unsupported('an array in a dictionary')
            s.shape((v.dims[0],)); src = v.copy()
            v.store.sealed = True           # it is the entry's from here on
            for c in range(v.dims[0]): s.vals[mkint(z), c] = src.at(c)
        elif isinstance(v, (tuple, coll.SList)):
            if isinstance(v, coll.SList) and v.sym(): raise Unsupported('a list in a dictionary')
            items = [nat(x) for x in v]; own = isinstance(v, coll.SList)
            if not 1 <= len(items) <= WIDTH or not all(isinstance(x, (int, SInt)) and not isinstance(x, bool) for x in items): raise Unsupported('a dictionary with symbolic keys and such values')
            s.shape(('list' if own else 'tuple', len(items)))
            for c, x in enumerate(items):
                if known is True and isz(z) and arr.deq(ie(x), ie(s.vals.at(z, c))) is True: continue      # as it was
                s.vals[mkint(z), c] = x
            if own: v.__class__ = Given     # it is the entry's from here on
        elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
            s.shape(()); s.vals[mkint(z), 0] = v
        else: raise Unsupported('a dictionary with symbolic keys and such values')
        if known is not True: s.there[mkint(z)] = True
    def keys(s):
        "the keys, in some order: each once (number, key of number)"
        r = run(); K = limit()
        memo = s.__dict__.setdefault('memo', {}); ver = s.there.store.version
        if (id(r), ver) in memo: return memo[id(r), ver]
        there = s.there.store.snapshot()
        n = r.const('nkeys', I); key, pos = r.func('key', I, I), r.func('key_pos', I, I)
        r.assume(n >= 0)
        j, k = r.bound('j'), r.bound('k')
        tz = lambda x: zb(tobool(there((x,))))
        r.assume(FA(j, zimp(zand(0 <= j, j < n), zand(0 <= key(j), key(j) < K, tz(key(j)), pos(key(j)) == j)), [key(j)]))
        pats = arr.good_pats(tz(k), k)
        r.assume(FA(k, zimp(zand(0 <= k, k < K, tz(k)), zand(0 <= pos(k), pos(k) < n, key(pos(k)) == k)), [pos(k)]))
        r.notes.setdefault('keys', []).append((n, key, pos, s))
        memo[id(r), ver] = (n, key)
        return n, key
