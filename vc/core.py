"""Symbolic execution of the real (mechanically transformed) Python code, and
generation of verification conditions.

Code under contract is executed natively by CPython on symbolic values. A branch
on a symbolic condition forks the execution (by deterministic re-execution with
a list of decisions). A loop over a sequence of symbolic length is executed once
for an arbitrary iteration, and is then replaced by a summary valid for all
iterations (see loops in this file). Nothing is unrolled up to a bound.
"""
import hashlib, sys, time, types, itertools
import z3

# ------------------------------------------------------------------ signals
class Signal(BaseException): pass
class StopPath(Signal): pass            # this path ends here (infeasible or finished)
class BodyEnd(Signal): pass             # end of the arbitrary iteration
class NeedSummary(Signal): pass
class Unsupported(Signal):              # outside the subset of the engine
    pass

class Stats: pass

# ------------------------------------------------------------------ z3 helpers
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def isz(x): return isinstance(x, z3.ExprRef)
def zand(*a):
    out = []
    for x in a:
        if x is True or (isz(x) and z3.is_true(x)): continue
        if x is False or (isz(x) and z3.is_false(x)): return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def zor(*a):
    out = []
    for x in a:
        if x is False or (isz(x) and z3.is_false(x)): continue
        if x is True or (isz(x) and z3.is_true(x)): return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def znot(x):
    if x is True: return False
    if x is False: return True
    return z3.Not(x)
def zimp(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(zb(a), zb(b))
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zite(c, a, b):
    "ite on raw terms (python numbers or z3)"
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return c if (a and not b) else (znot(c) if (b and not a) else a)
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    if not isz(a): a = lift(a, b)
    if not isz(b): b = lift(b, a)
    if a.sort() != b.sort():
        if a.sort() == I: a = z3.ToReal(a)
        if b.sort() == I: b = z3.ToReal(b)
    return z3.If(c, a, b)
def lift(x, like=None):
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    s = like.sort() if isz(like) else None
    if isinstance(x, int): return z3.RealVal(x) if s == R else z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('infinite constant in a finite context')
        return z3.RealVal(repr(x)) if x != int(x) else z3.RealVal(int(x))
    raise Unsupported('constant %r' % (x,))
def zeq(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    if not isz(a): a = lift(a, b)
    if not isz(b): b = lift(b, a)
    return a == b
def simp(e):
    if not isz(e): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def dimsimp(e):
    "an index or dimension: python int when constant"
    if not isz(e): return int(e)
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return e
def FA(vs, body, pats=None):
    if body is True: return z3.BoolVal(True)
    body = zb(body)
    if not isinstance(vs, (list, tuple)): vs = [vs]
    if pats:
        pats = [p for p in pats if p is not None]
        good = []
        for p in pats:
            ps = list(p) if isinstance(p, (tuple, list)) else [p]
            ok = all(isz(q) and z3.is_app(q) and q.num_args() > 0 for q in ps)
            names = set()
            if ok:
                for q in ps: names |= consts_of(q)
                ok = all(v.decl().name() in names for v in vs) and all(patok(q) for q in ps)
            if ok: good.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        if good: return z3.ForAll(vs, body, patterns=good)
    return z3.ForAll(vs, body)
_BADK = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TO_REAL}
def patok(q):
    "patterns: an uninterpreted application (arguments without logical operators)"
    if z3.is_var(q) or z3.is_quantifier(q): return not z3.is_quantifier(q)
    if q.decl().kind() in _BADK: return False
    return all(patok(c) for c in q.children())
_DECLS = {}
def decls_of(e):
    "the names of the functions in a term"
    k = e.get_id()
    if k not in _DECLS:
        names, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.num_args(): names.add(x.decl().name())
                st += x.children()
        _DECLS[k] = (e, names)
    return _DECLS[k][1]
def is_order(f):
    "a fact on all pairs of applications of one function: that it is strictly increasing, or the like"
    if f.num_patterns() != 1: return False
    p = f.pattern(0).children()
    return len(p) == 2 and p[0].num_args() > 0 and p[0].decl().eq(p[1].decl())
def consts_of(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
        st.extend(x.children())
    return acc

# ------------------------------------------------------------------ the current run
class _Cur: run = None; globals = ()
CUR = _Cur()
def run():
    if CUR.run is None: raise RuntimeError('no symbolic run')
    return CUR.run

class Frame:
    "an arbitrary iteration of a loop being executed"
    def __init__(s, idx, lo, n, r, caller, meta):
        s.idx, s.lo, s.n = idx, lo, n
        s.fam0 = len(r.families); s.fact0 = len(r.facts); s.oid0 = r.oid; s.caller = caller; s.meta = meta
        s.reads = {}; s.escaped = False
        s.dec0 = len(r.taken)

class Run:
    def __init__(s, engine, prefix):
        s.engine = engine
        s.dec = list(prefix); s.pos = 0; s.taken = []
        s.solver = engine.new_solver(); s.nonlin = False; s.axioms = []
        import nla
        for f in nla.AX: s.solver.add(f)
        s.dropped = frozenset(); s.lastwr = {}
        s.facts = []       # (kind, formula): kind 'branch' or 'fact'
        s.oid = 0; s.objs = {}
        s.nfresh = 0
        s.frames = []      # active arbitrary iterations
        s.dead = False; s.need = s.ended = None
        s.perms = []; s.comps = []; s.families = []; s.scopevars = []
        s.notes = {}
        s.cover = False
        s.scopes = frozenset(); s.nscope = 0
        s.hdig = hashlib.sha1()
        s.kb = []
    # -- decisions
    def digest(s):
        return s.hdig.hexdigest()[:6]
    def _take(s, d):
        s.taken.append(d)
        s.hdig.update((repr(d) if isinstance(d, bool) else d[0] + str(d[1])).encode())
        s.nfresh = 0
    def replaying(s): return s.pos < len(s.dec)
    def alive(s):
        if s.dead: raise StopPath()
        if any(f.escaped for f in s.frames): raise StopPath('escaped')
    def fork(s, cond):
        s.alive()
        cond = simp(cond)
        if isinstance(cond, bool): return cond
        if s.pos < len(s.dec):
            d = s.dec[s.pos]; s.pos += 1
            if not isinstance(d, bool): raise Unsupported('non-deterministic re-execution')
        else:
            t = s.feasible(cond); f = s.feasible(z3.Not(cond)) if t else True
            if t and f:
                d = True
                s.engine.push(s.taken + [False])
            elif t: d = True
            else:
                d = False
                if not s.feasible(z3.Not(cond)): raise StopPath('infeasible')
            if len(s.taken) > s.engine.max_dec: raise Unsupported('too many decisions (an unbounded loop without an invariant?)')
        s._take(d)
        s.add(cond if d else z3.Not(cond), 'branch')
        return d
    def feasible(s, cond):
        return not s.engine.quick(s, z3.Not(cond))
    # -- facts
    def add(s, f, kind='fact'):
        f = zb(f)
        if z3.is_true(f): return
        s.facts.append((kind, f))
        s.sadd(f)
    def sadd(s, f):
        "the solver of path questions sees the facts with products abstracted"
        import nla
        g, c = nla.ab(f)
        s.nonlin = s.nonlin or c
        s.solver.add(g)
    def known(s):
        "the facts, but for general ones on the symbols which are left out"
        if not s.dropped: return [f for k, f in s.facts]
        return [f for k, f in s.facts if not (z3.is_quantifier(f) and (s.dropped & decls_of(f) or 'orders' in s.dropped and is_order(f) or 'writes' in s.dropped and f.get_id() in s.lastwr))]
    def pure(s, name, g, facts=()): s.engine.pure(s, name, g, facts)
    def axiom(s, f):
        "a fact of all the run, whatever the scope"
        s.facts.insert(0, ('fact', f)); s.sadd(f)
        s.axioms.append(f)
        for fr in s.frames: fr.fact0 += 1
    def assume(s, f): s.add(f, 'fact')
    # -- fresh symbols: functions of the enclosing arbitrary iterations
    def fname(s, base):
        s.nfresh += 1
        return '%s!%s%d' % (base, s.digest(), s.nfresh)
    def idxs(s): return [f.idx for f in s.frames]
    def const(s, base, sort):
        ix = s.idxs(); nm = s.fname(base)
        if not ix: return z3.Const(nm, sort)
        return z3.Function(nm, *([I]*len(ix) + [sort]))(*ix)
    def func(s, base, *sorts):
        "a fresh function: callable of z3 terms"
        ix = s.idxs(); nm = s.fname(base)
        f = z3.Function(nm, *([I]*len(ix) + list(sorts)))
        def call(*a):
            return f(*(ix + [lift(x) for x in a]))
        call.decl = f; call.ix = ix
        return call
    def bound(s, base='q'):
        s.nfresh += 1
        return z3.Int('%s_%s%d' % (base, s.digest(), s.nfresh))
    def newid(s, obj):
        s.oid += 1
        s.objs[s.oid] = obj
        return s.oid
    def note_read(s, oid, what='all', obj=None):
        # (a value computed in the exploration of a loop's body has objects of that run)
        if obj is not None and s.objs.get(oid) is not obj: return
        for f in s.frames:
            if 0 < oid <= f.oid0: f.reads.setdefault(oid, set()).add(what)
    # -- obligations
    def prove(s, name, goal, kind='post', fatal=False):
        s.alive()
        goal = simp(goal) if not isinstance(goal, bool) else goal
        s.engine.obligation(s, name, goal, kind)
    def safety(s, cond, what):
        cond = simp(cond)
        if cond is True: return
        s.alive()
        s.engine.obligation(s, what, cond, 'safety')
        s.add(zb(cond))
    # -- scopes (universally quantified goals)
    def forall(s, n=None, name='j', lo=0):
        return Scope(s, n, name, lo)
    def scope(s, *conds):
        return Scope(s, None, None, 0, conds)

class Scope:
    """with run.forall(n) as j: goals proved inside hold for every 0 <= j < n.
    Facts added inside are dropped at the end."""
    def __init__(s, r, n, name, lo, conds=()):
        s.r, s.n, s.name, s.lo, s.conds = r, n, name, lo, conds
    def __enter__(s):
        r = s.r
        r.alive()
        r.solver.push(); s.nf = len(r.facts); s.na = len(r.axioms); r.nscope += 1
        s.old = r.scopes; r.scopes = r.scopes | {r.nscope}
        j = None
        if s.name is not None:
            j = r.const(s.name, I)
            r.add(j >= s.lo); r.scopevars.append(j); s.pushed = True
            if s.n is not None: r.add(j < s.n)
        for c in s.conds: r.add(getattr(c, 'e', c))
        return j
    def __exit__(s, et, ev, tb):
        r = s.r
        r.solver.pop(); del r.facts[s.nf + len(r.axioms) - s.na:]; r.scopes = s.old
        for f in r.axioms[s.na:]: r.sadd(f)
        if s.name is not None: r.scopevars.pop()
        return False

# ------------------------------------------------------------------ loops
class Body:
    "outcome of one path of the arbitrary iteration"
    def __init__(s, kind, r, frame):
        s.kind = kind               # 'end' or 'escape' or 'change'
        s.decs = r.taken[frame.dec0:]
        s.idx = frame.idx
        s.facts = r.facts[frame.fact0:]
        s.pc = zand(*[f for k, f in s.facts if k == 'branch'])
        s.reads = {k: set(v) for k, v in frame.reads.items()}
        # selections made in this iteration, with the conditions on the path so far
        s.fams = []
        if kind != 'escape':
            for c, key, e, j, fr, sc in r.comps:
                if frame in fr and sc <= r.scopes and not getattr(c, 'view', False): s.fams.append((c, e, j, []))
            s.fams += r.families[frame.fam0:]
        s.recpost = getattr(frame, 'recpost', {}); s.recneed = getattr(frame, 'recneed', set()); s.wkinds = getattr(frame, 'wkinds', {}); s.other = kind == 'escape' or getattr(frame, 'other', True)
        s.effects = {}              # oid -> effect (see take_effect of tracked objects)
        if kind != 'escape':
            for oid, o in list(r.objs.items()):
                if oid <= frame.oid0:
                    ef = o.take_effect(frame)
                    if ef: s.effects[oid] = ef
        s.locals = None

class Summary:
    n = 0
    def __init__(s, bodies, engine, prefix):
        Summary.n += 1
        h = hashlib.sha1()
        for d in prefix: h.update((repr(d) if isinstance(d, bool) else d[0] + str(d[1])).encode())
        s.uid = h.hexdigest()[:8]
        s.bodies = bodies
        s.ends = [b for b in bodies if b.kind == 'end']
        s.others = [b for b in bodies if b.kind != 'end']
        s.idx = bodies[0].idx if bodies else None
        reads, writes = {}, {}
        for b in bodies:
            for k, v in b.reads.items(): reads.setdefault(k, set()).update(v)
            if b.kind != 'end': continue        # of the stage that such an iteration ends
            for oid, ef in b.effects.items(): writes.setdefault(oid, []).append(ef)
        s.carried = set()
        s.readset = reads
        for oid in writes:
            if oid in reads: s.carried.add(oid)
    def __str__(s): return s.uid

    def facts_at(s, t_from, t_to, r):
        """Universal facts of iterations t_from <= i < t_to: those of each path under
        the conditions that led to them, and that each iteration took one of the paths that
        reach the end of the body."""
        out = []
        seen = set()
        i = s.idx
        for b in s.ends:
            guard = []
            for k, f in b.facts:
                key = (tuple(g.get_id() for g in guard), f.get_id(), k)
                if k == 'branch': guard.append(f); continue
                if key in seen: continue
                seen.add(key)
                out.append((list(guard), f))
        return out

def substz(e, pairs):
    if not isz(e): return e
    return z3.substitute(e, *pairs) if pairs else e
