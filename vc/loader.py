"""Mechanical transformation and loading of the code under contract. The source is
read from the repository on every run. What the transformation does:
- `for` iterates over __vc_iter__(iterable): the loop rule, when its length is symbolic;
- comprehensions and generator expressions become local functions with such loops;
- a generator function becomes a function that returns the sequence of its yields;
- list and dict displays make engine lists and dictionaries; `%` on strings and
  f-strings accept symbolic values;
- a bare `except:` catches Exception;
- imports give the models of numpy, scipy, tables, configparser, os, re, ...;
- built-in functions accept symbolic values, and zip(*x) any number of items x.
Nothing else is changed, and nothing is dropped."""
import ast, builtins, os, sys, types
from core import *
from vals import *
import core, vals, arr, coll, strs

class Tr(ast.NodeTransformer):
    count = [0]      # one numbering for all modules: loops are known by their numbers
    k = property(lambda s: Tr.count[0], lambda s, v: Tr.count.__setitem__(0, v))
    def __init__(s): s.pre = [[]]; s.gen = [False]
    def name(s, base):
        s.k += 1
        return '__vc_%s_%d' % (base, s.k)
    # statements: hoist comprehension functions
    def stmts(s, body):
        out = []
        for st in body:
            s.pre.append([])
            new = s.visit(st)
            out.extend(s.pre.pop())
            if isinstance(new, list): out.extend(new)
            elif new is not None: out.append(new)
        return out
    def generic_visit(s, node):
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list) and (not v or isinstance(v[0], ast.stmt)):
                setattr(node, f, s.stmts(v))
            elif f == 'handlers':
                for h in v: s.generic_visit(h)
                for h in v:
                    if h.type is None: h.type = nm('Exception')
            elif isinstance(v, list):
                nv = []
                for x in v:
                    if isinstance(x, ast.AST):
                        x = s.visit(x)
                        if x is None: continue
                        if isinstance(x, list): nv.extend(x); continue
                    nv.append(x)
                v[:] = nv
            elif isinstance(v, ast.AST):
                setattr(node, f, s.visit(v))
        return node
    def visit_Module(s, node):
        node.body = s.stmts(node.body); return node
    def visit_FunctionDef(s, node):
        isgen = has_yield(node)
        s.gen.append(isgen)
        node.decorator_list = [s.visit(d) for d in node.decorator_list]
        node.args = s.visit(node.args)
        doc = []
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            doc = [node.body[0]]
        node.body = doc + s.stmts(node.body[len(doc):])
        if isgen:
            inner = ast.FunctionDef(name='__vc_body', args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__vc_out')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.body[len(doc):] or [ast.Pass()], decorator_list=[], type_params=[])
            # parameters assigned in the body need to be the body's own
            asg = assigned_names(node.body) & {a.arg for a in node.args.args + node.args.kwonlyargs + ([node.args.vararg] if node.args.vararg else []) + ([node.args.kwarg] if node.args.kwarg else [])}
            if asg: inner.body.insert(0, ast.Nonlocal(names=sorted(asg)))
            node.body = doc + [inner, ast.Return(call(nm('__vc_gen__'), nm('__vc_body')))]
        s.gen.pop()
        return node
    def visit_Lambda(s, node):
        s.pre.append([])
        node.args = s.visit(node.args)
        node.body = s.visit(node.body)
        hoisted = s.pre.pop()
        if hoisted:
            f = s.name('lam')
            s.pre[-1].append(ast.FunctionDef(name=f, args=node.args, body=hoisted + [ast.Return(node.body)], decorator_list=[], type_params=[]))
            return nm(f)
        return node
    def visit_Yield(s, node):
        v = s.visit(node.value) if node.value else ast.Constant(None)
        return call(nm('__vc_yield__'), nm('__vc_out'), v)
    def visit_YieldFrom(s, node):
        return call(nm('__vc_yieldfrom__'), nm('__vc_out'), s.visit(node.value))
    def visit_For(s, node):
        it = s.visit(node.iter)
        tgt = s.visit(node.target)
        asg = sorted(assigned_names([node]) - {n for n in assigned_names([node]) if n.startswith('__vc')})
        carried = sorted(live_at_head(node) & set(asg))
        body = s.stmts(node.body); orelse = s.stmts(node.orelse)
        s.k += 1; mid = s.k
        META[mid] = dict(id=mid, carried=carried, assigned=asg)
        node.iter = call(nm('__vc_iter__'), it, ast.Subscript(nm('__vc_meta__'), ast.Constant(mid), ast.Load()))
        body = [s.takeval('__vc_in__', mid, n) for n in carried] + body
        node.target, node.body, node.orelse = tgt, body, orelse
        out = [ast.Try(body=[node], handlers=[ast.ExceptHandler(type=nm('Exception'), name=None, body=[ast.Expr(call(nm('__vc_esc__'), ast.Constant(mid))), ast.Raise()])], orelse=[], finalbody=[])]
        out += [s.takeval('__vc_outv__', mid, n) for n in carried]
        post = [n for n in asg if n not in carried and n not in declared_nonlocal(node)]
        if post:
            p = '__vc_p%d' % mid
            out.append(assign(p, call(nm('__vc_post__'), ast.Constant(mid), ast.Constant(tuple(post)), ast.Constant(None))))
            out.append(ast.If(test=ast.Compare(nm(p), [ast.IsNot()], [ast.Constant(None)]),
                body=[assign(n, ast.Subscript(nm(p), ast.Constant(n), ast.Load())) for n in post], orelse=[]))
        return out
    def takeval(s, f, mid, n):
        "the value of a variable, if the loop rule has one"
        return ast.Try(body=[assign(n, call(nm(f), ast.Constant(mid), ast.Constant(n), nm(n)))], handlers=[ast.ExceptHandler(type=nm('NameError'), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
    def comp(s, node, elt, kind):
        f = s.name('comp')
        gens = node.generators
        first = s.visit(gens[0].iter)
        s.pre.append([])
        if kind == 'dict':
            e0 = s.visit(elt[0]); e1 = s.visit(elt[1])
            add = ast.Assign([ast.Subscript(nm('__vc_o'), e0, ast.Store())], e1)
        else:
            add = ast.Expr(call(ast.Attribute(nm('__vc_o'), 'append', ast.Load()), s.visit(elt)))
        inner = s.pre.pop() + [add]
        for n, g in reversed(list(enumerate(gens))):
            for c in reversed(g.ifs):
                s.pre.append([])
                t = s.visit(c)
                inner = s.pre.pop() + [ast.If(test=t, body=inner, orelse=[])]
            if n == 0: it = nm('__vc_it0'); pre = []
            else:
                s.pre.append([]); it = s.visit(g.iter); pre = s.pre.pop()
            s.k += 1; mid = s.k
            META[mid] = dict(id=mid, carried=[], assigned=[])
            inner = pre + [ast.For(target=s.visit(g.target), iter=call(nm('__vc_iter__'), it, ast.Subscript(nm('__vc_meta__'), ast.Constant(mid), ast.Load())), body=inner, orelse=[])]
        mk = call(nm('__vc_dict__'), ast.Dict([], [])) if kind == 'dict' else call(nm('__vc_list__'), ast.Tuple([], ast.Load()))
        s.pre[-1].append(ast.FunctionDef(name=f, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__vc_it0')], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[assign('__vc_o', mk)] + inner + [ast.Return(nm('__vc_o'))], decorator_list=[], type_params=[]))
        r = call(nm(f), first)
        if kind == 'set': r = call(nm('set'), r)
        if kind == 'gen': r = call(nm('__vc_genof__'), r)
        return r
    def visit_ListComp(s, node): return s.comp(node, node.elt, 'list')
    def visit_SetComp(s, node): return s.comp(node, node.elt, 'set')
    def visit_GeneratorExp(s, node): return s.comp(node, node.elt, 'gen')
    def visit_DictComp(s, node): return s.comp(node, (node.key, node.value), 'dict')
    def visit_List(s, node):
        s.generic_visit(node)
        if isinstance(node.ctx, ast.Load): return call(nm('__vc_list__'), ast.Tuple(node.elts, ast.Load()))
        return node
    def visit_Dict(s, node):
        s.generic_visit(node)
        return call(nm('__vc_dict__'), node)
    def visit_BinOp(s, node):
        s.generic_visit(node)
        if isinstance(node.op, ast.Mod): return call(nm('__vc_mod__'), node.left, node.right)
        return node
    def visit_Call(s, node):
        s.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in strs.TESTS and not node.args and not node.keywords:
            return call(nm('__vc_strtest__'), ast.Constant(node.func.attr), node.func.value)
        if len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return call(nm('__vc_starcall__'), node.func, node.args[0].value)
        return node
    def visit_Compare(s, node):
        s.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)): return node
        return call(nm('__vc_cmp__'), ast.Constant(type(node.ops[0]).__name__), node.left, node.comparators[0])
    def visit_JoinedStr(s, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                val = s.visit(v.value)
                if v.conversion == 114: val = call(nm('repr'), val)
                spec = s.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(call(nm('format'), val, spec))
        return call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), ast.Tuple(parts, ast.Load()))
    def visit_While(s, node):
        out = s.counting(node)
        if out is not None: return out
        # any number of iterations, in harnesses of loops that pass values on: a for loop over as many as there are
        general = None
        if not node.orelse and not any(isinstance(x, (ast.Break, ast.NamedExpr)) for x in ast.walk(node)):
            import copy
            n2 = copy.deepcopy(node); s.k += 1
            loop = ast.For(target=ast.Name('__vc_wi%d' % s.k, ast.Store()), iter=call(nm('__vc_whileseq__')), body=[ast.Expr(call(nm('__vc_hold__'), n2.test))] + n2.body, orelse=[])
            general = s.visit_For(loop) + [ast.Expr(call(nm('__vc_hold__'), ast.UnaryOp(ast.Not(), s.visit(copy.deepcopy(node.test)))))]
        # a bounded number of symbolic iterations, or none
        s.k += 1
        w = '__vc_w%d' % s.k
        s.generic_visit(node)
        node.test = call(nm('__vc_while__'), nm(w), ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), node.test)) if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(node.test)) else node.test
        old = [assign(w, call(nm('__vc_list__'), ast.Tuple([], ast.Load()))), node]
        return old if general is None else [ast.If(test=call(nm('__vc_general__')), body=general, orelse=old)]
    def counting(s, node):
        "`while i < n: ...; i += 1` counts: a for loop over range(i, n), where n does not change"
        t = node.test
        if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.LtE)) or not isinstance(t.left, ast.Name): return None
        i = t.left.id; E = t.comparators[0]
        last = node.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1): return None
        body = node.body[:-1]
        if i in assigned_names(body): return None
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, (ast.Break, ast.Continue)): return None
        for x in ast.walk(E):
            if not isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.Add, ast.Sub, ast.Load, ast.Call)): return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len'): return None
        s.k += 1
        a, b = '__vc_wa%d' % s.k, '__vc_wb%d' % s.k
        import copy
        if isinstance(t.ops[0], ast.LtE): E = ast.BinOp(E, ast.Add(), ast.Constant(1))
        E2 = copy.deepcopy(E)
        loop = ast.For(target=ast.Name(i, ast.Store()), iter=call(nm('range'), nm(a), nm(b)), body=body + [ast.Expr(call(nm('__vc_stable__'), E2, nm(b)))], orelse=[])
        return [assign(a, nm(i)), assign(b, s.visit(E))] + s.visit_For(loop) + [assign(i, call(nm('max'), nm(a), nm(b)))]
META = {}
def nm(x): return ast.Name(x, ast.Load())
def call(f, *a): return ast.Call(f, list(a), [])
def assign(n, v): return ast.Assign([ast.Name(n, ast.Store())], v)
def has_yield(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(x))
    return False
def assigned_names(stmts):
    out = set(); st = list(stmts)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name); continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
        st.extend(ast.iter_child_nodes(x))
    return out
def declared_nonlocal(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Global, ast.Nonlocal)): out |= set(x.names)
    return out
def live_at_head(loop):
    """names that an iteration may read before assigning them (conservative)"""
    live = set()
    def expr(e, d):
        if e is None: return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in d: live.add(x.id)
    def tgt(t, d):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store): d.add(x.id)
                elif x.id not in d: live.add(x.id)
    def block(ss, d):
        for st in ss:
            if d is None: return None
            d = stmt(st, d)
        return d
    def meet(a, b):
        if a is None: return b
        if b is None: return a
        return a & b
    def stmt(st, d):
        if isinstance(st, ast.Assign):
            expr(st.value, d)
            for t in st.targets: tgt(t, d)
        elif isinstance(st, ast.AugAssign):
            expr(st.value, d)
            for x in ast.walk(st.target):
                if isinstance(x, ast.Name) and x.id not in d: live.add(x.id)
            tgt(st.target, d)
        elif isinstance(st, ast.AnnAssign):
            expr(st.value, d)
            if st.value: tgt(st.target, d)
        elif isinstance(st, ast.If):
            expr(st.test, d)
            return meet(block(st.body, set(d)), block(st.orelse, set(d)))
        elif isinstance(st, ast.For):
            expr(st.iter, d)
            d2 = set(d); tgt(st.target, d2)
            block(st.body, d2)
            r = block(st.orelse, set(d))
            return set(d) if r is None else r & d if False else set(d)
        elif isinstance(st, ast.While):
            expr(st.test, d); block(st.body, set(d)); block(st.orelse, set(d))
        elif isinstance(st, ast.Try):
            b = block(st.body, set(d))
            outs = [block(st.orelse, set(b)) if b is not None else None]
            for h in st.handlers: outs.append(block(h.body, set(d)))
            r = None
            for o in outs: r = meet(r, o)
            if r is None: r = set(d)
            return block(st.finalbody, r) if st.finalbody else r
        elif isinstance(st, ast.With):
            for i in st.items:
                expr(i.context_expr, d)
                if i.optional_vars is not None: tgt(i.optional_vars, d)
            return block(st.body, d)
        elif isinstance(st, (ast.Continue, ast.Break)): return None
        elif isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st): expr(c, d)
            return None
        elif isinstance(st, ast.FunctionDef):
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in d: live.add(x.id)
            d.add(st.name)
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr): expr(c, d)
        return d
    d = set(); tgt(loop.target, d)
    block(loop.body, d)
    return live

# ------------------------------------------------------------------ built-ins
def vc_starcall(f, x):
    if f is coll.vc_zip and coll.is_sym(x):
        q = coll.as_seq(x)
        if run().fork(zb(arr.zcmp('<=', q.n, 0))): return iter(())
        w = len(q.get(run().bound('col')))
        col = lambda c: coll.SList.of(q.n, lambda k: q.get(k)[c])
        return iter([col(c) for c in range(w)])
    return f(*x)
def v_len(x):
    if hasattr(x, 'vc_len'): return x.vc_len()
    if hasattr(type(x), '__len__') and type(x).__module__.startswith('flowtracks'): return type(x).__len__(x)
    return len(x)
def v_range(*a):
    a = [nat(x) for x in a]
    if any(isinstance(x, (SReal, float)) for x in a): raise TypeError("'float' object cannot be interpreted as an integer")
    if not any(isinstance(x, SVal) for x in a): return range(*a)
    if len(a) == 1: return coll.SRange(0, ie(a[0]))
    st = a[2] if len(a) > 2 else 1
    return coll.SRange(ie(a[0]), ie(a[1]), st)
def v_int(x=0, *a):
    x = nat(x)
    if isinstance(x, str): return strs.to_int(x, *a)
    if isinstance(x, (SInt, SReal, SBool)): return arr.cast(x, 'i')
    if isinstance(x, arr.SArr): return arr.cast(x.item(), 'i')
    return int(x, *a)
def v_float(x=0.):
    x = nat(x)
    if isinstance(x, str): return strs.to_float(x)
    if isinstance(x, SVal): return arr.cast(x, 'f')
    if isinstance(x, arr.SArr): return arr.cast(x.item(), 'f')
    return float(x)
def v_bool(x=False):
    if isinstance(x, (SBool,)): return x
    if isinstance(x, (SInt, SReal)): return mkbool(tobool(x))
    return bool(x)
class IntMeta(type):
    def __instancecheck__(c, x): return isinstance(nat(x), c.native + c.sym) 
    def __call__(c, *a, **k): return c.conv(*a, **k)
    def __eq__(c, o): return o is c or o in c.native[:1]
    def __hash__(c): return hash(c.native[0])
    def __subclasscheck__(c, o): return o is c or issubclass(o, c.native)
class VInt(metaclass=IntMeta):
    native = (int,); sym = (SInt,); conv = staticmethod(v_int); vc_static = True
class VFloat(metaclass=IntMeta):
    native = (float,); sym = (SReal,); conv = staticmethod(v_float); vc_static = True
class VBool(metaclass=IntMeta):
    native = (bool,); sym = (SBool,); conv = staticmethod(v_bool); vc_static = True
arr.VInt, arr.VFloat, arr.VBool = VInt, VFloat, VBool
class VList(metaclass=IntMeta):
    native = (list,); sym = (coll.SList,); vc_static = True
    def conv(x=()):
        if not coll.is_sym(x): return coll.SList(x)
        q = coll.as_seq(x); return coll.SList.of(q.n, q.get)
    conv = staticmethod(conv)
class VTuple(metaclass=IntMeta):
    native = (tuple,); sym = (); vc_static = True
    def conv(x=()): return tuple(x)
    conv = staticmethod(conv)
class VDict(metaclass=IntMeta):
    native = (dict,); sym = (); vc_static = True
    def conv(*a, **k):
        if a and isinstance(a[0], (coll.SSeq, coll.SList, coll.GenSeq)): a = (list(iter(a[0])),)
        d = coll.SDict()
        for kk, v in dict(*a, **k).items(): d[kk] = v
        return d
    conv = staticmethod(conv)
class VSet(metaclass=IntMeta):
    native = (set,); sym = (coll.SSet,); vc_static = True
    def conv(x=()):
        if coll.is_sym(x): return coll.SSet(x)
        x = list(x)
        if any(isinstance(v, SVal) for v in x): return coll.SSet(coll.SList(x))
        return set(nat(v) for v in x)
    conv = staticmethod(conv)
def v_min(*a, **k): return ext('<=', a, k, min)
def v_max(*a, **k): return ext('>=', a, k, max)
def ext(op, a, k, nativef):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, arr.SArr): return x.min() if op == '<=' else x.max()
        if coll.is_sym(x):
            q = arr.asarr(x); return q.min() if op == '<=' else q.max()
        a = list(x)
        if not a and 'default' in k: return k['default']
    if k.get('key') is not None: 
        return nativef(*a, **k) if len(a) > 1 else nativef(a, **k)
    if not any(isinstance(nat(x), SVal) for x in a): return nativef([nat(x) for x in a])
    res = a[0]
    for v in a[1:]:
        # python keeps the first of equals
        res = select(compare(op, res, v), res, v)
    return res
def v_sum(x, start=0):
    if isinstance(x, arr.SArr) and coll.is_sym(x): return arith('+', x.sum(), start) if not (isinstance(start, int) and start == 0) else x.sum()
    if coll.is_sym(x): return arr.asarr(x).sum()
    res = start
    for v in x: res = res + v
    return res
def v_any(x):
    if coll.is_sym(x): return arr.asarr(x).any()
    for v in x:
        if v: return True
    return False
def v_all(x):
    if coll.is_sym(x): return arr.asarr(x).all()
    for v in x:
        if not v: return False
    return True
def v_abs(x): return abs(x)
def v_sorted(x, key=None, reverse=False):
    if coll.is_sym(x):
        if key is not None or reverse: raise Unsupported('sorted with a key')
        import npm
        a = npm.sort(arr.asarr(x)); return coll.SList.of(a.dims[0], a.at)
    x = list(x)
    if any(isinstance(v, SVal) for v in x): raise Unsupported('sorting symbolic values')
    return coll.SList(sorted(x, key=key, reverse=reverse))
def v_iter(x):
    if isinstance(x, (coll.GenSeq,)): return x
    if coll.is_sym(x) or CUR.run is not None and isinstance(x, (list, tuple, range, coll.SList, coll.SSeq)):
        q = coll.as_seq(x)
        return coll.GenSeq.of(coll.SList.of(q.n, q.get))
    return iter(x)
def v_next(x, *d):
    if isinstance(x, coll.GenSeq): return x.vc_next(*d)
    if hasattr(x, 'vc_next'): return x.vc_next(*d)
    return next(x, *d)
def v_str(x=''):
    if isinstance(x, SVal): return strs.hole('s', x)
    return str(x)
def v_repr(x):
    if isinstance(x, SVal): return strs.hole('r', x)
    return repr(x)
def v_format(x, spec=''):
    if isinstance(x, SVal): return strs.hole(spec or 's', x)
    return format(x, spec)
def v_reversed(x):
    return x.__reversed__() if isinstance(x, (coll.SList, coll.SSeq)) else (coll.as_seq(x).__reversed__() if coll.is_sym(x) else reversed(x))
def v_round(x, n=None):
    if isinstance(x, SVal): raise Unsupported('round')
    return round(x) if n is None else round(x, n)
def v_isinstance(x, t):
    x = nat(x)
    if isinstance(t, tuple): return any(v_isinstance(x, q) for q in t)
    if t is VInt: return isinstance(x, (int, SInt)) 
    if isinstance(t, arr.NPType): return False
    return isinstance(x, t)
def vc_cmp(op, l, r):
    if op == 'Eq': return l == r if not (strs.has(l) or strs.has(r)) else strs.equal(l, r)
    if op == 'NotEq': return l != r if not (strs.has(l) or strs.has(r)) else coll_not(strs.equal(l, r))
    if isinstance(r, str): q = strs.inside(l, r)
    elif strs.has(l) or (isinstance(r, (list, tuple, set, dict)) and not (isinstance(r, coll.SDict) and coll.symkey(nat(l))) and any(strs.has(x) for x in r)):
        q = False
        for x in coll.SList(r).tail if not isinstance(r, coll.SList) else die('a text in a list'):
            if strs.equal(l, x): q = True; break
    else: q = l in r
    return q if op == 'In' else coll_not(q)
def die(m): raise Unsupported(m)
def coll_not(c): return lnot(c) if isinstance(c, SVal) else not c
def vc_strtest(how, x):
    return getattr(x, how)() if not strs.has(x) else strs.test(how, x)
def vc_mod(l, r):
    if isinstance(l, str): return strs.fmt(l, r)
    return l % r
def vc_gen(body): return coll.GenSeq(body)
def vc_genof(lst): return coll.GenSeq.of(lst)
def vc_yield(out, v):
    r = run()
    out.append(v)
    if r.notes.get('abandon') and r.notes['abandon'](out):
        raise GeneratorExit()
def vc_yieldfrom(out, it): 
    out.extend(it)
def v_hash(x): return hash(x)
STR = str
def vc_stable(now, then):
    c = now == then
    if c is True: return
    if isinstance(c, SBool) and run().engine.quick(run(), c.e): return
    raise Unsupported('a while loop whose bound changes')
def vc_general(): return bool(CUR.run is not None and run().engine.flags.get('while'))
def vc_whileseq():
    "as many as the loop has iterations: assumed to be finitely many"
    r = run(); n = r.const('niter', I)
    r.assume(n >= 0)
    return coll.SSeq(n, lambda k: mkint(lift(k)))
def vc_hold(c):
    "the condition of the loop, which holds in its iterations, and not after it"
    if isinstance(c, SVal) or isinstance(c, arr.SArr): c = tobool(c); c = c if isinstance(c, bool) else simp(zb(c))
    if c is False or not isz(c) and not c: raise StopPath('the number of iterations')
    if isz(c): run().assume(zb(c))
def vc_while(st, test):
    n0 = len(run().taken)
    v = test()
    if isinstance(v, SVal): v = bool(v)
    if len(run().taken) > n0:
        st.tail.append(None)
        if len(st.tail) > 10: raise Unsupported('a while loop without a bound')
    return v
def make_builtins(loader):
    b = dict(vars(builtins))
    b.update(len=v_len, range=v_range, int=VInt, float=VFloat, bool=VBool, list=VList, tuple=VTuple, dict=VDict, set=VSet, frozenset=VSet,
        min=v_min, max=v_max, sum=v_sum, any=v_any, all=v_all, sorted=v_sorted, iter=v_iter, next=v_next, zip=coll.vc_zip,
        enumerate=coll.vc_enumerate, map=coll.vc_map, filter=coll.vc_filter, reversed=v_reversed, isinstance=v_isinstance,
        format=v_format, repr=v_repr, round=v_round,
        __vc_starcall__=vc_starcall, __vc_cmp__=vc_cmp, __vc_strtest__=vc_strtest, __vc_iter__=coll.vc_iter, __vc_meta__=META, __vc_post__=coll.vc_post, __vc_esc__=coll.vc_esc, __vc_in__=coll.vc_in, __vc_outv__=coll.vc_outv, __vc_stable__=vc_stable, __vc_while__=vc_while, __vc_general__=vc_general, __vc_whileseq__=vc_whileseq, __vc_hold__=vc_hold, __vc_list__=coll.SList, __vc_dict__=coll.SDict,
        __vc_mod__=vc_mod, __vc_gen__=vc_gen, __vc_genof__=vc_genof, __vc_yield__=vc_yield, __vc_yieldfrom__=vc_yieldfrom,
        __import__=loader.imp, print=lambda *a, **k: None)
    if loader.open: b['open'] = loader.open
    b['str'] = VStr
    return b
class VStr(metaclass=IntMeta):
    native = (str,); sym = (); vc_static = True
    def conv(x='', *a):
        if isinstance(x, SVal): return strs.hole('s', x)
        if isinstance(x, str): return x
        return str(x)
    conv = staticmethod(conv)

class Loader:
    "loads the modules of the package from source, with the models imported in place of libraries"
    def __init__(s, root, models=None):
        s.root, s.models = root, dict(models or {})
        s.mods = {}; s.snap = []; s.open = None; s.code = {}
        s.sources = {}
    def reset(s):
        "back to the state after loading: the same classes and functions in every path"
        for d, c in s.snap:
            if isinstance(d, type):
                for k in list(vars(d)):
                    if k not in c and k not in ('__dict__', '__weakref__'): delattr(d, k)
                for k, v in c.items():
                    if vars(d).get(k) is not v: setattr(d, k, v)
            elif isinstance(d, dict):
                dict.clear(d); dict.update(d, c)
                if isinstance(d, coll.SDict) and d.log is not None: d.log = coll.SList()
            elif isinstance(d, set): d.clear(); d.update(c)
            elif isinstance(d, coll.SList): d.n0, d.get0, d.tail, d.journal, d.cache = 0, None, list(c), [], {}
            else: d[:] = c
    def snapshot(s, m):
        st = [m.__dict__]; seen = {id(d) for d, _ in s.snap}
        while st:
            x = st.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if x is m.__dict__: s.snap.append((x, dict(x))); st.extend(v for k, v in x.items() if k != '__builtins__')
            elif isinstance(x, type) and x.__module__ == m.__name__:
                s.snap.append((x, {k: v for k, v in vars(x).items() if k not in ('__dict__', '__weakref__')})); st.extend(vars(x).values())
            elif isinstance(x, types.FunctionType):
                if x.__module__ == m.__name__: st.extend(x.__defaults__ or ()); st.extend((x.__kwdefaults__ or {}).values())
            elif isinstance(x, coll.SList): s.snap.append((x, list(x.tail))); st.extend(x.tail)
            elif type(x) in (list, set): s.snap.append((x, type(x)(x))); st.extend(x)
            elif isinstance(x, dict): s.snap.append((x, dict(x))); st.extend(x.values())
            elif isinstance(x, tuple): st.extend(x)
        CUR.globals = s.snap
    def compile(s, name):
        if name in s.code: return s.code[name]
        path = os.path.join(s.root, *name.split('.'))
        path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
        src = open(path, encoding='utf-8').read()
        s.sources[name] = src
        tree = ast.parse(src, path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        s.code[name] = compile(tree, path, 'exec')
        return s.code[name]
    def load(s, name):
        if name in s.mods: return s.mods[name]
        code = s.compile(name)
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = make_builtins(s)
        m.__package__ = name if name == 'flowtracks' else name.rpartition('.')[0]
        s.mods[name] = m
        m.__dict__['__name__'] = name
        r, CUR.run = CUR.run, None
        try: exec(code, m.__dict__)
        finally: CUR.run = r
        s.snapshot(m)
        return m
    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__']
            for _ in range(level - 1): base = base.rpartition('.')[0]
            full = base + ('.' + name if name else '')
        else: full = name
        if full == 'flowtracks' or full.startswith('flowtracks.'):
            m = s.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(os.path.join(s.root, *full.split('.'), f + '.py')):
                        setattr(m, f, s.load(full + '.' + f))
                return m
            return s.load('flowtracks')
        import models
        return models.get(full, fromlist, s)
