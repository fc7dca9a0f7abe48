"""Mechanical extraction: loads /repo's current modules with loops, list displays, comprehensions
and string operations routed through the engine; everything else is executed as written."""
import ast, builtins, os, sys, types, functools, re, math
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
import sym, npshim, iomod, loops
from sym import S, Unsupported, PathEnd, Restart, lift, concrete, isnum, binop, I, eng, pyerr, ite, intt, truth
from npshim import L, A, Seq, as_seq, zi, NP, vlen
from engine import Poison

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

# ================================================================ AST
class Scope(ast.NodeVisitor):
    """names stored in a statement list, not descending into nested functions"""
    def __init__(s): s.names = []
    def add(s, n):
        if n not in s.names: s.names.append(n)
    def visit_Name(s, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
    def visit_FunctionDef(s, n):
        s.add(n.name)
        nl = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Nonlocal): nl |= set(x.names)
        for x in nl: s.add(x)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(s, n): s.add(n.name)
    def visit_Lambda(s, n): pass
    def visit_ListComp(s, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ExceptHandler(s, n):
        if n.name: s.add(n.name)
        s.generic_visit(n)
    def visit_Import(s, n):
        for a in n.names: s.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import
def stored(nodes):
    v = Scope()
    for n in nodes: v.visit(n)
    return v.names
def has(nodes, kinds):
    """kinds of nodes inside the loop body, outside nested loops/functions"""
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.For, ast.While, ast.ClassDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False

def vf(attr): return ast.Attribute(ast.Name("_vf", ast.Load()), attr, ast.Load())
def call(attr, *args): return ast.Call(vf(attr), list(args), [])
def const(v): return ast.Constant(v)

class Instr(ast.NodeTransformer):
    def __init__(s, mod): s.mod = mod; s.q = []; s.nloop = [0]; s.tmp = 0; s.locals = [set()]
    def fresh(s, b): s.tmp += 1; return "_vf_%s%d" % (b, s.tmp)
    def body(s, stmts):
        out = []
        for st in stmts:
            r = s.visit(st)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
        return out
    def visit_FunctionDef(s, n):
        n.decorator_list = [s.visit(d) for d in n.decorator_list]
        n.args = s.visit(n.args)
        if n.returns is not None: n.returns = s.visit(n.returns)
        s.q.append(n.name); s.nloop.append(0)
        loc = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs) | set(stored(n.body))
        if n.args.vararg: loc.add(n.args.vararg.arg)
        if n.args.kwarg: loc.add(n.args.kwarg.arg)
        for x in n.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Global): loc -= set(y.names)
        s.locals.append(loc | (s.locals[-1] if len(s.q) > 1 else set()))
        name = ".".join(s.q)
        doc = n.body[:1] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        rest = n.body[len(doc):]
        n.body = doc + [ast.Expr(call("fn", const(s.mod + "." + name)))] + s.body(rest)
        s.locals.pop(); s.nloop.pop(); s.q.pop()
        n.decorator_list.insert(0, ast.Call(vf("define"), [const(s.mod + "." + name)], []))
        return n
    def visit_ClassDef(s, n):
        s.q.append(n.name); s.nloop.append(0); s.locals.append(set())
        n.decorator_list = [s.visit(d) for d in n.decorator_list]
        n.body = s.body(n.body)
        s.locals.pop(); s.nloop.pop(); s.q.pop()
        n.decorator_list.insert(0, vf("defclass"))
        return n
    def visit_Try(s, n):
        """the engine's own control exceptions pass through user handlers and finally blocks untouched"""
        n.body, n.orelse, n.finalbody = s.body(n.body), s.body(n.orelse), s.body(n.finalbody)
        for h in n.handlers: h.body = s.body(h.body)
        if n.handlers: n.handlers.insert(0, ast.ExceptHandler(vf("Control"), None, [ast.Raise(None, None)]))
        if n.finalbody: n.finalbody = [ast.If(call("live"), n.finalbody, [])]
        return n
    def visit_AnnAssign(s, n):
        if n.value is not None: n.value = s.visit(n.value)
        return n
    def visit_arg(s, n): return n
    def site(s):
        i = s.nloop[-1]; s.nloop[-1] += 1
        return "%s.%s:loop%d" % (s.mod, ".".join(s.q) or "<module>", i)
    def wrap(s, lv, pre, loop):
        return pre + [ast.Try([loop], [], [], [ast.Expr(ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "leave", ast.Load()), [], []))])]
    def headstmt(s, lv, names):
        h = ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), "head", ast.Load()), [ast.Call(ast.Name("_vf_locals", ast.Load()), [], [])], [])
        if not names: return ast.Expr(h)
        return ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], h)
    def names_of(s, nodes):
        ns = [x for x in stored(nodes) if x in s.locals[-1] or not s.q]
        return ns
    def visit_For(s, n):
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "iter" and len(n.iter.args) == 2 and not n.iter.keywords and "iter" not in s.locals[-1]:
            # for x in iter(f, sentinel)
            f, z, v = s.fresh("f"), s.fresh("z"), s.fresh("v"); nm = lambda x: ast.Name(x, ast.Load()); st = lambda x: ast.Name(x, ast.Store())
            pre = [ast.Assign([st(f)], s.visit(n.iter.args[0])), ast.Assign([st(z)], s.visit(n.iter.args[1]))]
            loop = ast.While(const(True), [ast.Assign([st(v)], ast.Call(nm(f), [], [])), ast.If(ast.Compare(nm(v), [ast.Eq()], [nm(z)]), list(n.orelse) + [ast.Break()], []), ast.Assign([n.target], nm(v))] + n.body, [])
            return pre + s.visit(loop)
        if n.orelse and has(n.orelse, (ast.Break, ast.Continue)): return s.generic_visit(n)
        site = s.site(); lv = s.fresh("l"); names = s.names_of([n])
        it = s.visit(n.iter); body = s.body(n.body); els = s.body(n.orelse); tgt = s.visit(n.target)
        pre = [ast.Assign([ast.Name(lv, ast.Store())], call("loop", const(site), const("for"), ast.Tuple([const(x) for x in names], ast.Load()), it))]
        m = lambda a: ast.Call(ast.Attribute(ast.Name(lv, ast.Load()), a, ast.Load()), [], [])
        loop = ast.While(const(True), [s.headstmt(lv, names), ast.If(ast.UnaryOp(ast.Not(), m("more")), els + [ast.Break()], []), ast.Assign([tgt], m("item"))] + body, [])
        return s.wrap(lv, pre, loop)
    def visit_While(s, n):
        if n.orelse and has(n.orelse, (ast.Break, ast.Continue)): return s.generic_visit(n)
        site = s.site(); lv = s.fresh("l"); names = s.names_of([n])
        test = s.visit(n.test); body = s.body(n.body); els = s.body(n.orelse)
        pre = [ast.Assign([ast.Name(lv, ast.Store())], call("loop", const(site), const("while"), ast.Tuple([const(x) for x in names], ast.Load())))]
        loop = ast.While(const(True), [s.headstmt(lv, names), ast.If(ast.UnaryOp(ast.Not(), test), els + [ast.Break()], [])] + body, [])
        return s.wrap(lv, pre, loop)
    def visit_List(s, n):
        n = s.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return call("mklist", n)
        return n
    def visit_Dict(s, n):
        n = s.generic_visit(n); return call("mkdict", n)
    def visit_Set(s, n):
        n = s.generic_visit(n); return call("mkset", ast.List(n.elts, ast.Load()))
    def comp(s, kind, n):
        if len(n.generators) != 1 or n.generators[0].is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n)): return None
        g = n.generators[0]; t = g.target
        if isinstance(t, ast.Name): params = [t.id]; nun = 0
        elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts): params = [x.id for x in t.elts]; nun = len(params)
        else: return None
        it = s.visit(g.iter)
        free = set()
        for x in [n.elt] + g.ifs:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in params and y.id in s.locals[-1]: free.add(y.id)
        elt = s.visit(n.elt); ifs = [s.visit(x) for x in g.ifs]
        cond = const(True) if not ifs else ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)
        ar = lambda ns: ast.arguments([], [ast.arg(x) for x in ns], None, [], [], None, [])
        fr = sorted(free)
        mk = lambda b: ast.Call(ast.Lambda(ar(fr), ast.Lambda(ar(params), b)), [call("snap", ast.Name(x, ast.Load())) for x in fr], [])
        return call("comp", const(kind), it, mk(elt), mk(cond) if ifs else const(None), const(nun))
    def visit_ListComp(s, n):
        r = s.comp("list", n)
        if r is not None: return r
        return call("mklist", s.generic_visit(n))
    def visit_GeneratorExp(s, n): return s.comp("gen", n) or s.generic_visit(n)
    def visit_SetComp(s, n):
        r = s.comp("set", n)
        return r if r is not None else call("mkset", s.generic_visit(n))
    def visit_Compare(s, n):
        n = s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return call("eq" if isinstance(n.ops[0], ast.Eq) else "ne", n.left, n.comparators[0])
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call("contains", n.comparators[0], n.left)
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n
    def visit_BinOp(s, n):
        n = s.generic_visit(n)
        if isinstance(n.op, ast.Mod): return call("mod", n.left, n.right)
        return n
    def visit_IfExp(s, n):
        n = s.generic_visit(n)
        # pure scalar conditionals may be merged instead of forking
        return n
    def visit_Call(s, n):
        n = s.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords: return call("join", f.value, n.args[0])
        if isinstance(f, ast.Attribute) and f.attr == "format": return ast.Call(vf("format_"), [f.value] + n.args, n.keywords)
        if isinstance(f, ast.Name) and f.id == "locals" and not n.args: return n
        return n
    def visit_Delete(s, n):
        return n

# ================================================================ runtime support
class Typ:
    """stand-in for a builtin type"""
    def __init__(s, t, f): s._vf_type, s.f = t, f; s.__name__ = t.__name__
    def __call__(s, *a, **k): return s.f(*a, **k)
    def __repr__(s): return "<class %r>" % s.__name__
    def __getattr__(s, n): return getattr(s._vf_type, n)
    def __or__(s, o): return s
    def __ror__(s, o): return s
    def __getitem__(s, k): return s
def sh_int(x=0, base=None):
    if isinstance(x, S):
        if base is not None: raise pyerr(TypeError, "int() can't convert non-string with explicit base")
        return sym.to_pyint(x) if sym.isfltk(x.k) else sym.to_py(sym.asint(x))
    if isinstance(x, iomod.HexTok):
        if base is None or concrete(base) != 16: raise Unsupported("int(hex text, base %r)" % (base,))
        v = x.value(); return S(v.t, "pyint", v.lo, v.hi)
    if isinstance(x, A):
        if concrete(x.flatn) == 1: return sh_int(x.getter()(IntVal(0)))
        raise Unsupported("int(array)")
    if isinstance(x, str):
        m = iomod._tok.fullmatch(x) or iomod._tok.fullmatch(x[2:] if x[:2] == "0x" else x)
        if m:
            v, spec = eng().tokens[int(m.group(1))]
            if isnum(v):
                hexs = spec in ("x", "#x") or re.fullmatch(r"0?\d*x", spec)
                if (hexs and base is not None and concrete(base) == 16) or (spec in ("", "d") and base in (None, 10)): return sym.to_py(lift(v))
            raise Unsupported("int of formatted value")
        if "\ue000" in x:
            if eng().str_int_hook:
                r = eng().str_int_hook(x, base)
                if r is not None: return r
            raise Unsupported("int of symbolic text")
        if hasattr(x, "_vf_name"): return x._vf_int(base)
    if hasattr(x, "_vf_int"): return x._vf_int(base)
    if base is None: return builtins.int(x)
    return builtins.int(x, base)
def sh_float(x=0.0):
    if isinstance(x, S): return sym.cast(sym.to_py(x), "pyfloat")
    if isinstance(x, A) and concrete(x.flatn) == 1: return sh_float(x.getter()(IntVal(0)))
    if hasattr(x, "_vf_float"): return x._vf_float()
    if isinstance(x, str):
        m = iomod._tok.fullmatch(x)
        if m:
            v, spec = eng().tokens[int(m.group(1))]
            if isnum(v) and spec in ("", "d"): return sym.cast(sym.to_py(lift(v)), "pyfloat")
            raise Unsupported("float of formatted value")
    return builtins.float(x)
def sh_bool(x=False):
    if isinstance(x, S): return S(truth(x), "pybool", 0, 1)
    return builtins.bool(x)
def sh_str(x=""):
    if isinstance(x, S): return eng().token(x, "")
    return builtins.str(x)
def sh_abs(x):
    return sym.unop("abs", x) if isinstance(x, S) else builtins.abs(x)
def sh_round(x, nd=None):
    if isinstance(x, S): return npshim.py_round(x, nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)
def sh_divmod(a, b): return binop("//", a, b), binop("%", a, b)
def sh_pow(a, b, *m):
    if m: return builtins.pow(a, b, *m)
    return a ** b
def sh_range(*a):
    if all(isinstance(x, builtins.int) for x in a): return builtins.range(*a)
    a = [sym.asint(lift(x)) for x in a]
    if any(sym.isfltk(x.k) for x in a): raise pyerr(TypeError, "'float' object cannot be interpreted as an integer")
    cs = [concrete(x) for x in a]
    if all(c is not None for c in cs): return builtins.range(*cs)
    start, stop, step = (lift(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else (a[0], a[1], concrete(a[2]))
    if step is None or step < 1: raise Unsupported("range step")
    start, stop = sym.to_py(start), sym.to_py(stop)
    d = binop("-", stop, start)
    if not (d.lo is not None and d.lo >= 0): d = ite(d.t > 0, d, lift(0)) if not eng().cheap_valid(d.t >= 0) else d
    n = sym.restrict(d if step == 1 else binop("//", binop("+", d, step - 1), step), 0, None)
    return Rng(start, n, step, stop)
class Rng:
    def __init__(s, start, n, step, stop): s.start, s.n, s.step, s.stop = start, n, step, stop
    def _vf_seq(s): return Seq(s.n, lambda k: I(z3.simplify(s.start.t + s.step * zi(k)), s.start.lo, None if s.stop.hi is None else s.stop.hi))
    def _vf_len(s): return npshim.unl(s.n)
    def __iter__(s): raise Unsupported("native iteration over symbolic range")
    def __contains__(s, x): return eng().branch(And(intt(lift(x)) >= s.start.t, intt(lift(x)) < s.stop.t))
def native_ok(x):
    """can be iterated natively"""
    if isinstance(x, (list, tuple, range, dict, str, bytes, set, frozenset)): return True
    if isinstance(x, L): return x.base is None
    if isinstance(x, (A, Seq)) or hasattr(x, "_vf_seq"):
        if isinstance(x, A) and x.ndim0: return True
        q = as_seq(x); c = concrete(q.n); return c is not None and q.mask is None and c <= 64
    if hasattr(x, "__next__") or hasattr(x, "__iter__"): return True
    return False
def native_iter(x):
    if isinstance(x, (A, Seq)) or (hasattr(x, "_vf_seq") and not isinstance(x, L)):
        q = as_seq(x); c = concrete(q.n)
        return (q.get(IntVal(i)) for i in builtins.range(c))
    return iter(x)
def sh_sum(x, start=0):
    if isinstance(x, A): return NP.sum(x)
    if isinstance(x, S): raise pyerr(TypeError, "not iterable")
    if native_ok(x):
        r = start
        for v in native_iter(x): r = r + v
        return r
    h = getattr(eng(), "sum_hook", None)
    if h: return h(x)
    raise Unsupported("sum of a symbolic sequence")
NODEF = object()
def minmax(which):
    def f(*a, key=None, default=NODEF):
        if key is not None:
            if len(a) == 1: a = list(native_iter(a[0]))
            r = a[0]
            for v in a[1:]:
                c = key(v) < key(r) if which == "min" else key(v) > key(r)
                if c: r = v
            return r
        if len(a) == 1:
            x = a[0]
            if hasattr(x, "_vf_" + which):
                if default is not NODEF and not x: return default
                return getattr(x, "_vf_" + which)()
            if not native_ok(x): return npshim.extreme(x, which)
            a = list(native_iter(x))
            if not a:
                if default is not NODEF: return default
                raise pyerr(ValueError, which + "() arg is an empty sequence")
        r = a[0]
        for v in a[1:]:
            if isnum(v) and isnum(r):
                c = binop("<", v, r) if which == "min" else binop(">", v, r)
                cc = concrete(c)
                r = (v if cc else r) if cc is not None else ite(truth(c), v, r)
            else: r = v if (v < r if which == "min" else v > r) else r
        return r
    return f
def sh_any(x):
    if native_ok(x):
        for v in native_iter(x):
            if v: return True
        return False
    if isinstance(x, A): return NP.any(x)
    q = as_seq(x); return anyall(q, True)
def sh_all(x):
    if native_ok(x):
        for v in native_iter(x):
            if not v: return False
        return True
    q = as_seq(x); return anyall(q, False)
def anyall(q, isany):
    e = eng(); j = z3.Int(e.name("q"))
    v = q.get(j)
    t = truth(lift(v)) if isnum(v) else v.t
    dom = And(j >= 0, j < q.n.t)
    return S(z3.Exists([j], And(dom, t)) if isany else z3.ForAll([j], Implies(dom, t)), "pybool", 0, 1)
def sh_list(x=()):
    if isinstance(x, npshim.Uniq): return x
    if native_ok(x): return L(list(native_iter(x)), "list")
    if isinstance(x, A) and x.cols is None: q = x.seq(); return L(site="list", base=Seq(q.n, q.get, q.mask))
    q = as_seq(x); return L(site="list", base=q)
def sh_tuple(x=()):
    if native_ok(x): return tuple(native_iter(x))
    if isinstance(x, Seq): return x
    return as_seq(x)
def sh_sorted(x, key=None, reverse=False):
    if isinstance(x, (npshim.Uniq, npshim.SymSet)): return npshim.SortedSet(x)
    if native_ok(x) and not hasattr(x, "_vf_seq"):
        xs = list(native_iter(x))
        if all(not isinstance(v, S) for v in xs): return L(builtins.sorted(xs, key=key, reverse=reverse), "sorted")
    h = getattr(eng(), "sort_hook", None)
    if h: return h(x)
    raise Unsupported("sorted of symbolic values")
def sh_set(x=()):
    h = getattr(eng(), "set_hook", None)
    if h:
        r = h(x)
        if r is not None: return r
    return npshim.SymSet(x) if not isinstance(x, (list, tuple, L)) or len(x) else npshim.SymSet()
def sh_zip(*xs):
    if all(native_ok(x) for x in xs): return builtins.zip(*[native_iter(x) for x in xs])
    qs = [as_seq(x) for x in xs]
    if any(q.mask is not None for q in qs):
        for q in qs[1:]: npshim.same_filter(qs[0], q)
        return Seq(qs[0].n, lambda k: tuple(q.get(k) for q in qs), qs[0].mask)
    n = qs[0].n
    for q in qs[1:]:
        if eng().cheap_valid(n.t <= q.n.t): continue
        if eng().cheap_valid(q.n.t <= n.t): n = q.n; continue
        n = ite(q.n.t < n.t, q.n, n)
    return Seq(n, lambda k: tuple(q.get(k) for q in qs))
def sh_enumerate(x, start=0):
    if native_ok(x): return builtins.enumerate(native_iter(x), start)
    q = as_seq(x)
    if q.mask is not None: raise Unsupported("enumerate of filtered sequence")
    st = lift(start)
    return Seq(q.n, lambda k: (I(z3.simplify(st.t + zi(k)), st.lo, None), q.get(k)))
def sh_map(f, *xs):
    if all(native_ok(x) for x in xs): return builtins.map(f, *[native_iter(x) for x in xs])
    if len(xs) != 1: raise Unsupported("map over several symbolic sequences")
    q = as_seq(xs[0]); return Seq(q.n, lambda k: f(q.get(k)), q.mask)
def sh_filter(f, x):
    if native_ok(x): return builtins.filter(f, native_iter(x))
    q = as_seq(x); f = f or (lambda v: v)
    return Seq(q.n, q.get, lambda k: And(q.mask(k), truth(lift(f(q.get(k))))) if q.mask else truth(lift(f(q.get(k)))))
def sh_reversed(x):
    if native_ok(x): return builtins.reversed(list(native_iter(x)))
    q = as_seq(x)
    if q.mask is not None: raise Unsupported("reversed")
    return Seq(q.n, lambda k: q.get(z3.simplify(q.n.t - 1 - zi(k))))
def sh_hex(x):
    if isinstance(x, S):
        x = sym.asint(x); c = concrete(x)
        return builtins.hex(c) if c is not None else "0x" + eng().token(x, "x")
    return builtins.hex(x)
def sh_next(it, *d):
    if isinstance(it, (Seq, A, L)): raise Unsupported("next() on symbolic sequence")
    return builtins.next(it, *d)
def sh_iter(x, *a):
    if native_ok(x): return native_iter(x)
    return as_seq(x)
def sh_isinstance(x, t):
    ts = t if isinstance(t, tuple) else tuple(t.conc()) if isinstance(t, L) else (t,)
    flat = []
    for y in ts: flat += list(y) if isinstance(y, tuple) and not (len(y) == 2 and y[0] == "npclass") else [y]
    for y in flat:
        y0 = getattr(y, "_vf_type", y)
        if isinstance(y, tuple):
            if isinstance(x, S) and x.k in sym.INTK and y[1] in ("int", "num", "uint" if x.k[0] == "u" else "sint"): return True
            if isinstance(x, S) and x.k in sym.FLTK and y[1] in ("float", "num"): return True
            continue
        if isinstance(y, npshim.DT):
            if isinstance(x, S) and x.k == y.name: return True
            continue
        if isinstance(x, S):
            if y0 is builtins.int and x.k in ("pyint", "pybool"): return True
            if y0 is builtins.bool and x.k == "pybool": return True
            if y0 is builtins.float and x.k in ("pyfloat", "float64"): return True
            if y0 is object: return True
            continue
        if isinstance(x, L) and y0 is builtins.list: return True
        if isinstance(x, iomod.Bytes) and y0 is builtins.bytes: return True
        if isinstance(x, (iomod.HexTok, iomod.TextView)) and y0 is builtins.str: return True
        if isinstance(x, npshim.SymSet) and y0 is builtins.set: return True
        try:
            if isinstance(x, y0): return True
        except TypeError: pass
        n = getattr(y0, "__name__", "")
        if n in ("Iterable", "Sequence", "Sized", "Collection") and isinstance(x, (L, A)): return n != "Sequence" or isinstance(x, L)
        if n in ("Number", "Real", "Integral") and isinstance(x, S): return True
        if n == "PathLike" and isinstance(x, iomod.VPath): return True
    return False
def sh_type(x, *a):
    if a: return builtins.type(x, *a)
    if isinstance(x, S):
        return {"pyint": SHIMS["int"], "pyfloat": SHIMS["float"], "pybool": SHIMS["bool"]}.get(x.k) or npshim.DTS[x.k]
    if isinstance(x, L): return SHIMS["list"]
    if isinstance(x, builtins.int) and not isinstance(x, builtins.bool): return SHIMS["int"]
    if isinstance(x, builtins.float): return SHIMS["float"]
    if isinstance(x, builtins.str): return SHIMS["str"]
    return builtins.type(x)
class IntT(Typ):
    def from_bytes(s, b, byteorder="big", *, signed=False): return iomod.int_from_bytes(b, byteorder, signed=signed)
def sh_bytes(x=b"", *a):
    if isinstance(x, (bytes, bytearray)): return builtins.bytes(x)
    if isinstance(x, iomod.Bytes): return x
    if isinstance(x, builtins.int): return builtins.bytes(x)
    if isinstance(x, str): return builtins.bytes(x, *a)
    if native_ok(x):
        return iomod.bytes_of_terms([intt(lift(v)) for v in native_iter(x)])
    raise Unsupported("bytes()")
def sh_print(*a, sep=" ", end="\n", file=None, flush=False):
    e = eng()
    if file is not None and not isinstance(file, StdStream): raise Unsupported("print to file")
    st = file.name if file is not None else "stdout"
    txt = sep.join(x if isinstance(x, str) else sh_str(x) for x in a) + end
    if st == "stdout": e.out_text(txt)
class StdStream:
    def __init__(s, name): s.name = name
    def write(s, x):
        if s.name == "stdout": eng().out_text(x if isinstance(x, str) else x)
    def flush(s): pass
    @property
    def buffer(s): return StdBuf(s.name)
    def isatty(s): return False
    def read(s): raise Unsupported("stdin")
    def fileno(s): raise Unsupported("fileno")
class StdBuf:
    def __init__(s, name): s.name = name
    def write(s, b):
        if s.name == "stdout":
            o = eng().stdout
            if o is None: raise Unsupported("binary standard output")
            o.write(b)
    def flush(s): pass
    def read(s, *a):
        e = eng()
        if s.name != "stdin" or getattr(e, "stdin", None) is None: raise Unsupported("binary standard input")
        if getattr(e, "stdin_file", None) is None: e.stdin_file = iomod.InFile(e.stdin, "rb")
        return e.stdin_file.read(*a)
class SysShim:
    stdout, stderr, stdin = StdStream("stdout"), StdStream("stderr"), StdStream("stdin")
    maxsize = sys.maxsize; byteorder = "little"; platform = "linux"; version_info = sys.version_info; modules = {}; path = []
    @property
    def argv(s): return L(list(eng().argv), "argv") if False else list(eng().argv)
    def exit(s, code=None): raise SystemExit(code)
import argparse as _ap
class AP(_ap.ArgumentParser):
    """the real argparse, reading the contract's (possibly symbolic) argument vector"""
    def parse_known_args(s, args=None, namespace=None):
        if args is None: args = list(eng().argv)[1:]
        ns, rest = super().parse_known_args(args, namespace); h = getattr(eng(), "args_hook", None)
        if h: h(ns)
        return ns, rest
    def print_help(s, file=None): pass
    def print_usage(s, file=None): pass
    def exit(s, status=0, message=None): raise SystemExit(status)
    def error(s, message): raise SystemExit(2)
class CAP(AP):
    """configargparse without configuration files"""
    def __init__(s, *a, default_config_files=None, auto_env_var_prefix=None, **k): super().__init__(*a, **k)
    def _add_action(s, a): return super()._add_action(a)
    def add_argument(s, *a, is_config_file_arg=False, is_write_out_config_file_arg=False, env_var=None, **k): return super().add_argument(*a, **k)
    def add_argument_group(s, *a, **k):
        g = super().add_argument_group(*a, **k); old = g.add_argument
        def add(*x, is_config_file_arg=False, is_write_out_config_file_arg=False, env_var=None, **y): return old(*x, **y)
        g.add_argument = add; return g
    def get_source_to_settings_dict(s): return {"command_line": {}}
    add = add_arg = add_argument
def argparse_mods():
    m = Mod("argparse"); m.__dict__.update({k: v for k, v in vars(_ap).items() if not k.startswith("__")}); m.ArgumentParser = AP
    c = Mod("configargparse"); c.__dict__.update({k: v for k, v in vars(m).items() if not k.startswith("__")}); c.ArgumentParser = c.ArgParser = CAP
    return m, c
class NullLogger:
    def __getattr__(s, n):
        def f(*a, **k): return None
        return f
    def isEnabledFor(s, l): return False
class Mod(types.ModuleType):
    def __init__(s, name, **k):
        super().__init__(name)
        for a, b in k.items(): setattr(s, a, b)
class OsPath:
    def getsize(s, p): return eng().fs_lookup(str(p)).n
    def exists(s, p): return eng().fs_exists(str(p))
    isfile = exists
    def isdir(s, p): return not eng().fs_exists(str(p))
    def basename(s, p): return os.path.basename(str(p))
    def dirname(s, p): return os.path.dirname(str(p))
    def join(s, *a): return str(iomod.VPath(*a))
    def abspath(s, p): return str(p)
    realpath = expanduser = normpath = abspath
    def splitext(s, p): return os.path.splitext(str(p))
    sep = "/"
class OsShim:
    path = OsPath(); sep = "/"; linesep = "\n"; environ = {}; devnull = "/dev/null"; SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    class PathLike: pass
    def fspath(s, p): return str(p)
    def stat(s, p): return iomod.VPath(p).stat()
    def remove(s, p): eng().fs_unlink(str(p))
    unlink = remove
    def makedirs(s, *a, **k): pass
    def getcwd(s): return "/work"
    def getpid(s): return 4242
    def listdir(s, p):
        r = iomod.VPath(p).glob("*")
        if isinstance(r, Seq): return L(site="listdir", base=Seq(r.n, lambda k: r.get(k).name, r.mask))
        return L([x.name for x in r], "listdir")
class MathShim:
    pi, e, inf, nan, tau = math.pi, math.e, math.inf, math.nan, math.tau
    def floor(s, x): return S.__floor__(x) if isinstance(x, S) else math.floor(x)
    def ceil(s, x): return S.__ceil__(x) if isinstance(x, S) else math.ceil(x)
    def trunc(s, x): return sym.to_pyint(x) if isinstance(x, S) else math.trunc(x)
    def fabs(s, x): return sh_abs(x)
    def isnan(s, x): return False if isinstance(x, S) else math.isnan(x)
    def isinf(s, x): return False if isinstance(x, S) else math.isinf(x)
    def isfinite(s, x): return True if isinstance(x, S) else math.isfinite(x)
    def __getattr__(s, n):
        f = getattr(math, n)
        def g(*a):
            if not npshim.allconc(*a): raise Unsupported("math." + n)
            return f(*[npshim.tonative(x) for x in a])
        return g
class BisectShim:
    def bisect_left(s, a, x, lo=0, hi=None, **k): return s.go(a, x, lo, hi, "left", k)
    def bisect_right(s, a, x, lo=0, hi=None, **k): return s.go(a, x, lo, hi, "right", k)
    bisect = bisect_right
    def go(s, a, x, lo, hi, side, k):
        if concrete(lo) != 0 or hi is not None or k: raise Unsupported("bisect bounds")
        if isnum(x) and isinstance(x, (S,)) and sym.isnp(x.k) or isinstance(a, A): return npshim.bisect(a, x, side)
        return npshim.bisect(a, x, side)
class OpShim:
    """operator module"""
    def __getattr__(s, n):
        import operator
        return getattr(operator, n)
class WarnShim:
    def warn(s, msg="", category=UserWarning, *a, **k):
        eng().warned = True
        if getattr(eng(), "warn_error", False): raise (msg if isinstance(msg, Warning) else category(msg))
    def simplefilter(s, action="default", *a, **k): eng().warn_error = action == "error"
    filterwarnings = simplefilter
    def __getattr__(s, n):
        return lambda *a, **k: None
def tqdm_shim(x=None, *a, **k):
    return Progress() if x is None else x
class Progress:
    def __getattr__(s, n): return lambda *a, **k: None
    def __enter__(s): return s
    def __exit__(s, *a): pass

SHIMS = dict(int=IntT(int, sh_int), float=Typ(float, sh_float), bool=Typ(bool, sh_bool), str=Typ(str, sh_str), list=Typ(list, sh_list), tuple=Typ(tuple, sh_tuple), set=Typ(set, sh_set),
    bytes=Typ(bytes, sh_bytes), len=vlen, range=sh_range, sum=sh_sum, min=minmax("min"), max=minmax("max"), any=sh_any, all=sh_all, sorted=sh_sorted, zip=sh_zip, enumerate=sh_enumerate,
    map=sh_map, filter=sh_filter, reversed=sh_reversed, hex=sh_hex, next=sh_next, iter=sh_iter, isinstance=sh_isinstance, type=sh_type, abs=sh_abs, round=sh_round, divmod=sh_divmod, pow=sh_pow,
    print=sh_print, open=iomod.vf_open, bytearray=Typ(bytearray, sh_bytes), frozenset=Typ(frozenset, sh_set))

class VF:
    """the engine as seen by instrumented code"""
    def __init__(s, overrides, engine): s.ov, s.e = overrides, engine
    Control = (sym.Unsupported, sym.PathEnd, sym.Restart)
    def live(s): return not isinstance(sys.exc_info()[1], s.Control)
    def fn(s, name): s.e.functions.add(name)
    def define(s, name):
        def d(f):
            o = s.ov.get(name)
            if o is not None:
                s.e.used_contracts.add(name); o2 = (lambda *a, **k: o(*a, **k)); return o2
            return f
        return d
    def defclass(s, c):
        import enum
        if isinstance(c, builtins.type) and not issubclass(c, (enum.Enum, tuple, BaseException)):
            def setter(self, n, v):
                e = eng()
                if not hasattr(self, "_birth"):
                    e.clock += 1; object.__setattr__(self, "_birth", e.clock)
                    site = "obj:" + c.__name__; k = e.ctr.get(("obj", site), 0); e.ctr[("obj", site)] = k + 1
                    object.__setattr__(self, "_key", "%s#%d" % (site, k)); e.heap[self._key] = self
                else: e.touch(self, n)
                object.__setattr__(self, n, v)
            try:
                if c.__setattr__ is object.__setattr__:
                    c.__setattr__ = setter
                    c.get_cell = lambda self, n: getattr(self, n, loops.UNDEF)
                    c.set_cell = lambda self, n, v: object.__setattr__(self, n, v)
            except TypeError: pass
        return c
    def loop(s, site, kind, names, src=None): return loops.Loop(s.e, site, kind, names, src)
    def mklist(s, xs): return L(xs)
    def mkdict(s, d): return d
    def mkset(s, xs): return sh_set(xs)
    def snap(s, v):
        if isinstance(v, A): return A(buf=frozen(v.buf), view=v.view, cols=v.cols, ndim0=v.ndim0)
        if isinstance(v, L): return L(list(v.tail), "snap") if v.base is None else L(site="snap", base=v.seq())
        return v
    def comp(s, kind, it, f, cond, nun):
        g = (lambda x: f(*unpack(x, nun))) if nun else f
        c = None if cond is None else (lambda x: cond(*unpack(x, nun))) if nun else cond
        if hasattr(it, "_vf_comp"):
            r = it._vf_comp(kind, g, c)
            if r is not None: return r
        if native_ok(it):
            gen = (g(x) for x in native_iter(it) if c is None or c(x))
            if kind == "gen": return gen
            if kind == "set": return sh_set(list(gen))
            return L(list(gen))
        q = as_seq(it)
        def mask(k):
            t = lift(c(q.get(k))); t = truth(t)
            return t if q.mask is None else And(q.mask(k), t)
        r = Seq(q.n, lambda k: g(q.get(k)), q.mask if c is None else mask)
        if kind == "gen": return r
        if kind == "set": return sh_set(r)
        return L(site=npshim.caller_site(), base=r)
    def eq(s, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and ("\ue000" in a or "\ue000" in b): return streq(a, b)
        return a == b
    def ne(s, a, b):
        if isinstance(a, str) and isinstance(b, str) and ("\ue000" in a or "\ue000" in b):
            r = streq(a, b); return (not r) if isinstance(r, bool) else S(Not(r.t), "pybool", 0, 1)
        return a != b
    def contains(s, c, x):
        if hasattr(c, "_vf_contains"): return c._vf_contains(x)
        if isinstance(c, (tuple, list)) and isinstance(x, S):
            return S(Or(*[sym.eq_term(x, v) for v in c if isnum(v)] or [BoolVal(False)]), "pybool", 0, 1)
        if isinstance(c, range) and isinstance(x, S) and c.step == 1 and sym.isintk(x.k): return S(And(x.t >= c.start, x.t < c.stop), "pybool", 0, 1)
        if isinstance(c, L) and c.base is not None and getattr(s.e, "set_hook", None):
            r = s.e.set_hook(c)
            if r is not None: return r._vf_contains(x)
        if isinstance(c, L) and isinstance(x, S): return S(Or(*[sym.eq_term(x, v) for v in c.conc() if isnum(v)] or [BoolVal(False)]), "pybool", 0, 1)
        return x in c
    def mod(s, a, b):
        if isinstance(a, str):
            return strmod(a, b)
        return a % b
    def join(s, sep, xs):
        if not isinstance(sep, (str, bytes)): return sep.join(xs)
        if native_ok(xs):
            xs = list(native_iter(xs))
            if any(isinstance(x, (iomod.Bytes,)) for x in xs):
                r = None
                for x in xs: r = (x if isinstance(x, iomod.Bytes) else iomod.bytes_const(x)) if r is None else r + sep + x if sep else r + x
                return r
            return sep.join(xs)
        return iomod.join_seq(sep, as_seq(xs))
    def format_(s, f, *a, **k):
        if isinstance(f, str): return f.format(*a, **k)
        return f.format(*a, **k)
def frozen(b):
    n = object.__new__(npshim.Buf); n.kind, n.n, n.get, n.mask = b.kind, b.n, b.get, b.mask; n._birth = 10**12; n._key = "frozen"; n._sq = getattr(b, "_sq", None)
    if n._sq is None: del n._sq
    return n
def unpack(x, n):
    if isinstance(x, (tuple, list)): return x
    if isinstance(x, L): return x.conc()
    if isinstance(x, A): return [x[i] for i in range(n)]
    return tuple(x)
def streq(a, b):
    if a == b: return True
    e = eng()
    if e.streq_hook:
        r = e.streq_hook(a, b)
        if r is not None: return r
    pa, pb = pieces(a), pieces(b)
    # same literal skeleton with hexadecimal/decimal tokens
    if len(pa) == len(pb) and all((isinstance(x, str) and x == y) or (not isinstance(x, str) and not isinstance(y, str) and x[1] == y[1] and isnum(x[0]) and isnum(y[0])) for x, y in zip(pa, pb)):
        return S(And(*[sym.eq_term(x[0], y[0]) for x, y in zip(pa, pb) if not isinstance(x, str)]), "pybool", 0, 1)
    for u, v, pv in ((a, b, pb), (b, a, pa)):
        if "\ue000" in u or sum(not isinstance(x, str) for x in pv) != 1: continue
        i = [not isinstance(x, str) for x in pv].index(True); pre, post = "".join(pv[:i]), "".join(pv[i + 1:]); x, spec = pv[i]
        if not isnum(x) or sym.isfltk(lift(x).k) or spec not in ("x", "d", ""): continue
        x = sym.asint(lift(x))
        if not (u.startswith(pre) and u.endswith(post) and len(u) > len(pre) + len(post)): return False
        mid = u[len(pre):len(u) - len(post)]
        try: val = int(mid, 16 if spec == "x" else 10)
        except ValueError: return False
        if format(val, "x" if spec == "x" else "d") != mid: return False
        return S(x.t == val, "pybool", 0, 1)
    return S(e.fresh_bool("streq", weak=True), "pybool", 0, 1)
def pieces(x):
    out = []; p = 0
    for m in iomod._tok.finditer(x):
        if m.start() > p: out.append(x[p:m.start()])
        out.append(eng().tokens[int(m.group(1))]); p = m.end()
    if p < len(x): out.append(x[p:])
    return out
def strmod(f, args):
    args = args if isinstance(args, tuple) else (args,)
    if not any(isinstance(a, (S, A, L)) for a in args): return f % args
    out = ""; i = 0; p = 0
    for m in re.finditer(r"%(%|([0-9.]*)([a-zA-Z]))", f):
        out += f[p:m.start()]; p = m.end()
        if m.group(1) == "%": out += "%"; continue
        a = args[i]; i += 1
        if isinstance(a, S): out += eng().token(a, (m.group(2) or "") + ("" if m.group(3) == "s" else m.group(3)))
        else: out += ("%" + m.group(1)) % (a,)
    return out + f[p:]

_code = {}
def compiled(path, modname):
    st = os.stat(path); key = (path, st.st_mtime_ns, st.st_size)
    if key not in _code:
        src = open(path).read(); t = ast.parse(src, path)
        # the guard 'if __name__ == "__main__"' never fires; it is executed as written
        t = Instr(modname).visit(t); ast.fix_missing_locations(t)
        _code[key] = compile(t, path, "exec")
    return _code[key]

class Loader:
    def __init__(s, engine, overrides=None, mods=None):
        s.e = engine; s.vf = VF(overrides or {}, engine); s.mods = {}; s.extra = mods or {}
        s.b = dict(vars(builtins)); s.b.update(SHIMS); s.b["__import__"] = s.imp
        s.b["_vf"] = s.vf; s.b["_vf_locals"] = builtins.locals
        import contextlib
        s.shim = {"numpy": NP, "tqdm": Mod("tqdm", tqdm=tqdm_shim, trange=sh_range), "tqdm.auto": Mod("tqdm.auto", tqdm=tqdm_shim), "pathlib": Mod("pathlib", Path=iomod.VPath, PurePath=iomod.VPath, PosixPath=iomod.VPath),
                  "struct": iomod.STRUCT, "bisect": BisectShim(), "math": MathShim(), "os": OsShim(), "os.path": OsShim.path, "sys": SysShim(), "warnings": WarnShim(), "secrets": Mod("secrets", token_hex=lambda n=32: "5e" * (n or 32), token_urlsafe=lambda n=32: "5e" * (n or 32)),
                  "logging": Mod("logging", getLogger=lambda *a: NullLogger(), debug=lambda *a, **k: None, info=lambda *a, **k: None, warning=lambda *a, **k: None, error=lambda *a, **k: None, DEBUG=10, INFO=20, WARNING=30, ERROR=40, Formatter=object, Logger=NullLogger, StreamHandler=NullLogger, FileHandler=NullLogger, basicConfig=lambda **k: None),
                  "fpfind.lib.logging": Mod("fpfind.lib.logging", get_logger=lambda *a, **k: NullLogger(), verbosity2level=lambda v: 0, set_logfile=lambda *a, **k: None),
                  "scipy": Mod("scipy"), "matplotlib": Mod("matplotlib"), "time": Mod("time", time=lambda: 0.0, perf_counter=lambda: 0.0, monotonic=lambda: 0.0)}
        for m in ("numpy", "struct", "math", "bisect", "os", "os.path", "sys", "warnings"):
            pass
        s.shim["argparse"], s.shim["configargparse"] = argparse_mods()
        s.shim.update(s.extra)
    def imp(s, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = (globs or {}).get("__package__") or (globs or {}).get("__name__", "").rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1]); name = base + "." + name if name else base
        if name in s.shim and (name.split(".")[0] not in ("fpfind",) or name in s.shim):
            if not fromlist and "." in name: return s.shim.get(name.split(".")[0]) or s.shim[name]
            return s.shim[name]
        top = name.split(".")[0]
        if top == "fpfind":
            parts = name.split(".")
            for i in range(1, len(parts) + 1): s.load(".".join(parts[:i]))
            if fromlist:
                m = s.mods[name]
                for f in fromlist:
                    if not hasattr(m, f):
                        try: s.load(name + "." + f)
                        except ModuleNotFoundError: pass
                return m
            return s.mods["fpfind"]
        if top in s.shim:
            raise Unsupported("import " + name)
        m = __import__(name, {}, {}, tuple(fromlist or ()), 0)
        if name == "functools" and False: return m
        return m
    def load(s, name):
        if name in s.mods: return s.mods[name]
        if '.' in name: s.load(name.rpartition('.')[0])
        if name in s.mods: return s.mods[name]
        if name in s.shim:
            s.mods[name] = s.shim[name]
        else:
            rel = name.replace(".", "/"); path = os.path.join(SRC, rel + ".py"); pk = os.path.join(SRC, rel, "__init__.py"); isp = False
            if os.path.isfile(pk): path, isp = pk, True
            elif not os.path.isfile(path):
                if os.path.isdir(os.path.join(SRC, rel)):
                    m = Mod(name); m.__path__ = []; s.mods[name] = m; s.attach(name); return m
                raise ModuleNotFoundError(name)
            m = Mod(name); m.__file__ = path; m.__package__ = name if isp else name.rpartition(".")[0]; m.__builtins__ = s.b
            if isp: m.__path__ = []
            s.mods[name] = m; s.attach(name)
            code = compiled(path, name)
            exec(code, m.__dict__)
            return m
        s.attach(name); return s.mods[name]
    def attach(s, name):
        p, _, c = name.rpartition(".")
        if p: 
            if p not in s.mods: s.load(p)
            try: setattr(s.mods[p], c, s.mods[name])
            except Exception: pass
