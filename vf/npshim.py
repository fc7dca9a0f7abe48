"""Symbolic numpy subset (numpy 1.26 semantics), lists and sequences."""
import math, operator, builtins
from fractions import Fraction
import numpy as RNP
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
import sym
from sym import S, Unsupported, lift, concrete, isnum, binop, unop, cast, ite, intt, real, truth, INTK, FLTK, pyerr, I, eng, eq_term

# ---------------------------------------------------------------- dtypes
class DT:
    def __init__(s, name): s.name = name
    def __repr__(s): return "dtype(%s)" % s.name
    def __call__(s, x=0, *a):
        if a: raise Unsupported("dtype call")
        if isinstance(x, str): x = float(x) if s.name in FLTK else int(x)
        if isinstance(x, A): return x.astype(s)
        if isinstance(x, (L, list, tuple, Seq)): return np_array(x, dtype=s)
        if x is None: raise Unsupported("dtype(None)")
        return cast(x, s.name)
    def __eq__(s, o):
        try: return s.name == kind_of(o)
        except BaseException: return False
    def __hash__(s): return hash(s.name)
    @property
    def type(s): return s
    @property
    def kind(s): return "u" if s.name[:4] == "uint" else "i" if s.name[:3] == "int" else "f" if s.name in FLTK else "b" if s.name == "bool" else "O"
    @property
    def itemsize(s): return 16 if s.name == "longdouble" else 1 if s.name == "bool" else int(s.name.strip("uintfloat")) // 8
    def newbyteorder(s, *a): raise Unsupported("newbyteorder")
DTS = {k: DT(k) for k in list(INTK) + list(FLTK) + ["bool", "object"]}
class StrDT:
    def __init__(s, w): s.width = w; s.name = "U%d" % w
_code = {"I": "uint32", "L": "uint64", "Q": "uint64", "i": "int32", "q": "int64", "H": "uint16", "B": "uint8", "b": "int8", "d": "float64", "f": "float32", "g": "longdouble", "?": "bool", "O": "object",
         "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64", "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "f8": "float64", "f4": "float32", "f16": "longdouble",
         "uint": "uint64", "int": "int64", "float": "float64", "float128": "longdouble", "longdouble": "longdouble", "double": "float64", "bool_": "bool"}
def kind_of(dt):
    if isinstance(dt, DT): return dt.name
    if isinstance(dt, StrDT): return dt.name
    if dt is int or getattr(dt, "_vf_type", None) is int: return "int64"
    if dt is float or getattr(dt, "_vf_type", None) is float: return "float64"
    if dt is bool or getattr(dt, "_vf_type", None) is bool: return "bool"
    if dt is object: return "object"
    if isinstance(dt, str):
        if dt and dt[0] == ">": raise Unsupported("big-endian dtype")
        d = dt.lstrip("=<|")
        if d in DTS: return d
        if d in _code: return _code[d]
        if d[0] == "U" and d[1:].isdigit(): return d
    raise Unsupported("dtype %r" % (dt,))

# ---------------------------------------------------------------- sequences
def nn(x):
    """length as S"""
    return x if isinstance(x, S) else lift(x)
class Seq:
    """Immutable sequence get(k) for 0<=k<n (k z3 Int), restricted to mask(k) if given."""
    def __init__(s, n, get, mask=None): s.n, s.get, s.mask = nn(n), get, mask
def zi(k): return IntVal(k) if isinstance(k, int) else k.t if isinstance(k, S) else k
def seq_of_values(vals):
    vals = list(vals)
    def get(k):
        c = z3.simplify(zi(k))
        if z3.is_int_value(c): return vals[c.as_long()]
        if not all(isnum(v) for v in vals): raise Unsupported("symbolic index into non-numeric list")
        if not vals: return lift(0)
        r = lift(vals[-1])
        for i in range(len(vals) - 2, -1, -1): r = ite(c == i, vals[i], r)
        return r
    return Seq(len(vals), get)
def concat_seq(a, b):
    ca = concrete(a.n)
    if a.mask is not None or b.mask is not None: raise Unsupported("concatenation of filtered sequences")
    if ca == 0: return b
    if concrete(b.n) == 0: return a
    na = a.n.t
    def get(k):
        k = zi(k); c = z3.simplify(k < na)
        if z3.is_true(c): return a.get(k)
        if z3.is_false(c): return b.get(z3.simplify(k - na))
        x, y = a.get(k), b.get(z3.simplify(k - na))
        if isnum(x) and isnum(y): return ite(c, x, y)
        if eng().branch(c): return x
        return y
    return Seq(binop("+", a.n, b.n), get)

class Filtered:
    """symbolic length of a filtered sequence"""

def masked_len(q):
    """length of a sequence (fresh count when filtered)"""
    if q.mask is None: return q.n
    e = eng()
    key = getattr(q, "_cnt", None)
    if key is None:
        c = e.fresh_int("cnt"); q._cnt = key = I(c, 0)
        e.assume(And(c >= 0, c <= q.n.t))
        k = e.fresh_int("w"); e.assume(Implies(c > 0, And(k >= 0, k < q.n.t, q.mask(k))))
        j = z3.Int(e.name("q"))
        try: e.assume(Implies(c == 0, z3.ForAll([j], Implies(And(j >= 0, j < q.n.t), Not(q.mask(j))))))
        except Unsupported: pass
        q._first = None
    return key
def masked_first(q):
    e = eng()
    if getattr(q, "_first", None) is None:
        k = e.fresh_int("first"); q._first = k
        j = z3.Int(e.name("q"))
        e.assume(And(k >= 0, k < q.n.t, q.mask(k)))
        e.assume(z3.ForAll([j], Implies(And(j >= 0, j < k), Not(q.mask(j)))))
    return q._first
def masked_last(q):
    e = eng()
    if getattr(q, "_last", None) is None:
        k = e.fresh_int("last"); q._last = k
        j = z3.Int(e.name("q"))
        e.assume(And(k >= 0, k < q.n.t, q.mask(k)))
        e.assume(z3.ForAll([j], Implies(And(j > k, j < q.n.t), Not(q.mask(j)))))
    return q._last

class Slc:
    pass
def norm_index(i, n):
    """python index -> z3 index with IndexError path"""
    i = lift(i)
    if sym.isfltk(i.k): raise pyerr(IndexError, "only integers are valid indices")
    i = sym.asint(i); n = nn(n)
    if i.lo is not None and i.lo >= 0: neg = False
    elif i.hi is not None and i.hi < 0: neg = True
    else: neg = eng().branch(i.t < 0)
    t = n.t + i.t if neg else i.t
    if not eng().branch(And(t >= 0, t < n.t)): raise pyerr(IndexError, "list index out of range")
    return z3.simplify(t)
def norm_slice(sl, n):
    """slice -> (start term, length S, step)"""
    n = nn(n)
    step = 1 if sl.step is None else concrete(sl.step)
    if step is None: raise Unsupported("symbolic slice step")
    if step == -1 and sl.start is None and sl.stop is None: return binop("-", n, 1).t, n, -1
    if step < 1: raise Unsupported("slice step")
    def clip(v, d):
        if v is None: return d
        v = sym.asint(lift(v))
        if sym.isfltk(v.k): raise pyerr(TypeError, "slice indices must be integers")
        if v.lo is not None and v.lo >= 0: r = v
        elif v.hi is not None and v.hi < 0: r = binop("+", n, v); r = ite(r.t < 0, lift(0), r)
        else:
            if eng().branch(v.t < 0): r = binop("+", n, v); r = ite(r.t < 0, lift(0), r)
            else: r = v
        if eng().cheap_valid(r.t <= n.t): return r
        return ite(r.t > n.t, n, r)
    a, b = clip(sl.start, lift(0)), clip(sl.stop, n)
    if eng().cheap_valid(a.t <= b.t): d = binop("-", b, a)
    else: d = ite(b.t > a.t, binop("-", b, a), lift(0))
    d = sym.restrict(d, 0, None)
    if step != 1: d = binop("//", binop("+", d, step - 1), step)
    return z3.simplify(a.t), sym.restrict(d, 0, None), step

# ---------------------------------------------------------------- python lists
class L:
    """tracked Python list: base Seq (or None) followed by concrete tail"""
    def __init__(s, items=(), site=None, base=None):
        s.base = base; s.tail = list(items) if base is None or items else []
        eng().register(s, site or caller_site())
    # state protocol for loop summaries
    def cells(s): return ["list"]
    def get_cell(s, c): return s.seq()
    def set_cell(s, c, v): s.base, s.tail = v, []
    def seq(s):
        if s.base is None: return seq_of_values(s.tail)
        if not s.tail: return s.base
        return concat_seq(s.base, seq_of_values(s.tail))
    def is_conc(s): return s.base is None
    def conc(s):
        if s.base is None: return s.tail
        c = concrete(s.base.n)
        if c is not None and s.base.mask is None and c <= 64: s.tail = [s.base.get(IntVal(i)) for i in range(c)] + s.tail; s.base = None; return s.tail
        raise Unsupported("symbolic list used as a native sequence")
    def length(s):
        if s.base is None: return lift(len(s.tail))
        return binop("+", masked_len(s.base), len(s.tail))
    def _vf_len(s):
        return len(s.tail) if s.base is None else s.length()
    def __len__(s): return len(s.conc())
    def __iter__(s):
        if s.base is not None: s.conc()
        i = 0
        while i < len(s.tail): yield s.tail[i]; i += 1
    def __bool__(s):
        return len(s.tail) > 0 if s.base is None else bool(binop(">", s.length(), 0))
    def touch(s): eng().touch(s, "list")
    def append(s, x): s.touch(); s.tail.append(x)
    def extend(s, xs):
        s.touch()
        q = as_seq(xs)
        c = concrete(q.n)
        if q.mask is None and c is not None and c <= 4096: s.tail.extend(q.get(IntVal(i)) for i in range(c))
        else: s.base = concat_seq(s.seq(), q); s.tail = []
    def __iadd__(s, xs): s.extend(xs); return s
    def pop(s, i=-1): s.touch(); return s.conc().pop(i if isinstance(i, int) else concrete(i))
    def insert(s, i, x): s.touch(); s.conc().insert(i, x)
    def clear(s): s.touch(); s.base = None; s.tail = []
    def reverse(s): s.touch(); s.conc().reverse()
    def sort(s, **k): s.touch(); s.conc().sort(**k)
    def copy(s): return L(site="copy", base=s.seq()) if s.base is not None else L(s.tail, "copy")
    def index(s, x): return s.conc().index(x)
    def count(s, x): 
        r = lift(0)
        for v in s.conc(): r = binop("+", r, ite(eq_term(v, x), 1, 0))
        return r
    def __contains__(s, x):
        for v in s.conc():
            if v is x or bool(v == x): return True
        return False
    def __add__(s, o):
        if s.base is None and isinstance(o, L) and o.base is None: return L(s.tail + o.tail, "add")
        return L(site="add", base=concat_seq(s.seq(), as_seq(o)))
    def __mul__(s, n):
        n = concrete(n)
        if n is None: raise Unsupported("list repetition")
        return L(s.conc() * n, "mul")
    __rmul__ = __mul__
    def __getitem__(s, i):
        if isinstance(i, slice):
            if s.base is None and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)): return L(s.tail[i], "slice")
            q = s.seq()
            if q.mask is not None: raise Unsupported("slice of filtered list")
            st, n, step = norm_slice(i, q.n)
            return L(site="slice", base=Seq(n, lambda k: q.get(z3.simplify(st + step * zi(k)))))
        if s.base is None and isinstance(i, int): return s.tail[i]
        c = concrete(i) if isnum(i) else None
        if s.base is None and c is not None: return s.tail[c]
        q = s.seq()
        if q.mask is not None: return masked_item(q, i)
        return q.get(norm_index(i, q.n))
    def __setitem__(s, i, v):
        s.touch()
        if isinstance(i, slice): s.conc()[i] = list(as_native(v)); return
        c = concrete(i)
        if s.base is None and c is not None: s.tail[c] = v; return
        q = s.seq(); k = norm_index(i, q.n)
        if s.base is None: s.tail = [ite(k == j, v, x) for j, x in enumerate(s.tail)]
        else: s.base = Seq(q.n, lambda j: ite(zi(j) == k, v, q.get(j))); s.tail = []
    def __eq__(s, o):
        if isinstance(o, (L, list)):
            a, b = s.conc(), o.conc() if isinstance(o, L) else o
            return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))
        return NotImplemented
    __hash__ = None
    def __repr__(s): return repr(s.tail) if s.base is None else eng().token(s, "")
    def __format__(s, spec): return eng().token(s, spec)
    def __str__(s): return eng().token(s, "")

def masked_item(q, i):
    e = eng(); c = concrete(i)
    n = masked_len(q)
    if c == 0:
        if not e.branch(n.t > 0): raise pyerr(IndexError, "index 0 is out of bounds")
        return q.get(masked_first(q))
    if c == -1:
        if not e.branch(n.t > 0): raise pyerr(IndexError, "index -1 is out of bounds")
        return q.get(masked_last(q))
    raise Unsupported("index into a filtered sequence")

def as_native(x):
    if isinstance(x, L): return x.conc()
    return x
def as_seq(x):
    if isinstance(x, Seq): return x
    if isinstance(x, L): return x.seq()
    if isinstance(x, A):
        if x.ndim0: raise pyerr(TypeError, "iteration over a 0-d array")
        if x.cols is not None: return Seq(x.n, lambda k: x.row(k))
        return x.seq()
    if isinstance(x, (list, tuple)): return seq_of_values(x)
    if isinstance(x, (bytes, bytearray)): return seq_of_values(list(x))
    if hasattr(x, "_vf_seq"): return x._vf_seq()
    if isinstance(x, (range, dict, set, frozenset, map, zip, enumerate, filter)) or hasattr(x, "__next__") or hasattr(x, "__iter__"):
        return seq_of_values(list(x))
    raise pyerr(TypeError, "object is not iterable: %s" % type(x).__name__)

import sys as _sys
def caller_site():
    f = _sys._getframe(1)
    while f is not None and "/vf/" in f.f_code.co_filename: f = f.f_back
    return "%s:%d" % (f.f_code.co_name, f.f_lineno) if f else "?"

# ---------------------------------------------------------------- arrays
class Buf:
    def __init__(s, kind, n, get, mask=None, site=None):
        s.kind, s.n, s.get, s.mask = kind, nn(n), get, mask
        eng().register(s, site or caller_site())
    def cells(s): return ["arr"]
    def get_cell(s, c): return Seq(s.n, s.get, s.mask)
    def set_cell(s, c, v): s.n, s.get, s.mask = v.n, v.get, v.mask

class A:
    def __init__(s, kind=None, n=None, get=None, mask=None, buf=None, view=None, cols=None, ndim0=False):
        s.buf = buf or Buf(kind, n, get, mask)
        s.view = view            # None or (n S, f(k)->buffer index)
        s.cols = cols; s.ndim0 = ndim0
    @property
    def kind(s): return s.buf.kind
    @property
    def flatn(s): return s.view[0] if s.view else s.buf.n
    @property
    def n(s): return s.flatn if s.cols is None else binop("//", s.flatn, s.cols)
    def getter(s):
        g = s.buf.get
        if s.view is None: return g
        f = s.view[1]; return lambda k: g(f(zi(k)))
    def seq(s):
        if s.cols is not None: raise Unsupported("2-d array as sequence")
        if s.view is None:
            key = (id(s.buf.get), id(s.buf.mask))
            c = getattr(s.buf, "_sq", None)
            if c is None or c[0] != key: s.buf._sq = c = (key, Seq(s.buf.n, s.buf.get, s.buf.mask))
            return c[1]
        if s.buf.mask is not None: raise Unsupported("view of a filtered array")
        return Seq(s.view[0], s.getter())
    def row(s, r):
        r = zi(r); f = s.view[1] if s.view else (lambda k: k); c = s.cols
        return A(buf=s.buf, view=(lift(c), lambda k: f(z3.simplify(r * c + zi(k)))))
    # --- shape
    @property
    def shape(s): return () if s.ndim0 else (s._len(),) if s.cols is None else (s._len(), s.cols)
    @property
    def ndim(s): return 0 if s.ndim0 else 1 if s.cols is None else 2
    @property
    def size(s): return s._len() if s.cols is None else unl(s.flatn)
    @property
    def dtype(s): return DTS[s.kind] if s.kind in DTS else StrDT(int(s.kind[1:]))
    @property
    def T(s):
        if s.cols is None: return s
        raise Unsupported("transpose")
    def _len(s):
        if s.ndim0: raise pyerr(TypeError, "len() of unsized object")
        if s.cols is None and s.buf.mask is not None: return unl(masked_len(s.seq()))
        return unl(s.n)
    _vf_len = _len
    def __len__(s):
        c = concrete(s._len())
        if c is None: raise Unsupported("native len of symbolic array")
        return c
    def __iter__(s):
        q = as_seq(s); c = concrete(q.n)
        if c is None or q.mask is not None: raise Unsupported("native iteration over symbolic array")
        for i in range(c): yield q.get(IntVal(i))
    def __bool__(s):
        if concrete(s.flatn) == 1: return bool(s.getter()(IntVal(0)))
        raise Unsupported("truth value of an array")
    __hash__ = None
    def __format__(s, spec): return eng().token(s, spec)
    def __str__(s): return eng().token(s, "")
    __repr__ = __str__
    # --- indexing
    def __getitem__(s, i):
        if isinstance(i, L): i = np_array(i)
        if isinstance(i, tuple):
            if s.cols is None: raise Unsupported("index tuple on 1-d array")
            r, c = i
            if isinstance(c, slice):
                if c.start is None and c.stop is None and c.step is None: return s[r]
                raise Unsupported("column slice")
            c = concrete(c)
            if c is None or not -s.cols <= c < s.cols: raise pyerr(IndexError, "index %s out of bounds" % c) if c is not None else Unsupported("symbolic column")
            c %= s.cols; f = s.view[1] if s.view else (lambda k: k); m = s.cols
            col = A(buf=s.buf, view=(s.n, lambda k: f(z3.simplify(zi(k) * m + c))))
            if isinstance(r, slice) and r == slice(None): return col
            return col[r]
        if s.cols is not None:
            if isinstance(i, slice):
                st, n, step = norm_slice(i, s.n); f = s.view[1] if s.view else (lambda k: k); m = s.cols
                if step != 1: raise Unsupported("row step")
                return A(buf=s.buf, view=(binop("*", n, m), lambda k: f(z3.simplify(st * m + zi(k)))), cols=m)
            return s.row(norm_index(i, s.n))
        if i is Ellipsis: return A(buf=s.buf, view=s.view)
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None: return A(buf=s.buf, view=s.view)
            if s.buf.mask is not None: raise Unsupported("slice of filtered array")
            st, n, step = norm_slice(i, s.flatn); f = s.view[1] if s.view else (lambda k: k)
            return A(buf=s.buf, view=(n, lambda k: f(z3.simplify(st + step * zi(k)))))
        if isinstance(i, A):
            if i.kind == "bool": return s.compress(i)
            if i.buf.mask is None and i.cols is None:
                if s.buf.mask is not None: raise Unsupported("fancy index of filtered array")
                g, gi, n = s.getter(), i.getter(), s.flatn
                k = eng().fresh_int("fx")
                iv = gi(k)
                ok = Implies(And(k >= 0, k < i.flatn.t), And(iv.t >= 0, iv.t < n.t))
                if not eng().valid(ok): raise Unsupported("fancy index may be out of range or negative")
                return A(s.kind, i.flatn, lambda k: g(gi(k).t))
            raise Unsupported("index by filtered array")
        if isnum(i):
            if s.buf.mask is not None: return masked_item(s.seq(), i)
            return s.getter()(norm_index(i, s.flatn))
        raise Unsupported("array index %r" % type(i))
    def __setitem__(s, i, v):
        if isinstance(i, tuple): raise Unsupported("2-d assignment")
        e = eng(); b = s.buf
        if b.mask is not None: raise Unsupported("assignment into filtered array")
        e.touch(b, "arr")
        old = b.get; kind = s.kind
        f = s.view[1] if s.view else None
        if f is not None: raise Unsupported("assignment through a view")
        if i is Ellipsis: i = slice(None)
        if isinstance(i, slice):
            st, n, step = norm_slice(i, s.flatn)
            src = rhs(v, n)
            if step == 1:
                b.get = lambda k: ite(And(zi(k) >= st, zi(k) < st + n.t), cast(src(z3.simplify(zi(k) - st)), kind), old(k))
            elif step > 1:
                def get(k):
                    d = zi(k) - st
                    return ite(And(d >= 0, d % step == 0, d / step < n.t), cast(src(z3.simplify(d / step)), kind), old(k))
                b.get = get
            else: raise Unsupported("slice assignment step")
            return
        if isinstance(i, A) and i.kind == "bool":
            gm = i.getter()
            if isnum(v): b.get = lambda k: ite(truth(gm(zi(k))), cast(v, kind), old(k)); return
            if isinstance(v, A) and v.buf.mask is not None:
                same_mask(v.buf.mask, lambda k: truth(gm(zi(k))), s.flatn); gv = v.getter()
                b.get = lambda k: ite(truth(gm(zi(k))), cast(gv(k), kind), old(k)); return
            raise Unsupported("masked assignment")
        if isnum(i):
            k0 = norm_index(i, s.flatn); vv = cast(v, kind)
            b.get = lambda k: ite(zi(k) == k0, vv, old(k)); return
        raise Unsupported("array assignment")
    # --- methods
    def astype(s, dt, copy=True, **kw):
        k = kind_of(dt); g = s.getter()
        if not copy and k == s.kind: return s
        r = A(k, s.flatn, (lambda i: cast(g(zi(i)), k)), mask=s.buf.mask); r.cols = s.cols; return r
    def view(s, dt=None): raise Unsupported("view")
    def copy(s):
        g = s.getter(); r = A(s.kind, s.flatn, g, mask=s.buf.mask); r.cols = s.cols; return r
    def reshape(s, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, L)): shape = tuple(as_native(shape[0]))
        shape = [concrete(x) if isnum(x) else x for x in shape]
        if shape == [-1]: return A(buf=s.buf, view=s.view)
        if len(shape) == 2 and shape[0] == -1 and shape[1] and shape[1] > 0:
            if s.buf.mask is not None: raise Unsupported("reshape of filtered array")
            if not eng().branch(s.flatn.t % shape[1] == 0): raise pyerr(ValueError, "cannot reshape array")
            return A(buf=s.buf, view=s.view, cols=shape[1])
        raise Unsupported("reshape %r" % (shape,))
    def ravel(s): return A(buf=s.buf, view=s.view)
    flatten = lambda s: A(buf=s.buf, view=s.view).copy()
    def tolist(s):
        q = s.seq(); return L(site="tolist", base=Seq(q.n, lambda k: sym.to_py(q.get(k)), q.mask))
    def sum(s, axis=None, **k): return np_sum(s, axis)
    def min(s, **k): return NP.min(s)
    def max(s, **k): return NP.max(s)
    def any(s): return NP.any(s)
    def all(s): return NP.all(s)
    def nonzero(s): raise Unsupported("nonzero")
    def item(s, *a): return sym.to_py(s.getter()(IntVal(a[0] if a else 0)))
    def tobytes(s):
        import iomod
        return iomod.array_bytes(s)
    def tofile(s, f, *a):
        import iomod
        if a: raise Unsupported("tofile text")
        f.write(iomod.array_bytes(s))
    def argsort(s, **k): raise Unsupported("argsort")
    def argmax(s, **k): return NP.argmax(s)
    def mean(s, **k): return NP.mean(s, **k)
    def std(s, **k): return NP.std(s, **k)
    def round(s, *a): raise Unsupported("round")
    def conj(s): return NP.conjugate(s)
    def searchsorted(s, v, side="left"): return NP.searchsorted(s, v, side)
    def _in(op):
        def f(s, o):
            r = ew(op, s, o)
            if not isinstance(r, A): return NotImplemented
            ck = s.kind
            rk = r.kind
            if rk != ck and not can_cast(rk, ck): raise pyerr(TypeError, "Cannot cast ufunc output from %s to %s" % (rk, ck))
            b = s.buf; eng().touch(b, "arr"); eng().frame_write(b) if hasattr(eng(), "frame_write") else None
            g = r.getter()
            if s.view is not None:
                whole = A(buf=b); raise_if_view(s, g); return s
            b.get = lambda k: cast(g(zi(k)), ck)
            return s
        return f
    __iadd__, __isub__, __imul__, __ifloordiv__, __imod__, __itruediv__ = _in("+"), _in("-"), _in("*"), _in("//"), _in("%"), _in("/")
    __iand__, __ior__, __ixor__, __ilshift__, __irshift__ = _in("&"), _in("|"), _in("^"), _in("<<"), _in(">>")
def can_cast(a, b):
    """same_kind casting"""
    order = lambda k: 0 if k == "bool" else 1 if k[:4] == "uint" else 2 if k in INTK else 3 if k in FLTK else 4
    return order(a) <= order(b)
def raise_if_view(s, g):
    """in-place operation on a strided/offset view: write back through an affine index map"""
    b = s.buf; n, f = s.view; old = b.get; ck = b.kind
    k0, k1 = z3.simplify(f(IntVal(0))), z3.simplify(f(IntVal(1)) - f(IntVal(0)))
    step = k1.as_long() if z3.is_int_value(k1) else None
    t = z3.Int("__k")
    if step is None or step < 1 or not z3.is_true(z3.simplify(f(t) == k0 + step * t)): raise Unsupported("in-place operation on a view")
    def get(k):
        d = zi(k) - k0
        return ite(And(d >= 0, d % step == 0, d / step < n.t), cast(g(z3.simplify(d / step)), ck), old(k))
    b.get = get

def unl(s):
    """S length -> python int when concrete"""
    c = concrete(s); return s if c is None else c
def rhs(v, n):
    if isnum(v): return lambda k: v
    if isinstance(v, (L, list, tuple)): v = np_array(v)
    if isinstance(v, A):
        if v.buf.mask is not None: raise Unsupported("assignment from filtered array")
        if not eng().valid(v.flatn.t == n.t): raise Unsupported("assignment length")
        return v.getter()
    raise Unsupported("assignment value")
def same_mask(m1, m2, n):
    k = eng().fresh_int("mk")
    if not eng().valid(Implies(And(k >= 0, k < n.t), m1(k) == m2(k))): raise Unsupported("filters differ")
def same_filter(q1, q2):
    if not eng().valid(q1.n.t == q2.n.t): raise Unsupported("filtered lengths differ")
    if q1.mask is q2.mask: return
    same_mask(q1.mask, q2.mask, q1.n)

def ew(op, a, b):
    """elementwise operation"""
    if isinstance(a, (L, list, tuple)): a = np_array(a)
    if isinstance(b, (L, list, tuple)): b = np_array(b)
    for x in (a, b):
        if not isinstance(x, A) and not isnum(x): return NotImplemented
    aa, bb = isinstance(a, A) and not a.ndim0, isinstance(b, A) and not b.ndim0
    if isinstance(a, A) and a.ndim0: a = a.getter()(IntVal(0))
    if isinstance(b, A) and b.ndim0: b = b.getter()(IntVal(0))
    if not aa and not bb: return binop(op, a, b)
    if aa and bb:
        if (a.cols or 0) != (b.cols or 0): raise Unsupported("broadcast")
        mask = None
        if a.buf.mask is not None or b.buf.mask is not None:
            if a.buf.mask is None or b.buf.mask is None: raise Unsupported("operation on differently filtered arrays")
            same_filter(a.seq(), b.seq()); mask = a.buf.mask; n = a.buf.n
        else:
            n = a.flatn
            if not eng().cheap_valid(a.flatn.t == b.flatn.t):
                if eng().branch(a.flatn.t == b.flatn.t): pass
                elif eng().branch(b.flatn.t == 1):
                    return ew(op, a, b.getter()(IntVal(0)))
                elif eng().branch(a.flatn.t == 1): return ew(op, a.getter()(IntVal(0)), b)
                else: raise pyerr(ValueError, "operands could not be broadcast together")
        ga, gb = a.getter(), b.getter()
        kind = elk(op, S(None, a.kind), S(None, b.kind), True, True)
        r = A(kind, n, lambda k: binop(op, ga(zi(k)), gb(zi(k)), True, True), mask=mask); r.cols = a.cols; return r
    arr = a if aa else b
    if arr.kind not in DTS: 
        raise Unsupported("operation on string array")
    g = arr.getter(); sc = lift(b if aa else a)
    if aa: f = lambda k: binop(op, g(zi(k)), sc, True, False); kind = elk(op, dummy(arr.kind), sc, True, False)
    else: f = lambda k: binop(op, sc, g(zi(k)), False, True); kind = elk(op, sc, dummy(arr.kind), False, True)
    r = A(kind, arr.flatn, f, mask=arr.buf.mask); r.cols = arr.cols; return r
def dummy(k):
    d = S(IntVal(0) if sym.isintk(k) else RealVal(0) if sym.isfltk(k) else BoolVal(False), k); d.lo = d.hi = None
    return d
def elk(op, a, b, aa, bb):
    if op in sym.CMP: return "bool"
    rk = sym.result_kind(a, b, aa, bb)
    if op in ("&", "|", "^", "<<", ">>") and rk in FLTK: raise pyerr(TypeError, "ufunc '%s' not supported for the input types" % op)
    if op == "/" and rk not in FLTK and rk != "object": rk = "float64"
    return rk
for _n, _o in dict(add="+", sub="-", mul="*", truediv="/", floordiv="//", mod="%", pow="**", lshift="<<", rshift=">>", and_="&", or_="|", xor="^").items():
    nm = _n.rstrip("_")
    setattr(A, "__%s__" % nm, (lambda o: lambda s, x: ew(o, s, x))(_o))
    setattr(A, "__r%s__" % nm, (lambda o: lambda s, x: ew(o, x, s))(_o))
for _n, _o in dict(lt="<", le="<=", gt=">", ge=">=", eq="==", ne="!=").items():
    setattr(A, "__%s__" % _n, (lambda o: lambda s, x: ew(o, s, x))(_o))
def map_arr(a, f, kind=None):
    g = a.getter()
    r = A(kind or a.kind, a.flatn, lambda k: f(g(zi(k))), mask=a.buf.mask); r.cols = a.cols; return r
A.__neg__ = lambda s: map_arr(s, lambda x: unop("neg", x))
A.__pos__ = lambda s: s.copy()
A.__invert__ = lambda s: map_arr(s, lambda x: unop("inv", x))
A.__abs__ = lambda s: map_arr(s, lambda x: unop("abs", x))

def _compress(s, m):
    if m.buf.mask is not None or s.buf.mask is not None:
        if m.buf.mask is None or s.buf.mask is None: raise Unsupported("mask of filtered array")
        same_filter(s.seq(), m.seq())
        g, gm, om = s.getter(), m.getter(), s.buf.mask
        return A(s.kind, s.buf.n, g, mask=lambda k: And(om(zi(k)), truth(gm(zi(k)))))
    if not eng().branch(m.flatn.t == s.flatn.t): raise pyerr(IndexError, "boolean index did not match indexed array")
    g, gm = s.getter(), m.getter()
    return A(s.kind, s.flatn, g, mask=lambda k: truth(gm(zi(k))))
A.compress = _compress

# ---------------------------------------------------------------- construction
def seq_kind(q, vals=None):
    """numpy dtype of a list of python values"""
    c = concrete(q.n)
    if c == 0: return "float64"
    if c is not None and c <= 4096 and q.mask is None:
        ks = [sym.npkind_scalar(lift(q.get(IntVal(i)))) for i in range(c)]
        k = ks[0]
        for x in ks[1:]: k = sym.promote(k, x)
        return k
    v = q.get(eng().fresh_int("kd"))
    if not isnum(v): raise Unsupported("array of non-numbers")
    v = lift(v)
    if v.k == "pyint" and (v.lo is None or v.hi is None or v.lo < -2**63 or v.hi >= 2**63):
        k = eng().fresh_int("kq"); w = lift(q.get(k)); dom = And(k >= 0, k < q.n.t)
        if eng().valid(Implies(dom, And(w.t >= -2**63, w.t < 2**63))): return "int64"
        raise Unsupported("dtype of array of wide ints")
    return sym.npkind_scalar(v)
def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, A):
        if dtype is None or kind_of(dtype) == x.kind: return x.copy() if copy else x
        if x.ndim0: r = x.astype(dtype); r.ndim0 = True; return r
        return x.astype(dtype)
    if isnum(x):
        v = lift(x); k = kind_of(dtype) if dtype is not None else sym.npkind_scalar(v)
        v = cast(v, k); return A(k, 1, lambda i: v, ndim0=True)
    if isinstance(x, (L, list, tuple, Seq)) or hasattr(x, "_vf_seq"):
        q = as_seq(x)
        c = concrete(q.n)
        if c is not None and c > 0 and q.mask is None:
            v0 = q.get(IntVal(0))
            if isinstance(v0, (A, L, list, tuple)): raise Unsupported("2-d array construction")
        k = kind_of(dtype) if dtype is not None else seq_kind(q)
        if k in INTK and c is None:
            i = eng().fresh_int("cv"); v = lift(q.get(i))
            if isnum(v) and v.k == "pyint":
                lo, hi = INTK[k]
                if not (v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi):
                    dom = And(i >= 0, i < q.n.t) if q.mask is None else And(i >= 0, i < q.n.t, q.mask(i))
                    if not eng().valid(Implies(dom, And(v.t >= lo, v.t <= hi))):
                        if eng().choose(2) == 0: eng().assume(And(dom, Or(v.t < lo, v.t > hi))); raise pyerr(OverflowError, "Python integer out of bounds")
        def get(i):
            v = q.get(zi(i))
            if not isnum(v): raise Unsupported("array of %r" % type(v))
            v = lift(v)
            if k in INTK and v.k == "pyint" and c is None: v2 = S(v.t, k, v.lo, v.hi, v.tz); return v2
            if k in INTK and v.k == "pyint":
                lo, hi = INTK[k]
                if not (v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi) and not eng().branch(And(v.t >= lo, v.t <= hi)):
                    raise pyerr(OverflowError, "Python integer out of bounds")
                return S(v.t, k, v.lo, v.hi, v.tz)
            return cast(v, k) if k != "object" else v
        return A(k, q.n, get, mask=q.mask)
    raise Unsupported("np.array of %r" % type(x))

def np_sum(a, axis=None, **kw):
    if hasattr(a, "_vf_sum"): return a._vf_sum(axis)
    if isinstance(a, (L, list, tuple)): a = np_array(a)
    if isinstance(a, A) and a.cols is not None and axis in (1, -1):
        g, m = (lambda b=a: (A(buf=b.buf, view=b.view)).getter())(), a.cols
        def get(k):
            r = g(z3.simplify(zi(k) * m))
            for i in range(1, m): r = binop("+", r, g(z3.simplify(zi(k) * m + i)))
            return r
        kd = "int64" if a.kind in ("bool", "int8", "int16", "int32") else "uint64" if a.kind[:4] == "uint" else a.kind
        return A(kd, a.n, lambda k: cast(get(k), kd))
    if isinstance(a, A) and axis is None and a.cols is None and a.kind == "bool": return NP.count_nonzero(a)
    if isinstance(a, A) and a.cols is None:
        c = concrete(a.flatn)
        if c is not None and c <= 64 and a.buf.mask is None:
            r = lift(0); g = a.getter()
            for i in range(c): r = binop("+", r, g(IntVal(i)))
            return r
    h = getattr(eng(), "sum_hook", None)
    if h: return h(a)
    raise Unsupported("np.sum")

def py_round(x, nd=None):
    x = lift(x)
    if nd is not None and concrete(nd) is None: raise Unsupported("round digits")
    if nd is not None:
        nd = concrete(nd); f = Fraction(10) ** nd
        if sym.isintk(x.k): return x
        y = round_half_even(real(x) * RealVal(f)) ; return S(z3.ToReal(y) / RealVal(f), x.k)
    if not sym.isfltk(x.k): return sym.to_py(sym.asint(x))
    c = concrete(x)
    return lift(round(c)) if c is not None else I(round_half_even(real(x)))
def round_half_even(t):
    f = z3.ToInt(t); d = t - z3.ToReal(f)
    return If(d < RealVal("1/2"), f, If(d > RealVal("1/2"), f + 1, If(f % 2 == 0, f, f + 1)))

def allconc(*a):
    for x in a:
        if isinstance(x, S) and concrete(x) is None: return False
        if isinstance(x, (A, L, Seq)): return False
    return True
def tonative(x):
    if isinstance(x, S):
        c = concrete(x)
        if isinstance(c, Fraction): return RNP.longdouble(c.numerator) / RNP.longdouble(c.denominator) if x.k == "longdouble" else float(c)
        return getattr(RNP, x.k)(c) if x.k in INTK else c
    return x

class _NP:
    """the `numpy` module seen by the code under verification"""
    def __init__(s):
        for k in INTK: setattr(s, k, DTS[k])
        s.float64 = s.double = DTS["float64"]; s.float32 = DTS["float32"]; s.float128 = s.longdouble = s.longfloat = DTS["longdouble"]
        s.bool_ = DTS["bool"]; s.object_ = DTS["object"]; s.intp = s.int_ = DTS["int64"]; s.uintp = s.uint = DTS["uint64"]
        s.pi = math.pi; s.inf = math.inf; s.nan = math.nan; s.newaxis = None
        s.ndarray = A; s.integer = ("npclass", "int"); s.floating = ("npclass", "float"); s.number = ("npclass", "num"); s.generic = ("npclass", "num"); s.signedinteger = ("npclass", "sint"); s.unsignedinteger = ("npclass", "uint")
        s.array = np_array
        s.sum = np_sum
    def __getattr__(s, name):
        if name.startswith("__"): raise AttributeError(name)
        if name == "float256": raise AttributeError(name)
        f = getattr(RNP, name, None)
        if f is None: raise AttributeError("module 'numpy' has no attribute %r" % name)
        if not callable(f): raise Unsupported("numpy." + name)
        def call(*a, **k):
            if not allconc(*a, *k.values()): raise Unsupported("numpy.%s on symbolic values" % name)
            r = f(*[tonative(x) for x in a], **{x: tonative(y) for x, y in k.items()})
            if isinstance(r, (RNP.generic,)): return lift(r)
            if isinstance(r, RNP.ndarray): raise Unsupported("numpy.%s array result" % name)
            return r
        return call
    def asarray(s, x, dtype=None, **k): return np_array(x, dtype, copy=False)
    ascontiguousarray = asarray
    def zeros(s, n, dtype=float, **k): return s.full(n, 0, dtype)
    def ones(s, n, dtype=float, **k): return s.full(n, 1, dtype)
    def full(s, n, v, dtype=None, **k):
        n = shape1(n); kd = kind_of(dtype) if dtype is not None else sym.npkind_scalar(lift(v)); w = cast(v, kd)
        return A(kd, n, lambda i: w)
    def zeros_like(s, a, dtype=None): return s.full(a._len(), 0, dtype or a.dtype)
    def ones_like(s, a, dtype=None): return s.full(a._len(), 1, dtype or a.dtype)
    def empty_like(s, a, dtype=None): return s.empty(a._len(), dtype or a.dtype)
    def empty(s, n, dtype=float, **k):
        n = shape1(n); kd = kind_of(dtype); e = eng()
        srt = z3.RealSort() if kd in FLTK else z3.BoolSort() if kd == "bool" else z3.IntSort()
        F = e.fresh_fun("empty", z3.IntSort(), srt)
        def get(i):
            v = F(zi(i))
            if kd in INTK: e.assume(And(v >= INTK[kd][0], v <= INTK[kd][1]))
            return S(v, kd)
        return A(kd, n, get)
    def arange(s, *a, dtype=None, **k):
        a = [lift(x) for x in a]
        start, stop, step = (lift(0), a[0], lift(1)) if len(a) == 1 else (a[0], a[1], lift(1)) if len(a) == 2 else a
        if any(sym.isfltk(x.k) for x in (start, stop, step)): raise Unsupported("float arange")
        st = concrete(step)
        if st is None or st < 1: raise Unsupported("arange step")
        d = binop("-", stop, start); d = ite(d.t > 0, d, lift(0)) if not (d.lo is not None and d.lo >= 0) else d
        n = sym.restrict(binop("//", binop("+", d, st - 1), st) if st != 1 else d, 0, None)
        kd = kind_of(dtype) if dtype is not None else "int64"
        return A(kd, n, lambda i: cast(I(start.t + st * zi(i), None if start.lo is None else start.lo, None if stop.hi is None else stop.hi), kd))
    def where(s, c, *ab):
        if not ab: raise Unsupported("where(cond)")
        a, b = ab
        if not isinstance(c, A): raise Unsupported("where scalar")
        def el(x):
            if isinstance(x, A):
                if x.buf.mask is not None or c.buf.mask is not None:
                    if x.buf.mask is None or c.buf.mask is None: raise Unsupported("where filters")
                    same_filter(x.seq(), c.seq())
                elif not eng().valid(x.flatn.t == c.flatn.t): raise Unsupported("where shapes")
                return x.getter()
            return None
        ga, gb = el(a), el(b); gc = c.getter()
        da = dummy(a.kind) if ga else lift(a); db = dummy(b.kind) if gb else lift(b)
        kd = sym.result_kind(da, db, bool(ga), bool(gb)) if (ga or gb) else sym.promote(sym.npkind_scalar(da), sym.npkind_scalar(db))
        return A(kd, c.flatn, lambda k: cast(ite(truth(gc(zi(k))), ga(zi(k)) if ga else a, gb(zi(k)) if gb else b), kd), mask=c.buf.mask)
    def isin(s, a, vals, invert=False, **k):
        vs = list(as_native(vals) if not isinstance(vals, (A, Seq)) else vals)
        inv = invert if isinstance(invert, bool) else concrete(invert)
        def f(x):
            t = Or(*[eq_term(x, v) for v in vs]) if vs else BoolVal(False)
            return S(Not(t) if inv else t, "bool", 0, 1)
        if isnum(a): return f(a)
        return map_arr(a, f, "bool")
    def in1d(s, a, vals, invert=False): return s.isin(a, vals, invert)
    def count_nonzero(s, a, **k):
        if isnum(a): return ite(truth(lift(a)), 1, 0)
        if isinstance(a, (L, list, tuple)): a = np_array(a)
        c = concrete(a.flatn)
        if c is not None and c <= 64 and a.buf.mask is None:
            r = lift(0); g = a.getter()
            for i in range(c): r = binop("+", r, ite(truth(g(IntVal(i))), 1, 0))
            return r
        return count_true(a.seq())
    def bitwise_and(s, a, b): return ew("&", a, b)
    def bitwise_or(s, a, b): return ew("|", a, b)
    def bitwise_xor(s, a, b): return ew("^", a, b)
    def bitwise_not(s, a): return ~a
    invert = bitwise_not
    def left_shift(s, a, b): return ew("<<", a, b)
    def right_shift(s, a, b): return ew(">>", a, b)
    def logical_not(s, a): return map_arr(a, lambda x: S(Not(truth(x)), "bool", 0, 1), "bool") if isinstance(a, A) else S(Not(truth(lift(a))), "bool", 0, 1)
    def logical_and(s, a, b): return ew("&", tobool(a), tobool(b))
    def logical_or(s, a, b): return ew("|", tobool(a), tobool(b))
    def add(s, a, b): return ew("+", a, b)
    def subtract(s, a, b): return ew("-", a, b)
    def multiply(s, a, b): return ew("*", a, b)
    def divide(s, a, b): return ew("/", a, b)
    true_divide = divide
    def floor_divide(s, a, b): return ew("//", a, b)
    def mod(s, a, b): return ew("%", a, b)
    remainder = mod
    def equal(s, a, b): return ew("==", a, b)
    def not_equal(s, a, b): return ew("!=", a, b)
    def less(s, a, b): return ew("<", a, b)
    def less_equal(s, a, b): return ew("<=", a, b)
    def greater(s, a, b): return ew(">", a, b)
    def greater_equal(s, a, b): return ew(">=", a, b)
    def abs(s, a): 
        if isinstance(a, A): return abs(a)
        x = lift(a); k = sym.npkind_scalar(x); return unop("abs", cast(x, k))
    absolute = fabs = abs
    def floor(s, a):
        if isinstance(a, A): return map_arr(a, lambda x: sym.floor_(cast(x, "float64") if sym.isintk(x.k) else x), a.kind if a.kind in FLTK else "float64")
        x = lift(a); x = cast(x, "float64") if not sym.isnp(x.k) or x.k in INTK else x
        return sym.floor_(x)
    def log10(s, a): return logf(a, "log10")
    def log2(s, a): return logf(a, "log2")
    def log(s, a): return logf(a, "log")
    def ceil(s, a):
        if isinstance(a, A): raise Unsupported("ceil")
        x = lift(a); x = cast(x, "float64") if not sym.isnp(x.k) or x.k in INTK else x
        return unop("neg", sym.floor_(unop("neg", x)))
    def round(s, a, nd=0, **k):
        if isinstance(a, A) and not nd and a.kind in FLTK: return map_arr(a, lambda x: S(z3.ToReal(round_half_even(real(x))), x.k, g=0))
        if isinstance(a, A) or nd: raise Unsupported("np.round")
        x = lift(a); x = cast(x, "float64") if not sym.isnp(x.k) else x
        if sym.isintk(x.k): return x
        return S(z3.ToReal(round_half_even(real(x))), x.k, g=0)
    around = rint = round
    def append(s, a, b, axis=None): return s.concatenate((a, b))
    def concatenate(s, xs, axis=0, **k):
        xs = [x if isinstance(x, A) else np_array(x) for x in (as_native(xs) if not isinstance(xs, (Seq, A)) else xs)]
        xs = [x.ravel() if x.ndim0 else x for x in xs]
        r = xs[0]; kd = r.kind
        for x in xs[1:]: kd = sym.promote(kd, x.kind)
        sq = r.seq()
        for x in xs[1:]: sq = concat_seq(sq, x.seq())
        return A(kd, sq.n, lambda k: cast(sq.get(k), kd))
    hstack = concatenate
    def sort(s, a, **k):
        h = getattr(eng(), "sort_hook", None)
        if h: return h(a)
        raise Unsupported("np.sort")
    def unique(s, a, **k):
        if k: raise Unsupported("np.unique options")
        return Uniq(a)
    def any(s, a):
        c = s.count_nonzero(a); return binop(">", c, 0)
    def all(s, a):
        a2 = s.logical_not(a); return binop("==", s.count_nonzero(a2), 0)
    def min(s, a, **k): return extreme(a, "min")
    def max(s, a, **k): return extreme(a, "max")
    amin, amax = min, max
    def minimum(s, a, b): return pick2(a, b, "<")
    def maximum(s, a, b): return pick2(a, b, ">")
    def isscalar(s, x): return isnum(x)
    def ndim(s, x): return x.ndim if isinstance(x, A) else 0 if isnum(x) else 1
    def size(s, x): return x.size if isinstance(x, A) else 1 if isnum(x) else vlen(x)
    def shape(s, x): return np_array(x).shape
    def dtype(s, x): return DTS[kind_of(x)]
    def mean(s, a, **k):
        h = getattr(eng(), "mean_hook", None)
        if h and not k: return h(a)
        raise Unsupported("np.mean")
    def std(s, a, **k):
        h = getattr(eng(), "std_hook", None)
        if h and not k: return h(a)
        raise Unsupported("np.std")
    def cumsum(s, a, **k):
        h = getattr(eng(), "cumsum_hook", None)
        if h: return h(a)
        raise Unsupported("cumsum")
    def flip(s, a): return a[::-1]
    def copy(s, a): return a.copy()
    def argmax(s, a, **k):
        h = getattr(eng(), "argmax_hook", None)
        if h: return h(a)
        a = a if isinstance(a, A) else np_array(a)
        e = eng(); n = a.flatn; g = a.getter()
        if not e.branch(n.t > 0): raise pyerr(ValueError, "attempt to get argmax of an empty sequence")
        p = e.fresh_int("argmax"); e.assume(And(p >= 0, p < n.t))
        j = z3.Int(e.name("q"))
        vj, vp = g(j), g(p)
        e.assume(z3.ForAll([j], Implies(And(j >= 0, j < n.t), And(real(vj) <= real(vp), Implies(j < p, real(vj) < real(vp))))))
        return S(p, "int64", 0, None)
    def searchsorted(s, a, v, side="left", sorter=None):
        if not isnum(v) or sorter is not None: raise Unsupported("searchsorted")
        return S(bisect(a, v, side).t, "int64", 0, None)
    def iinfo(s, d):
        class R: min, max = INTK[kind_of(d)]
        return R
    def errstate(s, **k):
        import contextlib
        return contextlib.nullcontext()
    def seterr(s, **k): return {}
    def fromfile(s, file, dtype=float, count=-1, sep="", offset=0, **k):
        import iomod
        if sep: raise Unsupported("fromfile text")
        return iomod.fromfile(file, kind_of(dtype), count, offset)
    def frombuffer(s, b, dtype=float, count=-1, offset=0, **k):
        import iomod
        return iomod.frombuffer(b, kind_of(dtype), count, offset)
    def genfromtxt(s, f, *a, **k):
        import iomod
        return iomod.genfromtxt(f, *a, **k)
    def loadtxt(s, f, *a, **k):
        import iomod
        return iomod.genfromtxt(f, *a, **k)
    def bincount(s, a, weights=None, minlength=0):
        h = getattr(eng(), "bincount_hook", None)
        if h and weights is None: return h(a, minlength)
        raise Unsupported("bincount")
    def conjugate(s, a):
        h = getattr(eng(), "conj_hook", None)
        if h: return h(a)
        return a
    conj = conjugate
    def vectorize(s, f, **k): raise Unsupported("vectorize")
    def fromiter(s, it, dtype, count=-1): return np_array(as_seq(it), dtype)
    def bitwise_count(s, a): raise Unsupported("bitwise_count")
    def array_equal(s, a, b): raise Unsupported("array_equal")
    def save(s, *a): raise Unsupported("np.save")
    def atleast_1d(s, a):
        if isinstance(a, A): return a.ravel() if a.ndim0 else a
        if isnum(a): return np_array(a).ravel()
        return np_array(a)
    def atleast_2d(s, a): raise Unsupported("atleast_2d")
    def stack(s, *a, **k): raise Unsupported("stack")
    column_stack = vstack = stack
    def nonzero(s, a): raise Unsupported("nonzero")
    flatnonzero = argwhere = nonzero
    def diff(s, a):
        a = a if isinstance(a, A) else np_array(a)
        return a[1:] - a[:-1]
    def allclose(s, *a, **k): raise Unsupported("allclose")
    def issubdtype(s, d, c): raise Unsupported("issubdtype")
    def broadcast_to(s, x, n):
        if isnum(x): return s.full(n, x)
        raise Unsupported("broadcast_to")
    def repeat(s, x, n):
        if isnum(x): return s.full(n, x)
        raise Unsupported("repeat")
    def clip(s, x, a, b): raise Unsupported("clip")
NP = _NP()
def tobool(a): return map_arr(a, lambda x: S(truth(x), "bool", 0, 1), "bool") if isinstance(a, A) else S(truth(lift(a)), "bool", 0, 1)
def shape1(n):
    if isinstance(n, (tuple, L)): 
        n = as_native(n)
        if len(n) != 1: raise Unsupported("nd shape")
        n = n[0]
    n = lift(n)
    if sym.isfltk(n.k): raise pyerr(TypeError, "'float' object cannot be interpreted as an integer")
    return sym.asint(n)
def vlen(x):
    if hasattr(x, "_vf_len"): return x._vf_len()
    if isinstance(x, Seq): return unl(masked_len(x))
    return builtins.len(x)

def pick2(a, b, op):
    if isinstance(a, A) or isinstance(b, A):
        raise Unsupported("elementwise min/max")
    c = binop(op, a, b); return ite(truth(c), a, b)
def extreme(a, which):
    a = a if isinstance(a, A) else np_array(a)
    e = eng(); q = a.seq()
    if not e.branch(masked_len(q).t > 0): raise pyerr(ValueError, "zero-size array to reduction operation")
    p = e.fresh_int("ext"); dom = lambda j: And(j >= 0, j < q.n.t) if q.mask is None else And(j >= 0, j < q.n.t, q.mask(j))
    e.assume(dom(p)); j = z3.Int(e.name("q")); vp, vj = q.get(p), q.get(j)
    x, y = (real(vj), real(vp)) if sym.isfltk(vp.k) else (intt(vj), intt(vp))
    e.assume(z3.ForAll([j], Implies(dom(j), x >= y if which == "min" else x <= y)))
    return vp

def bisect(a, x, side):
    """contract of bisect on a sequence the caller has sorted: i splits it into < x and >= x (left) / <= x and > x (right)"""
    q = as_seq(a); e = eng()
    if q.mask is not None: raise Unsupported("bisect on filtered sequence")
    h = getattr(e, "bisect_pre", None)
    e.prove("bisect is applied to a sorted sequence", sorted_term(q), cases=None)
    i = e.fresh_int("bis"); e.assume(And(i >= 0, i <= q.n.t))
    j = z3.Int(e.name("q")); v = q.get(j)
    lt = truth(lift(binop("<", v, x))) if side == "left" else truth(lift(binop("<=", v, x)))
    dom = And(j >= 0, j < q.n.t)
    e.assume(z3.ForAll([j], Implies(dom, (j < i) == lt)))
    return I(i, 0, None)
def sorted_term(q):
    e = eng(); a, b = e.fresh_int("sa"), e.fresh_int("sb")
    x, y = q.get(a), q.get(b)
    return Implies(And(a >= 0, a <= b, b < q.n.t), real(x) <= real(y))

class Uniq:
    """np.unique of an array of small values"""
    def __init__(s, a): s.a = a if isinstance(a, A) else np_array(a)
    def has(s, v):
        c = NP.count_nonzero(ew("==", s.a, v))
        return binop(">", c, 0)
    def __iter__(s): raise Unsupported("iteration over unique values")
    def _vf_len(s): raise Unsupported("len of unique values")
    def tolist(s): return s
    def astype(s, *a): return s
    def __format__(s, spec): return eng().token(s, spec)

class SymSet:
    """set of small non-negative ints: membership formulas"""
    DOM = 16
    def __init__(s, items=()):
        s.m = {v: BoolVal(False) for v in range(s.DOM)}; s.other = set()
        eng().register(s, caller_site())
        s.update(items)
    def cells(s): return ["m%d" % i for i in range(s.DOM)]
    def get_cell(s, c): return S(s.m[int(c[1:])], "pybool", 0, 1)
    def set_cell(s, c, v): s.m[int(c[1:])] = truth(lift(v))
    def touch(s):
        for i in range(s.DOM): eng().touch(s, "m%d" % i)
    def update(s, *its):
        for it in its:
            if isinstance(it, Uniq):
                s.touch()
                for v in range(s.DOM): s.m[v] = z3.simplify(Or(s.m[v], truth(lift(it.has(v)))))
            elif isinstance(it, SymSet):
                s.touch()
                for v in range(s.DOM): s.m[v] = z3.simplify(Or(s.m[v], it.m[v]))
            elif isinstance(it, A):
                s.update(Uniq(it))
            else:
                for x in it: s.add(x)
    def add(s, x):
        s.touch(); x = lift(x)
        for v in range(s.DOM): s.m[v] = z3.simplify(Or(s.m[v], intt(x) == v))
    def union(s, *o): r = SymSet(); r.m = dict(s.m); r.update(*o); return r
    def __or__(s, o): return s.union(o)
    def __ior__(s, o): s.update(o); return s
    def __contains__(s, x):
        x = lift(x); return eng().branch(Or(*[And(intt(x) == v, s.m[v]) for v in range(s.DOM)]))
    def _vf_len(s):
        r = IntVal(0)
        for v in range(s.DOM): r = r + If(s.m[v], IntVal(1), IntVal(0))
        return I(r, 0, s.DOM)
    def __bool__(s): return eng().branch(Or(*s.m.values()))
    def __format__(s, spec): return eng().token(s, spec)
    def __iter__(s): raise Unsupported("iteration over symbolic set")

class SortedSet:
    def __init__(s, has): s.has = has
    def __format__(s, spec): return eng().token(s, spec)
    def __str__(s): return eng().token(s, "")
    __repr__ = __str__
    def _vf_len(s): raise Unsupported("len(sorted set)")

def logf(a, nm="log"):
    """computed for a constant, else an unspecified real (only its being finite is used; the argument must be positive)"""
    if not isnum(a): raise Unsupported("log of an array")
    e = eng(); x = lift(a); c = concrete(x)
    if c is not None and c > 0: return lift(getattr(RNP, nm)(RNP.float64(float(c))))
    e.prove("logarithm of a positive number", real(x) > 0)
    return S(z3.Function(nm + "f", z3.RealSort(), z3.RealSort())(real(x)), "float64")
def count_true(q):
    """number of true elements of a boolean sequence, via the contract's counters"""
    e = eng()
    for ctr in getattr(e, "counters", []):
        r = ctr(q)
        if r is not None: return r
    c = e.fresh_int("count", weak=True); e.assume(And(c >= 0, c <= q.n.t))
    return I(c, 0)
