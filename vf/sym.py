"""Symbolic values, path exploration and proof obligations (z3)."""
import math, time, traceback, itertools
from fractions import Fraction
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal, ToReal, ToInt

class Unsupported(BaseException): pass
class PathEnd(BaseException): pass
class Restart(BaseException): pass

INTK = {"uint8": (0, 2**8-1), "uint16": (0, 2**16-1), "uint32": (0, 2**32-1), "uint64": (0, 2**64-1),
        "int8": (-2**7, 2**7-1), "int16": (-2**15, 2**15-1), "int32": (-2**31, 2**31-1), "int64": (-2**63, 2**63-1)}
FLTK = {"float32": 24, "float64": 53, "longdouble": 64}
# python kinds: pyint, pyfloat, pybool ; numpy: INTK, FLTK, "bool", "object"

def isintk(k): return k in INTK or k == "pyint"
def isfltk(k): return k in FLTK or k == "pyfloat"
def isboolk(k): return k in ("bool", "pybool")
def isnp(k): return not k.startswith("py")

E = None       # current engine
def set_engine(e):
    global E; E = e
def eng(): return E

_big = 10**40
def _mn(*a): return None if any(x is None for x in a) else min(a)
def _mx(*a): return None if any(x is None for x in a) else max(a)

class S:
    """Scalar: z3 term t, kind k, interval lo..hi (exact numbers or None), tz = known factor 2^tz (ints), g = grid 2^-g (floats), tag."""
    __slots__ = ("t", "k", "lo", "hi", "tz", "g", "tag", "__weakref__")
    def __init__(s, t, k, lo=None, hi=None, tz=0, g=None, tag=None):
        s.t, s.k, s.lo, s.hi, s.tz, s.g, s.tag = t, k, lo, hi, tz, g, tag
        if k in INTK:
            a, b = INTK[k]
            s.lo = a if lo is None or lo < a else lo
            s.hi = b if hi is None or hi > b else hi
    def __repr__(s): return "S<%s:%s>" % (s.k, str(s.t)[:60])
    # --- python protocol
    def __bool__(s): return eng().branch(truth(s))
    def __hash__(s): raise Unsupported("hash of symbolic scalar")
    def __index__(s):
        v = concrete(s)
        if v is None: raise Unsupported("symbolic value used as a native index")
        return v
    __int__ = __index__
    def __float__(s):
        v = concrete(s)
        if v is None: raise Unsupported("symbolic value used as a native float")
        return float(v)
    def __format__(s, spec): return eng().token(s, spec)
    def __str__(s): return eng().token(s, "")
    def __add__(a, b): return binop("+", a, b)
    def __radd__(a, b): return binop("+", b, a)
    def __sub__(a, b): return binop("-", a, b)
    def __rsub__(a, b): return binop("-", b, a)
    def __mul__(a, b): return binop("*", a, b)
    def __rmul__(a, b): return binop("*", b, a)
    def __truediv__(a, b): return binop("/", a, b)
    def __rtruediv__(a, b): return binop("/", b, a)
    def __floordiv__(a, b): return binop("//", a, b)
    def __rfloordiv__(a, b): return binop("//", b, a)
    def __mod__(a, b): return binop("%", a, b)
    def __rmod__(a, b): return binop("%", b, a)
    def __divmod__(a, b): return binop("//", a, b), binop("%", a, b)
    def __rdivmod__(a, b): return binop("//", b, a), binop("%", b, a)
    def __pow__(a, b): return binop("**", a, b)
    def __rpow__(a, b): return binop("**", b, a)
    def __lshift__(a, b): return binop("<<", a, b)
    def __rlshift__(a, b): return binop("<<", b, a)
    def __rshift__(a, b): return binop(">>", a, b)
    def __rrshift__(a, b): return binop(">>", b, a)
    def __and__(a, b): return binop("&", a, b)
    def __rand__(a, b): return binop("&", b, a)
    def __or__(a, b): return binop("|", a, b)
    def __ror__(a, b): return binop("|", b, a)
    def __xor__(a, b): return binop("^", a, b)
    def __rxor__(a, b): return binop("^", b, a)
    def __lt__(a, b): return binop("<", a, b)
    def __le__(a, b): return binop("<=", a, b)
    def __gt__(a, b): return binop(">", a, b)
    def __ge__(a, b): return binop(">=", a, b)
    def __eq__(a, b): return binop("==", a, b)
    def __ne__(a, b): return binop("!=", a, b)
    def __neg__(a): return unop("neg", a)
    def __pos__(a): return a
    def __invert__(a): return unop("inv", a)
    def __abs__(a): return unop("abs", a)
    def __round__(a, nd=None): return eng().round_(a, nd)
    def __floor__(a): return to_pyint(floor_(a))
    def __ceil__(a): return to_pyint(unop("neg", floor_(unop("neg", a))))
    def __trunc__(a): return to_pyint(a)
    def is_integer(a):
        if isintk(a.k): return True
        return S(z3.IsInt(real(a)), "pybool")
    @property
    def value(s): raise AttributeError("value")
    # numpy scalar protocol
    @property
    def dtype(s):
        import npshim
        if not isnp(s.k): raise AttributeError("dtype")
        return npshim.DTS[s.k]
    @property
    def ndim(s):
        if not isnp(s.k): raise AttributeError("ndim")
        return 0
    @property
    def size(s): return 1
    def item(s): return to_py(s)
    def astype(s, dt, **kw):
        import npshim
        return cast(s, npshim.kind_of(dt))
    def to_bytes(s, length=1, byteorder="big", *, signed=False):
        import iomod
        return iomod.int_to_bytes(s, length, byteorder, signed)
    def bit_length(s):
        if s.lo is not None and s.lo >= 0 and s.hi is not None and s.hi < 2**20:
            n = s.hi.bit_length(); t = IntVal(0)
            for b in range(n): t = If(s.t >= 2**b, IntVal(b + 1), t)
            return S(t, "pyint", 0, n)
        raise Unsupported("bit_length")
    def conjugate(s): return s
    @property
    def real(s): return s
    def tolist(s): return to_py(s)

def concrete(x):
    """Python number if x has one value, else None."""
    if isinstance(x, S):
        t = z3.simplify(x.t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long()); return f
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return None
    return x

def lift(x):
    if isinstance(x, S): return x
    if isinstance(x, bool): return S(BoolVal(x), "pybool", int(x), int(x))
    if isinstance(x, int): return S(IntVal(x), "pyint", x, x, tz=(x & -x).bit_length() - 1 if x else 200)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): raise Unsupported("non-finite float")
        f = Fraction(x); return S(RealVal(f), "pyfloat", f, f, g=f.denominator.bit_length() - 1)
    if isinstance(x, Fraction):
        d = x.denominator; g = d.bit_length() - 1 if d & (d - 1) == 0 else None
        return S(RealVal(x), "pyfloat", x, x, g=g)
    try:
        import numpy as np
        if isinstance(x, np.bool_): return S(BoolVal(bool(x)), "bool", int(x), int(x))
        if isinstance(x, np.integer): return S(IntVal(int(x)), x.dtype.name, int(x), int(x), tz=(int(x) & -int(x)).bit_length() - 1 if x else 200)
        if isinstance(x, np.longdouble):
            a, b = x.as_integer_ratio(); f = Fraction(int(a), int(b)); return S(RealVal(f), "longdouble", f, f, g=f.denominator.bit_length() - 1)
        if isinstance(x, np.floating): return cast(lift(float(x)), "float64")
    except ImportError: pass
    if type(x).__name__ == "Poison": str(x)
    raise Unsupported("cannot lift %r" % type(x))

def isnum(x):
    import numpy as np
    return isinstance(x, (S, bool, int, float, Fraction, np.number, np.bool_))

def truth(s):
    if isboolk(s.k): return s.t
    return s.t != 0
def intt(s):
    """integer term of an int/bool scalar"""
    if isboolk(s.k): return If(s.t, IntVal(1), IntVal(0))
    return s.t
def real(s):
    if isfltk(s.k): return s.t
    t = intt(s)
    if z3.is_int_value(t): return RealVal(t.as_long())
    return ToReal(t)
def asint(s):
    """S of kind int view of bools"""
    if isboolk(s.k): return S(intt(s), "pyint", 0, 1)
    return s

# ---------------------------------------------------------------- promotion
_ORD = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
def promote(a, b):
    """numpy.promote_types on kinds (standard table)"""
    if a == b: return a
    if "object" in (a, b): return "object"
    if "bool" in (a, b): return a if b == "bool" else b
    if a in INTK and b in INTK:
        ua, ub = a[0] == "u", b[0] == "u"
        sa, sb = int(a.strip("uint")), int(b.strip("uint"))
        if ua == ub: return a if sa >= sb else b
        if ua: a, b, sa, sb = b, a, sb, sa          # a signed, b unsigned
        if sa > sb: return a
        if sb == 64: return "float64"
        return "int%d" % (2 * sb)
    if a in FLTK and b in FLTK: return a if FLTK[a] >= FLTK[b] else b
    if b in FLTK: a, b = b, a
    need = 16 if b in ("int8", "uint8") else 24 if b in ("int16", "uint16") else 53
    if FLTK[a] >= need: return a
    return "float64"
def npkind_scalar(s):
    if s.k == "pybool": return "bool"
    if s.k == "pyfloat": return "float64"
    if s.k == "pyint":
        if s.lo is not None and s.hi is not None:
            if s.lo >= -2**63 and s.hi < 2**63: return "int64"
            if s.lo >= 0 and s.hi < 2**64 and s.lo >= 2**63: return "uint64"
            if s.lo >= 2**64 or s.hi < -2**63: return "object"
        # decide by the path condition
        if eng().valid(And(s.t >= -2**63, s.t < 2**63)): return "int64"
        raise Unsupported("numpy kind of an unbounded Python int")
    return s.k
def cat(k): return 0 if isboolk(k) else 1 if isintk(k) else 3 if k == "object" else 2
def result_kind(a, b, aarr=False, barr=False):
    """numpy 1.26 result kind of a binary operation; aarr/barr: operand is an array (ndim>0)"""
    if not aarr and not barr:
        if not isnp(a.k) and not isnp(b.k): return None
        return promote(npkind_scalar(a), npkind_scalar(b))
    if aarr and barr: return promote(a.k, b.k)
    arr, sc = (a, b) if aarr else (b, a)
    sk = npkind_scalar(sc) if sc.k != "pyint" else ("int64" if sc.lo is None or (sc.lo >= -2**63 and (sc.hi is None or sc.hi < 2**63)) else "uint64" if sc.lo >= 0 and sc.hi is not None and sc.hi < 2**64 else "object")
    if cat(sk) > cat(arr.k):
        return promote(arr.k, sk)
    if cat(sk) == 1 and arr.k in INTK:
        if arr.k[0] == "u":
            if sc.lo is not None and sc.lo >= 0: 
                lo, hi = INTK[arr.k]
                if sc.hi is not None and sc.hi <= hi: return arr.k
                return promote(arr.k, min_int(sc))
            if sc.hi is not None and sc.hi < 0: return promote(arr.k, min_int(sc))
            if eng().branch(sc.t >= 0): return result_kind(*( (a, restrict(b, 0, None)) if aarr else (restrict(a, 0, None), b)), aarr, barr)
            raise Unsupported("sign of integer scalar")
        lo, hi = INTK[arr.k]
        if sc.lo is not None and sc.hi is not None and lo <= sc.lo and sc.hi <= hi: return arr.k
        return promote(arr.k, min_int(sc))
    return arr.k
def min_int(sc):
    if sc.lo is None or sc.hi is None: return npkind_scalar(sc)
    for k in (("uint8", "uint16", "uint32", "uint64") if sc.lo >= 0 else ("int8", "int16", "int32", "int64")):
        if INTK[k][0] <= sc.lo and sc.hi <= INTK[k][1]: return k
    return "object"
def restrict(s, lo, hi):
    nlo = s.lo if lo is None else lo if s.lo is None else max(lo, s.lo)
    nhi = s.hi if hi is None else hi if s.hi is None else min(hi, s.hi)
    return S(s.t, s.k, nlo, nhi, s.tz, s.g, s.tag)

# ---------------------------------------------------------------- casts
def wrapk(t, k, lo, hi, tz=0):
    """math integer term -> kind k with two's complement wrap"""
    a, b = INTK[k]
    if lo is not None and hi is not None and lo >= a and hi <= b: return S(t, k, lo, hi, tz)
    if not (lo is not None and hi is not None) or True:
        if eng().cheap_valid(And(t >= a, t <= b)): return S(t, k, lo, hi, tz)
    m = b - a + 1
    r = t % m if a == 0 else (t - a) % m + a
    return S(r, k, a, b, min(tz, m.bit_length() - 1) if a == 0 else 0)

def fit_float(t, k, lo, hi, g, why=""):
    """real term t as float of kind k; exact when provable, else a rounded value"""
    p = 53 if k == "pyfloat" else FLTK[k]
    if eng().ideal: return S(t, k, lo, hi, g=g)
    if g is not None and lo is not None and hi is not None:
        if max(abs(lo), abs(hi)) * 2**g <= 2**p: return S(t, k, lo, hi, g=g)
    c = z3.simplify(t)
    if z3.is_rational_value(c):
        f = Fraction(c.numerator_as_long(), c.denominator_as_long()); q = round_frac(f, p)
        return S(RealVal(q), k, q, q, g=q.denominator.bit_length() - 1)
    # rounding is a function of the exact value: equal computations round equally
    r = z3.Function("rnd%d" % p, z3.RealSort(), z3.RealSort())(z3.simplify(t)); eng().weak.add("rnd%d" % p); eng().rnds.append((t, r)); eng().assume(And(Implies(t >= 0, r >= 0), Implies(t <= 0, r <= 0)))
    if lo is None or hi is None: return S(r, k, None, None)
    m = max(abs(lo), abs(hi))
    e = 0
    while Fraction(2)**e < m: e += 1
    while e > -1000 and Fraction(2)**(e - 1) >= m: e -= 1
    ulp = Fraction(2)**(e - p)
    # exact below 2^p on the integer grid g (when known)
    eng().assume(And(r - t <= RealVal(ulp / 2), t - r <= RealVal(ulp / 2)))
    if g is not None:
        lim = Fraction(2**p, 2**g)
        eng().assume(Implies(And(t <= RealVal(lim), t >= RealVal(-lim)), r == t))
        # the rounded value lies on the grid as well
        gi = z3.Function("rndg%d" % p, z3.RealSort(), z3.IntSort())(z3.simplify(t)); eng().weak.add("rndg%d" % p); eng().assume(r * RealVal(2**g) == ToReal(gi))
    return S(r, k, lo - ulp, hi + ulp, g=g)

def round_frac(f, p):
    if f == 0: return f
    n = abs(f); e = 0
    while Fraction(2)**e <= n: e += 1
    while Fraction(2)**(e - 1) > n: e -= 1
    ulp = Fraction(2)**(e - p); q = n / ulp; r = round(q)
    return (r * ulp) * (1 if f > 0 else -1)

def cast(x, k):
    x = lift(x)
    if x.k == k: return x
    if isboolk(k): return S(truth(x), k, 0, 1)
    if k == "pyint":
        if isfltk(x.k): return to_pyint(x)
        return S(intt(x), "pyint", x.lo if not isboolk(x.k) else 0, x.hi if not isboolk(x.k) else 1, x.tz, tag=x.tag)
    if k in INTK:
        if isfltk(x.k): x = to_pyint(x)          # C truncation; out of range wraps (x86) - obliged below
        x = asint(x)
        return wrapk(x.t, k, x.lo, x.hi, x.tz)
    if isfltk(k):
        if isfltk(x.k):
            pk, px = (53 if k == "pyfloat" else FLTK[k]), (53 if x.k == "pyfloat" else FLTK[x.k])
            if pk >= px: return S(x.t, k, x.lo, x.hi, g=x.g)
            return fit_float(x.t, k, x.lo, x.hi, x.g, "cast")
        x = asint(x)
        return fit_float(real(x), k, x.lo, x.hi, 0 if x.tz == 0 else -min(x.tz, 60), "cast from int")
    if k == "object": return to_py(x)
    raise Unsupported("cast to " + k)
def to_py(x):
    x = lift(x)
    if isboolk(x.k): return S(x.t, "pybool", 0, 1)
    if isintk(x.k): return S(x.t, "pyint", x.lo, x.hi, x.tz, tag=x.tag)
    if x.k == "longdouble": return x
    return S(x.t, "pyfloat", x.lo, x.hi, g=x.g)
def floor_(x):
    x = lift(x)
    if not isfltk(x.k): return x
    return S(ToReal(ToInt(x.t)), x.k, None if x.lo is None else Fraction(math.floor(x.lo)), None if x.hi is None else Fraction(math.floor(x.hi)), g=0)
def to_pyint(x):
    x = lift(x)
    if not isfltk(x.k): return S(intt(x), "pyint", x.lo, x.hi, x.tz)
    t = x.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: r = t.arg(0)
    elif x.lo is not None and x.lo >= 0: r = ToInt(t)
    else: r = If(t >= 0, ToInt(t), -ToInt(-t))
    return S(r, "pyint", None if x.lo is None else math.trunc(x.lo), None if x.hi is None else math.trunc(x.hi))

# ---------------------------------------------------------------- operators
CMP = {"<", "<=", ">", ">=", "==", "!="}
def pyerr(exc, *a):
    e = exc(*a); e._vf = True; return e

def binop(op, a, b, aarr=False, barr=False):
    """Scalar operation; aarr/barr tell that the operand is an element of an array (numpy promotion)."""
    if not (isnum(a) and isnum(b)):
        for z in (a, b):
            if type(z).__name__ == "Poison": str(z)
        if op == "==": return NotImplemented
        if op == "!=": return NotImplemented
        return NotImplemented
    a, b = lift(a), lift(b)
    rk = "object" if aarr and not isnp(a.k) or barr and not isnp(b.k) else result_kind(a, b, aarr, barr) if (isnp(a.k) or isnp(b.k) or aarr or barr) else None
    if rk == "object":
        a, b = to_py(a), to_py(b); r = binop(op, a, b)
        return r
    npmode = rk is not None
    if op in CMP:
        if npmode and rk in FLTK: a, b = cast(a, rk), cast(b, rk)
        if isboolk(a.k) and isboolk(b.k) and op in ("==", "!="):
            t = a.t == b.t
            return S(t if op == "==" else Not(t), "bool" if npmode else "pybool", 0, 1)
        if isfltk(a.k) or isfltk(b.k): x, y = real(a), real(b)
        else: x, y = intt(a), intt(b)
        t = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
        # interval shortcut
        if None not in (a.lo, a.hi, b.lo, b.hi):
            if op in ("<", ">=") and (a.hi < b.lo or a.lo >= b.hi): t = BoolVal((a.hi < b.lo) == (op == "<"))
            elif op in (">", "<=") and (a.lo > b.hi or a.hi <= b.lo): t = BoolVal((a.lo > b.hi) == (op == ">"))
            elif op in ("==", "!=") and (a.hi < b.lo or b.hi < a.lo): t = BoolVal(op == "!=")
        return S(t, "bool" if npmode else "pybool", 0, 1)
    if op in ("&", "|", "^") and isboolk(a.k) and isboolk(b.k):
        t = {"&": lambda: And(a.t, b.t), "|": lambda: Or(a.t, b.t), "^": lambda: z3.Xor(a.t, b.t)}[op]()
        return S(t, rk if npmode else "pybool", 0, 1)
    isf = (rk in FLTK) if npmode else (isfltk(a.k) or isfltk(b.k))
    if op in ("&", "|", "^", "<<", ">>"):
        if isf: raise pyerr(TypeError, "unsupported operand type(s) for %s: float" % op)
        if npmode:
            if rk == "bool": rk = "int8" if op in ("<<", ">>") else rk
            a, b = cast(a, rk), cast(b, rk)
        r = intbit(op, asint(a), asint(b))
        return finish(r, rk)
    if op == "/":
        k = rk if npmode else "pyfloat"
        if npmode and k not in FLTK: k = "float64"
        a2, b2 = (cast(a, k), cast(b, k)) if npmode else (a, b)
        return fdiv(a2, b2, k)
    if isf:
        k = rk if npmode else "pyfloat"
        a, b = cast(a, k), cast(b, k)
        return fbin(op, a, b, k)
    a, b = asint(a), asint(b)
    if npmode:
        if rk == "bool":
            if op == "+": return S(truth_or(a, b), "bool", 0, 1)
            if op == "*": return S(And(a.t != 0, b.t != 0), "bool", 0, 1)
            raise Unsupported("bool " + op)
        a, b = cast(a, rk), cast(b, rk)
    return finish(ibin(op, a, b, npmode), rk)
def truth_or(a, b): return Or(a.t != 0, b.t != 0)
def finish(r, rk):
    if rk is None: return r if r.k == "pyint" or not isintk(r.k) else S(r.t, "pyint", r.lo, r.hi, r.tz, tag=r.tag)
    return wrapk(r.t, rk, r.lo, r.hi, r.tz)

def I(t, lo=None, hi=None, tz=0, tag=None): return S(t, "pyint", lo, hi, tz, tag=tag)

def ibin(op, a, b, npmode=False):
    A, B = a.t, b.t
    if op == "+": 
        return I(A + B, None if None in (a.lo, b.lo) else a.lo + b.lo, None if None in (a.hi, b.hi) else a.hi + b.hi, min(a.tz, b.tz))
    if op == "-":
        # 2^s - 1: mask tag
        tag = None
        if a.tag and a.tag[0] == "pow2" and b.lo == b.hi == 1: tag = ("mask", a.tag[1])
        if b.tag and b.tag[0] == "shl":
            h = eng().sub_hook(a, b.tag[1], b.tag[2])
            if h is not None: return h
        return I(A - B, None if None in (a.lo, b.hi) else a.lo - b.hi, None if None in (a.hi, b.lo) else a.hi - b.lo, min(a.tz, b.tz), tag)
    if op == "*":
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]; lo, hi = min(c), max(c)
        elif a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0: lo = a.lo * b.lo
        return I(A * B, lo, hi, a.tz + b.tz)
    if op in ("//", "%") and b.tag and b.tag[0] == "pow2" and not npmode:
        if op == "//": return intbit(">>", a, I(b.tag[1], 0))
        h = eng().mask_hook(a, b.tag[1])
        if h is not None: return h
    if op in ("//", "%"):
        if npmode and not (b.lo is not None and b.lo > 0) and not eng().valid(B > 0): raise Unsupported('numpy integer division by a value that may not be positive')
        return idiv(op, a, b)
    if op == "**":
        e = concrete(b)
        if e is not None and 0 <= e <= 64:
            c = concrete(a)
            if c is not None: return lift(c ** e)
            r = lift(1)
            for _ in range(e): r = ibin("*", r, a)
            return r
        c = concrete(a)
        if c == 2: return intbit("<<", lift(1), b)
        raise Unsupported("**")
    raise Unsupported("int op " + op)
def idiv(op, a, b):
    A, B = a.t, b.t
    if b.lo is None or b.lo <= 0:
        if b.hi is not None and b.hi < 0:
            r = idiv(op, I(-A, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo), I(-B, -b.hi, None if b.lo is None else -b.lo))
            return r if op == "//" else I(-r.t, None if r.hi is None else -r.hi, None if r.lo is None else -r.lo)
        if eng().branch(B == 0): raise pyerr(ZeroDivisionError, "integer division or modulo by zero")
        if eng().branch(B > 0): b = restrict(b, 1, None)
        else: return idiv(op, a, restrict(b, None, -1))
    d = b.lo if b.lo == b.hi else None
    if op == "//":
        if d == 1: return a
        lo = hi = None
        if a.lo is not None and b.lo is not None: lo = a.lo // b.lo if a.lo < 0 else (a.lo // b.hi if b.hi is not None else 0)
        if a.hi is not None: hi = a.hi // b.lo if a.hi >= 0 else (a.hi // b.hi if b.hi is not None else -1)
        tz = 0
        if d and d & (d - 1) == 0:
            k = d.bit_length() - 1; tz = max(0, a.tz - k)
        return I(A / B, lo, hi, tz)
    if d is not None and a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < d: return a
    return I(A % B, 0, None if b.hi is None else b.hi - 1, min(a.tz, b.tz))

def pow2t(s):
    """2^s for an int scalar s"""
    c = concrete(s)
    if c is not None: return IntVal(2 ** c)
    return eng().pow2(s.t)

def intbit(op, a, b):
    if op == "<<":
        c = concrete(b)
        if c is not None:
            if c < 0: raise pyerr(ValueError, "negative shift count")
            return I(a.t * 2**c, None if a.lo is None else a.lo * 2**c, None if a.hi is None else a.hi * 2**c, a.tz + c)
        if b.lo is None or b.lo < 0:
            if eng().branch(b.t < 0): raise pyerr(ValueError, "negative shift count")
        p = eng().pow2(b.t)
        tag = ("pow2", b.t) if concrete(a) == 1 else None
        if tag is None: return I(a.t * p, 0 if a.lo is not None and a.lo >= 0 else None, max(0, a.hi) * 2**b.hi if b.hi is not None and b.hi <= 256 and a.hi is not None else None, a.tz, ("shl", a.t, b.t))
        lo = 1 if tag else (0 if a.lo is not None and a.lo >= 0 else None)
        hi = None
        if b.hi is not None and b.hi <= 256 and a.hi is not None: hi = max(0, a.hi) * 2**b.hi
        return I(p if tag else a.t * p, lo, hi, a.tz, tag)
    if op == ">>":
        c = concrete(b)
        if c is not None:
            if c < 0: raise pyerr(ValueError, "negative shift count")
            return idiv("//", a, lift(2**c))
        if b.lo is None or b.lo < 0:
            if eng().branch(b.t < 0): raise pyerr(ValueError, "negative shift count")
        h = eng().shift_hook(a, b)
        if h is not None: return h
        p = eng().pow2(b.t)
        return I(a.t / p, 0 if a.lo is not None and a.lo >= 0 else None, a.hi if a.lo is not None and a.lo >= 0 else None)
    ca, cb = concrete(a), concrete(b)
    if ca is not None and cb is not None:
        return lift({"&": ca & cb, "|": ca | cb, "^": ca ^ cb}[op])
    if ca is not None: a, b, ca, cb = b, a, cb, ca
    if op == "&":
        if b.tag and b.tag[0] == "mask" or a.tag and a.tag[0] == "mask":
            if not (b.tag and b.tag[0] == "mask"): a, b = b, a
            h = eng().mask_hook(a, b.tag[1])
            if h is not None: return h
            p = eng().pow2(b.tag[1])
            return I(a.t % p, 0, a.hi if a.lo is not None and a.lo >= 0 else None)
        if cb is not None and cb >= 0: return and_const(a, cb)
        if cb is not None and cb < 0:
            r = and_const(a, -cb - 1); return ibin("-", a, r)      # a & ~m
        return and_sym(a, b)
    for x, y in ((a, b), (b, a)):      # disjoint bits
        if x.tz and y.lo is not None and y.lo >= 0 and y.hi is not None and y.hi < 2**x.tz: return ibin("+", x, y)
    r = intbit("&", a, b)
    if op == "|":
        s = ibin("+", a, b); o = ibin("-", s, r)
        if concrete(r) == 0: o = s
        if all(x is not None and x >= 0 for x in (a.lo, b.lo)) and a.hi is not None and b.hi is not None:
            o = S(o.t, "pyint", max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, min(a.tz, b.tz))
        return o
    s = ibin("+", a, b); o = ibin("-", s, ibin("*", lift(2), r))
    if all(x is not None and x >= 0 for x in (a.lo, b.lo)) and a.hi is not None and b.hi is not None:
        o = S(o.t, "pyint", 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1, min(a.tz, b.tz))
    return o

def runs(m):
    out = []; i = 0
    while m >> i:
        if m >> i & 1:
            j = i
            while m >> j & 1: j += 1
            out.append((i, j)); i = j
        else: i += 1
    return out
def and_const(a, m):
    if m == 0: return lift(0)
    if a.lo is not None and a.lo >= 0 and a.hi is not None:
        top = a.hi.bit_length(); m &= (1 << top) - 1
        if m == 0: return lift(0)
    if a.tz: m = (m >> a.tz) << a.tz if a.tz < 190 else m
    if m == 0: return lift(0)
    rs = runs(m); t = None; hi = m
    if len(rs) > 12: raise Unsupported("irregular mask")
    for i, j in rs:
        x = a.t
        nonneg = a.lo is not None and a.lo >= 0
        if i: x = x / 2**i
        if not (nonneg and a.hi is not None and a.hi < 2**j): x = x % 2**(j - i)
        if i: x = x * 2**i
        t = x if t is None else t + x
    return I(t, 0, min(hi, a.hi) if a.lo is not None and a.lo >= 0 and a.hi is not None else hi, rs[0][0])
def bitof(t, b): return (t / 2**b) % 2 == 1
def and_sym(a, b):
    if a.lo is None or a.lo < 0 or b.lo is None or b.lo < 0 or a.hi is None or b.hi is None: raise Unsupported("& of unbounded symbolic values")
    # disjoint supports
    if a.tz < 190 and b.hi < 2**a.tz: return lift(0)
    if b.tz < 190 and a.hi < 2**b.tz: return lift(0)
    n = min(a.hi, b.hi).bit_length()
    if n > 64: raise Unsupported("& of wide symbolic values")
    t = IntVal(0)
    for i in range(max(min(a.tz, 190), min(b.tz, 190)) if max(a.tz, b.tz) < 190 else 0, n):
        t = t + If(And(bitof(a.t, i), bitof(b.t, i)), IntVal(2**i), IntVal(0))
    return I(t, 0, min(a.hi, b.hi))

def fbin(op, a, b, k):
    A, B = a.t, b.t
    if op in ("+", "-"):
        g = None if a.g is None or b.g is None else max(a.g, b.g)
        if op == "+": lo, hi = (None if None in (a.lo, b.lo) else a.lo + b.lo), (None if None in (a.hi, b.hi) else a.hi + b.hi); t = A + B
        else: lo, hi = (None if None in (a.lo, b.hi) else a.lo - b.hi), (None if None in (a.hi, b.lo) else a.hi - b.lo); t = A - B
        return fit_float(t, k, lo, hi, g, op)
    if op == "*":
        lo = hi = None
        if None not in (a.lo, a.hi, b.lo, b.hi):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]; lo, hi = min(c), max(c)
        if eng().opaque and concrete(a) is None and concrete(b) is None: return S(nl("*", A, B), k, lo, hi)
        return fit_float(A * B, k, lo, hi, None if a.g is None or b.g is None else a.g + b.g, op)
    if op in ("//", "%"):
        if not eng().valid(B > 0): 
            if eng().branch(B == 0): raise pyerr(ZeroDivisionError, "float floor division") if not isnp(k) else Unsupported("division by zero")
            if op == "%" and not eng().branch(B > 0): raise Unsupported("negative float divisor")
        c = concrete(b)
        ints = [z3.simplify(x) for x in (A, B)]
        ints = [x.arg(0) for x in ints] if all(z3.is_app_of(x, z3.Z3_OP_TO_REAL) for x in ints) else None       # whole numbers
        if op == "%" and ints: return S(ToReal(ints[0] % ints[1]), k, Fraction(0), b.hi, g=None if a.g is None or b.g is None else max(a.g, b.g))
        q = ToReal(ints[0] / ints[1]) if ints else ToReal(ToInt(A / B))
        if op == "//":
            lo = hi = None
            if c is not None and a.lo is not None and a.hi is not None: lo, hi = Fraction(math.floor(a.lo / c)), Fraction(math.floor(a.hi / c))
            return S(q, k, lo, hi, g=0)
        return S(A - B * q, k, Fraction(0), b.hi, g=None if a.g is None or b.g is None else max(a.g, b.g))
    if op == "**":
        e = concrete(b)
        if e is not None and e == int(e) and 0 <= e <= 8:
            r = cast(lift(1), k)
            for _ in range(int(e)): r = fbin("*", r, a, k)
            return r
        ca = concrete(a)
        if ca is not None and e is not None: return cast(lift(float(ca) ** float(e)), k)
    raise Unsupported("float op " + op)

NMUL, NDIV = z3.Function("nmul", z3.RealSort(), z3.RealSort(), z3.RealSort()), z3.Function("ndiv", z3.RealSort(), z3.RealSort(), z3.RealSort())
def coeff(t):
    """t = c * u with a numeral c"""
    t = z3.simplify(t)
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
        r = t.arg(1)
        for i in range(2, t.num_args()): r = r * t.arg(i)
        return t.arg(0), r
    return None, t
def nl(op, a, b):
    """product or quotient of unknown reals, kept uninterpreted (with sign facts) until a goal needs more"""
    ca, a = coeff(a); cb, b = coeff(b); e = eng()
    if z3.is_rational_value(b) or op == "*" and z3.is_rational_value(a): r = a * b if op == "*" else a / b
    else:
        if op == "*" and a.sexpr() > b.sexpr(): a, b = b, a
        r = (NMUL if op == "*" else NDIV)(a, b)
        key = ("nl", r.get_id())
        old = e.tokens.get(key)
        if old is None or old[1] >= len(e.pc) or e.pc[old[1]] is not old[2]:
            same = Or(And(a > 0, b > 0), And(a < 0, b < 0)); opp = Or(And(a > 0, b < 0), And(a < 0, b > 0))
            z = Or(a == 0, b == 0) if op == "*" else And(a == 0, b != 0)
            e.assume(And(Implies(same, r > 0), Implies(opp, r < 0), Implies(z, r == 0), Implies(b == 1, r == a), *([Implies(a == 1, r == b)] if op == "*" else []))); e.tokens[key] = (r, len(e.pc) - 1, e.pc[-1])
    if ca is not None: r = ca * r
    if cb is not None: r = cb * r if op == "*" else r / cb
    return z3.simplify(r)
def interpreted(t):
    x, y = z3.Var(0, z3.RealSort()), z3.Var(1, z3.RealSort())
    return z3.substitute_funs(t, (NMUL, x * y), (NDIV, x / y))
def fdiv(a, b, k):
    A, B = real(a), real(b)
    cb = concrete(b)
    if cb is None:
        if not eng().valid(B != 0):
            if eng().branch(B == 0):
                raise pyerr(ZeroDivisionError, "division by zero") if not isnp(k) else Unsupported("numpy division by zero")
    elif cb == 0:
        raise pyerr(ZeroDivisionError, "division by zero") if not isnp(k) else Unsupported("numpy division by zero")
    if cb is not None:
        f = Fraction(cb); lo, hi = (None if a.lo is None else a.lo / f), (None if a.hi is None else a.hi / f)
        if f < 0: lo, hi = hi, lo
        g = None; n = abs(f)
        ag = a.g if isfltk(a.k) else 0
        if n.denominator & (n.denominator - 1) == 0 and n.numerator & (n.numerator - 1) == 0 and ag is not None:
            g = ag + (n.numerator.bit_length() - 1) - (n.denominator.bit_length() - 1)
        return fit_float(A / RealVal(f), k, lo, hi, g, "/")
    if eng().opaque: return S(nl("/", A, B), k)
    return fit_float(A / B, k, None, None, None, "/")

def unop(op, a):
    a = lift(a)
    if op == "neg":
        if isfltk(a.k): return S(-a.t, a.k, None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, g=a.g)
        if a.k == "bool": raise pyerr(TypeError, "numpy boolean negative")
        b = asint(a); r = I(-b.t, None if b.hi is None else -b.hi, None if b.lo is None else -b.lo, b.tz)
        return wrapk(r.t, a.k, r.lo, r.hi, r.tz) if a.k in INTK else r
    if op == "inv":
        if a.k == "bool": return S(Not(a.t), "bool", 0, 1)
        if isfltk(a.k): raise pyerr(TypeError, "bad operand type for unary ~")
        b = asint(a); r = I(-b.t - 1, None if b.hi is None else -b.hi - 1, None if b.lo is None else -b.lo - 1)
        if a.k in INTK and a.k[0] == "u": m = INTK[a.k][1]; return S(m - b.t, a.k, m - b.hi, m - b.lo)
        return S(r.t, a.k if a.k in INTK else "pyint", r.lo, r.hi)
    if op == "abs":
        if isboolk(a.k): return asint(a) if a.k == "pybool" else a
        z = RealVal(0) if isfltk(a.k) else IntVal(0)
        if a.lo is not None and a.lo >= 0: return a
        hi = None if None in (a.lo, a.hi) else max(abs(a.lo), abs(a.hi))
        return S(If(a.t >= z, a.t, -a.t), a.k, 0 if not isfltk(a.k) else Fraction(0), hi, g=a.g)
    raise Unsupported(op)

def ite(c, a, b):
    """merge of two scalars (z3 Bool c)"""
    if isinstance(c, S): c = truth(c)
    c = z3.simplify(c) if not isinstance(c, bool) else BoolVal(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    a, b = lift(a), lift(b)
    if a.k != b.k:
        if isfltk(a.k) or isfltk(b.k):
            k = a.k if isfltk(a.k) else b.k
            if isnp(a.k) and isnp(b.k): k = promote(a.k, b.k)
            elif isnp(a.k): k = a.k if a.k in FLTK else k
            a, b = S(real(a), k, a.lo, a.hi, g=a.g if isfltk(a.k) else 0), S(real(b), k, b.lo, b.hi, g=b.g if isfltk(b.k) else 0)
        elif isnp(a.k) and isnp(b.k) and cat(a.k) == cat(b.k) == 1:
            k = promote(a.k, b.k); a, b = cast(a, k), cast(b, k)
        else: a, b = asint(to_py(a)), asint(to_py(b))
    if isboolk(a.k): return S(If(c, a.t, b.t), a.k, 0, 1)
    return S(If(c, a.t, b.t), a.k, _mn(a.lo, b.lo), _mx(a.hi, b.hi), min(a.tz, b.tz), g=None if a.g is None or b.g is None else max(a.g, b.g))

def eq_term(a, b):
    """z3 equality of values of two scalars (mathematical)"""
    a, b = lift(a), lift(b)
    if isboolk(a.k) and isboolk(b.k): return a.t == b.t
    if isfltk(a.k) or isfltk(b.k): return real(a) == real(b)
    return intt(a) == intt(b)
