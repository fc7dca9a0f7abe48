"""Symbolic files, bytes, text and struct."""
import re, struct as RST, builtins
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
import sym, npshim
from sym import S, Unsupported, lift, concrete, isnum, binop, I, eng, pyerr, ite, eq_term, intt, truth
from npshim import Seq, L, A, zi, nn, as_seq, unl, norm_slice, norm_index

# ---------------------------------------------------------------- bytes
class Bytes:
    def __init__(s, n, get): s.n, s.get = nn(n), get          # get(k) -> z3 Int in 0..255
    def _vf_len(s): return unl(s.n)
    def __len__(s):
        c = concrete(s.n)
        if c is None: raise Unsupported("native len of symbolic bytes")
        return c
    def __bool__(s): return eng().branch(s.n.t > 0)
    def __eq__(s, o):
        if isinstance(o, Bytes): o_n, og = o.n, o.get
        elif isinstance(o, (bytes, bytearray)): o_n = lift(len(o)); og = lambda k: IntVal(o[k.as_long()])
        else: return NotImplemented
        c = concrete(o_n)
        if c is None: c = concrete(s.n)
        if c is None: raise Unsupported("bytes comparison")
        return S(And(s.n.t == o_n.t, *[s.get(IntVal(i)) == og(IntVal(i)) for i in range(c)]), "pybool")
    def __ne__(s, o):
        r = s.__eq__(o); return r if r is NotImplemented else S(Not(r.t), "pybool")
    __hash__ = None
    def __getitem__(s, i):
        if isinstance(i, slice):
            st, n, step = norm_slice(i, s.n); g = s.get
            return Bytes(n, lambda k: g(z3.simplify(st + step * zi(k))))
        return I(s.get(norm_index(i, s.n)), 0, 255)
    def _vf_seq(s): g = s.get; return Seq(s.n, lambda k: I(g(zi(k)), 0, 255))
    def __iter__(s):
        n = s.fixlen()
        for i in range(n): yield I(s.get(IntVal(i)), 0, 255)
    def fixlen(s, limit=64):
        c = concrete(s.n)
        if c is not None: return c
        if s.n.hi is not None and s.n.hi <= limit:
            for v in range(s.n.hi, (s.n.lo or 0) - 1, -1):
                if eng().branch(s.n.t == v): s.n = lift(v); return v
        raise Unsupported("bytes of unbounded symbolic length")
    def terms(s): return [z3.simplify(s.get(IntVal(i))) for i in range(s.fixlen())]
    def count(s, x):
        x = concrete(x) if isnum(x) else (x[0] if isinstance(x, bytes) and len(x) == 1 else None)
        if x is None: raise Unsupported("bytes.count")
        t = IntVal(0)
        for b in s.terms(): t = t + If(b == x, IntVal(1), IntVal(0))
        return I(t, 0, s.fixlen())
    def __add__(s, o):
        if isinstance(o, (bytes, bytearray)): o = bytes_const(o)
        if not isinstance(o, Bytes): return NotImplemented
        a, b = s, o
        if concrete(a.n) == 0: return b
        return Bytes(binop("+", a.n, b.n), lambda k: If(zi(k) < a.n.t, a.get(zi(k)), b.get(z3.simplify(zi(k) - a.n.t))) if not z3.is_int_value(z3.simplify(zi(k) - a.n.t)) else
                     (a.get(zi(k)) if z3.simplify(zi(k) - a.n.t).as_long() < 0 else b.get(z3.simplify(zi(k) - a.n.t))))
    def __radd__(s, o): return bytes_const(o) + s
    def hex(s): raise Unsupported("bytes.hex")
    def rstrip(s, *a): raise Unsupported("bytes.rstrip")
    def decode(s, *a): raise Unsupported("bytes.decode")
def bytes_const(b): return Bytes(len(b), lambda k: IntVal(b[z3.simplify(zi(k)).as_long()]))
def bytes_of_terms(ts):
    ts = list(ts)
    def get(k):
        c = z3.simplify(zi(k))
        if z3.is_int_value(c): return ts[c.as_long()]
        r = ts[-1]
        for i in range(len(ts) - 2, -1, -1): r = If(c == i, ts[i], r)
        return r
    return Bytes(len(ts), get)
class RepBytes:
    """n records of m bytes: get(k) -> list of m byte terms"""
    def __init__(s, n, m, get): s.n, s.m, s.get = nn(n), m, get
    def _vf_len(s): return unl(binop("*", s.n, s.m))
def byte_of(t, b): return bits(t, 8 * b, 8)
def bits(t, lo, n, depth=0):
    """bits lo..lo+n-1 of an integer term, pushed through shifts, masks and sums of disjoint parts (each step checked)"""
    t = z3.simplify(t); e = eng()
    if z3.is_int_value(t): return IntVal((t.as_long() >> lo) % 2**n)
    if depth < 12 and z3.is_app(t):
        d = t.decl().kind(); ch = t.children()
        if d == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            m = log2(ch[1].as_long())
            if m is not None and lo + n <= m: return bits(ch[0], lo, n, depth + 1)
            if m is not None and lo >= m: return IntVal(0)
        if d == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]):
            m = log2(ch[1].as_long())
            if m is not None: return bits(ch[0], lo + m, n, depth + 1)
        if d == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0]):
            k = tz(ch[0].as_long())
            if k and lo >= k: return bits(z3.simplify(ch[1] * (ch[0].as_long() >> k)), lo - k, n, depth + 1)
            if k and lo + n <= k: return IntVal(0)
        if d == z3.Z3_OP_ADD:
            ks = [coef_tz(c) for c in ch]
            for k in sorted(set(ks), reverse=True):
                if k == 0 or (k > lo and k < lo + n): continue
                hi = [c for c, q in zip(ch, ks) if q >= k]; lw = [c for c, q in zip(ch, ks) if q < k]
                if lo + n <= k:                      # high parts do not matter: multiples of 2^k
                    if lw and hi: return bits(z3.Sum(lw) if len(lw) > 1 else lw[0], lo, n, depth + 1)
                    if hi and not lw: return IntVal(0)
                elif lo >= k and hi:
                    low = z3.Sum(lw) if len(lw) > 1 else lw[0] if lw else IntVal(0)
                    if e.cheap_valid(And(low >= 0, low < 2**k)):
                        h = z3.simplify(z3.Sum([div_coef(c, k) for c in hi]) if len(hi) > 1 else div_coef(hi[0], k))
                        return bits(h, lo - k, n, depth + 1)
    if lo == 0 and e.cheap_valid(And(t >= 0, t < 2**n)): return t
    r = t / 2**lo if lo else t
    if lo and e.cheap_valid(And(t >= 0, t < 2**(lo + n))): return r
    return r % 2**n
def log2(v): return v.bit_length() - 1 if v > 0 and v & (v - 1) == 0 else None
def tz(v): return (v & -v).bit_length() - 1 if v else 200
def coef_tz(c):
    if z3.is_int_value(c): return tz(c.as_long())
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(c.arg(0)): return tz(c.arg(0).as_long())
    return 0
def div_coef(c, k):
    if z3.is_int_value(c): return IntVal(c.as_long() >> k)
    r = IntVal(c.arg(0).as_long() >> k)
    for x in c.children()[1:]: r = r * x
    return r

def int_to_bytes(x, length, order, signed=False):
    length = concrete(length)
    x = sym.asint(lift(x))
    lo, hi = (-(1 << 8 * length - 1), (1 << 8 * length - 1) - 1) if signed else (0, (1 << 8 * length) - 1)
    if not eng().branch(And(x.t >= lo, x.t <= hi)): raise pyerr(OverflowError, "int too big to convert")
    ts = [byte_of(x.t, i) for i in range(length)]
    if order == "big": ts.reverse()
    return bytes_of_terms(ts)
def int_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, (bytes, bytearray)): return int.from_bytes(b, byteorder, signed=signed)
    if not isinstance(b, Bytes): b = Bytes(as_seq(b).n, lambda k: intt(lift(as_seq(b).get(k))))
    ts = b.terms()
    if byteorder == "big": ts = ts[::-1]
    return assemble(ts, signed)
def assemble(ts, signed=False):
    """little-endian byte terms -> S"""
    if not ts: return lift(0)
    t = ts[0]
    for i in range(1, len(ts)): t = t + ts[i] * 256**i
    n = 8 * len(ts)
    for b in ts: byte_fact(b)
    if signed: return I(If(t >= 2**(n - 1), t - 2**n, t), -2**(n - 1), 2**(n - 1) - 1)
    return I(t, 0, 2**n - 1)
def byte_fact(b):
    e = eng(); k = ("bf", b.get_id())
    if k in e.tokens: return
    e.tokens[k] = b
    if z3.is_int_value(b): return
    e.assume(And(b >= 0, b <= 255))

# ---------------------------------------------------------------- struct
_sz = {"c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8, "x": 1}
def parse_fmt(fmt):
    order = "@"
    if fmt and fmt[0] in "@=<>!": order, fmt = fmt[0], fmt[1:]
    big = order in ">!"; out = []
    for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", fmt):
        n, c = m.groups()
        if c not in _sz or c in "c?x" : raise Unsupported("struct format " + fmt)
        sz = _sz[c]
        if c in "lL" and order != "@": sz = 4
        for _ in range(int(n) if n else 1):
            out.append((c, sz))
    if order == "@":
        o = 0
        for c, sz in out:
            if o % sz: raise Unsupported("struct padding")
            o += sz
    return big, out
class StructShim:
    error = RST.error
    def pack(s, fmt, *vals):
        big, items = parse_fmt(fmt)
        if len(items) != len(vals): raise pyerr(RST.error, "pack expected %d items" % len(items))
        ts = []
        for (c, sz), v in zip(items, vals):
            if not isnum(v): raise pyerr(RST.error, "required argument is not an integer")
            v = lift(v)
            if sym.isfltk(v.k): raise pyerr(RST.error, "required argument is not an integer")
            v = sym.asint(v)
            lo, hi = (0, 256**sz - 1) if c.isupper() else (-(256**sz) // 2, 256**sz // 2 - 1)
            if not (v.lo is not None and v.lo >= lo and v.hi is not None and v.hi <= hi):
                if not eng().branch(And(v.t >= lo, v.t <= hi)): raise pyerr(RST.error, "argument out of range")
            bs = [byte_of(v.t, i) for i in range(sz)]
            ts += bs[::-1] if big else bs
        r = bytes_of_terms(ts); return r
    def unpack(s, fmt, b):
        big, items = parse_fmt(fmt)
        if isinstance(b, (bytes, bytearray)): return RST.unpack(fmt, b)
        if isinstance(b, RepBytes): raise Unsupported("unpack of repeated bytes")
        tot = sum(sz for _, sz in items)
        if not eng().branch(b.n.t == tot): raise pyerr(RST.error, "unpack requires a buffer of %d bytes" % tot)
        out = []; o = 0
        for c, sz in items:
            ts = [z3.simplify(b.get(IntVal(o + i))) for i in range(sz)]; o += sz
            out.append(assemble(ts[::-1] if big else ts, c.islower()))
        return tuple(out)
    def unpack_from(s, fmt, b, offset=0): return s.unpack(fmt, b[offset:offset + RST.calcsize(fmt)])
    def calcsize(s, fmt): return RST.calcsize(fmt)
    def iter_unpack(s, fmt, b):
        big, items = parse_fmt(fmt); tot = sum(sz for _, sz in items)
        if not eng().branch(b.n.t % tot == 0): raise pyerr(RST.error, "iterative unpacking requires a multiple")
        def get(k):
            sub = Bytes(tot, lambda i: b.get(z3.simplify(zi(k) * tot + zi(i)))); return s.unpack(fmt, sub)
        return Seq(binop("//", b.n, tot), get)
    class Struct:
        def __init__(s, fmt): s.fmt = fmt; s.size = RST.calcsize(fmt)
        def pack(s, *v): return STRUCT.pack(s.fmt, *v)
        def unpack(s, b): return STRUCT.unpack(s.fmt, b)
        def iter_unpack(s, b): return STRUCT.iter_unpack(s.fmt, b)
STRUCT = StructShim()

# ---------------------------------------------------------------- input files
class BinContent:
    """byte(i) for 0<=i<n"""
    def __init__(s, n, byte): s.n, s.byte = nn(n), byte
class TextContent:
    """n lines, each a w-digit lower case hex number val(k) followed by a newline"""
    def __init__(s, n, w, val): s.n_lines, s.w, s.val = nn(n), w, val
    @property
    def n(s): return binop("*", s.n_lines, s.w + 1)
class HexTok:
    def __init__(s, val, w, nl=False): s.val, s.w, s.nl = val, w, nl
    def strip(s, *a): return HexTok(s.val, s.w)
    rstrip = lstrip = strip
    def _vf_len(s): return s.w + s.nl
    def __len__(s): return s.w + s.nl
    def __bool__(s): return True
    def __getitem__(s, i):
        if isinstance(i, slice):
            a, b, st = i.indices(s.w)
            if st != 1 or b <= a: raise Unsupported("hex slice")
            return HexTok(lambda: binop("%", binop("//", s.value(), 16**(s.w - b)), 16**(b - a)), b - a)
        raise Unsupported("hex index")
    def value(s): return s.val() if callable(s.val) else s.val
    def __str__(s): raise Unsupported("str of hex token")
    def __radd__(s, o): 
        if o in ("0x", ""): return s
        raise Unsupported("hex concat")
    def __add__(s, o):
        if isinstance(o, HexTok): return HexTok(lambda: binop("+", binop("*", s.value(), 16**o.w), o.value()), s.w + o.w)
        raise Unsupported("hex concat")
def hextok(content, k, nl=False):
    v = content.val(zi(k))
    return HexTok(I(v, 0, 16**content.w - 1), content.w, nl)

class InFile:
    def __init__(s, content, mode):
        s.c, s.mode = content, mode; s.pos = lift(0); s.closed = False
        eng().register(s, npshim.caller_site())
    def cells(s): return ["pos"]
    def get_cell(s, c): return s.pos
    def set_cell(s, c, v): s.pos = v
    def __enter__(s): return s
    def __exit__(s, *a): s.closed = True
    def close(s): s.closed = True
    def setpos(s, p): eng().touch(s, "pos"); s.pos = p
    def tell(s): return s.pos
    def seek(s, off, whence=0):
        if whence == 0: s.setpos(lift(off))
        elif whence == 1: s.setpos(binop("+", s.pos, off))
        elif whence == 2: s.setpos(binop("+", s.c.n, off))
        return s.pos
    def avail(s):
        r = binop("-", s.c.n, s.pos)
        if eng().cheap_valid(r.t >= 0): return sym.restrict(r, 0, None)
        return ite(r.t > 0, r, lift(0))
    def read(s, k=-1):
        if s.closed: raise pyerr(ValueError, "I/O operation on closed file")
        e = eng(); av = s.avail()
        k = lift(-1 if k is None else k)
        if sym.isfltk(k.k): raise pyerr(TypeError, "argument should be integer")
        k = sym.asint(k)
        if k.lo is not None and k.lo >= 0: neg = False
        else: neg = e.branch(k.t < 0)
        if neg: n = av
        elif e.cheap_valid(av.t >= k.t): n = k
        elif e.cheap_valid(av.t <= k.t): n = av
        elif getattr(s.c, "fork", False): n = k if e.branch(av.t >= k.t) else av
        else: n = ite(av.t < k.t, av, k)
        n = S(n.t, "pyint", 0, None if k.hi is None or k.hi < 0 or neg else k.hi)
        p = s.pos; s.setpos(binop("+", s.pos, n)); e.reads.append((s._key, av.t if neg else k.t))
        if isinstance(s.c, TextContent): return text_view(s.c, p, n)
        c = s.c
        def get(i):
            b = c.byte(z3.simplify(p.t + zi(i))); byte_fact(b); return b
        return Bytes(n, get)
    def readinto(s, *a): raise Unsupported("readinto")
    def _vf_seq(s):
        if not isinstance(s.c, TextContent): raise Unsupported("iteration over binary file")
        if concrete(s.pos) != 0: raise Unsupported("iteration from the middle of a file")
        c = s.c; s.setpos(c.n)
        return Seq(c.n_lines, lambda k: hextok(c, k, True))
    def __iter__(s): raise Unsupported("native file iteration")
    def readlines(s): return L(site="readlines", base=s._vf_seq())
    def readline(s):
        c = s.c; e = eng()
        if not isinstance(c, TextContent): raise Unsupported("readline of binary")
        if not e.valid(s.pos.t % (c.w + 1) == 0): raise Unsupported("unaligned text position")
        if not e.branch(s.pos.t < c.n.t): return ""
        p = s.pos; s.setpos(binop("+", s.pos, c.w + 1))
        return hextok(c, p.t / (c.w + 1), True)
    def fileno(s): raise Unsupported("fileno")
    def flush(s): pass
class TextView:
    """whole lines start..start+n-1 of a text file; nl: text still ends with a newline"""
    def __init__(s, c, start, n, nl=True): s.c, s.start, s.n, s.nl = c, start, nn(n), nl
    def _vf_len(s): return unl(binop("-", binop("*", s.n, s.c.w + 1), 0 if s.nl else ite(s.n.t > 0, 1, 0)))
    def __bool__(s): return eng().branch(s.n.t > 0)
    def __eq__(s, o):
        if isinstance(o, str) and o == "": return S(s.n.t == 0, "pybool")
        raise Unsupported("text comparison")
    def __ne__(s, o): return S(Not(s.__eq__(o).t), "pybool")
    __hash__ = None
    def strip(s, *a): return TextView(s.c, s.start, s.n, False)
    rstrip = strip
    def lines(s): c, st = s.c, s.start; return Seq(s.n, lambda k: hextok(c, z3.simplify(st + zi(k))))
    def splitlines(s, *a): return L(site="splitlines", base=s.lines())
    def split(s, sep=None, *a):
        if sep is None: return L(site="split", base=s.lines())
        if sep != "\n" or a: raise Unsupported("split")
        if s.nl: return L(site="split", base=npshim.concat_seq(s.lines(), npshim.seq_of_values([""])))
        if eng().branch(s.n.t == 0): return L([""])
        return L(site="split", base=s.lines())
def text_view(c, p, n):
    e = eng(); u = c.w + 1
    if not e.valid(And(p.t % u == 0, n.t % u == 0)): raise Unsupported("read of a text file that is not aligned to lines")
    return TextView(c, z3.simplify(p.t / u), sym.restrict(binop("//", n, u), 0, None))

# ---------------------------------------------------------------- output files
class Expect:
    """expected output: record(k) for 0<=k<n.  record(k) -> list of items: ('b', byte term) for binary;
    ('hex', w, term), ('dec', S), literal str for text"""
    def __init__(s, name, n, record, binary, ghost=None): s.name, s.n, s.record, s.binary = name, nn(n), record, binary
class OutContent:
    """output file; with an expectation, pos counts units (bytes, characters, whole decimal numbers) of the expected record stream"""
    def __init__(s, path, expect):
        s.path, s.expect = path, expect; s.pos = lift(0); s.log = []; s.truncated = False
        if expect is not None: s.L = len(flat(expect.record(eng().fresh_int("r0"))))
        eng().register(s, "file:" + str(path))
    def cells(s): return ["pos"]
    def get_cell(s, c): return getattr(s, c)
    def set_cell(s, c, v): setattr(s, c, v)
    def set(s, pos): eng().touch(s, "pos"); s.pos = pos
    def reset(s):
        s.truncated = True
        if s.expect is None: s.log = []; return
        s.set(lift(0))
    def write(s, x):
        if s.expect is None: 
            if eng().active and any(lp.mode == "cut" for lp in eng().active): raise Unsupported("unspecified output in a summarised loop")
            s.log.append(x); return
        ex = s.expect
        if ex.binary:
            if isinstance(x, str): raise pyerr(TypeError, "a bytes-like object is required, not 'str'")
            if isinstance(x, RepBytes): return s.write_rep(x)
            if isinstance(x, (bytes, bytearray)): items = [("b", IntVal(v)) for v in x]
            elif isinstance(x, Bytes):
                c = concrete(x.n)
                if c is None: return s.write_long(x)
                items = [("b", t) for t in x.terms()]
            elif isinstance(x, A): return s.write_rep(array_bytes(x))
            else: raise Unsupported("write of %r" % type(x))
        else:
            if isinstance(x, RepText): return s.write_rep_text(x)
            if isinstance(x, (bytes, Bytes)): raise pyerr(TypeError, "write() argument must be str")
            items = parse_text(x)
        s.match(items)
    def split(s):
        """(record number term, concrete unit offset in the record)"""
        e = eng(); L = s.L
        if L == 1: return s.pos.t, 0
        r = bits_mod(s.pos.t, L)
        c = concrete(I(r))
        if c is None:
            for _ in range(L):
                if e.check_sat() != "sat": break
                v = e.model.eval(r, model_completion=True)
                if not z3.is_int_value(v): break
                if e.branch(r == v): c = v.as_long(); break
            if c is None: raise Unsupported("output position inside a record")
        return div_by(s.pos.t, L, c), c
    def match(s, items):
        e = eng(); ex = s.expect; R, off = s.split()
        todo = list(items); n = len(flat_items(items))
        while todo:
            if off == 0: e.prove("%s: no more output than the specified records" % ex.name, R < ex.n.t)
            rec = flat(ex.record(z3.simplify(R)))
            while todo and off < len(rec): off = match_item(e, ex, rec, off, todo)
            if off == len(rec): R = z3.simplify(R + 1); off = 0
        s.set(binop("+", s.pos, n))
    def rep(s, m, n, items_of, what):
        """n repetitions of items (m units each)"""
        e = eng(); ex = s.expect; R, off = s.split(); L = s.L
        if off: raise Unsupported("array output inside a record")
        k = e.fresh_int("wk"); u = n
        if m % L == 0: q = 1; per = m // L
        elif L % m == 0:
            q = L // m; per = 1
            e.prove("%s: whole records written" % ex.name, n.t % q == 0); u = binop("//", n, q)
        else: raise Unsupported("record size")
        e.prove("%s: no more output than the specified records" % ex.name, R + u.t * per <= ex.n.t)
        its = lambda: [i for j in range(q) for i in items_of(z3.simplify(k * q + j) if q > 1 else k)]
        with_assumption(e, And(k >= 0, k < u.t), lambda: consume(e, ex, z3.simplify(R + k * per), its()))
        s.set(binop("+", s.pos, binop("*", n, m)))
    def write_rep(s, x): s.rep(x.m, x.n, lambda k: [("b", t) for t in x.get(k)], "bytes")
    def write_long(s, x):
        e = eng(); L = s.L
        if not e.valid(x.n.t % L == 0): raise Unsupported("bytes of unknown length")
        n = binop("//", x.n, L); s.rep(L, n, lambda i: [("b", x.get(z3.simplify(zi(i) * L + j))) for j in range(L)], "bytes")
    def write_rep_text(s, x):
        k = eng().fresh_int("wk"); w = sum(len_item(i) for i in x.get(k))
        s.rep(w, x.n, x.get, "text")
def flat_items(items): return [u for i in items for u in range(len_item(i))]
def bits_mod(t, L):
    """t mod L, dropping multiples of L"""
    t = z3.simplify(t)
    ch = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    keep = []
    for c in ch:
        q = c.as_long() if z3.is_int_value(c) else c.arg(0).as_long() if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(c.arg(0)) else 1
        if z3.is_int_value(c): keep.append(IntVal(q % L))
        elif q % L: keep.append(c)
    return z3.simplify((z3.Sum(keep) if len(keep) > 1 else keep[0] if keep else IntVal(0)) % L)
def div_by(t, L, rem):
    """(t - rem)/L for t known to be rem modulo L"""
    t = z3.simplify(t - rem)
    ch = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
    out = []; rest = []
    for c in ch:
        if z3.is_int_value(c) and c.as_long() % L == 0: out.append(IntVal(c.as_long() // L))
        elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() % L == 0:
            r = IntVal(c.arg(0).as_long() // L)
            for x in c.children()[1:]: r = r * x
            out.append(r)
        else: rest.append(c)
    if rest: out.append((z3.Sum(rest) if len(rest) > 1 else rest[0]) / L)
    return z3.simplify(z3.Sum(out) if len(out) > 1 else out[0] if out else IntVal(0))
def with_assumption(e, c, fn):
    """fn's obligations hold under c (fresh symbols only, so c may simply stay assumed when satisfiable)"""
    if e.check_sat(c) == "unsat": return
    e.solver.push(); m = len(e.pc); e.assume(c)
    try: fn()
    finally: e.solver.pop(); del e.pc[m:]
def consume(e, ex, R, items):
    while items:
        rec = flat(ex.record(R)); off = 0
        while items and off < len(rec): off = match_item(e, ex, rec, off, items)
        R = z3.simplify(R + 1)
def flat(rec):
    """record -> list of unit items; a hex item of w digits becomes w units"""
    out = []
    for r in rec:
        if isinstance(r, str): out += [("lit", c) for c in r]
        elif r[0] == "hex": out += [("hexd", r[1], i, r[2]) for i in range(r[1])]
        else: out.append(r)
    return out
def len_item(i):
    if i[0] == "lit": return 1
    if i[0] == "hex": return i[1]
    return 1
def match_item(e, ex, rec, off, todo):
    it = todo[0]; r = rec[off]
    if it[0] == "b":
        # compare runs of bytes at once
        n = min(len(rec) - off, len(todo)); run = [x for x in todo[:n]]
        if any(x[0] != "b" for x in run): raise Unsupported("mixed output")
        e.prove("%s: bytes of every record" % ex.name, And(*[rec[off + i][1] == run[i][1] for i in range(n)]))
        del todo[:n]; return off + n
    if it[0] == "lit":
        todo.pop(0)
        if r[0] == "lit":
            if r[1] != it[1]: e.fail("%s: text of every record" % ex.name, "wrote %r where %r is specified" % (it[1], r[1]))
            return off + 1
        if r[0] == "hexd":
            v = "0123456789abcdef".find(it[1])
            if v < 0: e.fail("%s: text of every record" % ex.name, "wrote %r where a hex digit is specified" % it[1]); return off + 1
            e.prove("%s: text of every record" % ex.name, (r[3] / 16**(r[1] - r[2] - 1)) % 16 == v); return off + 1
        e.fail("%s: text of every record" % ex.name, "wrote %r where %r is specified" % (it[1], r)); return off + 1
    if it[0] == "hex":
        w, v = it[1], it[2]
        if r[0] != "hexd" or r[2] + w > r[1]:
            todo.pop(0); e.fail("%s: text of every record" % ex.name, "wrote a %d-digit number where %r is specified" % (w, r[:3])); return off + 1
        todo.pop(0)
        want = r[3] / 16**(r[1] - r[2] - w) if r[1] - r[2] - w else r[3]
        if r[2]: want = want % 16**w
        e.prove("%s: text of every record" % ex.name, And(v.t == want, v.t >= 0, v.t < 16**w))
        return off + w
    if it[0] == "dec":
        todo.pop(0)
        if r[0] != "dec": e.fail("%s: text of every record" % ex.name, "wrote a decimal number where %r is specified" % (r,)); return off + 1
        e.prove("%s: text of every record" % ex.name, eq_term(it[1], r[1])); return off + 1
    raise Unsupported("output item %r" % (it[0],))
_tok = re.compile("\ue000(\\d+)\ue001")
def parse_text(x):
    if isinstance(x, HexTok): return [("hex", x.w, x.value())] + ([("lit", "\n")] if x.nl else [])
    if not isinstance(x, str): raise Unsupported("text output of %r" % type(x))
    out = []; p = 0
    for m in _tok.finditer(x):
        out += [("lit", c) for c in x[p:m.start()]]; p = m.end()
        v, spec = eng().tokens[int(m.group(1))]
        out.append(fmt_item(v, spec))
    return out + [("lit", c) for c in x[p:]]
def fmt_item(v, spec):
    m = re.fullmatch(r"0(\d+)x", spec)
    if m and isnum(v): return ("hex", int(m.group(1)), sym.asint(lift(v)))
    m = re.fullmatch(r">?(\d*)x", spec)
    if m and isnum(v) and not sym.isfltk(lift(v).k):
        v = sym.asint(lift(v)); w = int(m.group(1) or 1)
        if not eng().branch(And(v.t >= (16**(w - 1) if w > 1 else 0), v.t < 16**w)): raise Unsupported("hexadecimal number of varying width")
        return ("hex", w, v)
    if isnum(v) and spec in ("", "d") and not sym.isfltk(lift(v).k): return ("dec", lift(v))
    raise Unsupported("format %r of %r" % (spec, type(v)))
class RepText:
    """n repetitions of text items get(k)"""
    def __init__(s, n, get): s.n, s.get = nn(n), get
class OutFile:
    def __init__(s, content, mode): s.c, s.mode, s.closed = content, mode, False
    def __enter__(s): return s
    def __exit__(s, *a): s.closed = True
    def close(s): s.closed = True
    def flush(s): pass
    def write(s, x):
        if s.closed: raise pyerr(ValueError, "I/O operation on closed file")
        s.c.write(x)
    def writelines(s, xs):
        if isinstance(xs, (list, tuple)): 
            for x in xs: s.write(x)
            return
        q = as_seq(xs)
        c = concrete(q.n)
        if q.mask is not None: raise Unsupported("writelines of filtered sequence")
        if c is not None:
            for i in range(c): s.write(q.get(IntVal(i)))
        else: s.write(join_seq("", q))
def join_seq(sep, q):
    e = eng(); v = q.get(e.fresh_int("jn"))
    if isinstance(v, (Bytes, bytes)):
        if sep not in (b"", ""): raise Unsupported("bytes join with separator")
        m = len(v) if isinstance(v, bytes) else v.fixlen()
        def get(k):
            b = q.get(k); b = bytes_const(b) if isinstance(b, bytes) else b
            return b.terms()
        return RepBytes(q.n, m, get)
    if isinstance(v, str):
        if sep: return JoinText(sep, q)
        return RepText(q.n, lambda k: parse_text(q.get(k)))
    raise Unsupported("join of %r" % type(v))
class JoinText:
    """sep.join(seq): usable once a trailing separator is added"""
    def __init__(s, sep, q): s.sep, s.q = sep, q
    def __add__(s, o):
        if o == s.sep:
            if eng().branch(s.q.n.t == 0): return o
            return RepText(s.q.n, lambda k: parse_text(s.q.get(k)) + [("lit", c) for c in o])
        raise Unsupported("joined text + %r" % (o,))
def array_bytes(a):
    if a.buf.mask is not None: raise Unsupported("bytes of filtered array")
    if a.kind not in sym.INTK: raise Unsupported("bytes of %s array" % a.kind)
    m = npshim.DTS[a.kind].itemsize; g = a.getter(); sg = a.kind[0] != "u"
    def get(k):
        t = g(zi(k)).t
        if sg: t = If(t < 0, t + 256**m, t)
        return [byte_of(t, i) for i in range(m)]
    return RepBytes(a.flatn, m, get)

# ---------------------------------------------------------------- numpy file input
def frombytes(b, kind, n):
    if kind not in sym.INTK: raise Unsupported("frombuffer dtype " + kind)
    m = npshim.DTS[kind].itemsize
    def get(k):
        k = zi(k)
        ts = [b.get(z3.simplify(m * k + i)) for i in range(m)]
        r = assemble(ts, kind[0] != "u")
        return S(r.t, kind, r.lo, r.hi)
    return A(kind, n, get)
def frombuffer(b, kind, count=-1, offset=0):
    if isinstance(b, (bytes, bytearray)): b = bytes_const(b)
    if not isinstance(b, Bytes): raise Unsupported("frombuffer of %r" % type(b))
    if concrete(offset) != 0: b = b[offset:]
    m = npshim.DTS[kind].itemsize
    if concrete(count) != -1: b = b[:concrete(count) * m]
    if eng().branch(b.n.t == 0): pass        # numpy >= 1.?? returns an empty array
    if not eng().branch(b.n.t % m == 0): raise pyerr(ValueError, "buffer size must be a multiple of element size")
    return frombytes(b, kind, sym.restrict(binop("//", b.n, m), 0, None))
def fromfile(f, kind, count=-1, offset=0):
    if isinstance(f, (str, VPath)): f = vf_open(f, "rb")
    if not isinstance(f, InFile) or not isinstance(f.c, BinContent): raise Unsupported("fromfile")
    if concrete(offset): f.seek(offset, 1)
    m = npshim.DTS[kind].itemsize
    if concrete(count) != -1:
        b = f.read(binop("*", count, m))
    else: b = f.read()
    n = sym.restrict(binop("//", b.n, m), 0, None)      # trailing bytes are ignored by fromfile
    return frombytes(b, kind, n)
def genfromtxt(f, delimiter=None, dtype=float, **k):
    for a, v in k.items():
        if a not in ("ndmin", "encoding", "comments"): raise Unsupported("genfromtxt option " + a)
    if isinstance(f, InFile): c = f.c
    else: c = eng().fs_lookup(f)
    if not isinstance(c, TextContent): raise Unsupported("genfromtxt of a binary file")
    kd = npshim.kind_of(dtype) if not (dtype is str) else None
    if kd is None or kd[0] != "U": raise Unsupported("genfromtxt dtype")
    w = int(kd[1:])
    def get(i):
        t = hextok(c, i)
        if w < c.w: return t[:w]
        return t
    a = A(kd, c.n_lines, get)
    if concrete(k.get("ndmin", 0)) == 1: return a
    if eng().branch(c.n_lines.t == 1): a.ndim0 = True
    return a

# ---------------------------------------------------------------- paths
class VPath:
    def __init__(s, *p):
        p = [str(x) for x in p] or ["."]
        r = p[0]
        for x in p[1:]: r = x if x.startswith("/") else r.rstrip("/") + "/" + x
        s.p = r
    def __str__(s): return s.p
    def __repr__(s): return "VPath(%r)" % s.p
    def __fspath__(s): return s.p
    def __format__(s, spec): return format(s.p, spec)
    def __truediv__(s, o): return VPath(s.p, str(o))
    def __eq__(s, o): return isinstance(o, VPath) and o.p == s.p
    def __hash__(s): return hash(s.p)
    @property
    def name(s): return s.p.rstrip("/").split("/")[-1]
    @property
    def parent(s): return VPath(s.p.rsplit("/", 1)[0] if "/" in s.p else ".")
    @property
    def stem(s): return s.name.rsplit(".", 1)[0]
    def is_file(s): return eng().fs_exists(s.p)
    def exists(s): return eng().fs_exists(s.p)
    def is_dir(s): return not eng().fs_exists(s.p)
    def resolve(s, *a): return s
    absolute = expanduser = resolve
    def as_posix(s): return s.p
    def stat(s):
        class R: pass
        r = R(); c = eng().fs_lookup(s.p); r.st_size = c.n; return r
    def open(s, mode="r", *a, **k): return vf_open(s, mode, *a, **k)
    def unlink(s, missing_ok=False): eng().fs_unlink(s.p, missing_ok)
    def glob(s, pat):
        h = getattr(eng(), "glob_hook", None)
        if h: return h(s, pat)
        raise Unsupported("glob")
    def iterdir(s): return s.glob("*")
    def read_bytes(s):
        with vf_open(s, "rb") as f: return f.read()
    def write_bytes(s, b):
        with vf_open(s, "wb") as f: f.write(b)
    def read_text(s, *a):
        with vf_open(s, "r") as f: return f.read()
    def mkdir(s, *a, **k): pass
class PathlibShim:
    Path = PurePath = PosixPath = VPath
def vf_open(p, mode="r", *a, **k):
    e = eng(); p = str(p)
    if "r" in mode and "+" not in mode:
        c = e.fs_lookup(p)
        if isinstance(c, TextContent) and "b" in mode: raise Unsupported("binary read of a text file")
        if isinstance(c, BinContent) and "b" not in mode: raise Unsupported("text read of a binary file")
        return InFile(c, mode)
    if mode[0] in "wax" and "+" not in mode:
        o = e.fs_out(p, mode)
        if o.expect is not None and o.expect.binary != ("b" in mode): e.fail("%s: opened in the right mode" % o.expect.name, "mode " + mode)
        if mode[0] != "a": o.reset()
        return OutFile(o, mode)
    raise Unsupported("open mode " + mode)
