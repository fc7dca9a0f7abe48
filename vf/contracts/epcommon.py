"""Abstract epoch files."""
from tscommon import *
EMOD = "fpfind.lib.parse_epochs"
ETRUSTED = ["numpy 1.26 element-wise arithmetic, casts and promotion as modelled in vf/sym.py and vf/npshim.py", "read() returns the next bytes of the file, fewer only at its end",
            "struct/int.from_bytes as modelled in vf/iomod.py; little-endian host", "longdouble is x87 extended precision (64-bit significand), round to nearest"]

class T1File:
    """T1 file: header, N events, terminator.  cut: number of bytes (default: all)."""
    def __init__(s, e, length=None, N=None, epoch=None, size=None, any_records=False):
        s.e = e; s.any = any_records; s.N = N if N is not None else e.fresh_int("N"); e.assume(And(s.N >= 0, s.N < 2**32))
        s.E = epoch if epoch is not None else e.fresh_int("epoch"); e.assume(And(s.E >= 0, s.E < 2**32))
        s.len = length if length is not None else s.N; s.done = {}
        s.OFF = e.fresh_fun("off", Int, Int); s.PAT = e.fresh_fun("pat", Int, Int); s.B = e.fresh_fun("byte", Int, Int, Int)
        s.H = [e.fresh_int("hdr") for _ in range(20)]
        for b in s.H: iomod.byte_fact(b)
        def w(i): return sum(s.H[4 * i + j] * 256**j for j in range(4))
        e.assume(And(w(0) == 0x101, w(1) == s.E, w(2) == s.len, w(3) == 49, w(4) == 4))
        s.size = size if size is not None else 20 + 8 * (s.N + 1)
        s.content = iomod.BinContent(S(s.size, "pyint", 0), s.byte); s.content.fork = True
    def facts(s, k):
        k = z3.simplify(zi(k)); i = k.get_id()
        if i in s.done: return k
        s.done[i] = k; o, p = s.OFF(k), s.PAT(k); e = s.e
        e.assume(And(o >= 0, o < 2**37, p >= 1, p <= 15))
        bs = [s.B(k, j) for j in range(8)]
        for b in bs: iomod.byte_fact(b)
        hi = sum(bs[j] * 256**j for j in range(4)); lo = sum(bs[4 + j] * 256**j for j in range(4))
        if s.any: e.assume(Implies(And(k >= 0, k < s.N), Or(hi != 0, lo != 0)))
        else: e.assume(Implies(And(k >= 0, k < s.N), hi * 2**32 + lo == s.value_(k)))
        e.assume(Implies(k == s.N, And(hi == 0, lo == 0)))
        return k
    def count_(s, k): return (s.E % 2**17) * 2**37 + s.OFF(k)
    def value_(s, k): return s.count_(k) * 1024 + s.PAT(k)
    def count(s, k): return s.count_(s.facts(k))
    def pat(s, k): return s.PAT(s.facts(k))
    def byte(s, i):
        i = z3.simplify(zi(i))
        if z3.is_int_value(i) and i.as_long() < 20: return s.H[i.as_long()]
        i = z3.simplify(i - 20); j = concrete(I(iomod.bits_mod(i, 8)))
        if j is None: raise Unsupported("read of a T1 file that is not aligned to its records")
        k = s.facts(iomod.div_by(i, 8, j)); return s.B(k, j)
    def model(s, m):
        ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
        n = ev(s.N); return dict(epoch=ev(s.E), events=[[ev(s.OFF(k)) % 2**37, (ev(s.PAT(k)) - 1) % 15 + 1] for k in range(min(n, 40))])

def prove_times(e, what, got, N, raw, epoch, width, unit, frac, full):
    """got[k] is raw(k) (units of 1/256 ns) in the requested unit plus the full epoch"""
    u = UNITS[unit]; d = 256 // u
    def spec_int(k): return (raw(k) if d == 1 else raw(k) / d) + ((epoch / 2**17) * (2**54 // d) if full else 0)
    if not frac: prove_seq(e, what, got, N, spec_int); return
    if not full:
        prove_seq(e, what, got, N, lambda k: ToReal(raw(k)) / d); return
    if not isinstance(got, (A, L, Seq)): e.fail(what + ": is a sequence", "%r" % type(got)); return
    q = as_seq(got); e.prove(what + ": length", q.n.t == N)
    k = e.fresh_int("k"); e.solver.push(); mark = len(e.pc)
    try:
        e.assume(And(k >= 0, k < N))
        if e.check_sat() == "unsat": return
        g = real(lift(q.get(k))); x = ToReal(raw(k) + (epoch / 2**17) * 2**54) / d
        e.prove(what + ": every element to 1/8 ns", And(g - x <= RealVal(u) / 8, x - g <= RealVal(u) / 8))
    finally: e.solver.pop(); del e.pc[mark:]; e.cache = {}
OPTS = [(u, f, p) for u in UNITS for f in (False, True) for p in (False, True)]

class PackFile:
    """T2/T4 file with arbitrary contents behind the header: a stream of bits, most significant first, in little-endian 32-bit words.
    BITS(p, w) is the number stored in the w bits from bit p on (w >= 0); entries are defined by the file specification:
    entry k starts at bit PB(k): a field of `to` bits; if it is 0, 32 more bits; then `bb` bits."""
    def __init__(s, e, kind, to, bb, length, size=None, epoch=None):
        s.e, s.kind = e, kind; s.hdr = 24 if kind == "T2" else 20; s.to, s.bb, s.len = to, bb, length
        s.BITS = e.fresh_fun("bits", Int, Int, Int); s.PB = e.fresh_fun("pb", Int, Int); s.FB = e.fresh_fun("byte", Int, Int, Int); s.SUM = e.fresh_fun("sum", Int, Int)
        s.E = epoch if epoch is not None else e.fresh_int("epoch"); e.assume(And(s.E >= 0, s.E < 2**32)); s.done = {}; s.bdone = {}; s.wdone = {}; s.hooked = []
        s.H = [e.fresh_int("hdr") for _ in range(s.hdr)]
        for b in s.H: iomod.byte_fact(b)
        def w(i, sg=False):
            t = sum(s.H[4 * i + j] * 256**j for j in range(4)); return If(t >= 2**31, t - 2**32, t) if sg else t
        sg = kind == "T2"
        e.assume(And(w(0) == (0x102 if kind == "T2" else 0x104), w(1) == s.E, w(2) == length, w(3, sg) == to, w(4, sg) == bb))
        s.size = size if size is not None else e.fresh_int("size"); e.assume(s.size >= s.hdr)
        s.content = iomod.BinContent(S(s.size, "pyint", s.hdr), s.byte); s.content.fork = True
        e.assume(And(s.PB(0) == 0, s.SUM(0) == 0)); s.on_entry = []; s.per = lambda d: d
        e.hooks_shift.append(s.shift); e.hooks_mask.append(s.mask); e.hooks_sub.append(s.sub)
    # ---- the bit stream
    def bits(s, p, w):
        p, w = z3.simplify(zi(p)), z3.simplify(zi(w)); t = s.BITS(p, w); i = t.get_id()
        if i not in s.bdone: s.bdone[i] = t; s.e.assume(And(t >= 0, Implies(w == 0, t == 0), Implies(w <= 32, t < 2**32), Implies(w <= 31, t < 2**31)))
        return t
    def word(s, q):
        """axiom: bits 32q..32q+31 are word q of the body"""
        q = z3.simplify(q); i = q.get_id()
        if i not in s.wdone:
            bs = [s.FB(q, j) for j in range(4)]; s.wdone[i] = (q, bs)
            for b in bs: iomod.byte_fact(b)
            s.e.assume(s.bits(32 * q, 32) == sum(bs[j] * 256**j for j in range(4)))
        return s.wdone[i][1]
    def byte(s, i):
        i = z3.simplify(zi(i))
        if z3.is_int_value(i) and i.as_long() < s.hdr: return s.H[i.as_long()]
        i = z3.simplify(i - s.hdr); j = concrete(I(iomod.bits_mod(i, 4)))
        if j is None: raise Unsupported("read of an epoch file that is not aligned to its words")
        return s.word(iomod.div_by(i, 4, j))[j]
    def rep(s, t):
        """(p, w) if the integer term t is BITS(p, w)"""
        t = z3.simplify(t)
        if z3.is_app(t) and t.decl().eq(s.BITS): return t.arg(0), t.arg(1)
        if z3.is_int_value(t) and t.as_long() == 0: return None
        ch = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD else [t]
        hi = None
        for c in ch:
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() == 2**32 and z3.is_app(c.arg(1)) and c.arg(1).decl().eq(s.BITS): hi = c
        rest = z3.simplify(t - hi) if hi is not None else t
        p, w = (hi.arg(1).arg(0), hi.arg(1).arg(1)) if hi is not None else (None, None)
        for q, bs in list(s.wdone.values()):
            if not s.e.valid(rest == sum(bs[j] * 256**j for j in range(4))): continue
            if p is None: return z3.simplify(32 * q), IntVal(32)
            if s.e.valid(p + w == 32 * q):
                # axiom: concatenation
                s.e.assume(s.bits(p, w + 32) == 2**32 * s.bits(p, w) + s.bits(p + w, 32)); s.e.assume(s.bits(p + w, 32) == s.bits(32 * q, 32))
                return p, z3.simplify(w + 32)
        return None
    def shift(s, a, b):
        r = s.rep(a.t)
        if r is None: return None
        p, w = r
        if not s.e.valid(b.t <= w): return None
        # axiom: BITS(p, w) = BITS(p, w-n) * 2^n + BITS(p+w-n, n), and dropping n bits leaves the first w-n
        t = s.bits(p, w - b.t); return S(t, "pyint", 0)
    def mask(s, a, n):
        r = s.rep(a.t)
        if r is None: return None
        p, w = r
        if not s.e.valid(And(n <= w, n >= 0)): return None
        return S(s.bits(p + w - n, n), "pyint", 0)
    def sub(s, a, h, n):
        """BITS(p, w) - BITS(p, w-n) * 2^n = BITS(p+w-n, n) (the same axiom)"""
        r = s.rep(a.t)
        if r is None: return None
        p, w = r
        if not s.e.valid(And(n <= w, n >= 0, h == s.bits(p, w - n))): return None
        return S(s.bits(p + w - n, n), "pyint", 0)
    # ---- the entries
    def M(s, k): return s.bits(s.PB(k), s.to)
    def ext(s, k): return s.M(k) == 0
    def D(s, k): return If(s.ext(k), s.bits(s.PB(k) + s.to, 32), s.M(k))
    def BS(s, k): return If(s.ext(k), s.bits(s.PB(k) + s.to + 32, s.bb), s.bits(s.PB(k) + s.to, s.bb))
    def facts(s, k):
        k = z3.simplify(zi(k)); i = k.get_id()
        if i in s.done: return k
        s.done[i] = k; e = s.e
        e.assume(Implies(And(k >= 0, s.to >= 0, s.bb >= 0), And(s.PB(k) >= 0, s.PB(k + 1) == s.PB(k) + s.to + s.bb + If(s.ext(k), 32, 0), s.SUM(k + 1) == s.SUM(k) + s.per(s.D(k)))))
        for f in s.on_entry:
            for t in f(k): e.assume(t)
        return k
    def unroll(s):
        """bounded search only: the definition of the first entries"""
        for k in range(s.e.bounded + 3 if s.e.bounded else 0): s.facts(IntVal(k))
    def SZ(s, k): return (-s.PB(k)) % 32
    # ---- closed forms of the reader's variables
    def templates(s, T0, lo, hi, bhi=2**31 - 1):
        def int_t(f):
            def t(lp, key, v0, it):
                if isinstance(v0, (bool, S, int)) and key[0] == "v" and isnum(v0) and sym.isintk(lift(v0).k): s.facts(it); return f(it)
            return t
        def pos(lp, key, v0, it):
            if key[0] == "h" and key[2] == "pos": s.facts(it); return S(z3.simplify(s.hdr + 4 * ((s.PB(it) + 31) / 32)), "pyint", 0)
        def lst(f, lo, hi):
            def t(lp, key, v0, it):
                if key[0] == "h" and key[2] == "list": return Seq(S(z3.simplify(zi(it)), "pyint", 0), lambda k: S(f(s.facts(k)), "pyint", lo, hi))
            return t
        return [pos, int_t(lambda it: S(s.bits(s.PB(it), s.SZ(it)), "pyint", 0)), int_t(lambda it: S(s.SZ(it), "pyint", 0, 31)), int_t(lambda it: S(T0 + s.SUM(it), "pyint", lo, hi)),
                lst(lambda k: T0 + s.SUM(k + 1), lo, hi), lst(s.BS, 0, bhi)]
    def model(s, m, n):
        ev = lambda t: m.eval(z3.simplify(t), model_completion=True)
        to, bb = ev(zi(s.to)).as_long(), ev(zi(s.bb)).as_long(); out = []
        for k in range(min(n, 40)):
            x = z3.is_true(ev(s.ext(k))) or to < 2; d = ev(s.D(IntVal(k))).as_long()
            out.append([d % 2**32 if x else max(2, d % 2**to), x, ev(s.BS(IntVal(k))).as_long() % 2**bb])
        return dict(epoch=ev(s.E).as_long(), to=to, bb=bb, entries=out)
