"""Abstract timestamp files and the specification of their events (formats a0, a1, a2)."""
from vc import *
MOD = "fpfind.lib.parse_timestamps"
UNITS = {"NS1": 1, "PS125": 8, "PS4": 256}
FMTS = [("0", False), ("1", False), ("1", True), ("2", False)]

class EvFile:
    """well-formed file of N events; events are given by uninterpreted bytes / line values"""
    def __init__(s, e, fmt, legacy, N=None, tag=""):
        s.fmt, s.legacy, s.e = fmt, legacy, e
        s.N = N if N is not None else e.fresh_int("N"); e.assume(s.N >= 0)
        n = lift(0); n = S(s.N, "pyint", 0)
        if fmt == "1":
            s.F = e.fresh_fun("byte", Int, Int)
            def byte(i):
                b = s.F(zi(i)); iomod.byte_fact(b); return b
            s.byte = byte
            s.content = iomod.BinContent(binop("*", n, 8), byte); s.unit = 8
        else:
            s.w = 8 if fmt == "0" else 16; s.F = e.fresh_fun("line", Int, Int)
            def val(i):
                v = s.F(zi(i)); k = ("lf", v.get_id())
                if k not in e.tokens: e.tokens[k] = v; e.assume(And(v >= 0, v < 16**s.w))
                return v
            s.val = val
            s.content = iomod.TextContent(binop("*", n, 2) if fmt == "0" else n, s.w, val); s.unit = 18 if fmt == "0" else 17
    def words(s, k):
        """(low, high) 32-bit words of event k"""
        k = zi(k)
        if s.fmt == "1":
            a = sum(s.byte(8 * k + i) * 256**i for i in range(4)); b = sum(s.byte(8 * k + 4 + i) * 256**i for i in range(4))
            return (b, a) if s.legacy else (a, b)
        if s.fmt == "0": return s.val(2 * k), s.val(2 * k + 1)
        v = s.val(k); return v % 2**32, v / 2**32
    def value(s, k):
        if s.fmt == "2": return s.val(zi(k))
        lo, hi = s.words(k); return lo + hi * 2**32
    def count(s, k): return s.value(k) / 2**10
    def pattern(s, k): return s.value(k) % 16
    def t(s, k, unit, frac):
        c = s.count(k); r = UNITS[unit]
        if frac: return ToReal(c) * RealVal(r) / 256
        return c if r == 256 else c / (256 // r)
    # -------- replay
    def model_events(s, m, idx=None):
        n = m.eval(s.N, model_completion=True).as_long()
        def ev(k): return m.eval(z3.simplify(s.value(IntVal(k))), model_completion=True).as_long() % 2**64
        if idx is None and n > 60: return [(j * 0x9E3779B97F4A7C15 + 5) % 2**64 for j in range(min(n, 20000))], n
        return [ev(k) for k in (idx if idx is not None else range(min(n, 60)))], n
def model_index(m, names=("k!",)):
    return sorted({m[d].as_long() for d in m.decls() if any(d.name().startswith(x) for x in names) and z3.is_int_value(m[d])})
def res_enum(load, unit): return getattr(load("fpfind").TSRES, unit)
