"""slice_timestamps and normalize_timestamps, in real arithmetic."""
from tscommon import *
MOD = "fpfind.lib.utils"
TRUSTED = ["floating-point timestamps treated as real numbers (sums and differences of times below 2^55/256 ns are exact in the 64-bit significand the code uses; a generic skip is rounded)",
           "numpy 1.26 element-wise operations and boolean indexing", "normalize_timestamps is verified for one to four sequences"]
KINDS = ["longdouble", "float64"]

def jobs(tier):
    out = [Job("slice_timestamps start=%s duration=%s %s" % (a, b, k), slicing(a, b, k), ideal=True) for a in ("none", "zero", "real") for b in ("none", "real") for k in KINDS]
    return out + [Job("normalize_timestamps %d sequences skip=%s %s" % (n, s, k), norm(n, s, k), ideal=True) for n in (1, 2, 3, 4) for s in ("default", "zero", "real") for k in KINDS]

class Seqs:
    def __init__(s, e, kind, nm="", nonempty=False):
        s.e, s.kind = e, kind; s.F = e.fresh_fun("T" + nm, Int, Real); s.N = e.fresh_int("N" + nm); e.assume(s.N >= (1 if nonempty else 0))
        x, y = z3.Ints("x y"); e.assume(ForAll([x, y], Implies(And(0 <= x, x <= y, y < s.N), s.F(x) <= s.F(y))))
    def array(s):
        a = A(s.kind, S(s.N, "pyint", 0), lambda k: S(s.F(zi(k)), s.kind)); a.buf._input = "timestamp sequence"; return a
    def counts(s, m, scale=256):
        n = min(m.eval(s.N, model_completion=True).as_long(), 12); q = lambda v: int(v.as_fraction() * scale) if hasattr(v, "as_fraction") else 0
        xs = [q(m.eval(s.F(IntVal(k)), model_completion=True)) for k in range(n)]; b = min(xs + [0])
        return sorted(min(x - b, 2**53) for x in xs)
def val(m, s, scale=256):
    v = m.eval(s.t, model_completion=True); return int(v.as_fraction() * scale) if hasattr(v, "as_fraction") else 0
def slicing(a, b, kind):
    def fn(e, load):
        q = Seqs(e, kind); ts = q.array()
        st = None if a == "none" else S(IntVal(0), "pyint", 0, 0) if a == "zero" else S(e.fresh_real("start"), "pyfloat"); du = None if b == "none" else S(e.fresh_real("duration"), "pyfloat")
        arg = 0 if a == "zero" else st
        def replay(m):
            out = [dict(kind="slice", T=[q.counts(m)], start=None if st is None else max(val(m, st), 0) if a != "zero" else 0, dur=None if du is None else max(val(m, du), 0), skip=0)]
            for T in ([256, 512, 512, 1024, 1536], [512], [0, 1024]):
                for s in ((0, 512, 700, 4096) if a == "real" else (0,)):
                    for d in ((0, 512, 1024, 1025) if b == "real" else (0,)): out.append(dict(kind="slice", T=[T], start=None if a == "none" else 0 if a == "zero" else s, dur=None if b == "none" else d, skip=0))
            return out
        e.replayer = replay; e.vacuous()
        r = must_return(e, "slice", load(MOD).slice_timestamps, ts, arg, du)
        ref = q.F(0) if st is None else real(st)
        def sel(k):
            f = [q.F(k) - ref >= 0] + ([q.F(k) - ref < du.t] if du is not None else [])
            return And(*f)
        if st is None and e.branch(q.N == 0): prove_filtered(e, "slice of nothing", r, IntVal(0), lambda k: BoolVal(True), lambda k: RealVal(0)); return
        prove_filtered(e, "slice", r, q.N, sel, lambda k: q.F(k) - ref)
    return fn
def norm(n, skip, kind):
    def fn(e, load):
        qs = [Seqs(e, kind, "_%d_" % i, True) for i in range(n)]; T = [q.array() for q in qs]
        sk = S(e.fresh_real("skip"), "pyfloat") if skip == "real" else None
        if sk is not None: e.assume(sk.t >= 0)
        def replay(m):
            s = min(max(val(m, sk, 512), 0), 2000) if sk is not None else 0
            return [dict(kind="norm", T=([q.counts(m) or [0] for q in qs]), start=None, dur=None, skip=s)] + [dict(kind="norm", T=[[5 + 100 * i, 900, 1000 + i, 1 << 30] for i in (0, 3, 1, 2)[:n]], start=None, dur=None, skip=s2) for s2 in ([0, 1] if sk is not None else [0])]
        e.replayer = replay; e.vacuous()
        kw = {} if skip == "default" else {"skip": 0 if skip == "zero" else sk}
        r = must_return(e, "normalisation", load(MOD).normalize_timestamps, *T, **kw)
        if isinstance(r, L): r = r.conc()
        if not isinstance(r, (list, tuple)) or len(r) != n: e.fail("normalisation returns as many sequences as it is given", repr(type(r))); return
        ref = qs[0].F(0)
        for q in qs[1:]: ref = If(q.F(0) > ref, q.F(0), ref)
        if sk is not None: ref = ref + sk.t * 10**9
        for i, (q, o) in enumerate(zip(qs, r)): prove_filtered(e, "sequence %d" % i, o, q.N, lambda k: q.F(k) - ref >= 0, lambda k: q.F(k) - ref)
    return fn
