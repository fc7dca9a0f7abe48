"""The frequency/time search (fpfind.py: time_freq, fpfind) in real arithmetic, against the contracts of its callees.

slice_timestamps, generate_fft, get_xcorr, get_timing_delay_fft and get_statistics are replaced by
contracts: a slice of a sequence is known by its source, start and duration, a transform by its slice,
bin count and width, a correlation by its two transforms; the delay and the significance of a correlation
are unknown functions of it.  Ghost functions of the number n of (early, late) measurements taken:
T(n), F(n): composed offset and factor; B(n, k): event k of the second side after n corrections;
BAD(n): how many of the n early delays were beyond 100 ms."""
from tscommon import *
from sym import nl
MOD = "fpfind.fpfind"
PF = "fpfind.lib.utils."
DELAY, SIG = z3.Function("delay", Int, Real), z3.Function("signif", Int, Real)
MERGE = z3.Function("merge", Int, Int)
T, F = z3.Function("composed_offset", Int, Real), z3.Function("composed_factor", Int, Real)
B = z3.Function("corrected_event", Int, Int, Real)
BAD = z3.Function("early_beyond_limit", Int, Int)
EARLY, LATE, FC = z3.Function("early_of", Int, Int), z3.Function("late_of", Int, Int), z3.Int("first_accepted")
WID = z3.Function("bin_width_of", Int, Real)
ID, W, LEN = z3.Function("merged", Int, Int, Int), z3.Function("bin_width", Int, Int, Real), z3.Function("bin_count", Int, Int, Int)
LIMIT = RealVal(10**8)
TRUSTED = ["floating-point arithmetic treated as real arithmetic (as the property says)", "numpy element-wise arithmetic, arange, floor, round, reshape(-1, 2) summed over axis 1",
           "callee contracts: slice_timestamps (C14), generate_fft, get_xcorr, get_timing_delay_fft (C15), get_statistics (C17: nothing significant in two bins or a flat background)"]

class Seqs:
    def __init__(s, e, kind, nm):
        s.e, s.kind = e, kind; s.F = z3.Function("T" + nm, Int, Real); s.N = e.fresh_int("N" + nm); e.assume(s.N >= 1)
    def array(s):
        a = A(s.kind, S(s.N, "pyint", 1), lambda k: S(s.F(zi(k)), s.kind)); a.buf._input = "timestamp sequence"; return a
def mul(a, b): return nl("*", a, b)
def div(a, b): return nl("/", a, b)
def absr(x): return If(x < 0, -x, x)
class Ghost:
    """measurements taken so far"""
    def __init__(s, e): object.__setattr__(s, "c", dict(n=lift(0), early=lift(0), en=lift(-1), late=lift(0), first=lift(0))); s.e = e; e.register(s, "measurements")
    def get_cell(s, c): return s.c[c]
    def set_cell(s, c, v): s.c[c] = v
    def put(s, c, v): s.e.touch(s, c); s.c[c] = v
class Slice:
    def __init__(s, side, start, dur, nonempty): s.side, s.start, s.dur, s.nonempty = side, start, dur, nonempty
    def _vf_len(s):
        if not s.e.branch(s.nonempty): return 0
        raise Unsupported("length of a slice")
class Tr:
    def __init__(s, sl, bins, width): s.sl, s.bins, s.width = sl, bins, width
class Hist:
    """cross-correlation of two transforms with adjacent bins merged j times"""
    def __init__(s, rid, j, start): s.rid, s.j, s.start = rid, j, start
    def bins(s): return LEN(s.rid, s.j)
    def width(s): return W(s.rid, s.j)
    def term(s): return ID(s.rid, s.j)
    def facts(s):
        e = sym.eng(); r, j = s.rid, s.j
        e.assume(And(j >= 0, ID(r, j + 1) == MERGE(ID(r, j)), W(r, j + 1) == 2 * W(r, j), WID(ID(r, j)) == W(r, j), W(r, j) > 0, LEN(r, j) >= 1, LEN(r, j) <= LEN(r, 0), Implies(LEN(r, j) <= 2, SIG(ID(r, j)) == 0), Implies(LEN(r, j) % 2 == 0, LEN(r, j + 1) * 2 == LEN(r, j))))
    def _vf_len(s): return npshim.unl(S(s.bins(), "pyint", 1))
    @property
    def size(s): return s._vf_len()
    @property
    def shape(s): return (s._vf_len(),)
    def reshape(s, *sh, **k):
        if len(sh) == 1 and isinstance(sh[0], (tuple, L)): sh = tuple(sh[0])
        e = sym.eng(); sh = [lift(x) for x in sh]
        if len(sh) != 2: raise Unsupported("reshape")
        if concrete(sh[1]) == 2 and (concrete(sh[0]) == -1 or e.valid(sh[0].t * 2 == s.bins())):
            if not e.branch(s.bins() % 2 == 0): raise sym.pyerr(ValueError, "cannot reshape array")
            return Pairs(s)
        raise Unsupported("reshape")
    def __getitem__(s, i):
        if isinstance(i, slice) and concrete(i.step) == 2 and (i.start is None or concrete(i.start) in (0, 1)) and i.stop is None: return Half(s, concrete(i.start or 0))
        raise Unsupported("element of a correlation")
    def _vf_same(s, e, o): return isinstance(o, Hist) and e.valid(And(s.rid == o.rid, s.j == o.j))
class Pairs:
    def __init__(s, h): s.h = h
    def sum(s, axis=None, **k): return s._vf_sum(axis)
    def _vf_sum(s, axis):
        if axis is None or concrete(axis) not in (1, -1): raise Unsupported("sum of a correlation")
        s.h.facts(); h = Hist(s.h.rid, z3.simplify(s.h.j + 1), s.h.start); h.facts(); return h
class Half:
    def __init__(s, h, o): s.h, s.o = h, o
    def __add__(s, o):
        if not isinstance(o, Half) or o.h is not s.h or s.o == o.o: raise Unsupported("sum of parts of a correlation")
        e = sym.eng()
        if not e.branch(s.h.bins() % 2 == 0): raise sym.pyerr(ValueError, "operands could not be broadcast together")
        return Pairs(s.h)._vf_sum(1)
class Stats:
    def __init__(s, h): s.h = h
    @property
    def significance(s): return S(SIG(s.h.term()), "pyfloat")

class Search:
    """one symbolic call of time_freq"""
    def __init__(s, e, kind):
        s.e = e; s.qa, s.qb = Seqs(e, kind, "_a"), Seqs(e, kind, "_b")
        s.alice, s.bob = s.qa.array(), s.qb.array()
        R = lambda nm: S(e.fresh_real(nm), "pyfloat")
        s.res, s.target, s.thr, s.sep = R("resolution"), R("target"), R("threshold"), R("separation")
        s.bins = S(e.fresh_int("bins"), "pyint", 2, 2**40); s.wraps = S(e.fresh_int("wraps"), "pyint", 1, 2**20)
        e.assume(And(s.res.t > 0, s.thr.t > 0, s.target.t > 0, s.sep.t > 0, s.res.t <= 10000, s.bins.t >= 2, s.bins.t <= 2**40, s.bins.t % 2 == 0, s.wraps.t >= 1, s.wraps.t <= 2**20))
        e.assume(And(T(0) == 0, F(0) == 1, BAD(0) == 0))
        s.g = Ghost(e); s.steps = []
    def args(s): return (s.alice, s.bob, s.wraps, s.bins, s.res, s.target, s.thr, s.sep)
    def side(s, ts):
        """which side a sequence is: the first as given, or the second with the corrections so far"""
        e = s.e
        if ts is s.alice: return "a"
        n = s.g.c["n"].t
        if not isinstance(ts, A) or ts.ndim0 or ts.cols is not None: raise Unsupported("sequence %r" % type(ts))
        q = ts.seq()
        if q.mask is not None: raise Unsupported("filtered sequence")
        k = e.fresh_int("k"); dom = And(k >= 0, k < q.n.t)
        if e.valid(q.n.t == s.qa.N) and e.valid(Implies(dom, real(q.get(k)) == s.qa.F(k))): return "a"
        e.prove("second side: all its events are correlated", q.n.t == s.qb.N)
        s.b0(k); e.prove("second side: events corrected by everything measured so far", Implies(dom, real(q.get(k)) == B(n, k)))
        return "b"
    def b0(s, k):
        """definition of the corrected events at index k"""
        s.e.assume(B(0, k) == s.qb.F(k))
        for n, x, d1 in s.steps: s.e.assume(B(n + 1, k) == div(B(n, k) - x, 1 + d1))
    def slicer(s, ts, start=None, duration=None):
        e = s.e; side = s.side(ts)
        if start is None: raise Unsupported("slice from the first event")
        st = real(lift(start)); ne = e.fresh_bool("some_event"); du = None if duration is None else real(lift(duration))
        # contract of slice_timestamps: non-empty only if some event lies in [start, start + duration)
        w = e.fresh_int("w"); n = s.g.c["n"].t
        if side == "a": v, N = s.qa.F(w), s.qa.N; e.assume(Implies(And(w >= 0, w < N), v <= s.qa.F(N - 1)))
        else:
            N = s.qb.N; v = B(n, w); s.b0(w); s.b0(N - 1); e.assume(Implies(And(n == 0, w >= 0, w < N), s.qb.F(w) <= s.qb.F(N - 1)))
        e.assume(Implies(ne, And(w >= 0, w < N, v >= st, *([v < st + du] if du is not None else []))))
        r = Slice(side, st, du, ne); r.e = e; return r
    def fft(s, arr, num_bins, time_res):
        e = s.e
        if not isinstance(arr, Slice): raise Unsupported("transform of %r" % type(arr))
        if not e.branch(arr.nonempty): raise sym.pyerr(ValueError, "Array is empty!")
        return Tr(arr, intt(lift(num_bins)), real(lift(time_res)))
    def xcorr(s, afft, bfft, filter=None):
        e = s.e
        if filter is not None or not isinstance(afft, Tr) or not isinstance(bfft, Tr): raise Unsupported("correlation arguments")
        e.prove("correlation: first side against second side", BoolVal(afft.sl.side == "a" and bfft.sl.side == "b"))
        if afft.sl.side == bfft.sl.side: raise Unsupported("correlation of a side with itself")
        e.prove("correlation: same window on both sides", afft.sl.start == bfft.sl.start)
        e.prove("correlation: same bins on both sides", And(afft.bins == bfft.bins, afft.width == bfft.width, afft.width > 0))
        rid = e.fresh_int("correlation"); h = Hist(rid, IntVal(0), afft.sl.start)
        e.assume(And(LEN(rid, 0) == afft.bins, W(rid, 0) == afft.width)); e.assume(rid > 0); h.facts(); return h
    def measure(s, hist, time_bins, *a, **k):
        e = s.e; g = s.g
        if not isinstance(hist, Hist): raise Unsupported("delay of %r" % type(hist))
        if not isinstance(time_bins, (A, L)): raise Unsupported("time axis %r" % type(time_bins))
        hist.facts(); q = as_seq(time_bins); j = e.fresh_int("k")
        e.prove("time axis: one time per bin", q.n.t == hist.bins())
        mark = len(e.pc); e.solver.push()
        e.assume(And(j >= 0, j < q.n.t, q.n.t == hist.bins()))
        if e.check_sat() != "unsat": e.prove("time axis: multiples of the bin width", real(lift(q.get(j))) == mul(ToReal(j), hist.width()))
        e.solver.pop(); del e.pc[mark:]; e.cache = {}
        d = DELAY(hist.term()); n = g.c["n"].t
        if e.valid(hist.start == 0):
            g.put("early", S(hist.term(), "pyint")); g.put("en", S(n, "pyint"))
        elif e.valid(hist.start == s.sep.t):
            e.prove("an early delay is measured before the late one", g.c["en"].t == n)
            x = DELAY(g.c["early"].t); y = d; d1 = div(y - x, s.sep.t)
            e.assume(And(T(n + 1) == T(n) + mul(F(n), x), F(n + 1) == mul(F(n), 1 + d1), BAD(n + 1) == BAD(n) + If(absr(x) > LIMIT, 1, 0), EARLY(n + 1) == g.c["early"].t, LATE(n + 1) == hist.term(), Implies(n == 0, FC == g.c["early"].t)))
            s.steps.append((n, x, d1))
            g.put("late", S(hist.term(), "pyint")); g.put("first", S(If(n == 0, g.c["early"].t, g.c["first"].t), "pyint")); g.put("n", S(z3.simplify(n + 1), "pyint", 0))
        else: e.fail("windows start at zero or at the separation", "window at %s" % z3.simplify(hist.start)); raise PathEnd()
        v = S(d, "float64"); return (v, S(e.fresh_real("other_candidate"), "float64"))
    def stats(s, hist, *a, **k):
        if not isinstance(hist, Hist): raise Unsupported("statistics of %r" % type(hist))
        e = s.e; hist.facts(); e.prove("statistics of at least two bins", hist.bins() >= 2)
        return Stats(hist)
    def overrides(s):
        return {PF + "slice_timestamps": s.slicer, PF + "generate_fft": s.fft, PF + "get_xcorr": s.xcorr, PF + "get_timing_delay_fft": s.measure, PF + "get_statistics": s.stats}
    # ---------------------------------------------------------------- closed forms and invariants
    def templates(s):
        def outer(lp): return ("h", s.g._key, "n") in lp.v0
        def n_of(lp, it):
            v = lp.v0.get(("h", s.g._key, "n")); return None if v is None else z3.simplify(lift(v).t + it)
        def hist(lp):
            for v in lp.v0.values():
                if isinstance(v, Hist): return v
        def scalar(f):
            def t(lp, k, v0, it):
                if not isnum(v0) or k[0] == "h" or sym.isboolk(lift(v0).k) or not outer(lp): return None
                return S(f(n_of(lp, it)), "float64")
            return t
        def inner(f, kind="float64"):
            def t(lp, k, v0, it):
                h = hist(lp)
                if h is None or outer(lp) or not isnum(v0) or sym.isboolk(lift(v0).k): return None
                if k[0] == "h" and k[2] not in ("early",) or k[0] == "v" and kind == "pyint": return None
                return S(f(h, z3.simplify(h.j + it)), kind)
            return t
        def ghost(lp, k, v0, it):
            if not outer(lp) or k[0] != "h" or k[1] != s.g._key: return None
            n = n_of(lp, it)
            return {"early": S(If(n <= 0, 0, EARLY(n)), "pyint"), "late": S(If(n <= 0, 0, LATE(n)), "pyint"), "first": S(If(n <= 0, 0, FC), "pyint")}.get(k[2])
        def arr(lp, k, v0, it):
            if not isinstance(v0, A) or not outer(lp): return None
            n = n_of(lp, it)
            def get(j): s.b0(zi(j)); return S(B(n, zi(j)), v0.kind)
            return A(v0.kind, S(s.qb.N, "pyint", 1), get)
        def arr2(lp, k, v0, it):
            if not isinstance(v0, A) or not outer(lp): return None
            n = n_of(lp, it); return A(v0.kind, S(s.qb.N, "pyint", 1), lambda j: S((s.qb.F(zi(j)) - T(n)) / F(n), v0.kind))
        def axis(lp, k, v0, it):
            h = hist(lp)
            if not isinstance(v0, A) or h is None or outer(lp): return None
            j = z3.simplify(h.j + it); Hist(h.rid, j, h.start).facts()
            return A(v0.kind, S(LEN(h.rid, j), "pyint", 1), lambda x: S(mul(ToReal(zi(x)), W(h.rid, j)), v0.kind))
        def corr(lp, k, v0, it):
            if not isinstance(v0, Hist): return None
            h = Hist(v0.rid, z3.simplify(v0.j + it), v0.start); h.facts(); return h
        return [scalar(T), scalar(F), scalar(lambda n: F(n) - 1), inner(lambda h, j: W(h.rid, j)), inner(lambda h, j: DELAY(ID(h.rid, j))), inner(lambda h, j: SIG(ID(h.rid, j))),
                inner(lambda h, j: ID(h.rid, j), "pyint"), ghost, arr, axis, corr]
    def invariants(s):
        def n_at(vals):
            v = vals.get(("h", s.g._key, "n")); return None if v is None else lift(v).t
        def outer(f):
            def t(lp, it, vals):
                n = n_at(vals); return [] if n is None else [f(n, vals)]
            return t
        def pos(i):
            def t(lp, it, vals):
                m = {str(k): k for k in vals}; ks = sorted(m)
                if i >= len(ks) or n_at(vals) is None: return []
                v, v0 = vals[m[ks[i]]], lp.v0.get(m[ks[i]])
                if not isnum(v) or not isnum(v0) or not (sym.isfltk(lift(v).k) or sym.isfltk(lift(v0).k)): return []
                return [real(lift(v)) > 0]
            return t
        def width(lp, it, vals):
            if n_at(vals) is not None: return []
            return [Or(s.g.c['n'].t >= 1, W(v.rid, v.j) <= 10000) for v in vals.values() if isinstance(v, Hist)]
        al, bl = s.qa.F(s.qa.N - 1), s.qb.F(s.qb.N - 1); fr = lambda v: lift(v.get(("h", s.g._key, "first"), s.g.c["first"])).t
        out = [outer(lambda n, v: n >= 0), outer(lambda n, v: Implies(n >= 1, absr(F(n) - 1) < RealVal("1/8192"))), outer(lambda n, v: BAD(n) == 0),
               outer(lambda n, v: Implies(n >= 1, And(al >= s.sep.t, bl >= s.sep.t))), outer(lambda n, v: Implies(n >= 1, SIG(fr(v)) >= s.thr.t)), outer(lambda n, v: Implies(n >= 1, SIG(fr(v)) != 0)), outer(lambda n, v: Implies(n >= 1, WID(fr(v)) <= 10000)),
               outer(lambda n, v: F(n) > 0), width]
        return out + [pos(i) for i in range(40)]

# ==================================================================== fpfind(): the scan over precompensations
P, DT, DF = z3.Function("precompensation", Int, Real), z3.Function("search_dt", Int, Real), z3.Function("search_df", Int, Real)
OK = z3.Function("search_succeeds", Int, Bool)
FI = z3.Int("first_success")
class Scan:
    """one symbolic call of fpfind(); call number n of time_freq succeeds iff OK(n), with (DT(n), DF(n))"""
    def __init__(s, e, fullscan):
        s.e = e; s.qa, s.qb = Seqs(e, "longdouble", "_a"), Seqs(e, "longdouble", "_b"); s.alice, s.bob = s.qa.array(), s.qb.array()
        R = lambda nm: S(e.fresh_real(nm), "pyfloat")
        s.par = [S(e.fresh_int("wraps"), "pyint", 1, 2**20), S(e.fresh_int("bins"), "pyint", 1, 2**40), R("resolution"), R("target"), R("threshold"), R("separation")]
        s.N = e.fresh_int("N_pre"); e.assume(And(s.N >= 0, FI >= 0))
        def get(k): s.pfact(k); return S(P(zi(k)), "pyfloat")
        s.pre = L(site="precompensations", base=Seq(S(s.N, "pyint", 0), get)); s.pre._input = "list of precompensations"
        s.g = Calls(e); s.full = fullscan
    def pfact(s, k): s.e.assume(P(zi(k)) > -1)
    def run(s, f): return call(s.e, f, s.alice, s.bob, *s.par, s.pre, s.full)
    def time_freq(s, *a, **k):
        e = s.e; names = ["ats", "bts", "num_wraps", "num_bins", "resolution", "target_resolution", "threshold", "separation_duration"]
        v = dict(zip(names, a)); v.update(k)
        if set(v) != set(names): raise Unsupported("arguments of time_freq")
        n = s.g.c["n"].t; e.prove("one search per precompensation", n < s.N); s.pfact(n)
        for nm, want in zip(names[2:], s.par): e.prove("search argument " + nm, eq_term(lift(v[nm]), want))
        for nm, q, f in (("ats", s.qa, lambda k: s.qa.F(k)), ("bts", s.qb, lambda k: div(s.qb.F(k), 1 + P(n)))): prove_seq(e, "search argument " + nm, v[nm], q.N, f)
        e.assume(And(Implies(n < FI, Not(OK(n))), Implies(n == FI, OK(n))))
        s.g.put("n", S(z3.simplify(n + 1), "pyint", 0))
        if not e.branch(OK(n)): raise e.loader.mods["fpfind.lib.constants"].PeakFindingFailed("search failed")
        return S(DT(n), "longdouble"), S(DF(n), "longdouble")
    def pair(s, n): return mul(1 + P(n), DT(n)), mul(1 + P(n), 1 + DF(n)) - 1
    def templates(s):
        def res(lp, k, v0, it):
            if v0 is not None or k[0] == "h": return None
            v = lp.v0.get(("h", s.g._key, "n"))
            if v is None: return None
            n = z3.simplify(lift(v).t + it)
            if s.e.branch(n <= FI): return loops.NONE
            x, y = s.pair(FI); return (S(x, "longdouble"), S(y, "longdouble"))
        return [res]
    def invariant(s, lp, it, vals):
        v = vals.get(("h", s.g._key, "n")); return [] if v is None else [lift(v).t <= FI]
class Calls(Ghost):
    def __init__(s, e): object.__setattr__(s, "c", dict(n=lift(0))); s.e = e; e.register(s, "searches")

# the property is to hold for every sequence of bin widths: refinement that does not depend on measurements is arbitrary
def any_schedule(names): return not any(n.startswith(("delay", "signif", "composed", "corrected", "early", "late", "h_")) and not n.startswith("h_resolution") for n in names)
SLOTS = ("slice_timestamps", "generate_fft", "get_xcorr", "get_timing_delay_fft", "get_statistics")
def search_job(name, fn):
    tm = lambda i: lambda lp, *a: lp.e.search.templates()[i](lp, *a)
    iv = lambda i: lambda lp, *a: (lambda xs: xs[i](lp, *a) if i < len(xs) else [])(lp.e.search.invariants())
    ovr = lambda e: {PF + f: (lambda *a, f=f, **k: e.search.overrides()[PF + f](*a, **k)) for f in SLOTS}
    return Job(name, fn, ideal=True, overrides=ovr, templates=[tm(i) for i in range(11)], invariants=[iv(i) for i in range(49)], timeout=10000, attrs={"opaque": True, "strong_havoc": any_schedule})
def scan_job(name, fn):
    return Job(name, fn, ideal=True, overrides=lambda e: {"fpfind.fpfind.time_freq": lambda *a, **k: e.scan.time_freq(*a, **k)}, templates=[lambda lp, *a: lp.e.scan.templates()[0](lp, *a)],
               invariants=[lambda lp, *a: lp.e.scan.invariant(lp, *a)], attrs={"opaque": True})
