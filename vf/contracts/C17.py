"""time_freq and fpfind: guards of the search, in real arithmetic."""
from fpcommon import *
UT = "fpfind.lib.utils"
TRUSTED = TRUSTED + ["contract of np.std: zero for equal values", "termination of the refinement loop is not claimed"]

def jobs(tier):
    return [search_job("time_freq", search)] + [scan_job("fpfind fullscan=%s" % full, scan(full)) for full in (False, True)] + \
           [Job("get_statistics of %s" % w, stats(w), ideal=True) for w in ("a flat correlation", "two bins")] + [Job("generate_fft of nothing", empty, ideal=True)]
def search(e, load):
    s = e.search = Search(e, "longdouble")
    m = load(MOD); e.vacuous()
    r, v = call(e, m.time_freq, *s.args())
    if r == "exc":
        if isinstance(v, ValueError): e._ob("a failing search raises ValueError", "proved", "path"); return
        e.fail("a failing search raises ValueError", "raises %s: %s%s" % (type(v).__name__, v, where(v))); return
    if isinstance(v, L): v = v.conc()
    if not isinstance(v, (tuple, list)) or len(v) != 2: e.fail("a pair is returned", repr(type(v))); return
    df = real(lift(v[1])); n = s.g.c["n"].t; first = s.g.c["first"].t
    e.prove("returned frequency offset is below 2^-13", absr(df) < RealVal("1/8192"))
    e.prove("something was measured", n >= 1)
    e.prove("accepted peak reaches the threshold", SIG(first) >= s.thr.t)
    e.prove("accepted correlation is not flat", SIG(first) != 0)
    e.prove("accepted bin width is at most 10000 ns", WID(first) <= 10000)
    e.prove("no early delay beyond 100 ms", BAD(n) == 0)
    e.prove("data reach the late window", And(s.qa.F(s.qa.N - 1) >= s.sep.t, s.qb.F(s.qb.N - 1) >= s.sep.t))
def scan(full):
    def fn(e, load):
        m = load(MOD); s = e.scan = Scan(e, full); e.vacuous()
        r, v = s.run(m.fpfind); n = s.g.c["n"].t
        if r == "exc":
            if not isinstance(v, ValueError): e.fail("a scan without a peak raises ValueError", "raises %s: %s%s" % (type(v).__name__, v, where(v))); return
            # the first success lies outside the list
            e.prove("a scan fails only after every precompensation", n == s.N); e.prove("a scan fails only without an accepted peak", FI >= s.N); return
        if isinstance(v, L): v = v.conc()
        if not isinstance(v, (tuple, list)) or len(v) != 2: e.fail("a pair is returned", repr(type(v))); return
        e.prove("a reported result is backed by an accepted peak", FI < n)
        x, y = s.pair(FI); e.prove("the first accepted peak is reported", And(real(lift(v[0])) == x, real(lift(v[1])) == y))
    return fn
def stats(what):
    def fn(e, load):
        H = e.fresh_fun("hist", Int, Real); N = e.fresh_int("N"); e.assume(And(N >= 2, N <= 2**40))
        if what == "two bins": N = IntVal(2)
        a = A("float64", S(N, "pyint", 2, 2**40), lambda k: S(H(zi(k)) if what == "two bins" else H(0), "float64"))
        MEAN, STD = e.fresh_real("mean"), e.fresh_real("std")
        def std(b):
            q = as_seq(b)
            if q.mask is not None: raise Unsupported("filtered")
            e.prove("statistics of a non-empty background", q.n.t >= 1); i, j = e.fresh_int("k"), e.fresh_int("k")
            x, y = real(lift(q.get(i))), real(lift(q.get(j)))
            # contract of np.std: zero for one value or equal values
            if e.valid(Implies(And(i >= 0, i < q.n.t, j >= 0, j < q.n.t), x == y)): return S(RealVal(0), "float64")
            return S(STD, "float64")
        e.mean_hook = lambda b: S(MEAN, "float64"); e.std_hook = std
        res = S(e.fresh_real("resolution"), "pyfloat"); e.assume(res.t > 0); e.vacuous()
        st = must_return(e, "statistics", load(UT).get_statistics, a, res)
        r, v = call(e, lambda: st.significance)
        if r == "exc": e.fail("significance is a number", "raises %s: %s%s" % (type(v).__name__, v, where(v))); return
        if not isnum(v): e.fail("significance is a number", repr(type(v))); return
        e.prove("significance is zero", real(lift(v)) == 0)
    return fn
def empty(e, load):
    a = A("longdouble", lift(0), lambda k: S(RealVal(0), "longdouble")); e.vacuous()
    nb = symint(e, "bins", 1, 2**40); w = S(e.fresh_real("width"), "pyfloat"); e.assume(w.t > 0)
    must_raise(e, "transform of no events", ValueError, load(UT).generate_fft, a, nb, w)
