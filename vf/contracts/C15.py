"""generate_fft, get_xcorr, get_timing_delay_fft, with bincount and the discrete Fourier transform by contract; counting lemmas."""
from tscommon import *
UMOD = "fpfind.lib.utils"
TRUSTED = ["numpy.bincount(x, minlength=n)[b] is the number of elements of x equal to b", "scipy.fft: irfft(conj(rfft x) * rfft y) of even length n is the circular correlation sum_i x[i] y[(i+j) mod n] (correlation theorem), in real arithmetic",
           "numpy.argmax returns the position of a largest element", "floating-point times treated as real numbers; floor division and remainder of times below 2^62 bin widths are exact"]
def jobs(tier):
    return [Job("generate_fft %s" % k, binning(k), ideal=True, mods=mods) for k in ("longdouble", "float64")] + \
           [Job("get_xcorr", xcorr, ideal=True, mods=mods), Job("get_timing_delay_fft", delay, ideal=True), Job("lemma: correlation of counts counts pairs", pairs_lemma), Job("lemma: delay by whole bins", shift_lemma, ideal=True)]

class Spectrum:
    """transform of a real sequence (a factor of a product: possibly conjugated)"""
    def __init__(s, fs, m): s.fs, s.m = fs, m          # [(sequence, conjugated)], number of coefficients
    def __mul__(s, o):
        if isinstance(o, Spectrum): return Spectrum(s.fs + o.fs, s.m)
        raise Unsupported("scaled spectrum")
    __rmul__ = __mul__
    def conj(s): return Spectrum([(x, not c) for x, c in s.fs], s.m)
    conjugate = conj
    def _vf_len(s): return s.m
    def copy(s): return s
def mods(e):
    def rfft(x, n=None, axis=-1, norm=None, *a, **k):
        if n is not None or norm is not None or a or k: raise Unsupported("rfft options")
        if not isinstance(x, A): raise Unsupported("rfft of %r" % type(x))
        q = x.seq()
        if q.mask is not None: raise Unsupported("rfft of a selection")
        return Spectrum([(q, False)], binop("+", binop("//", q.n, 2), 1))
    def irfft(x, n=None, axis=-1, norm=None, *a, **k):
        if norm is not None or a or k or not isinstance(x, Spectrum): raise Unsupported("irfft")
        N = binop("*", 2, binop("-", x.m, 1))
        if n is not None:
            if not e.valid(lift(n).t == N.t): raise Unsupported("irfft length")
        return e.ghosts["irfft"](x, N)
    f = types_mod("scipy.fft", rfft=rfft, irfft=irfft, next_fast_len=None); sc = types_mod("scipy", fft=f)
    e.conj_hook = lambda a: a.conj() if isinstance(a, Spectrum) else a
    return {"scipy": sc, "scipy.fft": f}
def types_mod(name, **k):
    from load import Mod
    return Mod(name, **k)

def fl(t, w): return ToInt(t / w)
def binning(kind):
    def fn(e, load):
        N, n = e.fresh_int("N"), e.fresh_int("bins"); T = e.fresh_fun("T", Int, Real); w = e.fresh_real("width"); HIST = e.fresh_fun("HIST", Int, Int); BIN = e.fresh_fun("FLOOR", Int, Int)
        e.assume(And(N >= 1, n >= 1, n <= 2**40, w > 0)); done = {}
        def at(k):
            k = z3.simplify(zi(k))
            if k.get_id() not in done:
                done[k.get_id()] = k; e.assume(And(T(k) >= 0, BIN(k) == fl(T(k), w), BIN(k) >= 0, BIN(k) < 2**62))
            return k
        arr = A(kind, S(N, "pyint", 1), lambda k: S(T(at(k)), kind)); arr.buf._input = "timestamp sequence"; nb = S(n, "pyint", 1, 2**40)
        def bincount(x, minlength):
            if not isinstance(x, A) or not sym.isintk(x.kind): raise Unsupported("bincount of %r" % (x,))
            q = x.seq()
            if q.mask is not None: e.fail("every event is counted", "bincount of a selection"); raise PathEnd()
            e.prove("every event is counted", q.n.t == N)
            k = e.fresh_int("k"); e.assume(And(k >= 0, k < N)); at(k); v = lift(q.get(k)).t
            e.prove("event k is counted in bin floor(t/width) mod the number of bins", v == BIN(k) % n)
            e.prove("the histogram has one cell per bin", lift(minlength).t == n)
            return A("int64", nb, lambda b: S(HIST(zi(b)), "int64", 0))
        e.bincount_hook = bincount
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True)
            b = ev(n).as_long(); W = float(ev(w).as_fraction()) if hasattr(ev(w), "as_fraction") else 1.0
            ks = [0, *model_index(m)]; a = sorted(abs(ev(BIN(IntVal(k))).as_long()) % 2**36 for k in ks)
            return [dict(N=2 * max(1, min(b, 400) // 2), w=w_, d=0, a=a, frac=f, noise=[]) for w_ in (min(max(W, .25), 1024), 1, 3) for f in (0, 128)] + \
                   [dict(N=8, w=w_, d=d, a=[0, 3, 7, 9, 31, 2**33 + 5], frac=f, noise=[1, 2]) for w_ in (1, 16, .25) for d in (0, 3, -2) for f in (0, 255)]
        e.replayer = replay; e.vacuous()
        r = must_return(e, "transform", load(UMOD).generate_fft, arr, nb, S(w, "pyfloat"))
        if not isinstance(r, Spectrum) or len(r.fs) != 1: e.fail("returns the transform of the histogram", repr(type(r))); return
        q, c = r.fs[0]
        if c: e.fail("returns the transform of the histogram", "conjugated")
        prove_seq(e, "transform is that of the histogram", q, n, lambda b: HIST(b))
    return fn

def xcorr(e, load):
    n = e.fresh_int("bins"); HA, HB, XC, CV = [e.fresh_fun(x, Int, Int) for x in ("HISTA", "HISTB", "PAIRS", "OTHER")]; e.assume(And(n >= 2, n % 2 == 0, n <= 2**40)); done = {}
    def at(j):
        j = z3.simplify(zi(j))
        if j.get_id() not in done: done[j.get_id()] = j; e.assume(And(XC(j) >= 0, CV(j) >= 0))
        return j
    nb = S(n, "pyint", 2, 2**40); h = lambda F: Seq(nb, lambda b: S(F(zi(b)), "int64", 0)); sp = lambda F: Spectrum([(h(F), False)], binop("+", binop("//", nb, 2), 1))
    A_, B_ = sp(HA), sp(HB)
    def irfft(x, N):
        if len(x.fs) != 2: raise Unsupported("inverse transform")
        w = [("A" if q is A_.fs[0][0] else "B" if q is B_.fs[0][0] else "?", c) for q, c in x.fs]; ws = set(w)
        if ws == {("A", True), ("B", False)}: g = lambda j: XC(at(j))
        elif ws == {("A", False), ("B", True)}: g = lambda j: XC(at(If(zi(j) == 0, 0, n - zi(j))))          # time-reversed
        elif "?" in str(w): raise Unsupported("transform")
        else: g = lambda j: CV(at(j))                                                                # convolution, auto-correlation
        return A("float64", N, lambda j: S(ToReal(g(j)), "float64"))
    e.ghosts["irfft"] = irfft
    e.replayer = lambda m: [dict(N=N_, w=1, d=d, a=[0, 3, 7, 9], frac=0, noise=z) for N_ in (2, 4, 16) for d in (0, 1, -1, 3) if abs(d) < N_ // 2 for z in ([], [1, 2, 5])]
    e.vacuous()
    r = must_return(e, "correlation", load(UMOD).get_xcorr, A_, B_)
    if isinstance(r, Spectrum): e.fail("returns the correlation", "a spectrum"); return
    prove_seq(e, "correlation bin j is the number of pairs separated by j bins", r, n, lambda j: ToReal(XC(at(j))))

def delay(e, load):
    n, M = e.fresh_int("bins"), e.fresh_int("PEAK"); H = e.fresh_fun("H", Int, Real); w = e.fresh_real("width"); e.assume(And(n >= 2, n % 2 == 0, n <= 2**40, w > 0, M >= 0, M < n)); done = {}
    def at(j):
        """M is the highest bin"""
        j = z3.simplify(zi(j))
        if j.get_id() not in done: done[j.get_id()] = j; e.assume(And(H(j) >= 0, Implies(And(j >= 0, j < n, j != M), H(j) < H(M))))
        return j
    at(M); nb = S(n, "pyint", 2, 2**40)
    hist = A("float64", nb, lambda j: S(H(at(j)), "float64")); hist.buf._input = "histogram"; xs = A("float64", nb, lambda j: S(ToReal(zi(j)) * w, "float64")); xs.buf._input = "time axis"
    def argmax(a):
        if not isinstance(a, A): a = npshim.np_array(a)
        q = a.seq()
        if q.mask is not None: raise Unsupported("argmax of a selection")
        p = e.fresh_int("argmax"); e.assume(And(p >= 0, p < q.n.t)); v = real(lift(q.get(p)))
        for j in (M, n - 1 - M, n - M, IntVal(0)): e.assume(Implies(And(j >= 0, j < q.n.t), real(lift(q.get(j))) <= v))
        return S(p, "int64", 0, 2**40)
    e.argmax_hook = argmax
    def replay(m):
        ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
        b, k = ev(n), ev(M)
        if b > 4000: k = 1 + k % 1999 if 2 * k < b else 3999 - k % 1999; b = 4000
        out = []
        for b, k in ((b, k), (2, 0), (4, 1), (4, 3), (8, 3), (8, 4), (8, 5), (16, 9), (16, 0)):
            d = k if 2 * k <= b else k - b
            if abs(d) < b // 2: out += [dict(N=b, w=1, d=d, a=[0, 3, 7], frac=0, noise=[]), dict(N=b, w=16, d=d, a=[0, 1, 1, 5], frac=0, noise=[])]
        return out
    e.replayer = replay; e.vacuous()
    r = must_return(e, "delay", load(UMOD).get_timing_delay_fft, hist, xs)
    if isinstance(r, L): r = r.conc()
    if isinstance(r, A): r = [S(r.getter()(IntVal(0)).t, r.kind)]
    if not isinstance(r, (tuple, list)) or not len(r) or not isnum(r[0]): e.fail("returns the delay first", repr(r)); return
    x = real(lift(r[0]))
    e.prove("a peak in the first half is a delay of that many bins", Implies(2 * M < n, x == ToReal(M) * w))
    e.prove("a peak in the second half is a negative delay", Implies(2 * M > n, x == ToReal(M - n) * w))
    e.prove("a peak in the middle is half the range, of either sign", Implies(2 * M == n, Or(x == ToReal(M) * w, x == ToReal(M - n) * w)))

def pairs_lemma(e, load):
    """D(k, m) = sum over i < m of A_k[i] * B[(i+j) mod n], where A_k counts the first k events p_0..p_{k-1}; D(k, n) = sum over those events of B[(p+j) mod n]"""
    D, D1, P = e.fresh_fun("D", Int, Int), e.fresh_fun("Dnext", Int, Int), e.fresh_fun("P", Int, Int); A0, A1, B = e.fresh_fun("A", Int, Int), e.fresh_fun("Anext", Int, Int), e.fresh_fun("B", Int, Int)
    m, n, p, k, tot, tot1 = [e.fresh_int(x) for x in ("m", "n", "p", "k", "pairs", "pairsnext")]
    e.assume(And(m >= 0, m < n, p >= 0, p < n)); e.vacuous()
    nxt = lambda F, A: F(m + 1) == F(m) + A(m) * B(m)                      # B(i) stands for B[(i+j) mod n]
    cnt = A1(m) == A0(m) + If(m == p, 1, 0)                                # bincount with one more event, in bin p
    claim = lambda i: D1(i) == D(i) + If(p < i, B(p), 0)
    e.prove("no bins: nothing counted", Implies(And(D(0) == 0, D1(0) == 0), claim(IntVal(0))))
    e.prove("one more bin", Implies(And(nxt(D, A0), nxt(D1, A1), cnt, claim(m)), claim(m + 1)))
    e.prove("all bins: one more event adds the events B has in the bin it is paired with", Implies(And(claim(n), D(n) == tot, tot1 == tot + B(p)), D1(n) == tot1))
    # events of B in bin (p+j) mod n are those whose bin difference to p is j modulo n
    q, j = e.fresh_int("q"), e.fresh_int("j"); e.assume(And(q >= 0, q < n, j >= 0, j < n))
    r = If(p + j >= n, p + j - n, p + j); d = If(q >= p, q - p, q - p + n)
    e.prove("the bin it is paired with", (q == r) == (d == j))
def shift_lemma(e, load):
    x = e.fresh_real("t_over_width"); d, n, f = e.fresh_int("d"), e.fresh_int("n"), e.fresh_int("floor"); e.assume(And(n >= 2, 2 * d < n, -2 * d < n)); e.vacuous()
    e.prove("a delay of d bins moves every event by d bins", ToInt(x + ToReal(d)) == ToInt(x) + d)
    k = If(d >= 0, d, d + n)
    e.prove("the signed delay of smallest magnitude of its peak is d", And(k >= 0, k < n, Implies(2 * k < n, k == d), Implies(2 * k > n, k - n == d), 2 * k != n))
