from common import *
import numpy as np, math, struct, types
import fpfind.fpfind as F
import fpfind.lib.utils as U
import logging
logging.disable(logging.CRITICAL)
LD = np.longdouble
Q = Fraction

def ns(r, n, top=1 << 45):
    """n sorted multiples of 1/256 ns, as integers of 1/256 ns."""
    k = r.randrange(4)
    if k == 0: xs = [r.randrange(top) for _ in range(n)]
    elif k == 1: xs = [r.randrange(20) * 256 for _ in range(n)]
    elif k == 2:
        b = r.randrange(top); xs = [b + r.choice([-256, -1, 0, 1, 255, 256, 512, r.randrange(1 << 20)]) for _ in range(n)]
    else:
        b = r.randrange(1 << 40); xs = [b + i * 256 * r.randrange(1, 1000) for i in range(n)]
    return sorted(max(0, x) for x in xs)
def larr(xs): return np.array([LD(x) / 256 for x in xs], dtype=LD)

@prop("C14")
class C14:
    rule = "slices and normalisations with starts, durations and skips on, below and above events; non-trivial: some but not all events kept"
    @staticmethod
    def nontrivial(c): return sum(map(len, c["T"])) > 1
    @staticmethod
    def gen(r):
        for start in (None, 0, 512, 1024, 2048, 4096):
            for dur in (None, 0, 256, 512, 1024, 1 << 20):
                for T in ([256, 512, 512, 1024, 1536], [512], [0, 1024]):
                    yield dict(kind="slice", T=[T], start=start, dur=dur, skip=0)
        yield dict(kind="slice", T=[[]], start=256, dur=256, skip=0)
        for sk in (0, 1, 2, 512):
            for T in ([[0, 256, 512], [256, 300, 1 << 30]], [[5, 6, 7], [100, 101]], [[300]], [[1, 2, 3], [2, 3, 4], [3, 4, 5]], [[0, 1], [1000]],
                      [[0, 500000000, 500000001, 1 << 33], [7, 500000006, 500000007, 500000008, 1 << 34]]):
                yield dict(kind="norm", T=T, start=None, dur=None, skip=sk)
        while True:
            if r.random() < .5:
                xs = ns(r, r.choice([0, 1, 2, 5, 9, 20]))
                start = r.choice([None, 0] + ([r.choice(xs), r.choice(xs) + 256, r.choice(xs) + 1, xs[0], xs[-1], xs[-1] + 1] if xs else [5]))
                if start is None and not xs: start = 0
                ref = start if start is not None else xs[0]
                dur = r.choice([None, 0, 256, r.randrange(1 << 40)] + ([abs(r.choice(xs) - ref), abs(r.choice(xs) - ref) + 1] if xs else []))
                yield dict(kind="slice", T=[xs], start=start, dur=dur, skip=0)
            else:
                T = [ns(r, r.choice([1, 2, 5, 9]), 1 << 38) for _ in range(r.choice([1, 2, 2, 2, 3]))]
                yield dict(kind="norm", T=T, start=None, dur=None, skip=r.choice([0, 0, 0, 1, 2, 512, r.randrange(2000)]))
    @staticmethod
    def check(c):
        T = [larr(x) for x in c["T"]]
        q = lambda x: None if x is None else (x // 256 if x % 256 == 0 else x / 256)
        if c["kind"] == "slice":
            out = U.slice_timestamps(T[0], q(c["start"]), q(c["dur"]))
            ref = c["start"] if c["start"] is not None else (c["T"][0][0] if c["T"][0] else 0)
            same_list(out, [Q(x - ref, 256) for x in c["T"][0] if x >= ref and (c["dur"] is None or x - ref < c["dur"])], "slice")
        else:
            # skip in units of 1/512 s = 1953125 ns
            out = U.normalize_timestamps(*T, skip=c["skip"] / 512)
            ref = max(x[0] for x in c["T"]) + c["skip"] * 1953125 * 256
            require(len(out) == len(T), "number of sequences")
            for o, x in zip(out, c["T"]): same_list(o, [Q(y - ref, 256) for y in x if y >= ref], "normalised")
        for a, x in zip(T, c["T"]): same_list(a, [Q(y, 256) for y in x], "input (modified)")

@prop("C15")
class C15:
    rule = "event sequences with a planted delay of d bins over bin widths and histogram lengths; non-trivial: unique highest bin"
    @staticmethod
    def gen(r):
        for N in (2, 4, 8, 16, 64):
            for d in range(-(N // 2) + 1, N // 2):
                yield dict(N=N, w=[1, 16, 0.5, 2][d % 4], d=d, a=[0, 3, 7, 9 * N + 1], frac=0, noise=[])
                if d % 3 == 0: yield dict(N=N, w=[1, 16, 0.5, 2][d % 4], d=d, a=[0, 3, 7, 3 * 2**31 + 5, 2**36 + 3 * N + 1], frac=d % 7, noise=[])
        while True:
            big = r.randrange(2); N = 2 * r.choice([1, 2, 3, 8, 31, 64, 128, 500]); d = r.randrange(-(N // 2) + 1, N // 2)
            yield dict(N=N, w=r.choice([1, 2, 16, 0.25, 3, 1024]), d=d, a=sorted(r.randrange(N * 5) + r.choice([0, 0, 0, 0, r.randrange(2**36)]) * (big & 1) for _ in range(r.choice([1, 2, 5, 20]))),
                       frac=r.randrange(256), noise=[r.randrange(N * 5) for _ in range(r.choice([0, 0, 3, 10]))])
    @staticmethod
    def check(c):
        N, w, d = c["N"], c["w"], c["d"]
        off = max(0, -min(0, d)) + 0
        base = off
        a = np.array([(LD(x) + base + LD(c["frac"]) / 256) * w for x in c["a"]], dtype=LD)
        b = np.array(sorted([(LD(x) + base + d + LD(c["frac"]) / 512) * w for x in c["a"]] + [(LD(x)) * w for x in c["noise"]]), dtype=LD)
        ba = [0] * N; bb = [0] * N
        for x in a: ba[int(math.floor(frac(x) / Q(w))) % N] += 1
        for x in b: bb[int(math.floor(frac(x) / Q(w))) % N] += 1
        fa, fb = U.generate_fft(a, N, w), U.generate_fft(b, N, w)
        for f, h in ((fa, ba), (fb, bb)):
            # DFT definition: bin k = sum_j h_j exp(-2 pi i j k / N)
            require(len(f) == N // 2 + 1, "transform length", len(f))
            import scipy.fft
            back = scipy.fft.irfft(f, n=N)
            require(all(abs(x - y) < 1e-6 * (1 + max(h)) for x, y in zip(back, h)), "binning", [float(x) for x in back][:40], "expected", h[:40])
        ys = U.get_xcorr(fa, fb)
        want = [sum(ba[j] * bb[(j + k) % N] for j in range(N) if ba[j]) for k in range(N)]
        require(len(ys) == N and all(abs(x - y) < 1e-6 * (1 + max(want)) for x, y in zip(ys, want)), "cross-correlation", [float(x) for x in ys][:40], "expected", want[:40])
        m = max(want)
        if want.count(m) == 1:
            k = want.index(m); xs = np.arange(N) * w
            t = U.get_timing_delay_fft(ys, xs)[0]
            s = k if k < N - k else k - N
            if 2 * k != N: require(abs(float(t) - s * w) < 1e-9 * (1 + abs(s * w)), "delay", t, "expected", s * w)
            else: require(abs(abs(float(t)) - k * w) < 1e-9 * (1 + k * w), "delay", t)
            if not c["noise"]: require(abs(float(t) - d * w) < 1e-9 * (1 + abs(d * w)), "delay", t, "expected planted", d * w)
        # two equal peaks etc.: the delay of the reported highest bin must belong to some highest bin
        hist = np.array(want, dtype=float); xs = np.arange(N) * w
        t = float(U.get_timing_delay_fft(hist, xs)[0]); kk = int(round(t / w)) % N
        require(want[kk] == m and abs(t) <= N * w / 2 + 1e-9, "delay", t, "is not that of a highest bin of", want[:40])

class patched:
    """Replaces attributes of the fpfind modules that exist."""
    def __init__(self, **kw): self.kw = kw
    def __enter__(self):
        self.old = []
        for m in (F, U):
            for k, v in self.kw.items():
                if hasattr(m, k): self.old.append((m, k, getattr(m, k))); setattr(m, k, v)
        return self
    def __exit__(self, *a):
        for m, k, v in self.old: setattr(m, k, v)

_data = {}
def bulk(seed, n=6000, lo=-1500000, hi=1500000):
    if seed not in _data:
        rr = np.random.RandomState(seed)
        _data[seed] = np.sort(rr.uniform(lo, hi, n)).astype(LD)
    return _data[seed]

BINS = 1024; RES = 16; DUR = BINS * RES
class Script:
    """Scripted measurements: one (early, late) pair per iteration."""
    def __init__(self, pairs): self.q = [x for p in pairs for x in p]; self.used = 0
    def __call__(self, hist, time_bins, *a, **k):
        x = self.q[self.used] if self.used < len(self.q) else 0.0; self.used += 1
        return (x, x)

class MergedScript(Script):
    """Scripted measurements in which the first early one is made on a histogram merged k times."""
    def __init__(self, pairs, k, n): super().__init__(pairs); self.len = n >> k; self.seen = k == 0
    def __call__(self, hist, time_bins, *a, **k):
        if not self.seen:
            if len(hist) != self.len: return (777.0, 777.0)         # at a bin width that is not accepted
            self.seen = True
        return super().__call__(hist, time_bins)
class Capture:
    """The arrays handed to the binning, which is then performed."""
    def __init__(self, fn): self.fn, self.x = fn, []
    def __call__(self, arr, *a, **k):
        self.x.append(arr); return self.fn(arr, *a, **k)
def is_window(x, base, start):
    """x holds the consecutive elements of base from start on, relative to start"""
    tol = 2e-3; e = base[base >= start - tol] - start
    if len(x) == 0: return True
    if len(e) < len(x): return False
    i = int(np.searchsorted(e, x[0] - tol)); return i <= 1 and i + len(x) <= len(e) and bool(np.all(np.abs(e[i:i + len(x)] - x) < tol))

def compose(df0, steps):
    """Offsets of the composition of T/(1+df0) and then (T-d)/(1+e) per step."""
    dt, f = Q(0), 1 + Q(df0)
    for d, e in steps: dt += f * d; f *= 1 + e
    return dt, f - 1

@prop("C16")
class C16:
    rule = "scripted delay measurements (early, late per iteration) and precompensations through the real search, and synthetic pairs with known offsets; non-trivial: at least two iterations"
    @staticmethod
    def nontrivial(c): return c["kind"] == "e2e" or len(c["pairs"]) > 1
    @staticmethod
    def scr(r):
        nit = r.choice([1, 2, 3, 3, 3]); sep = r.choice([4, 6, 6, 8])
        fin = 16 if nit == 1 else (8 if nit == 2 else 1)
        d = r.choice([-1, 1]) * r.randrange(1000, 90000) if r.random() < .8 else r.choice([0, 16, -16])
        pairs = []; tot = 0
        for i in range(nit):
            df = r.choice([-1, 1]) * r.randrange(1, 40) * 1e-6 / (1 + 2 * i)
            x = d if i == 0 else r.choice([-1, 1]) * r.randrange(0, max(2, min(20000, abs(d) // 4) if d else 1)) * (1 if d else 0)
            pairs.append([float(x), float(x) + df * sep * DUR])
        return dict(kind="script", pairs=pairs, sep=sep, fin=fin, df0=r.choice([0, 0, 1e-5, -1e-5, 1e-4, -5e-5, r.uniform(-1e-4, 1e-4)]), seed=r.randrange(4), k=r.choice([0, 0, 0, 1, 2, 4]))
    @staticmethod
    def gen(r):
        for i in range(30): yield C16.scr(r)
        for i in range(6): yield C16.e2e(r)
        i = 0
        while True:
            i += 1
            yield C16.e2e(r) if i % 12 == 0 else C16.scr(r)
    @staticmethod
    def e2e(r):
        return dict(kind="e2e", dt=r.choice([0, 1234, -4321, r.randrange(-400000, 400000)]), df=r.choice([0, 2e-6, -3e-6, r.uniform(-8e-6, 8e-6)]), pre=r.choice([[0], [0], [1e-6, 2e-6], [-5e-5]]), seed=r.randrange(1000))
    @staticmethod
    def check(c):
        if c["kind"] == "script":
            m = c.get("k", 0); s = MergedScript(c["pairs"], m, BINS); sep = c["sep"] * DUR; cap = Capture(U.generate_fft)
            a, b = bulk(c["seed"], lo=0, hi=1500000), bulk(c["seed"] + 10)
            with patched(get_timing_delay_fft=s, generate_fft=cap, **(dict(get_statistics=Stat([5.0] * m + [7.0])) if m else {})):
                try: dt, df = F.fpfind(a, b, 1, BINS, RES, c["fin"] << m, 6.0 if m else -1e9, sep, [c["df0"]])
                except ValueError as e: raise Skip()
            if s.used == 0:
                if not m or not cap.x: raise Skip()
                require(False, "no delay was measured at the accepted bin width; returned", (float(dt), float(df)))
            # measurements actually taken, two per iteration
            taken = [(Q(e), (Q(l) - Q(e)) / Q(sep)) for e, l in c["pairs"]]
            k = min(s.used // 2, len(taken))  # measurements past the script are zero: the identity
            cands = [compose(c["df0"], taken[:k])] + ([compose(c["df0"], taken[:k - 1])] if k > 1 and C16.spurious(c, taken, k) else [])
            good = any(abs(Q(float(dt)) - wt) <= Q(1, 10 ** 9) * (1 + abs(wt)) / 100 and abs(Q(float(df)) - wf) <= Q(1, 10 ** 14) for wt, wf in cands)
            C16.windows(cap.x, a, (b - 0) / (1 + LD(c["df0"])), c, sep)
            require(good, "returned (%r, %r), composition of the measured corrections is (%r, %r)" % (float(dt), float(df), float(cands[0][0]), float(cands[0][1])))
        else:
            rr = np.random.RandomState(c["seed"])
            alice = np.sort(rr.uniform(0, 9.5e6, 9000)); df, dt = c["df"], c["dt"]
            df += c["pre"][0] if c["pre"] == [-5e-5] else 0
            bob = np.sort(np.concatenate([alice * (1 + df) + dt, rr.uniform(-4e5, 9.9e6, 6000)]))
            alice = np.floor(alice.astype(LD) * 256) / 256; bob = np.floor(bob.astype(LD) * 256) / 256
            try: gt, gf = F.fpfind(alice, bob, 1, 1 << 16, 16, 1, 6, 6 * 16 * (1 << 16), c["pre"])
            except ValueError: raise Skip()
            require(abs(float(gf) - df) < 3e-6 and abs(float(gt) - dt) < 40, "found (%r, %r) for true offsets (%r, %r)" % (float(gt), float(gf), dt, df))
    @staticmethod
    def windows(xs, a, b, c, sep):
        """the delays of every iteration are measured between windows at 0 and at the separation, of the reference and of the target as corrected so far"""
        if len(xs) % 4 or len(xs) == 0: return
        for i in range(len(xs) // 4):
            for x in xs[4 * i:4 * i + 4]:
                require(any(is_window(x, y, t) for y in (a, b) for t in (0, sep)), "iteration %d correlates events that are not those at 0 or %g ns of either side as corrected so far:" % (i + 1, sep), [float(v) for v in x[:3]])
            early, late = c["pairs"][i] if i < len(c["pairs"]) else (0.0, 0.0)
            b = (b - LD(early)) / (1 + (LD(late) - LD(early)) / LD(sep))
    @staticmethod
    def spurious(c, taken, k):
        dt, f = Q(0), Q(1)
        for d, e in taken[:k - 1]: dt += f * d; f *= 1 + e
        d, e = taken[k - 1]; late = Q(c["pairs"][k - 1][1])
        t = 10 * max(abs(dt), 1); g = 10 * max(abs(f - 1), Q(1, 10 ** 9))
        z = Q(1001, 1000)
        return abs(d) * z > t or abs(late) * z > t or abs(e) * z > g

class Stat:
    def __init__(self, sigs): self.s = sigs; self.used = 0
    def __call__(self, *a, **k):
        v = self.s[min(self.used, len(self.s) - 1)]; self.used += 1
        return types.SimpleNamespace(significance=v)

@prop("C17")
class C17:
    rule = "scripted scans, significances and delays on both sides of every guard; short data; non-trivial: the expected outcome is an error"
    @staticmethod
    def nontrivial(c): return True
    @staticmethod
    def gen(r):
        O = lambda *x: dict(kind="scan", out=list(x))
        for full in (False, True):
            for out in ([None], [None, None], [[5, 1e-6]], [None, [5, 1e-6]], [[5, 1e-6], None], [[5, 1e-6], [7, 2e-6]], [None, [5, 1e-6], [9, -1e-6], None], [[0, 0.0], None], [None, [0, 0.0]]):
                yield dict(kind="scan", out=out, full=full, pre=[(i * 3 - 2) * 1e-6 for i in range(len(out))])
        for k in range(14): yield dict(kind="sig", k=k, thr=6.0, res=16)
        for k in (0, 1, 4, 6, 7, 8, 9): yield dict(kind="sig", k=k, thr=6.0, res=100)
        for z in (0, 3):
            for t in (6.0, 0, -1.0): yield dict(kind="flat", k=z if t == 6.0 else 0, thr=t)
        for k in (8, 9, 10, 11, 12): yield dict(kind="sig", k=k, thr=6.0, res=16, fin=16 << k)
        for k in (1, 2, 5): yield dict(kind="merged", k=k, d=1e8 + 16); yield dict(kind="merged", k=k, d=-2e8)
        M = 2.0 ** -13
        for f in (1, -1):
            for pairs in ([M], [M * (1 - 1e-9)], [M * 1.0001], [M * 5], [M * .5, M * .6], [M * .5, M * .45], [M * .9, -M * .5], [M * .3, M * .3, M * .45], [M * .3, M * .3, M * .3]):
                yield dict(kind="df", dfs=[f * x for x in pairs])
        for d in (1e8 + 1, -1e8 - 1, 1.5e8, -3e8, 1e8 - 16, -1e8 + 16, 0.0): yield dict(kind="delay", d=d, it=1)
        for d in (1.2e8, -1.2e8): yield dict(kind="delay", d=d, it=2)
        for n in (1, 2, 5, 50, 3000):
            for L in (1, 1000, DUR - 1, 3 * DUR, 6 * DUR - 1): yield dict(kind="short", n=n, L=L, which=n % 3)
        while True:
            k = r.randrange(5)
            if k == 0:
                out = [r.choice([None, None, [float(r.randrange(-10**6, 10**6)), r.uniform(-1e-4, 1e-4)]]) for _ in range(r.choice([1, 2, 3, 6]))]
                yield dict(kind="scan", out=out, full=bool(r.randrange(2)), pre=[r.uniform(-1e-5, 1e-5) for _ in out])
            elif k == 1 and r.random() < .3:
                k, res = r.randrange(12), r.choice([16, 17, 100, 625]); yield dict(kind="sig", k=k, thr=r.uniform(2, 10), res=res, fin=res << k)
            elif k == 1: yield dict(kind="sig", k=r.randrange(12), thr=r.uniform(2, 10), res=r.choice([1 << r.randrange(5, 10), r.randrange(20, 999)]))
            elif k == 2: yield dict(kind="df", dfs=[r.uniform(-1, 1) * M for _ in range(r.choice([1, 2, 3]))])
            elif k == 3: yield dict(kind="delay", d=r.choice([-1, 1]) * r.uniform(.5e8, 2e8), it=r.choice([1, 2]))
            else: yield dict(kind="short", n=r.choice([1, 3, 20, 300, 4000]), L=r.randrange(1, 6 * DUR), which=r.randrange(3))
    @staticmethod
    def attempt(fn):
        try: return fn(), None
        except ValueError as e: return None, e
    @staticmethod
    def check(c):
        a, b = bulk(1, lo=0, hi=1500000), bulk(11)
        if c["kind"] == "scan":
            calls = []
            def tf(*args, **kw):
                o = c["out"][len(calls)]; calls.append(o)
                if o is None: raise F.PeakFindingFailed("scripted")
                return tuple(o)
            with patched(time_freq=tf): res, exc = C17.attempt(lambda: F.fpfind(a, b, 1, BINS, RES, 1, 6, 6 * DUR, list(c["pre"]), c["full"]))
            if not calls: raise Skip()
            ok = [(p, o) for p, o in zip(c["pre"], c["out"]) if o is not None]
            if not ok: require(exc is not None, "a scan without any accepted peak returned", res)
            else:
                require(exc is None, "scan with an accepted peak raised", repr(exc))
                wt, wf = compose(ok[0][0], [(Q(ok[0][1][0]), Q(ok[0][1][1]))])
                require(abs(Q(float(res[0])) - wt) <= Q(1, 10 ** 9) * (1 + abs(wt)) / 100 and abs(Q(float(res[1])) - wf) <= Q(1, 10 ** 14),
                        "returned", res, "expected the first accepted", (float(wt), float(wf)))
        elif c["kind"] in ("sig", "flat"):
            if c["kind"] == "sig": st = Stat([c["thr"] - 1e-3] * c["k"] + [c["thr"]]); res0 = c["res"]
            else: st = Stat([1.0] * c["k"] + [0]); res0 = 16
            n = 1 << 14; L = n * res0
            aa = np.arange(0, 8 * L, L // 50).astype(LD)
            with patched(get_statistics=st, get_timing_delay_fft=Script([])): res, exc = C17.attempt(lambda: F.time_freq(aa, aa + 0, 1, n, res0, c.get("fin", 16 if c["kind"] == "flat" else 1), c.get("thr", 6.0), 6 * L))
            if st.used == 0: raise Skip()
            if c["kind"] == "flat": require(exc is not None, "flat correlation reported as success", res)
            elif res0 * 2 ** c["k"] > 10000: require(exc is not None, "peak accepted only at bin width", res0 * 2 ** c["k"], "reported as success", res)
            else: require(exc is None or "OOB" not in str(exc) or "Resolution" not in str(exc), "peak significant at bin width", res0 * 2 ** c["k"], "rejected", repr(exc))
        elif c["kind"] == "merged":           # the delay at the accepted bin width is out of range
            s = MergedScript([[c["d"], 777.0]], c["k"], BINS)
            with patched(get_statistics=Stat([5.0] * c["k"] + [7.0]), get_timing_delay_fft=s): res, exc = C17.attempt(lambda: F.time_freq(a, b, 1, BINS, RES, RES << c["k"], 6.0, 6 * DUR))
            require(exc is not None, "early delay", c["d"], "at the accepted bin width reported as success", res)
        elif c["kind"] == "df":
            sep = 8192 * 12; d = 1000.0
            s = Script([[d / (1 + 9 * i), d / (1 + 9 * i) + x * sep] for i, x in enumerate(c["dfs"])]); nit = len(c["dfs"])
            with patched(get_timing_delay_fft=s): res, exc = C17.attempt(lambda: F.time_freq(a, b, 1, BINS, RES, {1: 16, 2: 8}.get(nit, 1), -1e9, sep))
            if s.used == 0: raise Skip()
            if res is not None: require(abs(float(res[1])) < 2.0 ** -13, "returned frequency offset", res[1])
            f = Q(1)
            for x in c["dfs"]: f *= 1 + Q(x)
            if nit == 1 and abs(c["dfs"][0]) < 2.0 ** -13 * .99: require(exc is None, "offset within range raised", repr(exc))
        elif c["kind"] == "delay":
            pairs = [[c["d"], c["d"]]] if c["it"] == 1 else [[9e7, 9e7], [c["d"], c["d"]]]
            n = BINS; L = RES * n
            aa = np.arange(0, 40 * L, 301).astype(LD)
            bb = np.concatenate([np.arange(-20 * L, 40 * L, 307), 9e7 + np.arange(-20 * L, 40 * L, 307)]).astype(LD)
            s = Script(pairs)
            with patched(get_timing_delay_fft=s): res, exc = C17.attempt(lambda: F.time_freq(aa, bb, 1, n, RES, 16 if c["it"] == 1 else 1, -1e9, 6 * L))
            if s.used == 0: raise Skip()
            if abs(c["d"]) > 1e8: require(exc is not None or s.used < 2 * c["it"] - 1, "early delay", c["d"], "reported as success", res)
            elif c["it"] == 1: require(exc is None, "delay", c["d"], "rejected", repr(exc))
        else:
            x = np.sort(np.random.RandomState(c["n"]).uniform(0, c["L"], c["n"])).astype(LD)
            aa, bb = [(x, b), (a, x), (x, x)][c["which"]]
            res, exc = C17.attempt(lambda: F.fpfind(aa, bb, 1, BINS, RES, 1, -1e9, 6 * DUR, [0]))
            require(exc is not None, "data of %g ns accepted for windows of %g ns" % (c["L"], 7 * DUR), res)

@prop("C18")
class C18:
    rule = "starts, ranges and steps (multiples and non-multiples), both modes; non-trivial: more than one value"
    @staticmethod
    def nontrivial(c): return c["step"] != 0 and c["stop"] >= c["step"]
    @staticmethod
    def gen(r):
        for o in (False, True):
            for s, e, st in [(0, 0, 0), (3.5, 10, 0), (1, 10, 5), (0, 10, 1), (0, 10, 3), (0, 0, 1), (2, 0.5, 1), (0, 1, 1), (0, .75, .25), (-4, 4, 2), (0, 10e-6, .1e-6), (1e-6, 10e-6, 3e-6), (0, 1, 2), (5, 1, 1), (-.5, .5, .25), (1, 1, 5), (1, 1, 1), (0, 100, .5)]:
                yield dict(start=s, stop=e, step=st, ordered=o)
        while True:
            if r.random() < .5: yield dict(start=r.randrange(-64, 64) / 8, stop=r.randrange(0, 200) / 8, step=r.randrange(1, 40) / 8, ordered=bool(r.randrange(2)))
            else: yield dict(start=r.choice([0, r.uniform(-1e-5, 1e-5)]), stop=r.choice([r.uniform(0, 2e-5), 1e-5]), step=r.choice([1e-7, 1e-6, r.uniform(1e-7, 5e-6)]), ordered=bool(r.randrange(2)))
    @staticmethod
    def check(c):
        got = [frac(x) for x in F.generate_precompensations(c["start"], c["stop"], c["step"], ordered=c["ordered"])]
        if c["step"] == 0:
            require(got == [0], "zero step gives", got); return
        s, e, st = Q(c["start"]), Q(c["stop"]), Q(c["step"])
        ratio = (e - s) / st if c["ordered"] else e / st
        ks = {math.floor(ratio)}
        dyadic = all(x.denominator <= 1 << 12 for x in (s, e, st))
        if not dyadic:
            for eps in (Q(1, 10 ** 9), -Q(1, 10 ** 9)): ks.add(math.floor(ratio + eps))
        def sched(k):
            if c["ordered"]: return [s + i * st for i in range(k + 1)]
            o = [s]
            for i in range(1, k + 1): o += [s + i * st, s - i * st]
            return o
        for k in ks:
            w = sched(k)
            if len(w) == len(got) and all(abs(x - y) <= (Q(1, 10 ** 12) * (abs(s) + abs(y) + abs(e)) if not dyadic else 0) for x, y in zip(got, w)): return
        raise Fail("schedule %s, expected %s" % ([float(x) for x in got][:12] + ["... %d values" % len(got)], [float(x) for x in sched(min(ks))][:12] + ["... %d values" % len(sched(min(ks)))]))

def a1(fn, counts):
    with open(fn, "wb") as f:
        for x in counts: f.write(struct.pack("<Q", (x << 10) | 1))

@prop("C19")
class C19:
    rule = "found offsets injected below the command, and synthetic files, over the 16 output flag combinations; non-trivial: both offsets non-zero"
    @staticmethod
    def nontrivial(c): return c["dt"] != 0 and c["df"] != 0
    @staticmethod
    def gen(r):
        for V in range(16):
            for dt, df in [(1000000.25, 1.1e-4), (-99999999.75, -1e-4), (0.4, 3e-6), (12345678.5, -7e-11), (-7.0, 2.0 ** -14), (0, 0)]:
                yield dict(kind="inject", dt=float(dt), df=float(df), V=V)
        for V in (0, 1, 2, 3, 8, 9, 11, 15, 4, 5): yield dict(kind="e2e", V=V, dt=31234, df=5e-6)
        while True:
            yield dict(kind="inject", dt=r.choice([-1, 1]) * r.choice([r.uniform(0, 10), r.uniform(0, 1e8), r.randrange(10**8) / 8]), df=r.choice([-1, 1]) * r.choice([r.uniform(0, 1.2e-4), 10 ** r.uniform(-12, -4)]), V=r.randrange(16))
    @staticmethod
    def check(c):
        V = c["V"]; fa, fb = tmpname(".a"), tmpname(".b")
        if c["kind"] == "inject":
            a1(fa, [i * 1000 for i in range(20)]); a1(fb, [i * 1100 for i in range(20)])
            called = []
            def fake(*a, **k): called.append(1); return c["dt"], c["df"]
            with patched(fpfind=fake): out, exc = run_main(F, ["-t", fa, "-T", fb, "-V", str(V), "-q", "10"])
            if not called: raise Skip()
            dt, df = Q(c["dt"]), Q(c["df"]); st = Q(1, 2) + Q(1, 10 ** 6); sf = Q(2, 10 ** 15)
        else:
            rr = np.random.RandomState(5)
            al = np.sort(rr.uniform(1e5, 9.9e6, 9000)); bo = np.sort(np.concatenate([al * (1 + c["df"]) + c["dt"], rr.uniform(0, 1e7, 4000)]))
            al = np.concatenate([[0], al]); bo = np.concatenate([[0], bo])
            a1(fa, [int(x * 256) for x in al]); a1(fb, [int(x * 256) for x in bo])
            out, exc = run_main(F, ["-t", fa, "-T", fb, "-V", str(V), "-q", "16"])
            if exc is not None and isinstance(exc, ValueError): raise Skip()
            dt, df = Q(c["dt"]), Q(c["df"]); st = Q(12) * (8 if V & 8 else 1); sf = Q(6, 10 ** 7)
        require(exc is None, "command failed", repr(exc))
        text = out.decode(); lines = text.split("\n")
        require(len(lines) == 2 and lines[1] == "", "output is not one line:", repr(text))
        if V & 1: dt, df = -dt * (1 + df), 1 / (1 + df) - 1
        parts = lines[0].split("\t")
        require(len(parts) == (1 if V & 4 else 2), "fields", parts)
        if V & 2:
            require(parts[0].lstrip("-").isdigit(), "frequency not an integer:", parts[0])
            require(abs(int(parts[0]) - df * 2 ** 34) <= Q(1, 2) + sf * 2 ** 34, "frequency", parts[0], "expected", float(df * 2 ** 34))
        else: require(abs(Q(float(parts[0])) - df) <= sf, "frequency", parts[0], "expected", float(df))
        if not V & 4:
            require(parts[1].lstrip("-").isdigit(), "time not an integer:", parts[1])
            w = dt * 8 if V & 8 else dt
            require(abs(int(parts[1]) - w) <= st + abs(w) * Q(1, 10 ** 14), "time", parts[1], "expected", float(w))

@prop("C25")
class C25:
    rule = "timestamp files and epoch directories, over sizes, skips, word orders and precompensation options, the search replaced by a recorder; non-trivial: more than two events a side"
    @staticmethod
    def nontrivial(c): return c["mode"] != "none"
    @staticmethod
    def gen(r):
        base = dict(mode="ts", q=10, k=1, R=16, r=1, s=6.0, S=6.0, Z=0, z=0, X=False, e=None, scan=False, start=0.0, stop=1e-5, step=1e-6, ordered=False, full=False)
        def mk(**k): return dict(base, **k)
        yield mk(); yield mk(X=True); yield mk(Z=3); yield mk(Z=700, q=20)
        yield mk(mode="ep"); yield mk(mode="ep", z=2); yield mk(mode="ep", e=1); yield mk(mode="ep", e=2, z=1, q=18, R=1000, k=3, s=2.5)
        yield mk(mode="ep", q=19, R=1024, s=1.0); yield mk(mode="ep", q=19, R=1024, s=3.0, k=2); yield mk(mode="ep", Z=2); yield mk(mode="ep", q=19, R=1024, s=2.0 + 2.0 ** -20)
        for o in (False, True):
            for f in (False, True): yield mk(scan=True, ordered=o, full=f); yield mk(scan=True, ordered=o, full=f, start=2e-6, stop=3e-6, step=0.5e-6, mode="ep")
        yield mk(scan=False, full=True)
        for m in (["-q", "10", "-v"], ["-t", "A"], ["-T", "A"], ["-d", "A"], ["-D", "A"], ["-t", "A", "-D", "A"], ["-T", "A", "-d", "A"]): yield dict(mode="none", argv=m)
        while True:
            q = r.choice([4, 10, 16, 20])
            yield mk(mode=r.choice(["ts", "ep"]), q=q, k=r.choice([1, 1, 2, 3, 7]), R=r.choice([1, 16, 100, 1024, 2000]), r=r.choice([1, 2, 16]), s=r.choice([6.0, 1.0, 2.5, 0.25, 7.125]), S=r.choice([6.0, 2.5]), Z=r.choice([0, 0, 1, 2, 100, 1000]),
                     z=r.choice([0, 0, 1, 2, 3]), X=r.random() < .3, e=r.choice([None, None, 0, 1, 2]), scan=r.random() < .4, start=r.choice([0.0, 1e-6]), stop=r.choice([1e-5, 3e-6]), step=r.choice([1e-6, 5e-7]), ordered=r.random() < .5, full=r.random() < .5)
    @staticmethod
    def check(c):
        import ep as EP, os
        calls = []; VAL = (123.25, 3e-6)
        def fake(*a, **k): calls.append((a, k)); return VAL
        if c["mode"] == "none":
            fa = tmpname(".a"); a1(fa, [1000, 2000]); argv = [fa if x in ("A", "/work/a", "/work/b") else x for x in c["argv"]]
            with patched(fpfind=fake): out, exc = run_main(F, argv)
            require(exc is not None and not calls and not out.strip(), "incomplete data options", c["argv"], "give", repr(exc), out[:80]); return
        rr = random.Random(str(sorted(c.items()))); Ta = c["k"] * c["R"] * 2 ** c["q"]; need = (Q(c["s"]) + 1) * Ta
        argv = ["-q", str(c["q"]), "-k", str(c["k"]), "-R", str(c["R"]), "-r", str(c["r"]), "-s", repr(c["s"]), "-S", repr(c["S"]), "-Z", repr(c["Z"] / 512)]
        if c["mode"] == "ts":
            top = (c["Z"] + 512) * 1953125 * 256
            xs = [sorted(rr.randrange(top) for _ in range(30)) + [top + 5, top + 9] for _ in "ab"]
            fa, fb = tmpname(".a"), tmpname(".b")
            for fn, x in zip((fa, fb), xs):
                with open(fn, "wb") as f:
                    for v in x:
                        w = (v << 10) | rr.randrange(1, 16)
                        if c["X"]: w = ((w & 0xffffffff) << 32) | (w >> 32)
                        f.write(struct.pack("<Q", w))
            argv += ["-t", fa, "-T", fb] + ["-X"] * c["X"]; xs = [[Q(v, 256) for v in x] for x in xs]; skip = c["Z"] * 1953125
        else:
            num = math.ceil(need / 2 ** 29) + 1
            if num > 40: raise Skip()
            base = rr.choice([1, 9, 0xff, 0xba1f36c0 & ~0xff | 0x10]); e0 = base + (c["e"] or 0); last = e0 + c["z"] + num
            root = newdir(); pa, pb = os.path.join(root, "send"), os.path.join(root, "t1"); os.mkdir(pa); os.mkdir(pb); xs = [[], []]
            for x in range(base, last + 3):
                for i, (p, kind) in enumerate(((pa, "T2"), (pb, "T1"))):
                    ev = sorted(rr.randrange(1 << 29) for _ in range(3)) if kind == "T1" else sorted(rr.sample(range(2, 1 << 29), 3))
                    EP.mkepochs(p, x, kind, ev)
                    if e0 + c["z"] <= x < e0 + c["z"] + num: xs[i] += [Q(((x & 0x1ffff) << 32) + v, 8) for v in ev]
            EP.mkepochs(pa, base - 1, "T2", [5]); EP.mkepochs(pb, last + 10, "T1", [7])
            argv += ["-d", pa, "-D", pb, "-z", str(c["z"])] + (["-e", "%x" % e0] if c["e"] is not None else []); skip = 0
        if c["scan"]: argv += ["-P", "--precomp-start", repr(c["start"]), "--precomp-stop", repr(c["stop"]), "--precomp-step", repr(c["step"])]
        argv += ["--precomp-ordered"] * c["ordered"] + ["--precomp-fullscan"] * c["full"]
        ref = max(x[0] for x in xs) + skip
        want = [[v - ref for v in x if v >= ref] for x in xs]
        if not all(want): raise Skip()
        with patched(fpfind=fake): out, exc = run_main(F, argv)
        require(exc is None, "command failed", repr(exc))
        require(len(calls) == 1, "search run", len(calls), "times")
        import inspect
        names = ["alice", "bob", "num_wraps", "num_bins", "resolution", "target_resolution", "threshold", "separation_duration", "precompensations", "precompensation_fullscan"]
        d = dict(zip(names, calls[0][0])); d.update(calls[0][1])
        for nm, w in zip(("alice", "bob"), want): same_list(d[nm], w, nm)
        for nm, v in (("num_wraps", c["k"]), ("num_bins", 2 ** c["q"]), ("resolution", c["R"]), ("target_resolution", c["r"]), ("threshold", Q(c["S"]))): require(frac(d[nm]) == v, nm, d[nm], "expected", v)
        sw = Q(c["s"]) * Ta; require(abs(frac(d["separation_duration"]) - sw) <= sw / 10 ** 12, "separation", d["separation_duration"], "expected", float(sw))
        require(bool(d.get("precompensation_fullscan", False)) == c["full"], "full scan", d.get("precompensation_fullscan"))
        pre = [float(x) for x in d["precompensations"]]
        exp = [float(x) for x in F.generate_precompensations(c["start"], c["stop"], c["step"], ordered=c["ordered"])] if c["scan"] else [0.0]
        require(pre == exp, "precompensations", pre, "expected", exp)
        parts = out.decode().split()
        require(len(parts) == 2 and float(parts[0]) == VAL[1] and parts[1] == "123", "printed", out)
