from common import *
import numpy as np, re, struct
import fpfind.lib.parse_timestamps as P
from fpfind import TSRES
LD = np.longdouble
R = lambda n: getattr(TSRES, n)
M32 = (1 << 32) - 1

def encode(fmt, legacy, events):
    if fmt == 0: return "".join("%08x\n%08x\n" % (e & M32, e >> 32) for e in events).encode()
    if fmt == 2: return "".join("%016x\n" % e for e in events).encode()
    return b"".join(struct.pack("<II", *((e >> 32, e & M32) if legacy else (e & M32, e >> 32))) for e in events)

def spec_t(count, unit, fractional):
    v = Fraction(count * UNITS[unit], 256)
    return v if fractional else Fraction(v.numerator // v.denominator)

def write(data, suffix=".dat"):
    fn = tmpname(suffix)
    with open(fn, "wb") as f: f.write(data)
    return fn

FMT = [("read_a%d" % i) for i in range(3)]

def reader_case(r, i, stream=False):
    c = dict(fmt=i % 3, legacy=bool((i // 3) % 2), unit=["NS1", "PS125", "PS4"][(i // 6) % 3],
             frac=bool((i // 18) % 2))
    return c

BOUND = [0, 1, 15, 16, 1023, 1024, M32, M32 + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (((1 << 53) + 1) << 10) | 5,
         (0x123456789abcdef0), 0xfedcba9876543210, (((1 << 54) - 1) << 10) | 0x3f0, (255 << 10) | 9, (0x80000000 << 32) | 7]

@prop("C01")
class C01:
    rule = "directed boundary events then random events, over format x legacy x unit x fractional; non-trivial: at least one event"
    @staticmethod
    def nontrivial(c): return len(c["events"]) > 0
    @staticmethod
    def gen(r):
        for i in range(36):
            yield dict(reader_case(r, i), events=BOUND)
        for i in range(36):
            yield dict(reader_case(r, i), events=[BOUND[i % len(BOUND)]])
        for i in range(36):
            yield dict(reader_case(r, i), events=[])
        i = 0
        while True:
            i += 1
            yield dict(reader_case(r, r.randrange(36)), events=[pick64(r) for _ in range(pickn(r, i % 20 == 0))])
    @staticmethod
    def check(c):
        fn = write(encode(c["fmt"], c["legacy"], c["events"]))
        t, p = getattr(P, "read_a%d" % c["fmt"])(fn, c["legacy"], R(c["unit"]), c["frac"])
        same_list(t, [spec_t(e >> 10, c["unit"], c["frac"]) for e in c["events"]], "timestamps")
        same_list(p, [e & 15 for e in c["events"]], "patterns")

@prop("C02")
class C02:
    rule = "files of n events read with batch size b (n around multiples of b), over format x legacy x unit x fractional; non-trivial: more than one batch"
    @staticmethod
    def nontrivial(c): return len(c["events"]) > c["bs"]
    @staticmethod
    def gen(r):
        i = 0
        for n, b in [(0, 1), (0, 5), (1, 1), (1, 2), (2, 1), (3, 3), (4, 3), (5, 3), (6, 3), (7, 3), (17, 4), (17, 17), (17, 16), (17, 18), (16, 8), (5, 100000)]:
            for k in range(6):
                yield dict(reader_case(r, i + k * 6 + (i // 6)), events=(BOUND * 2)[:n], bs=b)
                i += 1
        while True:
            n = pickn(r); b = r.choice([1, 2, 3, 4, 5, 8, 16, 100])
            if r.random() < .3: n = b * r.randrange(4) + r.choice([-1, 0, 1]); n = max(0, n)
            yield dict(reader_case(r, r.randrange(36)), events=[pick64(r) for _ in range(n)], bs=b)
    @staticmethod
    def check(c):
        fn = write(encode(c["fmt"], c["legacy"], c["events"])); n = len(c["events"]); b = c["bs"]
        st, nb = getattr(P, "sread_a%d" % c["fmt"])(fn, c["legacy"], R(c["unit"]), c["frac"], b)
        ts, ps, sizes = [], [], []
        for t, p in st:
            require(len(t) == len(p), "batch with", len(t), "timestamps and", len(p), "patterns")
            sizes.append(len(t)); ts += list(t); ps += list(p)
            require(len(sizes) <= n + 1, "too many batches")
        want = [b] * (n // b) + ([n % b] if n % b else [])
        require(sizes == want, "batch sizes", sizes, "expected", want)
        require(nb == len(want), "announced batches", nb, "expected", len(want))
        same_list(ts, [spec_t(e >> 10, c["unit"], c["frac"]) for e in c["events"]], "timestamps")
        same_list(ps, [e & 15 for e in c["events"]], "patterns")

def arr_t(counts, unit, kind):
    """Timestamp array of counts (1/256 ns) in the unit."""
    u = UNITS[unit]
    if kind == "longdouble": return np.array([LD(c) * u / 256 for c in counts], dtype=LD)
    vals = []
    for c in counts:
        assert (c * u) % 256 == 0
        vals.append(c * u // 256)
    if kind == "list": return vals
    return np.array(vals, dtype=kind)

def writer_counts(r, unit, kind, n, whole=False):
    out = []
    for _ in range(n):
        c = pick64(r) >> 10
        if kind != "longdouble": c -= c % (256 // UNITS[unit])
        out.append(c)
    return out

@prop("C03")
class C03:
    rule = "events over format x legacy x unit x array kind, whole or streamed with arbitrary cuts; non-trivial: at least one event"
    @staticmethod
    def nontrivial(c): return len(c["counts"]) > 0
    @staticmethod
    def mk(r, i, counts=None, n=None):
        unit = ["NS1", "PS125", "PS4"][i % 3]
        kind = ["longdouble", "longdouble", "uint64", "int64", "list"][(i // 3) % 5]
        if n is None: n = pickn(r)
        cs = counts if counts is not None else writer_counts(r, unit, kind, n)
        if kind != "longdouble": cs = [x - x % (256 // UNITS[unit]) for x in cs]
        ps = [r.randrange(16) for _ in cs]
        stream = bool((i // 15) % 2)
        cuts = None
        if stream:
            k = r.choice([0, 1, 1, 2, 4])
            cuts = sorted(r.randrange(len(cs) + 1) for _ in range(k))
        return dict(fmt=i % 3 if i % 2 else r.randrange(3), legacy=bool(r.randrange(2)), unit=unit, kind=kind, counts=cs, ps=ps, cuts=cuts,
                    pkind=r.choice(["int64", "uint32", "uint64", "uint8", "list"]))
    @staticmethod
    def gen(r):
        B = [0, 1, 255, 256, (1 << 22) - 1, 1 << 22, (1 << 32) + 1, (1 << 53) + 1, (1 << 54) - 1, 1 << 53, (1 << 31) - 1, 0x2aaaaaaaaaaaaa, 0x15555555555555]
        for i in range(90):
            yield C03.mk(r, i, counts=B)
        for i in range(30):
            yield C03.mk(r, i, n=0)
        while True: yield C03.mk(r, r.randrange(90))
    @staticmethod
    def check(c):
        fn = tmpname(".out"); fmt = c["fmt"]
        with open(fn, "wb") as f: f.write(b"previous content of the output file\n" * 3)
        t = arr_t(c["counts"], c["unit"], c["kind"])
        p = list(c["ps"]) if c["pkind"] == "list" else np.array(c["ps"], dtype=c["pkind"])
        t0 = [frac(x) for x in t]; p0 = [int(x) for x in p]
        if c["cuts"] is None:
            getattr(P, "write_a%d" % fmt)(fn, t, p, c["legacy"], resolution=R(c["unit"]))
        else:
            edges = [0] + c["cuts"] + [len(t)]
            parts = [(t[a:b], p[a:b]) for a, b in zip(edges, edges[1:])]
            getattr(P, "swrite_a%d" % fmt)(fn, iter(parts), len(parts), c["legacy"], resolution=R(c["unit"]), display=False)
        with open(fn, "rb") as f: got = f.read()
        want = encode(fmt, c["legacy"], [x * 1024 + q for x, q in zip(c["counts"], c["ps"])])
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Fail("output differs at byte %d (lengths %d, expected %d): %r expected %r" % (i, len(got), len(want), got[max(0, i - 20):i + 20], want[max(0, i - 20):i + 20]))
        require([frac(x) for x in t] == t0 and [int(x) for x in p] == p0, "writer modified its input")

# ---- filters -----------------------------------------------------------------
def spec_pfilter(ps, pattern, mask, invert):
    """-> (mask list, resulting patterns of the selected)"""
    m, out = [], []
    for p in ps:
        if not mask:
            s = (p == pattern) != invert; q = p
        elif not invert:
            q = p & pattern; s = q != 0
        else:
            q = p & ~pattern & 15; s = q != 0 or p == 0
        m.append(bool(s))
        if s: out.append(q)
    return m, out

@prop("C05")
class C05:
    rule = "all 16 patterns x mask x invert over lists of all 16 detector patterns, then random lists; non-trivial: non-empty list"
    @staticmethod
    def nontrivial(c): return len(c["ps"]) > 0
    @staticmethod
    def gen(r):
        for pat in range(16):
            for m in (False, True):
                for v in (False, True):
                    yield dict(ps=list(range(16)), pattern=pat, mask=m, invert=v, kind=["int64", "uint32", "uint64", "uint8"][pat % 4])
        for m in (False, True):
            for v in (False, True):
                yield dict(ps=[], pattern=r.randrange(16), mask=m, invert=v, kind="int64")
        while True:
            yield dict(ps=[r.randrange(16) for _ in range(pickn(r))], pattern=r.randrange(16), mask=bool(r.randrange(2)), invert=bool(r.randrange(2)),
                       kind=r.choice(["int64", "uint32", "uint64", "uint8"]))
    @staticmethod
    def check(c):
        p = np.array(c["ps"], dtype=c["kind"])
        m, q = P.get_pattern_mask(p, c["pattern"], c["mask"], c["invert"])
        wm, wq = spec_pfilter(c["ps"], c["pattern"], c["mask"], c["invert"])
        require([bool(x) for x in m] == wm, "mask", list(m), "expected", wm)
        require(np.asarray(m).dtype == bool or len(wm) == 0, "mask is not boolean")
        same_list(q, wq, "patterns")
        require([int(x) for x in p] == c["ps"], "input modified")

SEC = 17  # seconds are multiples of 2^-17: a whole number (1953125 * m) of 1/256 ns
def spec_tfilter(counts, start, end):
    lo = None if start is None else start * 1953125; hi = None if end is None else end * 1953125
    return [(lo is None or x >= lo) and (hi is None or x <= hi) for x in counts]

def times_near(r, n, marks, top=1 << 53):
    out = []
    for _ in range(n):
        if marks and r.random() < .7: x = r.choice(marks) * 1953125 + r.choice([-256, -32, -1, 0, 0, 0, 1, 8, 31, 256, 1000])
        else: x = r.randrange(top)
        out.append(min(max(0, x), top - 1))
    return sorted(out)

def marks_for(r):
    a = r.choice([0, 1, 2, 256, r.randrange(1 << 17), r.randrange(1 << 31)]); b = r.choice([a, a + 1, r.randrange(1 << 17), r.randrange(1 << 31)])
    start = r.choice([None, a, a, a]); end = r.choice([None, b, b, b])
    return a, b, start, end

@prop("C06")
class C06:
    rule = "time-ordered lists with events on, just below and just above the bounds, over unit x present/absent bounds; non-trivial: some but not all events selected"
    @staticmethod
    def nontrivial(c):
        s = spec_tfilter(c["counts"], c["start"], c["end"]); return any(s) and not all(s)
    @staticmethod
    def gen(r):
        for unit in UNITS:
            for s, e in [(None, None), (2, None), (None, 2), (2, 4), (2, 2), (4, 2), (0, 0), (9, 12), (0, 0), (0, 1), (3, 3), (1 << 17, None), (None, 0), (0, None)]:
                for counts in ([], [2 * 1953125], [x * 1953125 for x in (1, 2, 2, 3, 4, 4, 5, 8)], [2 * 1953125 + d for d in (-256, -1, 0, 1, 256)], [0, 0, 1]):
                    yield dict(counts=sorted(counts), unit=unit, start=s, end=e, kind="longdouble" if unit != "PS4" else "uint64")
        while True:
            a, b, s, e = marks_for(r); unit = r.choice(list(UNITS)); n = pickn(r)
            kind = r.choice(["longdouble", "longdouble", "uint64"])
            cs = times_near(r, n, [a, b])
            if kind != "longdouble": cs = [x - x % (256 // UNITS[unit]) for x in cs]
            yield dict(counts=cs, unit=unit, start=s, end=e, kind=kind)
    @staticmethod
    def check(c):
        kind = c["kind"]; cs = c["counts"]
        if kind != "longdouble": cs = [x - x % (256 // UNITS[c["unit"]]) for x in cs]
        t = arr_t(cs, c["unit"], kind); t0 = [frac(x) for x in t]
        sec = lambda m: None if m is None else m / 2.0 ** SEC
        m = P.get_timing_mask(t, sec(c["start"]), sec(c["end"]), R(c["unit"]))
        w = spec_tfilter(cs, c["start"], c["end"])
        require(len(m) == len(w) and [bool(x) for x in m] == w, "mask", list(m), "expected", w)
        require(np.asarray(m).dtype == bool, "mask is not boolean")
        require([frac(x) for x in t] == t0, "input modified")

def args_for(c):
    a = ["-A%d" % c["fin"], "-a%d" % c["fout"], "-q"]
    if c["X"]: a.append("-X")
    if c["x"]: a.append("-x")
    if c["pat"] is not None: a += ["--pfilter-pattern", str(c["pat"])]
    if c["pmask"]: a.append("--pfilter-mask")
    if c["pinv"]: a.append("--pfilter-invert")
    if c["start"] is not None: a += ["--tfilter-start", repr(c["start"] / 2.0 ** SEC)]
    if c["end"] is not None: a += ["--tfilter-end", repr(c["end"] / 2.0 ** SEC)]
    return a

def spec_select(c):
    ev = c["events"]
    if c["pat"] is not None:
        m, q = spec_pfilter([e & 15 for e in ev], c["pat"], c["pmask"], c["pinv"])
        ev = [(e & ~15) | x for e, x in zip([e for e, s in zip(ev, m) if s], q)]
    m = spec_tfilter([e >> 10 for e in ev], c["start"], c["end"])
    return [e for e, s in zip(ev, m) if s]

def conv_case(r, i):
    filt = (i // 8) % 4
    a, b, s, e = marks_for(r)
    top = 1 << 53 if filt >= 2 else 1 << 54
    n = pickn(r)
    counts = times_near(r, n, [a, b] if filt >= 2 else None, top) if filt >= 2 else ([pick64(r) >> 10 for _ in range(n)])
    return dict(fin=r.randrange(3), fout=r.randrange(3), X=bool(r.randrange(2)), x=bool(r.randrange(2)), pat=r.randrange(16) if filt & 1 else None,
                pmask=bool(r.randrange(2)), pinv=bool(r.randrange(2)), start=s if filt >= 2 else None, end=e if filt >= 2 else None,
                events=[(x << 10) | r.randrange(16) for x in counts], inmem=bool(i % 2))

@prop("C04")
class C04:
    rule = "conversions over input x output format x legacy flags x filters x in-memory; non-trivial: at least one event selected"
    @staticmethod
    def nontrivial(c): return bool(c.get("big")) or len(spec_select(c)) > 0
    @staticmethod
    def gen(r):
        B = [((x << 10) | q) for x, q in [(0, 1), (0, 15), (255, 2), (256, 0), (1953125 - 1, 4), (1953125, 4), (1953125, 8), (1953126, 3), (2 * 1953125, 5), ((1 << 53) - 1, 9)]]
        i = 0
        for fin in range(3):
            for fout in range(3):
                for X in (0, 1):
                    for x in (0, 1):
                        i += 1
                        yield dict(fin=fin, fout=fout, X=bool(X), x=bool(x), pat=None, pmask=False, pinv=False, start=None, end=None, events=B + [(((1 << 54) - 1) << 10) | 1, (((1 << 53) + 1) << 10) | 6], inmem=bool(i % 2))
        # one batch boundary of the default buffer (100000 events); cheap variant for a1 only
        for inmem in (False, True):
            for (pat, m, v, s, e) in [(4, 0, 0, None, None), (5, 1, 0, None, None), (5, 1, 1, 1, 1), (4, 0, 1, 1, None), (None, 0, 0, 1, 2), (None, 0, 0, None, 1), (0, 0, 0, None, None), (1, 0, 0, 0, 0)]:
                yield dict(fin=1, fout=1, X=False, x=False, pat=pat, pmask=bool(m), pinv=bool(v), start=s, end=e, events=B, inmem=inmem)
        # more events than one default batch (100000): the selected range begins and ends in different batches
        for (inmem, s, e, pat) in [(False, 1, 3, None), (False, 3, None, 1), (True, 1, 3, 1), (False, None, None, None)]:
            yield dict(big=True, fin=1, fout=r.choice([1, 2]), X=False, x=True, pat=pat, pmask=False, pinv=False, start=s, end=e, events=None, inmem=inmem)
        j = 0
        while True:
            j += 1
            yield conv_case(r, r.randrange(64))
    @staticmethod
    def check(c):
        if c.get("big"):
            c = dict(c, events=[((i * 40) << 10) | (1 << (i % 4)) for i in range(100000)] + [((100000 * 40 + i * 3001) << 10) | (1 << (i % 4)) for i in range(1003)])
        src = write(encode(c["fin"], c["X"], c["events"])); dst = tmpname(".conv")
        out, exc = run_main(P, args_for(c) + (["--inmemory"] if c["inmem"] else []) + [src, dst])
        require(exc is None, "conversion failed:", repr(exc))
        with open(dst, "rb") as f: got = f.read()
        sel = spec_select(c)
        # events carry 54-bit count and 4-bit pattern; reserved bits are not carried over
        want = encode(c["fout"], c["x"], [e & ~0x3f0 for e in sel])
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Fail("output file differs at byte %d (length %d, expected %d): %r expected %r" % (i, len(got), len(want), got[max(0, i - 8):i + 24], want[max(0, i - 8):i + 24]))

LABELS = [("Total events", "n"), ("Channel 1", "c1"), ("Channel 2", "c2"), ("Channel 3", "c3"), ("Channel 4", "c4"), ("Multi-channel", "mp"), ("No channel", "np")]
def parse_report(text):
    d = {}
    for lab, k in LABELS:
        m = re.search(r"^\s*%s\s*:\s*(-?\d+)\s*$" % re.escape(lab), text, re.M)
        if m: d[k] = int(m.group(1))
    for lab, k in [("start", "start"), ("end", "end")]:
        m = re.search(r"~\s*%s\s*:\s*(-?[\d.]+(?:e[-+]?\d+)?)\s*$" % lab, text, re.M)
        if m: d[k] = float(m.group(1))
    m = re.search(r"patterns\s*:\s*\[(.*)\]", text)
    if m: d["pats"] = [int(re.search(r"-?\d+", re.sub(r"u?int\d+", "", x)).group(0)) for x in m.group(1).split(",") if x.strip()]
    return d
def spec_report(counts, ps):
    d = dict(n=len(ps))
    if not ps: return d
    for i in range(4): d["c%d" % (i + 1)] = sum(1 for p in ps if p >> i & 1)
    d["mp"] = sum(1 for p in ps if bin(p).count("1") > 1); d["np"] = sum(1 for p in ps if p == 0)
    d["pats"] = sorted(set(ps)); d["start"] = counts[0] / 256e9; d["end"] = counts[-1] / 256e9
    return d
def cmp_report(text, counts, ps):
    got = parse_report(text); want = spec_report(counts, ps)
    for k, v in want.items():
        require(k in got, "report lacks", k, ":", text)
        if k in ("start", "end"): require(abs(got[k] - v) <= 2e-9 + 1e-12 * abs(v), k, got[k], "expected", v)
        else: require(got[k] == v, k, got[k], "expected", v)

@prop("C07")
class C07:
    rule = "event sequences cut into batches (with empty batches), whole-file, streaming and command-line reports; non-trivial: two or more events"
    @staticmethod
    def nontrivial(c): return len(c["ps"]) > 1
    @staticmethod
    def gen(r):
        K = ["whole", "stream", "cli", "cli-mem", "cli-filter"]
        for kind in K:
            for unit in ("NS1", "PS4"):
                yield dict(kind=kind, unit=unit, counts=[], ps=[], cuts=[])
                yield dict(kind=kind, unit=unit, counts=[0], ps=[3], cuts=[])
                yield dict(kind=kind, unit=unit, counts=[5 << 40], ps=[0], cuts=[0, 0, 1])
                yield dict(kind=kind, unit=unit, counts=[7 << 30, 7 << 30], ps=[1, 8], cuts=[1])
                yield dict(kind=kind, unit=unit, counts=[(i * 1000000) << 12 for i in range(16)], ps=list(range(16)), cuts=[0, 3, 3, 9, 16])
                yield dict(kind=kind, unit=unit, counts=[(i * 1000000) << 12 for i in range(12)], ps=[1, 1, 2, 1, 4, 4, 8, 8, 8, 8, 2, 1], cuts=[1, 5])
        while True:
            n = pickn(r); cs = sorted((pick64(r) >> 10) % (1 << 53) for _ in range(n)); k = r.choice([0, 1, 2, 5])
            pool = r.sample(range(16), r.choice([1, 2, 4, 16]))
            yield dict(kind=r.choice(K), unit=r.choice(["NS1", "PS125", "PS4"]), counts=cs, ps=[r.choice(pool) for _ in cs], cuts=sorted(r.randrange(n + 1) for _ in range(k)))
    @staticmethod
    def check(c):
        kind = c["kind"]; cs, ps = c["counts"], c["ps"]
        buf = io.StringIO()
        if kind in ("whole", "stream"):
            if kind == "whole":
                t = arr_t(cs, "NS1", "longdouble")
                with contextlib.redirect_stdout(buf): P.print_statistics("nofile", t, np.array(ps, dtype="int64"))
            else:
                edges = [0] + c["cuts"] + [len(cs)]
                t = arr_t(cs, c["unit"], "longdouble" if c["unit"] != "PS4" else "uint64"); p = np.array(ps, dtype="uint32")
                parts = [(t[a:b], p[a:b]) for a, b in zip(edges, edges[1:])]
                with contextlib.redirect_stdout(buf): P.print_statistics_stream("nofile", iter(parts), len(parts), R(c["unit"]), display=False)
            text = buf.getvalue()
        else:
            fmt = len(cs) % 3
            fn = write(encode(fmt, False, [(x << 10) | q for x, q in zip(cs, ps)]))
            a = ["-A%d" % fmt, "-q", "-p"]
            if kind == "cli-mem": a.append("--inmemory")
            if kind == "cli-filter":
                pat = (ps[0] if ps else 1); a += ["--pfilter-pattern", str(pat), "--pfilter-invert"]
                keep = [(x, q) for x, q in zip(cs, ps) if q != pat]; cs = [x for x, _ in keep]; ps = [q for _, q in keep]
            out, exc = run_main(P, a + [fn]); require(exc is None, "report failed:", repr(exc))
            text = out.decode()
        cmp_report(text, cs, ps)
