"""Statistics reports: totals over the whole sequence for every batch partition."""
from tscommon import *
import C03, re
TRUSTED = ["fewer than 2^53 events", "numpy 1.26 element-wise operations; count_nonzero and unique count/collect over the whole array", "floating-point times treated as real arithmetic (printed times are rounded to 1 ns anyway)",
           "tqdm yields the items of its argument", "padding width in the report is a non-negative number of blanks (value of log10 unspecified)"]

MAXN = 2**53        # no file has more events
class Ev(C03.Events):
    """events with, for every pattern v, the number OCC[v](i) of events before i that carry it (ghost state)"""
    def __init__(s, e, unit, kind, pkind):
        super().__init__(e, unit, kind, pkind); s.OCC = [e.fresh_fun("OCC%d_" % v, Int, Int) for v in range(16)]; s.idx = {}
        e.counters = [s.count_mask]; s.batches = []
    def occ(s, i):
        i = z3.simplify(zi(i)); k = i.get_id()
        os = [o(i) for o in s.OCC]
        if k not in s.idx:
            s.idx[k] = i; e = s.e
            e.assume(Implies(i >= 0, And(*[o >= 0 for o in os], sum(os) == i))); e.assume(Implies(i == 0, And(*[o == 0 for o in os])))
        return os
    def mono(s, a, b):
        """facts: a <= b implies counts up to a <= counts up to b"""
        for x, y in zip(s.occ(a), s.occ(b)): s.e.assume(Implies(a <= b, x <= y))
    def count_mask(s, q):
        """contract of counting: number of events of the current batch whose pattern is selected by the mask"""
        if q.mask is not None: return None
        e = s.e
        for off, n in reversed(s.batches):
            if not e.valid(q.n.t == n): continue
            k = e.fresh_int("ck"); e.solver.push(); mark = len(e.pc)
            try:
                e.assume(And(k >= 0, k < n)); s.facts(z3.simplify(off + k))
                t = truth(lift(q.get(k))); P = s.P(z3.simplify(off + k)); sel = []
                ok = True
                for v in range(16):
                    if e.valid(Implies(P == v, t)): sel.append(v)
                    elif not e.valid(Implies(P == v, Not(t))): ok = False; break
            finally: e.solver.pop(); del e.pc[mark:]; e.cache = {}
            if ok:
                end = z3.simplify(off + n); s.mono(off, end); s.mono(IntVal(0), off); a, b = s.occ(off), s.occ(end)
                r = sum((b[v] - a[v] for v in sel), IntVal(0)); e.assume(r <= n)
                return S(z3.simplify(r), "pyint", 0, MAXN)
        return None

class Stream(C03.Stream):
    def batch(s, i):
        r = super().batch(i); i = zi(i); off = s.PRE(i); s.ev.batches.append((off, z3.simplify(s.PRE(i + 1) - off))); s.ev.mono(off, s.PRE(i + 1)); return r
    def templates(s, convert):
        ev = s.ev
        def pre(it):
            it = zi(it)
            if not z3.is_int_value(z3.simplify(it)): s.facts(it)
            return z3.simplify(s.PRE(it)) if not (z3.is_int_value(z3.simplify(it)) and z3.simplify(it).as_long() == 0) else IntVal(0)
        def num(v0): return isnum(v0) and not sym.isboolk(lift(v0).k)
        out = [lambda lp, k, v0, it: S(pre(it), "pyint", 0, MAXN) if num(v0) else None]
        def total(sel):
            def f(lp, k, v0, it):
                if not num(v0): return None
                os = ev.occ(pre(it)); return S(sum((os[v] for v in sel), IntVal(0)), "pyint", 0, MAXN)
            return f
        for b in (1, 2, 4, 8): out.append(total([v for v in range(16) if v & b]))
        out += [total([v for v in range(16) if v not in (0, 1, 2, 4, 8)]), total([0])]
        def member(lp, k, v0, it):
            if k[0] == "h" and k[2][:1] == "m" and k[2][1:].isdigit() and isnum(v0): return S(ev.occ(pre(it))[int(k[2][1:])] > 0, "pybool", 0, 1)
        out.append(member)
        def time(pick, conv):
            def f(lp, k, v0, it):
                if v0 is not None or k[0] != "v": return None
                p = pre(it)
                if s.e.branch(p == 0): return loops.NONE
                t = ev.t(S(s.N, "pyint", 0)); x = elem(t, pick(p))
                return S(real(x) / s.ev.u, "longdouble") if conv else x
            return f
        for conv in (True, False):
            for pick in (lambda p: IntVal(0), lambda p: z3.simplify(p - 1)): out.append(time(pick, conv))
        return out

def parse(e):
    """report lines: label -> list of pieces (text and printed values)"""
    txt = "".join(e.text); out = {}
    for line in txt.split("\n"):
        lab, c, val = line.partition(":")
        if not c: continue
        ps = []; p = 0
        for m in iomod._tok.finditer(val):
            if val[p:m.start()].strip(): ps.append(val[p:m.start()].strip())
            ps.append(e.tokens[int(m.group(1))]); p = m.end()
        if val[p:].strip(): ps.append(val[p:].strip())
        out[lab.strip()] = ps
    return out
def check_report(e, ev, N):
    rep = parse(e); os = ev.occ(N)
    def one(label):
        ps = rep.get(label)
        if ps is None or len(ps) != 1: e.fail("report states " + label, "lines %r" % {k: [x if isinstance(x, str) else "value" for x in v] for k, v in rep.items()}); return None
        return ps[0]
    def count(label, want):
        x = one(label)
        if x is None: return
        if isinstance(x, str):
            try: v = lift(int(x))
            except ValueError: e.fail("report states " + label, repr(x)); return
        else: v = x[0]
        if not isnum(v) or sym.isfltk(lift(v).k): e.fail("report states " + label + " as a whole number", repr(v)); return
        e.prove("report: " + label, intt(lift(v)) == want)
    count("Total events", N)
    if e.branch(N == 0): return
    for i, b in enumerate((1, 2, 4, 8)): count("Channel %d" % (i + 1), sum(os[v] for v in range(16) if v & b))
    count("Multi-channel", sum(os[v] for v in range(16) if v not in (0, 1, 2, 4, 8))); count("No channel", os[0])
    for label, k in (("~ start", IntVal(0)), ("~ end", N - 1)):
        x = one(label)
        if x is None: continue
        if isinstance(x, str) or not isnum(x[0]): e.fail("report states " + label, repr(x)); continue
        if not re.fullmatch(r"[<>^]?[0-9]*\.(9|1[0-9])f", x[1]): raise Unsupported("time format %r" % x[1])
        w = ToReal(ev.count(k)) / 256 / 10**9; d = real(lift(x[0])) - w; tol = w / 2**40 + RealVal("1/1000000000")
        e.prove("report: " + label, And(d <= tol, -d <= tol))
    x = one("Detection patterns")
    if x is None: return
    if isinstance(x, str) or not isinstance(x[0], npshim.SortedSet): e.fail("report: patterns in increasing order", repr(x)) if isinstance(x, str) else unsup(x); return
    h = x[0].has
    for v in range(16):
        got = truth(lift(h.has(v))) if isinstance(h, npshim.Uniq) else h.m[v]
        e.prove("report: pattern %d listed iff it occurs" % v, got == (os[v] > 0))
def unsup(x): raise Unsupported("patterns printed from %r" % (x[0],))

def jobs(tier):
    out = [Job("print_statistics %s p:%s" % (k, p), whole(k, p), ideal=True) for k in ("longdouble", "float64") for p in ("int64", "uint32", "uint64")]
    for u, k in (("NS1", "longdouble"), ("PS125", "longdouble"), ("PS4", "longdouble"), ("PS4", "uint64"), ("NS1", "uint64"), ("PS125", "int64")):
        for p in (("uint32", "uint64") if tier == "quick" else ("uint32", "uint64", "int64", "uint8")):
            for d in ((False,) if tier == "quick" and k != "uint64" else (False, True)): out.append(Job("print_statistics_stream %s t:%s p:%s display=%s" % (u, k, p, d), streamed(u, k, p, d), ideal=True))
    for fmt, X in FMTS + [("0", True)]:
        for q in ([True] if tier == "quick" else [True, False]): out.append(Job("main -p -A%s legacy=%s quiet=%s" % (fmt, X, q), command(fmt, X, q), ideal=True,
            overrides=lambda e: {MOD + ".sread_a%d" % i: (lambda *a, i=i, **k: e.reader(i, *a, **k)) for i in range(3)}))
    return out
def command(fmt, legacy, quiet):
    """the -p command: the streaming reader replaced by its contract (C02)"""
    def fn(e, load):
        e.argv = ["parse_timestamps", "-A" + fmt, "-p"] + (["-X"] if legacy else []) + (["-q"] if quiet else []) + ["/work/in"]
        e.files["/work/in"] = iomod.BinContent(lift(8), lambda i: IntVal(0)); made = []; m = load(MOD)
        def reader(i, filename, legacy_=None, resolution=m.TSRES.NS1, fractional=True, buffer_size=100000, **kw):
            if "legacy" in kw: legacy_ = kw.pop("legacy")
            if kw: raise Unsupported("reader arguments %r" % kw)
            if i != int(fmt): e.fail("the reader of the input format is used", "sread_a%d" % i)
            if str(filename) != "/work/in": e.fail("the input file is read", str(filename))
            if fmt == "1" and bool(legacy_) != legacy: e.fail("the legacy option reaches the reader", repr(legacy_))
            kind = "longdouble" if fractional else "uint64"; unit = resolution.name
            ev = Ev(e, unit, kind, "uint32" if fmt == "1" else "uint64"); st = Stream(e, ev); made.append((ev, st)); e.templates[:] = st.templates(True); bounded(e, st.N); ev.mono(IntVal(0), st.N)
            return st, S(st.M, "pyint", 0)
        e.reader = reader
        e.replayer = lambda mo: [dict(kind="cli", unit="NS1", counts=[i << 38 for i in range(len(ps))], ps=ps, cuts=[]) for ps in ([1, 2, 3], [0], [5] * 4, [1, 2, 3, 4, 8, 0, 1])]
        e.vacuous()
        must_return(e, "command", m.main)
        if len(made) != 1: e.fail("the input is read once", "%d" % len(made)); return
        check_report(e, made[0][0], made[0][1].N)
    return fn
def whole(kind, pk):
    def fn(e, load):
        ev = Ev(e, "NS1", kind, pk); N = e.fresh_int("N"); e.assume(N >= 0); bounded(e, N); ev.batches.append((IntVal(0), N)); ev.mono(IntVal(0), N)
        def replay(m):
            n = min(m.eval(N, model_completion=True).as_long(), 40)
            return [c for ps in pats(m, ev, n) for c in [dict(kind="whole", unit="NS1", counts=[i << 38 for i in range(len(ps))], ps=ps, cuts=[])]]
        e.replayer = replay; e.vacuous()
        must_return(e, "report", load(MOD).print_statistics, "/work/none", ev.t(S(N, "pyint", 0, MAXN)), ev.p(S(N, "pyint", 0, MAXN)))
        check_report(e, ev, N)
    return fn
def pats(m, ev, n):
    def o(v, i): return m.eval(ev.OCC[v](i), model_completion=True).as_long()
    a = [v for v in range(16) for _ in range(min(max(o(v, n), 0), 3))]
    return [a, [1], list(range(16)), [3, 3], [0], [1, 2, 4, 8, 1]]
def bounded(e, N): e.assume(N < MAXN)
def streamed(unit, kind, pk, display):
    def fn(e, load):
        ev = Ev(e, unit, kind, pk); st = Stream(e, ev); e.templates[:] = st.templates(True); N = st.N; bounded(e, N); ev.mono(IntVal(0), N)
        def replay(m):
            n = min(m.eval(N, model_completion=True).as_long(), 40)
            return [dict(kind="stream", unit=unit, counts=[i << 38 for i in range(len(ps))], ps=ps, cuts=c) for ps in pats(m, ev, n) for c in ([], [0, len(ps) // 2], [1] * 2 if len(ps) > 1 else [0])][:12]
        e.replayer = replay; e.vacuous()
        must_return(e, "report", load(MOD).print_statistics_stream, "/work/none", st, S(st.M, "pyint", 0), resolution=res_enum(load, unit), display=display)
        check_report(e, ev, N)
    return fn
