"""The conversion command: callee contracts of readers (C01, C02), writers (C03) and filters (C05, C06) composed by main."""
from tscommon import *
import C03, C05
from C02 import drive
TRUSTED = ["argparse option parsing", "numpy 1.26 boolean indexing as modelled in vf/npshim.py", "contracts of read_a*/sread_a* (C01, C02), write_a*/swrite_a* (C03), get_timing_mask (C06); get_pattern_mask is inlined and under contract in C05",
           "time bounds: start*(1e9*unit) is one double-precision product; 1e9*1 and 1e9*256 differ by a power of two, so both modes select the same events"]

def jobs(tier):
    out = []
    for fin in "012":
        for fout in "012":
            for X in (False, True):
                for x in (False, True):
                    if tier == "quick" and (X, x) not in ((False, True), (True, False)): continue
                    for mem in (False, True): out.append((fin, fout, X, x, mem, None, False, False, False, False))
    for mem in (False, True):
        for pat in (False, True):
            for pm, pi in ([(False, False), (False, True), (True, False), (True, True)] if pat else [(False, False)]):
                for a in (False, True):
                    for b in (False, True):
                        if not (pat or a or b): continue
                        out.append(("1", "1" if mem else "2", False, True, mem, pat or None, pm, pi, a, b))
                        if tier != "quick": out.append(("0", "0", True, False, mem, pat or None, pm, pi, a, b))
    ov = lambda e: dict([(MOD + ".sread_a%d" % i, (lambda *a, i=i, **k: e.rd(True, i, *a, **k))) for i in range(3)] + [(MOD + ".read_a%d" % i, (lambda *a, i=i, **k: e.rd(False, i, *a, **k))) for i in range(3)]
            + [(MOD + ".swrite_a%d" % i, (lambda *a, i=i, **k: e.swr(i, *a, **k))) for i in range(3)] + [(MOD + ".write_a%d" % i, (lambda *a, i=i, **k: e.wr(i, *a, **k))) for i in range(3)]
            + [(MOD + ".get_timing_mask", lambda *a, **k: e.tmask(*a, **k))])
    return [Job("main -A%s -a%s X=%s x=%s inmemory=%s pattern=%s mask=%s invert=%s start=%s end=%s" % c, body(*c), overrides=ov) for c in out]

def body(fin, fout, X, x, mem, pat, pm, pi, hs, he):
    def fn(e, load):
        argv = ["parse_timestamps", "-A" + fin, "-a" + fout, "-q"] + ["-X"] * X + ["-x"] * x + ["--inmemory"] * mem
        P = symint(e, "pattern", 0, 15) if pat else None
        if pat: argv += ["--pfilter-pattern", e.token(P, "")] + ["--pfilter-mask"] * pm + ["--pfilter-invert"] * pi
        def bound(nm): e.float_inputs.append(z3.Real(nm)); return S(z3.Real(nm), "pyfloat")
        st_, en_ = (bound("start") if hs else None), (bound("end") if he else None)
        if hs: argv += ["--tfilter-start", e.token(st_, "")]
        if he: argv += ["--tfilter-end", e.token(en_, "")]
        argv += ["/work/in", "/work/out"]; e.argv = argv; e.files["/work/in"] = iomod.BinContent(lift(8), lambda i: IntVal(0)); m = load(MOD)
        C = {}
        def replay(mo):
            pv = mo.eval(P.t, model_completion=True).as_long() % 16 if pat else None
            base = dict(fin=int(fin), fout=int(fout), X=X, x=x, pat=pv, pmask=pm, pinv=pi, start=None, end=None, inmem=mem)
            s = 1953125; evs = [(k * s << 10) | (p % 16) for k, p in enumerate([1, 2, 4, 8, 0, 15, 3, pv or 0, 5, 1])]; out = []
            for a, b in ((2, 6), (0, 0), (3, 3)): out.append(dict(base, start=a if hs else None, end=b if he else None, events=evs))
            out.append(dict(base, start=30000 if hs else None, end=70000 if he else None, big=True, events=None))
            return out[3:] + out[:3] if not mem else out
        e.replayer = replay
        # ---- contracts of the callees
        def rd(stream, i, filename, legacy=None, resolution=m.TSRES.NS1, fractional=True, buffer_size=100000):
            if C: e.fail("the input is read once", "second read")
            if str(filename) != "/work/in": e.fail("the input file is read", str(filename))
            if i != int(fin): e.fail("the reader of the input format is used", "%d" % i)
            if fin == "1" and bool(legacy) != X: e.fail("the legacy input option reaches the reader", repr(legacy))
            if isinstance(fractional, S): raise Unsupported("fractional")
            kind = "longdouble" if fractional else "uint64"; unit = resolution.name
            if not fractional and unit != "PS4": raise Unsupported("events read in a coarser unit")
            ev = C03.Events(e, unit, kind, {"1": "uint32", "0": "uint64", "2": "uint64"}[fin]); C.update(ev=ev, unit=unit, stream=stream)
            if hs or he: e.assume(ForAll([a_, b_], Implies(And(0 <= a_, a_ <= b_), ev.C(a_) <= ev.C(b_))))
            if stream:
                st = C03.Stream(e, ev); C["st"] = st; C["N"] = st.N; return st, S(st.M, "pyint", 0)
            N = e.fresh_int("N"); e.assume(N >= 0); C["N"] = N; return ev.t(N), ev.p(N)
        a_, b_ = z3.Ints("a_ b_")
        def tm(t, s, en, res):
            """contract of get_timing_mask: closed interval, bounds in double precision (C06)"""
            f = []
            if s is not None: f.append(real(binop("*", s, 1e9 * res.value)) <= real(lift(t)))
            if en is not None: f.append(real(lift(t)) <= real(binop("*", en, 1e9 * res.value)))
            return And(*f) if f else BoolVal(True)
        def tmask(t, start=None, end=None, resolution=m.TSRES.NS1):
            if not isinstance(t, A): raise Unsupported("timing mask of %r" % type(t))
            q = t.seq(); i, j = e.fresh_int("i"), e.fresh_int("j"); g = And(0 <= i, i <= j, j < q.n.t)
            if q.mask is not None: g = And(g, q.mask(i), q.mask(j))
            e.prove("get_timing_mask is given sorted times", Implies(g, real(lift(q.get(i))) <= real(lift(q.get(j)))))
            return A("bool", q.n, lambda k: S(tm(q.get(k), start, end, resolution), "bool", 0, 1), mask=q.mask)
        def psel(k):
            v = C["ev"].P(C["ev"].facts(k)); return C05.spec(v, P.t, pm, pi) if pat else (BoolVal(True), v)
        def sel(k):
            s, _ = psel(k); return And(s, tm(elem_t(k), st_, en_, getattr(m.TSRES, C["unit"])))
        def elem_t(k): return C["ev"].t(S(C["N"], "pyint", 0)).seq().get(k)
        def check(t, p, off, n, what):
            if not (hs or he or pat):
                prove_seq(e, what + " times", t, n, lambda k: elem_t(off + k)); prove_seq(e, what + " patterns", p, n, lambda k: C["ev"].P(C["ev"].facts(off + k))); return
            prove_filtered(e, what + " times", t, n, lambda k: sel(off + k), lambda k: elem_t(off + k))
            prove_filtered(e, what + " patterns", p, n, lambda k: sel(off + k), lambda k: psel(off + k)[1])
        def common(i, filename, legacy, resolution):
            if i != int(fout): e.fail("the writer of the output format is used", "%d" % i)
            if str(filename) != "/work/out": e.fail("the output file is written", str(filename))
            if fout == "1" and bool(legacy) != x: e.fail("the legacy output option reaches the writer", repr(legacy))
            if "ev" not in C: e.fail("written after reading", ""); return False
            if resolution.name != C["unit"]: e.fail("events are written in the unit they were read in", "%s, read in %s" % (resolution.name, C["unit"]))
            C["written"] = C.get("written", 0) + 1; return True
        def wr(i, filename, t, p, legacy=False, resolution=m.TSRES.NS1):
            if not common(i, filename, legacy, resolution): return
            if C["stream"]: raise Unsupported("streamed input, whole output")
            check(t, p, IntVal(0), C["N"], "written")
        def swr(i, filename, stream, num_batches=None, legacy=False, resolution=m.TSRES.NS1, display=True):
            if not common(i, filename, legacy, resolution): return
            if not C["stream"]: raise Unsupported("whole input, streamed output")
            st = C["st"]
            def batch(it, q):
                st.facts(it); e.prove("one output batch per input batch", it < st.M)
                check(q[0], q[1], st.PRE(it), z3.simplify(st.PRE(it + 1) - st.PRE(it)), "written batch")
            drive(e, stream, batch, lambda it: e.prove("every batch is written", it == st.M))
        e.rd, e.wr, e.swr, e.tmask = rd, wr, swr, tmask
        e.vacuous()
        must_return(e, "command", m.main)
        if C.get("written") != 1: e.fail("the output is written once", repr(C.get("written")))
    return fn
