"""fpfind main: which data are read and which settings reach the search (the callees replaced by their contracts)."""
from tscommon import *
from C13 import EpName
from C19 import pieces
import inspect
MOD = "fpfind.fpfind"
TRUSTED = ["floating-point arithmetic treated as real arithmetic", "configargparse option parsing (argparse semantics; configuration files not modelled)",
           "contracts of read_a1 (C01), get_first_overlapping_epoch and get_timestamp (C13), normalize_timestamps (C14; non-empty results), generate_precompensations (C18), fpfind() (C16, C17)"]
EPOCH = 2**29
QS = {"quick": tuple(range(1, 33)), "thorough": tuple(range(1, 41))}

class Name(EpName):
    def __str__(s): return "<epoch>"
    def __format__(s, f): return "<epoch>"

def jobs(tier):
    out = []
    for q in QS[tier]:
        out.append(Job("timestamp files, N=2^%d" % q, *body("ts", q, False, False), ideal=True))
        out.append(Job("epoch directories, N=2^%d" % q, *body("ep", q, False, False), ideal=True))
    for first in (False, True): out.append(Job("epoch directories, first epoch %s, scan" % ("given" if first else "not given"), *body("ep", 10, True, first), ideal=True))
    for leg in (False, True): out.append(Job("timestamp files%s, scan" % (" -X" if leg else ""), *body("ts", 10, True, leg), ideal=True))
    for o in (False, True):
        for f in (False, True): out.append(Job("scan%s%s" % (" ordered" * o, " fullscan" * f), *body("ts", 10, True, False, o, f), ideal=True))
    for miss in (["-t", "/work/a"], ["-d", "/work/a"], ["-t", "/work/a", "-D", "/work/b"], []): out.append(Job("no data: %s" % (" ".join(miss) or "-v"), nodata(miss), ideal=True))
    return out

def vec(e, nm):
    n = e.fresh_int("n" + nm); e.assume(n >= 1); F = e.fresh_fun(nm, Int, Real)
    a = A("longdouble", S(n, "pyint", 1), lambda k: S(F(zi(k)), "longdouble")); a.spec = (n, F); return a
def bound(names, defaults):
    """positional and keyword arguments of a callee"""
    def f(a, k):
        d = dict(zip(names, a))
        if len(a) > len(names) or set(k) - set(names) or set(k) & set(d): raise Unsupported("arguments of the callee")
        d.update(k)
        for n in names:
            if n not in d:
                if n not in defaults: raise Unsupported("arguments of the callee")
                d[n] = defaults[n]
        return d
    return f
A_FIRST = bound(("dir1", "dir2", "first_epoch", "return_length"), dict(first_epoch=None, return_length=False))
A_TS = bound(("dirname", "file_type", "first_epoch", "skip_epoch", "num_of_epochs"), {})
A_READ = bound(("filename", "legacy", "resolution", "fractional"), dict(legacy=False, resolution=None, fractional=True))
A_PRE = bound(("start", "stop", "step", "ordered"), dict(ordered=False))
A_FP = bound(("alice", "bob", "num_wraps", "num_bins", "resolution", "target_resolution", "threshold", "separation_duration", "precompensations", "precompensation_fullscan"), dict(precompensation_fullscan=False))

def truthy(e, v):
    if isinstance(v, S): return e.branch(sym.truth(v))
    return bool(v)
def body(mode, q, scan, opt, ordered=False, fullscan=False):
    st = {}
    def overrides(e):
        def first(*a, **k):
            d = A_FIRST(a, k); st["first"] = st.get("first", 0) + 1
            dirs = {str(d["dir1"]), str(d["dir2"])}
            if dirs != {"/work/a", "/work/b"}: e.fail("the overlap of the two given directories is searched", repr(sorted(dirs)))
            if d["first_epoch"] != ("2a" if mode == "ep" and opt else None): e.fail("the given first epoch bounds the search", repr(d["first_epoch"]))
            nm = Name(st["FE"])
            return (nm, S(st["AV"], "pyint", 1, 2**32)) if truthy(e, d["return_length"]) else nm
        def get_ts(*a, **k):
            d = A_TS(a, k); fn, kind = str(d["dirname"]), d["file_type"]
            side = {("/work/a", "T2"): "A", ("/work/b", "T1"): "B"}.get((fn, kind))
            if side is None: e.fail("reference from T2, target from T1 epochs", "reads %s as %s" % (fn, kind)); raise PathEnd()
            if not isinstance(d["first_epoch"], EpName): raise Unsupported("epoch name")
            e.prove("first epoch read is the first common one plus the epochs to skip", d["first_epoch"].v + lift(d["skip_epoch"]).t == st["FE"] + st["z"])
            nn = lift(d["num_of_epochs"]); need = st["need"]
            n = ToReal(nn.t) if not sym.isfltk(nn.k) else nn.t
            e.prove("epochs read: those covering the required duration, and one more", And((n - 1) * EPOCH >= need, (n - 2) * EPOCH < need, z3.IsInt(n)))
            return st[side]
        def read(*a, **k):
            d = A_READ(a, k); side = {"/work/a": "A", "/work/b": "B"}.get(str(d["filename"]))
            if side is None: e.fail("the given timestamp files are read", repr(d["filename"])); raise PathEnd()
            leg = truthy(e, d["legacy"])
            if leg != (mode == "ts" and opt): e.fail("word order of the timestamp files as requested", "legacy=%r" % leg)
            if d["resolution"] is not None and d["resolution"] is not load_.res or not truthy(e, d["fractional"]): e.fail("timestamps in ns with their fraction", "")
            return st[side], A("uint32", st[side].seq().n, lambda k: S(e.fresh_int("pat"), "uint32", 0, 15))
        def norm(*T, **k):
            if set(k) - {"skip", "preserve_relative"}: raise Unsupported("arguments of normalize_timestamps")
            if not truthy(e, k.get("preserve_relative", True)): e.fail("relative times of the two sides preserved", "")
            if len(T) != 2: e.fail("both sides normalised together", "%d sequences" % len(T)); raise PathEnd()
            e.prove("skipped duration as requested", real(lift(k.get("skip", 0.0))) == st["skip"])
            which = []
            for t in T:
                if not isinstance(t, A): raise Unsupported("timestamp sequence")
                for s_ in "AB":
                    kk = e.fresh_int("k"); n, F = st[s_].spec
                    if e.valid(And(t.seq().n.t == n, real(lift(t.seq().get(kk))) == F(kk))): which.append(s_); break
            if sorted(which) != ["A", "B"]: e.fail("both sides are normalised as read", repr(which)); raise PathEnd()
            return [st["N" + w] for w in which]
        def pre(*a, **k):
            d = A_PRE(a, k)
            for nm in ("start", "stop", "step"): e.prove("precompensation %s as requested" % nm, real(lift(d[nm])) == st[nm])
            if truthy(e, d["ordered"]) != ordered: e.fail("order of the precompensations as requested", "")
            return st["pre"]
        def fp(*a, **k): st.setdefault("calls", []).append(A_FP(a, k)); return st["dt"], st["df"]
        return {"fpfind.lib.utils.get_first_overlapping_epoch": first, "fpfind.lib.utils.get_timestamp": get_ts, "fpfind.lib.parse_timestamps.read_a1": read,
                "fpfind.lib.utils.normalize_timestamps": norm, "fpfind.fpfind.generate_precompensations": pre, "fpfind.fpfind.fpfind": fp}
    class load_: res = None
    def fn(e, load):
        st.clear(); load_.res = res_enum(load, "NS1")
        I = lambda nm, lo: (lambda v: (e.assume(v >= lo), S(v, "pyint", lo))[1])(e.fresh_int(nm))
        k, R, r, z = I("wraps", 1), I("initial", 1), I("final", 1), I("skip_epochs", 0)
        sep, thr = e.fresh_real("separation"), e.fresh_real("threshold"); e.assume(And(sep > 0, thr > 0))
        Ta = ToReal(k.t) * ToReal(R.t) * 2**q; Ts = sep * Ta; need = (sep + 1) * Ta
        e.assume(And(R.t <= 10**4, k.t <= 10**4, z.t < 2**30, need <= RealVal(EPOCH) * 2**30))
        st.update(FE=e.fresh_int("first_epoch"), AV=e.fresh_int("available"), z=z.t, need=need, A=vec(e, "A"), B=vec(e, "B"), NA=vec(e, "NA"), NB=vec(e, "NB"))
        e.assume(And(st["FE"] >= 0, st["AV"] >= 1, st["AV"] <= 2**32))
        Z = e.fresh_real("skip"); e.assume(Z >= 0); st["skip"] = Z if mode == "ts" else RealVal(0)
        argv = ["fpfind", "-q", str(q), "-k", e.token(k, ""), "-R", e.token(R, ""), "-r", e.token(r, ""), "-s", e.token(S(sep, "pyfloat"), ""), "-S", e.token(S(thr, "pyfloat"), "")]
        argv += ["-t", "/work/a", "-T", "/work/b"] + ["-X"] * opt if mode == "ts" else ["-d", "/work/a", "-D", "/work/b", "-z", e.token(z, "")] + ["-e", "2a"] * opt
        argv += ["-Z", e.token(S(Z, "pyfloat"), "")]
        pn = None
        if scan:
            for nm in ("start", "stop", "step"): st[nm] = e.fresh_real("precomp_" + nm)
            argv += ["-P", "--precomp-start", e.token(S(st["start"], "pyfloat"), ""), "--precomp-stop", e.token(S(st["stop"], "pyfloat"), ""), "--precomp-step", e.token(S(st["step"], "pyfloat"), "")]
            argv += ["--precomp-ordered"] * ordered + ["--precomp-fullscan"] * fullscan
            pn = e.fresh_int("pn"); e.assume(pn >= 1); PF = e.fresh_fun("pre", Int, Real)
            st["pre"] = A("float64", S(pn, "pyint", 1), lambda i: S(PF(zi(i)), "float64"))
        st["dt"], st["df"] = S(e.fresh_real("dt"), "pyfloat"), S(e.fresh_real("df"), "pyfloat"); e.assume(And(st["df"].t > -1, st["df"].t < 1))
        e.argv = argv
        e.files["/work/a"] = e.files["/work/b"] = iomod.BinContent(lift(8), lambda i: IntVal(0))
        def replay(m):
            f = lambda t: (lambda v: float(v.as_fraction()) if hasattr(v, "as_fraction") else float(v.as_long()) if hasattr(v, "as_long") else 1.0)(m.eval(t, model_completion=True))
            base = dict(mode=mode, q=min(q, 12), k=1, R=16, r=1, s=6.0, S=6.0, Z=0, z=0, X=bool(mode == "ts" and opt), e=None, scan=scan, start=0.0, stop=1e-5, step=1e-6, ordered=ordered, full=fullscan)
            out = [dict(base, k=min(int(f(k.t)), 50), R=min(int(f(R.t)), 10000), r=min(int(f(r.t)), 10**6), s=min(f(sep), 1e3), S=f(thr), z=min(int(f(z.t)), 5), Z=min(int(f(Z) * 512), 20))]
            for s_, k_, R_, z_, Z_, q_ in ((6.0, 1, 16, 0, 0, 10), (6.0, 2, 16, 2, 3, 20), (2.5, 3, 1000, 1, 1, 18), (7.25, 1, 10000, 3, 1, 16), (31.0, 1, 16, 1, 0, 20)): out.append(dict(base, s=s_, k=k_, R=R_, z=z_, Z=Z_, q=q_, e=(1 if opt and mode == "ep" else None)))
            return out
        e.replayer = replay; e.vacuous()
        must_return(e, "command", load(MOD).main)
        calls = st.get("calls", [])
        if len(calls) != 1: e.fail("the search is run exactly once", "%d calls" % len(calls)); return
        d = calls[0]
        for nm, w in (("alice", "NA"), ("bob", "NB")):
            if not isinstance(d[nm], A): raise Unsupported("timestamp sequence")
            n, F = st[w].spec; kk = e.fresh_int("k")
            e.prove("%s: the normalised events" % ("reference" if nm == "alice" else "target"), And(d[nm].seq().n.t == n, Implies(And(kk >= 0, kk < n), real(lift(d[nm].seq().get(kk))) == F(kk))))
        for nm, v, what in (("num_wraps", ToReal(k.t), "number of wraps"), ("num_bins", RealVal(2**q), "number of bins"), ("resolution", ToReal(R.t), "initial resolution"), ("target_resolution", ToReal(r.t), "final resolution"),
                            ("threshold", thr, "threshold"), ("separation_duration", Ts, "separation in ns")):
            e.prove(what + " as requested", real(lift(d[nm])) == v)
        if truthy(e, d["precompensation_fullscan"]) != fullscan: e.fail("full scan as requested", "")
        p = as_seq(d["precompensations"])
        if not scan: e.prove("no precompensation unless requested", And(p.n.t == 1, real(lift(p.get(IntVal(0)))) == 0))
        else:
            kk = e.fresh_int("k"); e.prove("the requested precompensations", And(p.n.t == pn, Implies(And(kk >= 0, kk < pn), real(lift(p.get(kk))) == PF(kk))))
        ps = pieces("".join(e.text), e); shape = [x if isinstance(x, str) else "#" for x in ps]
        if shape != ["#", "\t", "#", "\n"]: e.fail("one line with both offsets", "prints %r" % shape); return
        e.prove("frequency offset found is printed", real(lift(ps[0][0])) == st["df"].t)
    return fn, overrides

def nodata(miss):
    def fn(e, load):
        def stop(*a, **k): e.fail("no search without data of both sides", "called"); raise PathEnd()
        e.argv = ["fpfind", "-v", "-q", "10"] + miss; e.replayer = lambda m: [dict(mode="none", argv=["-v", "-q", "10"] + miss)]; e.vacuous()
        e.files["/work/a"] = e.files["/work/b"] = iomod.BinContent(lift(8), lambda i: IntVal(0))
        try: load(MOD).main()
        except SystemExit as x:
            if x.code in (0, None): e.fail("failure is reported by the exit status", repr(x.code))
            else: e.prove("failure is reported by the exit status", True)
        except PathEnd: raise
        except Unsupported: raise
        except Exception as x: e.prove("failure is reported by the exit status", True)
        else: e.fail("failure is reported by the exit status", "returns normally")
        if "".join(e.text).strip(): e.fail("nothing printed as a result", repr("".join(e.text)))
    return fn
