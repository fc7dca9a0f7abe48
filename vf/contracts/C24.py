"""generate_freqcd_testcase: events written for timestamp lists of any length; timestamps printed for event files of any length, by the contract of read_a1."""
from tscommon import *
import C03
GMOD = "fpfind.lib.generate_freqcd_testcase"
TRUSTED = ["argparse option parsing: -t yields the given integers in order", "contract of read_a1 (C01)", "write() stores exactly the given bytes in order; append mode continues at the end of the file",
           "sys.stdin.buffer.read() returns the whole standard input", "decimal formatting of an int is exact", "little-endian host (native order '=')"]

def jobs(tier):
    out = [Job("generate %s legacy=%s" % (o, x), gen(o, x)) for o in ("stdout", "file") for x in (False, True)]
    ov = lambda e: {MOD + ".read_a1": lambda *a, **k: e.rd(*a, **k)}
    return out + [Job("read %s legacy=%s" % (i, x), reading(i, x), overrides=ov) for i in ("file", "stdin") for x in (False, True)]

def gen(target, legacy):
    def fn(e, load):
        N = e.fresh_int("N"); e.assume(N >= 1); T = e.fresh_fun("T", Int, Int); mark = e.fresh_int("arg")
        def val(k):
            k = zi(k); v = T(k); e.assume(v >= 0); return v
        def hook(ns):
            for d, v in vars(ns).items():
                if isinstance(v, list) and len(v) == 1 and isinstance(v[0], S) and "arg" in str(v[0].t):
                    x = v[0]; setattr(ns, d, L(site="arguments", base=Seq(S(N, "pyint", 1), lambda k: S(z3.substitute(x.t, (mark, val(k))), x.k))))
        e.args_hook = hook; e.assume(mark >= 0)
        def rec(k):
            v = (val(k) % 2**54) * 1024 + 1; b = [iomod.byte_of(v, i) for i in range(8)]; return [("b", x) for x in (b[4:] + b[:4] if legacy else b)]
        ex = iomod.Expect("events", S(N, "pyint", 0), rec, True)
        if target == "file": e.expect("/work/out", ex); e.argv = ["gen", "-o", "/work/out"]
        else: e.stdout = iomod.OutContent("stdout", ex); e.argv = ["gen"]
        e.argv += ["-x"] * legacy + ["-t", e.token(S(mark, "pyint", 0), "")]
        def replay(m):
            n = min(m.eval(N, model_completion=True).as_long(), 30); ks = list(range(max(n, 1))) + [k for k in model_index(m, ("it!", "wk!", "k!")) if k >= n]
            ts = [max(m.eval(T(IntVal(k)), model_completion=True).as_long(), 0) for k in ks]
            return [dict(kind="gen-out" if target == "stdout" else "gen-file", ts=t, x=legacy) for t in (ts, ts + [0, 1, 2**32 + 5, 2**54 - 1, 2**54, 2**60 + 3])]
        e.replayer = replay; e.vacuous()
        must_return(e, "generator", load(GMOD).main)
        o = e.outs["/work/out"] if target == "file" else e.stdout
        e.prove("one event per timestamp", o.pos.t == N * 8)
        if target == "file": e.prove("output file created anew", BoolVal(o.truncated))
    return fn

def reading(source, legacy):
    def fn(e, load):
        f = EvFile(e, "1", legacy); IN = "/work/in"; TMP = "/work/tmp"; state = {}
        e.stdout = iomod.OutContent("stdout", iomod.Expect("printed timestamps", S(f.N, "pyint", 0), lambda k: [("dec", I(f.count(k), 0, 2**54 - 1)), "\n"], False))
        if source == "file": e.files[IN] = f.content
        else:
            e.stdin = f.content
            def out(p):
                if p == "-": return None
                if state.setdefault("path", p) != p: raise Unsupported("second temporary file")
                return TMP
            e.out_hook = out
            e.expect(TMP, iomod.Expect("temporary copy of standard input", S(f.N, "pyint", 0), lambda k: [("b", f.byte(8 * zi(k) + i)) for i in range(8)], True))
        e.argv = ["gen"] + ["-x"] * legacy + [IN if source == "file" else "-"]; m = load(GMOD); ts = load(MOD)
        def rd(filename, legacy_=None, resolution=None, fractional=True, **k):
            lg = k.get("legacy", legacy_); resolution = ts.TSRES.NS1 if resolution is None else resolution
            if bool(lg) != legacy: e.fail("the legacy option reaches the reader", repr(lg))
            if isinstance(fractional, S): raise Unsupported("fractional")
            if source == "file":
                if str(filename) != IN: e.fail("the input file is read", str(filename))
            else:
                o = e.outs[TMP]
                if not any(ev[0] == "open" for ev in e.fs_events) or any(ev[0] == "unlink" for ev in e.fs_events): e.fail("the temporary file exists when it is read", repr(e.fs_events))
                elif str(filename) != state.get("path"): e.fail("the temporary file is read", str(filename))
                else: e.prove("the temporary file holds all of standard input", o.pos.t == 8 * f.N)
            state["read"] = 1; u = resolution.name; n = S(f.N, "pyint", 0)
            t = A("longdouble" if fractional else "uint64", n, lambda k: (S(f.t(k, u, True), "longdouble", 0, 2**54 * UNITS[u] // 256 + 1, g={1: 8, 8: 5, 256: 0}[UNITS[u]]) if fractional else S(f.t(k, u, False), "uint64", 0, 2**54)))
            return t, array("uint32", n, lambda k: f.pattern(k), 0, 15)
        e.rd = rd
        def replay(m_):
            ev, n = f.model_events(m_); c = [x >> 10 for x in ev] or [0]
            return [dict(kind="read-" + source, ts=t, x=legacy) for t in (c[:40], [0, 1, 255, 256, 2**32 + 77, 2**53 + 1, 2**54 - 1])]
        e.replayer = replay; e.vacuous()
        must_return(e, "generator", m.main)
        e.prove("one line per event", e.stdout.pos.t == f.N * 2)
        for ev in e.fs_events:
            if ev[1] == IN: e.fail("the input file is left unchanged", repr(ev))
    return fn
