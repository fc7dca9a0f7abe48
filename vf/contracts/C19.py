"""fpfind main: printed offsets for all 16 output flags (the search itself replaced by its contract: some dt, df with |df| < 1)."""
from tscommon import *
import re
MOD = "fpfind.fpfind"
TRUSTED = ["floating-point arithmetic treated as real arithmetic (as the property says)", "configargparse option parsing (argparse semantics; configuration files not modelled)",
           "float formatting prints the value; round() is round-half-even", "contract of fpfind(): returns a pair dt, df with |df| < 1 (see C16, C17)", "contract of read_a1 (see C01), normalize_timestamps (see C14)"]
KINDS = ["pyfloat", "float64", "longdouble", "mixed"]

def jobs(tier):
    return [Job("main -V %d df:%s" % (v, k), body(v, k), ideal=True, overrides=lambda e: {"fpfind.fpfind.fpfind": lambda *a, **kw: e.found(*a, **kw), "fpfind.lib.parse_timestamps.read_a1": lambda *a, **kw: e.reader(*a, **kw),
            "fpfind.lib.utils.normalize_timestamps": lambda *a, **kw: [e.reader()[0], e.reader()[0]]}) for v in range(16) for k in KINDS]
def pieces(txt, e):
    out = []; p = 0
    for m in iomod._tok.finditer(txt):
        if m.start() > p: out.append(txt[p:m.start()])
        out.append(e.tokens[int(m.group(1))]); p = m.end()
    if p < len(txt): out.append(txt[p:])
    return out
def body(V, kind):
    def fn(e, load):
        dk = "int64" if kind == "mixed" else kind; fk = "float64" if kind == "mixed" else kind
        dt = S(e.fresh_int("dt"), "pyint") if dk == "int64" else S(e.fresh_real("dt"), dk)
        df = S(e.fresh_real("df"), fk); e.assume(And(df.t > -1, df.t < 1))
        if dk == "int64": e.assume(And(dt.t > -2**50, dt.t < 2**50)); dt = S(dt.t, dk, -2**50, 2**50)
        calls = []
        def found(*a, **kw): calls.append(1); return dt, df
        def reader(*a, **kw):
            n = e.fresh_int("n"); e.assume(n >= 1); F = e.fresh_fun("ts", Int, Real)
            t = A("longdouble", S(n, "pyint", 1), lambda k: S(F(zi(k)), "longdouble"))
            G = e.fresh_fun("p", Int, Int); return t, array("uint32", S(n, "pyint", 1), G, 0, 15)
        e.found, e.reader = found, reader
        e.argv = ["fpfind", "-t", "/work/a", "-T", "/work/b", "-q", "10", "-V", str(V)]
        e.files["/work/a"] = e.files["/work/b"] = iomod.BinContent(lift(8), lambda i: IntVal(0))
        def replay(m):
            def v(s):
                q = m.eval(s.t, model_completion=True)
                return float(q.as_fraction()) if hasattr(q, "as_fraction") else float(q.as_long()) if hasattr(q, "as_long") else 0.0
            return [dict(kind="inject", dt=v(dt), df=v(df), V=V)] + [dict(kind="inject", dt=a, df=b, V=V) for a, b in ((1000000.25, 1.1e-4), (-7.75, -1e-4), (12345678.5, 3e-6))]
        e.replayer = replay; e.vacuous()
        must_return(e, "command", load(MOD).main)
        if calls != [1]: e.fail("the search is run exactly once", "%d calls" % len(calls)); return
        D, F = real(dt), real(df)
        if V & 1: D, F = -D * (1 + F), 1 / (1 + F) - 1
        ps = pieces("".join(e.text), e)
        fields = 1 if V & 4 else 2
        shape = [x if isinstance(x, str) else "#" for x in ps]
        if shape != (["#", "\n"] if fields == 1 else ["#", "\t", "#", "\n"]): e.fail("one line with the requested fields", "prints %r" % shape); return
        def same(what, p, val, isint):
            v, spec = p; v = lift(v)
            if isint:
                if sym.isfltk(v.k): e.fail(what + ": printed as an integer", "prints a %s with format %r" % (v.k, spec)); return
                if spec not in ("", "d"): raise Unsupported("format %r" % spec)
                r = ToReal(v.t); d = r - val
                e.prove(what + ": rounded to the nearest integer", And(d <= RealVal("1/2"), d >= RealVal("-1/2")))
            else:
                if spec not in ("", "s", "r") and not (spec == "d" and not sym.isfltk(v.k)): raise Unsupported("format %r" % spec)
                e.prove(what + ": value", real(v) == val)
        same("frequency offset", ps[0], F * 2**34 if V & 2 else F, bool(V & 2))
        if fields == 2: same("time offset", ps[2], D * 8 if V & 8 else D, True)
    return fn
