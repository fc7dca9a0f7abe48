"""Writers: one record per event, in order; streaming writers produce the same bytes for every partition."""
from tscommon import *
TRUSTED = ["numpy 1.26 element-wise arithmetic, casts and promotion as modelled in vf/sym.py and vf/npshim.py", "write() stores exactly the given bytes/characters in order",
           "little-endian host (native order '=')"]
KINDS = ["longdouble", "uint64", "int64", "list", "float64"]
PKINDS = ["int64", "uint32", "uint64", "uint8", "list"]

class Events:
    """abstract events: count C(i) < 2^54, pattern P(i) < 16"""
    def __init__(s, e, unit, kind, pkind):
        s.e, s.u, s.kind, s.pkind = e, UNITS[unit], kind, pkind
        s.C = e.fresh_fun("C", Int, Int); s.P = e.fresh_fun("P", Int, Int); s.done = set()
    def facts(s, k):
        k = z3.simplify(zi(k)); i = k.get_id()
        if i in s.done: return k
        s.done.add(i); s.keep = getattr(s, "keep", []) + [k]
        c, p = s.C(k), s.P(k); m = 256 // s.u
        if s.kind in ("longdouble", "float64"): s.e.assume(And(c >= 0, c < 2**54))
        else: s.e.assume(And(c >= 0, c * m < 2**54))      # C counts whole units there
        s.e.assume(And(p >= 0, p < 16)); return k
    def count(s, k):
        k = s.facts(k); return s.C(k) if s.kind in ("longdouble", "float64") else s.C(k) * (256 // s.u)
    def value(s, k): return s.count(k) * 1024 + s.P(s.facts(k))
    def t(s, n, off=0):
        def get(k):
            k = s.facts(off + zi(k) if not (isinstance(off, int) and off == 0) else zi(k))
            if s.kind in ("longdouble", "float64"): return S(ToReal(s.C(k)) * s.u / 256, s.kind, 0, (2**54 - 1) * s.u // 256 + 1, g={1: 8, 8: 5, 256: 0}[s.u])
            return S(s.C(k), "pyint" if s.kind == "list" else s.kind, 0, (2**54 - 1) // (256 // s.u))
        return s.mk(s.kind, n, get, "timestamp array")
    def p(s, n, off=0):
        def get(k):
            k = s.facts(off + zi(k) if not (isinstance(off, int) and off == 0) else zi(k))
            return S(s.P(k), "pyint" if s.pkind == "list" else s.pkind, 0, 15)
        return s.mk(s.pkind, n, get, "pattern array")
    def mk(s, kind, n, get, what):
        if not isinstance(n, S): n = S(n, "pyint", 0)
        if kind == "list": r = L(site="input", base=Seq(n, get)); r._input = what; return r
        r = A(kind, n, get); r.buf._input = what; return r
    def record(s, fmt, legacy):
        def rec(k):
            v = s.value(k)
            if fmt == "1":
                b = [iomod.byte_of(v, i) for i in range(8)]
                return [("b", x) for x in (b[4:] + b[:4] if legacy else b)]
            if fmt == "2": return [("hex", 16, v), "\n"]
            return [("hex", 8, v % 2**32), "\n", ("hex", 8, v / 2**32), "\n"]
        return rec
    def case(s, m, n, fmt, legacy, unit, kind, pkind):
        ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
        ks = list(range(min(n, 40))) or [0]
        ks += [k for k in model_index(m, ("it!", "wk!", "k!")) if k >= len(ks)]
        mul = 1 if s.kind in ("longdouble", "float64") else 256 // s.u
        cs = [(ev(s.C(IntVal(k))) * mul) % 2**54 for k in ks]; ps = [ev(s.P(IntVal(k))) % 16 for k in ks]
        if kind == "float64": kind = "longdouble"
        return dict(fmt=int(fmt), legacy=legacy, unit=unit, kind=kind, counts=cs, ps=ps, cuts=None, pkind=pkind)

class Stream:
    """abstract iterator over M batches; batch i holds events PRE(i) .. PRE(i+1)-1"""
    def __init__(s, e, ev):
        s.e, s.ev = e, ev; s.M = e.fresh_int("M"); e.assume(s.M >= 0)
        s.PRE = e.fresh_fun("PRE", Int, Int); e.assume(s.PRE(0) == 0); s.N = s.PRE(s.M); e.assume(s.N >= 0)
    def facts(s, i):
        s.e.assume(Implies(And(i >= 0, i < s.M), And(s.PRE(i) >= 0, s.PRE(i + 1) >= s.PRE(i), s.PRE(i + 1) <= s.PRE(s.M))))
        s.e.assume(Implies(And(i >= 0, i <= s.M), And(s.PRE(i) >= 0, s.PRE(i) <= s.PRE(s.M))))
    def batch(s, i):
        i = zi(i); s.facts(i); n = z3.simplify(s.PRE(i + 1) - s.PRE(i)); off = s.PRE(i)
        return s.ev.t(n, off), s.ev.p(n, off)
    def _vf_seq(s): return Seq(S(s.M, "pyint", 0), s.batch)
    def template(s, loop, key, v0, it):
        if key[0] == "h" and key[2] == "pos" and key[1].startswith("file:/work/out"):
            it = zi(it)
            if not z3.is_int_value(it): s.facts(it)
            return S(s.PRE(it) * s.e.outs["/work/out"].L, "pyint", 0)

def jobs(tier):
    out = []
    for fmt, legacy in FMTS:
        for unit in UNITS:
            for i, kind in enumerate(KINDS):
                for pk in ([PKINDS[i]] if tier == "quick" else PKINDS):
                    out.append(Job("write_a%s legacy=%s %s t:%s p:%s" % (fmt, legacy, unit, kind, pk), whole(fmt, legacy, unit, kind, pk)))
                    out.append(Job("swrite_a%s legacy=%s %s t:%s p:%s" % (fmt, legacy, unit, kind, pk), streamed(fmt, legacy, unit, kind, pk)))
    return out

def finish_file(e, path, N, what):
    o = e.outs.get(path)
    e.prove(what + ": all records written", o.pos.t == N * o.L)
    e.prove(what + ": file created anew", BoolVal(o.truncated))
    for ev in e.fs_events:
        if ev[1] != path: e.fail(what + ": writes only its output file", repr(ev))

def whole(fmt, legacy, unit, kind, pk):
    def fn(e, load):
        ev = Events(e, unit, kind, pk); N = e.fresh_int("N"); e.assume(N >= 0)
        e.expect("/work/out", iomod.Expect("output", S(N, "pyint", 0), ev.record(fmt, legacy), fmt == "1"))
        e.replayer = lambda m: [ev.case(m, m.eval(N, model_completion=True).as_long(), fmt, legacy, unit, kind, pk)]
        t, p = ev.t(N), ev.p(N)
        e.vacuous()
        must_return(e, "writer", getattr(load(MOD), "write_a" + fmt), "/work/out", t, p, legacy, resolution=res_enum(load, unit))
        finish_file(e, "/work/out", N, "output")
    return fn

def streamed(fmt, legacy, unit, kind, pk):
    def fn(e, load):
        ev = Events(e, unit, kind, pk); st = Stream(e, ev); e.templates[:] = [st.template]
        e.expect("/work/out", iomod.Expect("output", S(st.N, "pyint", 0), ev.record(fmt, legacy), fmt == "1"))
        def replay(m):
            n = m.eval(st.N, model_completion=True).as_long(); c = ev.case(m, n, fmt, legacy, unit, kind, pk)
            M = m.eval(st.M, model_completion=True).as_long()
            cuts = [m.eval(st.PRE(i), model_completion=True).as_long() for i in range(1, min(M, 20))]
            return [dict(c, cuts=sorted(min(max(x, 0), len(c["counts"])) for x in cuts)), dict(c, cuts=[1] if len(c["counts"]) > 1 else []), dict(c, counts=c["counts"] * 3, ps=c["ps"] * 3, cuts=[1, 1, 2])]
        e.replayer = replay
        e.vacuous()
        must_return(e, "streaming writer", getattr(load(MOD), "swrite_a" + fmt), "/work/out", st, S(st.M, "pyint", 0), legacy, resolution=res_enum(load, unit))
        finish_file(e, "/work/out", st.N, "output")
    return fn
