"""T1 epoch files: reader and writer against the file specification."""
from epcommon import *
TRUSTED = ETRUSTED + ["write() stores exactly the given bytes in order", "write_T1 is given Python integers (lists), as fpfind's own callers do"]
def jobs(tier):
    out = [Job("read_T1 %s frac=%s full=%s" % (u, f, p), reading(u, f, p), invariants=[lambda lp, it, vals: [it <= lp.e.ghosts["N"]]]) for u, f, p in OPTS]
    return out + [Job("write_T1 %s" % k, writing(k)) for k in ("list", "scalar")]

def reading(unit, frac, full):
    def fn(e, load):
        N = e.fresh_int("N"); ln = e.fresh_int("length"); e.assume(Or(ln == 0, ln == N)); f = T1File(e, length=ln, N=N); e.ghosts["N"] = f.N
        e.files["/work/ba1f36c0"] = f.content
        e.replayer = lambda m: [dict(f.model(m), unit=unit, frac=frac, full=full, scalar=None)]
        e.vacuous()
        r = must_return(e, "read_T1", load(EMOD).read_T1, "/work/ba1f36c0", full, res_enum(load, unit), frac)
        if not isinstance(r, (tuple, list)) or len(r) != 2: e.fail("returns timestamps and patterns", repr(type(r))); return
        prove_times(e, "timestamps", r[0], f.N, f.count, f.E, 54, unit, frac, full)
        prove_seq(e, "patterns", r[1], f.N, f.pat)
    return fn

def writing(kind):
    def fn(e, load):
        E = e.fresh_int("epoch"); e.assume(And(E >= 0, E < 2**40)); ep = E % 2**32
        N = e.fresh_int("N"); e.assume(And(N >= 0, N < 2**32)); OFF = e.fresh_fun("off", Int, Int); PAT = e.fresh_fun("pat", Int, Int); p0 = symint(e, "p", 1, 15); done = {}
        def facts(k):
            k = z3.simplify(zi(k))
            if k.get_id() not in done: done[k.get_id()] = k; e.assume(And(OFF(k) >= 0, OFF(k) < 2**37, PAT(k) >= 1, PAT(k) <= 15))
            return k
        pat = (lambda k: PAT(facts(k))) if kind == "list" else (lambda k: p0.t)
        value = lambda k: ((ep % 2**17) * 2**37 + OFF(facts(k))) * 1024 + pat(k)
        hdr = [IntVal(0x101), ep, N, IntVal(49), IntVal(4)]
        def record(k):           # 4-byte words of the file
            k = z3.simplify(zi(k))
            if z3.is_int_value(k) and k.as_long() < 5: return [("b", iomod.byte_of(hdr[k.as_long()], i)) for i in range(4)]
            j = concrete(I(iomod.bits_mod(z3.simplify(k - 5), 2)))
            if j is None: return [("b", IntVal(-1))] * 4
            t = iomod.div_by(z3.simplify(k - 5), 2, j)
            if e.valid(t == N): w = IntVal(0)
            else: v = value(t); w = v % 2**32 if j else v / 2**32
            return [("b", iomod.byte_of(w, i)) for i in range(4)]
        out = e.expect("T1 file", iomod.Expect("T1 file", S(7 + 2 * N, "pyint", 7), record, True))
        def hook(p):
            d, _, nm = p.rpartition("/"); m = iomod._tok.fullmatch(nm)
            if d != "/work/d" or not m: e.fail("file is named after its epoch, in hexadecimal, in the given directory", repr(p)); raise PathEnd()
            v, spec = e.tokens[int(m.group(1))]
            if spec != "x": e.fail("file is named after its epoch in plain hexadecimal", "format %r" % spec); raise PathEnd()
            e.prove("file is named after its epoch", v.t == ep); return "T1 file"
        e.out_hook = hook
        ts = L(site="input", base=Seq(S(N, "pyint", 0), lambda k: S(OFF(facts(k)), "pyint", 0, 2**37 - 1))); ts._input = "timestamp list"
        ds = p0
        if kind == "list": ds = L(site="input2", base=Seq(S(N, "pyint", 0), lambda k: S(PAT(facts(k)), "pyint", 1, 15))); ds._input = "detector list"
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
            return [dict(epoch=ev(E), events=[[ev(OFF(k)) % 2**37, (ev(pat(IntVal(k))) - 1) % 15 + 1] for k in range(min(ev(N), 40))], scalar=ev(p0.t) if kind == "scalar" else None, unit=u, frac=f, full=True) for u, f in (("PS4", False), ("NS1", True))]
        e.replayer = replay; e.vacuous()
        must_return(e, "write_T1", load(EMOD).write_T1, iomod.VPath("/work/d"), symint_of(E), ts, ds)
        e.prove("header, all events and the terminator are written", out.pos.t == (7 + 2 * N) * out.L)
        e.prove("file created anew", BoolVal(out.truncated))
    return fn
def symint_of(t): return S(t, "pyint", 0, 2**40 - 1)
