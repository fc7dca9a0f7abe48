"""Truncated or inconsistent T1/T2/T4 files: the reader raises ValueError, and reads any file in bounded time."""
from epcommon import *
import C09
TRUSTED = C09.TRUSTED
def it_le_N(lp, it, vals): return [it <= lp.e.ghosts["N"]] if "N" in lp.e.ghosts else []
def has_pos(vals): return any(k[0] == "h" and k[2] == "pos" for k in vals)
def jobs(tier):
    out = [C09.lemma_job()]
    for w in ("truncated", "count"): out.append(Job("read_T1 %s" % w, t1(w), invariants=[it_le_N], max_unroll=1))
    for k in ("T2", "T4"):
        for w in ("ends before its terminator", "has no terminator", "terminal base", "count"): out.append(Job("read_%s %s" % (k, w), packed(k, w), invariants=[it_le_N], max_unroll=1))
    return out
def t1(why):
    def fn(e, load):
        N, ln = e.fresh_int("N"), e.fresh_int("length"); size = e.fresh_int("size"); e.assume(And(ln >= 0, ln < 2**32))
        if why == "count": e.assume(And(ln != 0, ln != N, size >= 20 + 8 * (N + 1)))
        else: e.assume(And(size >= 20, size < 20 + 8 * (N + 1)))
        f = T1File(e, length=ln, N=N, size=size, any_records=True); e.ghosts["N"] = N; e.files["/work/ba1f36c0"] = f.content
        e.must_invs[:] = [("terminates: every iteration uses up bytes of the file", lambda lp, it, vals: And(it >= 0, 20 + 8 * it <= size) if has_pos(vals) else None)]
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
            n = min(ev(size) - 20, 4000)
            return [dict(kind="T1", ep=ev(f.E), to=None, bb=None, length=ev(ln), why=why, body=bytes(max(0, min(255, ev(f.byte(IntVal(20 + i))))) for i in range(n)).hex())]
        e.replayer = replay; e.vacuous()
        must_raise(e, "read_T1 of a file that is " + why, ValueError, load(EMOD).read_T1, "/work/ba1f36c0")
    return fn
def packed(kind, why):
    def fn(e, load):
        to, bb, N, ln = e.fresh_int("to"), e.fresh_int("bb"), e.fresh_int("N"), e.fresh_int("length"); sg = kind == "T2"; lo, hi = (-2**31, 2**31) if sg else (0, 2**32)
        e.assume(And(to >= lo, to < hi, bb >= lo, bb < hi, N >= 0, ln >= 0, ln < 2**32))
        f = PackFile(e, kind, to, bb, ln); avail = 32 * ((f.size - f.hdr) / 4)
        if kind == "T4": f.per = lambda d: d - 2
        if why == "has no terminator": f.on_entry.append(lambda k: [Implies(k >= 0, f.M(k) != 1)])
        else:
            e.ghosts["N"] = N
            f.on_entry.append(lambda k: [Implies(And(k >= 0, k < N), f.M(k) != 1), Implies(k == N, f.M(k) == 1)])
            if why == "ends before its terminator": e.assume(avail < f.PB(N) + to + bb)
            else: e.assume(avail >= f.PB(N) + to + bb)
            if why == "terminal base": f.on_entry.append(lambda k: [Implies(k == N, f.BS(k) != 0)])
            if why == "count": f.on_entry.append(lambda k: [Implies(k == N, f.BS(k) == 0)]); e.assume(And(ln != 0, ln != N))
        e.templates[:] = f.templates((f.E % 2**17) * 2**32 if sg else 0, None, None, None); e.files["/work/ba1f36c0"] = f.content
        e.must_invs[:] = [("terminates: every iteration uses up at least one bit of the file", lambda lp, it, vals: And(f.PB(it) >= it, f.PB(it) <= 8 * (f.size - f.hdr)) if has_pos(vals) else None)]
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
            n = max(0, min(ev(f.size) - f.hdr, 4000)); mm = f.model(m, min(40, ev(N)))
            out = [dict(kind=kind, ep=ev(f.E), to=ev(to), bb=ev(bb), length=ev(ln), why=why, body=bytes(max(0, min(255, ev(f.FB(i // 4, i % 4)))) for i in range(n)).hex())]
            if 1 <= ev(to) and 1 <= ev(bb) and ev(to) + ev(bb) < 32:          # the file rebuilt from the entries
                v = 0; w = 0
                for d, x, b in mm["entries"]:
                    for a, c in ([(0, ev(to)), (d, 32)] if x else [(d, ev(to))]) + [(b, ev(bb))]: v = v << c | a; w += c
                for a, c in ((1, ev(to)), (ev(bb) and 1 if why == "terminal base" else 0, ev(bb))): v = v << c | a; w += c
                p = -w % 32; v <<= p; w += p; body = b"".join((v >> (w - 32 * (i + 1)) & 0xffffffff).to_bytes(4, "little") for i in range(w // 32))
                if why == "ends before its terminator": body = body[:max(0, min(len(body) - 1, n))]
                k = len(mm["entries"]); out.append(dict(out[0], body=body.hex(), length=(ln_ if (ln_ := ev(ln)) != k else k + 1) if why == "count" else k))
            return out
        e.replayer = replay; f.unroll(); e.vacuous()
        must_raise(e, "read_%s of a file with a fault (%s)" % (kind, why), ValueError, getattr(load(EMOD), "read_" + kind), "/work/ba1f36c0")
    return fn
