"""T2 epoch files: the reader against the file specification, for every field width and every packing."""
from epcommon import *
TRUSTED = ETRUSTED + ["theory of bit fields: BITS(p, w1+w2) = BITS(p, w1)*2^w2 + BITS(p+w1, w2), 0 <= BITS(p, w) < 2^w, BITS(p, 0) = 0, and floor((h*2^n + l)/2^n) = h, (h*2^n + l) mod 2^n = l for 0 <= l < 2^n (lemma proved below)"]
def jobs(tier):
    return [lemma_job()] + [Job("read_T2 %s frac=%s full=%s" % (u, f, p), reading(u, f, p), invariants=[lambda lp, it, vals: [it <= lp.e.ghosts["N"]]], max_unroll=1) for u, f, p in OPTS]

def lemma_job():
    def fn(e, load):
        h, l, P = e.fresh_int("h"), e.fresh_int("l"), e.fresh_int("P"); e.assume(And(P >= 1, l >= 0, l < P, h >= 0)); e.vacuous()
        q, r = e.fresh_int("q"), e.fresh_int("r"); e.assume(And(h * P + l == q * P + r, r >= 0, r < P))
        e.prove("lemma: quotient and remainder of h*2^n + l by 2^n are h and l", And(q == h, r == l))
    return Job("bit field lemma", fn)

def reading(unit, frac, full):
    def fn(e, load):
        to, bb, N = e.fresh_int("to"), e.fresh_int("bb"), e.fresh_int("N"); e.assume(And(to >= 1, bb >= 1, to + bb < 32, N >= 0, N < 2**32))
        ln = e.fresh_int("length"); e.assume(Or(ln == 0, ln == N)); f = PackFile(e, "T2", to, bb, ln); e.ghosts["N"] = N
        # well-formed: N entries, all differences together below 2^32, terminator with base 0, all of it in the file
        f.on_entry.append(lambda k: [Implies(And(k >= 0, k < N), And(f.M(k) != 1, f.SUM(k) >= 0, f.SUM(k) <= f.SUM(k + 1), f.SUM(k + 1) <= f.SUM(N))), Implies(k == N, And(f.M(k) == 1, f.BS(k) == 0))])
        f.on_entry.append(lambda k: [Implies(And(k >= 0, k < N), f.PB(k + 1) <= f.PB(N))])
        e.assume(And(f.SUM(N) >= 0, f.SUM(N) < 2**32, f.PB(N) >= 0, f.size >= f.hdr + 4 * ((f.PB(N) + to + bb + 31) / 32)))
        T0 = (f.E % 2**17) * 2**32
        e.templates[:] = f.templates(T0, 0, 2**49 - 1)
        e.files["/work/ba1f36c0"] = f.content
        e.replayer = lambda m: [dict(f.model(m, m.eval(N, model_completion=True).as_long()), unit=unit, frac=frac, full=full, length=int(m.eval(ln, model_completion=True).as_long() != 0))]
        f.unroll(); e.vacuous()
        r = must_return(e, "read_T2", load(EMOD).read_T2, "/work/ba1f36c0", full, res_enum(load, unit), frac)
        if not isinstance(r, (tuple, list)) or len(r) != 2: e.fail("returns timestamps and bases", repr(type(r))); return
        def raw(k): k = f.facts(k); return (T0 + f.SUM(k + 1)) * 32
        prove_times(e, "timestamps", r[0], N, raw, f.E, 49, unit, frac, full)
        prove_seq(e, "bases", r[1], N, lambda k: f.BS(f.facts(k)))
    return fn
