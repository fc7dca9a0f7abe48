"""T4 epoch files: the reader against the file specification, for every field width and every packing."""
from epcommon import *
import C09
TRUSTED = C09.TRUSTED + ["indices stay within 64 bits (fewer than 2^30 entries)"]
def jobs(tier):
    return [C09.lemma_job(), Job("read_T4", reading, invariants=[lambda lp, it, vals: [it <= lp.e.ghosts["N"]]], max_unroll=1)]
def reading(e, load):
    to, bb, N = e.fresh_int("to"), e.fresh_int("bb"), e.fresh_int("N"); e.assume(And(to >= 1, bb >= 0, to + bb <= 32, N >= 0, N < 2**30))
    ln = e.fresh_int("length"); e.assume(Or(ln == 0, ln == N))
    f = PackFile(e, "T4", to, bb, ln); e.ghosts["N"] = N; f.per = lambda d: d - 2
    f.on_entry.append(lambda k: [Implies(And(k >= 0, k < N), f.M(k) != 1), Implies(k == N, And(f.M(k) == 1, f.BS(k) == 0)), Implies(And(k >= 0, k < N), f.PB(k + 1) <= f.PB(N))])
    f.on_entry.append(lambda k: [Implies(And(k >= 0, k < N), And(f.SUM(k + 1) >= -2**62, f.SUM(k + 1) < 2**62))])
    e.assume(And(f.PB(N) >= 0, f.size >= f.hdr + 4 * ((f.PB(N) + to + bb + 31) / 32)))
    e.templates[:] = f.templates(0, -2**62, 2**62 - 1)
    e.files["/work/ba1f36c0"] = f.content
    e.replayer = lambda m: [dict(f.model(m, m.eval(N, model_completion=True).as_long()), length=min(m.eval(ln, model_completion=True).as_long(), 40))]
    f.unroll(); e.vacuous()
    r = must_return(e, "read_T4", load(EMOD).read_T4, "/work/ba1f36c0")
    if not isinstance(r, (tuple, list)) or len(r) != 2: e.fail("returns indices and bases", repr(type(r))); return
    prove_seq(e, "indices", r[0], N, lambda k: f.SUM(f.facts(k) + 1))
    prove_seq(e, "bases", r[1], N, lambda k: f.BS(f.facts(k)))
