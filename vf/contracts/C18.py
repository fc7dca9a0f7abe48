"""generate_precompensations: the documented schedule, in real arithmetic."""
from tscommon import *
MOD = "fpfind.fpfind"
TRUSTED = ["schedules have fewer than 2^50 steps (a longer one cannot be stored)", "floating-point arithmetic treated as real arithmetic (as the property says)", "numpy.arange / strided in-place multiplication as modelled in vf/npshim.py"]

def jobs(tier):
    return [Job("generate_precompensations ordered=%s %s" % (o, w), body(o, w), ideal=True, timeout=20000) for o in (False, True) for w in ("step", "zero")]
def body(ordered, what):
    def fn(e, load):
        def num(nm): return S(e.fresh_real(nm), "pyfloat")
        start, stop = num("start"), num("stop")
        step = num("step") if what == "step" else S(IntVal(0), "pyint", 0, 0)
        f = load(MOD).generate_precompensations
        def replay(m):
            def v(s):
                q = m.eval(s.t, model_completion=True); return float(q.as_fraction()) if hasattr(q, "as_fraction") else float(q.approx(20).as_fraction()) if hasattr(q, "approx") else 0.0
            return [dict(start=v(start), stop=v(stop), step=v(step) if what == "step" else 0, ordered=ordered)] + \
                   [dict(start=a, stop=b, step=c, ordered=ordered) for a in (0.0, 1.0, -1.0) for b in (2.0, 2.5, 4.0) for c in (1.0, 0.5)][:3]
        e.replayer = replay
        if what == "zero":
            step = 0; e.vacuous()
            r = must_return(e, "schedule", f, start, stop, step, ordered=ordered)
            prove_seq(e, "schedule", r, 1, lambda k: RealVal(0)); return
        e.assume(step.t > 0)
        span = (stop.t - start.t) if ordered else stop.t
        e.assume(span >= 0)
        # Q: the largest number of steps within the range
        Q = e.fresh_int("Q"); e.assume(And(Q >= 0, Q < 2**50, ToReal(Q) * step.t <= span, span < (ToReal(Q) + 1) * step.t))
        e.lemma("Q is the floor of the ratio", ToInt(span / step.t) == Q); e.lemma("the ratio is non-negative", span / step.t >= 0); e.vacuous()
        r = must_return(e, "schedule", f, start, stop, step, ordered=ordered)
        if ordered: prove_seq(e, "schedule", r, Q + 1, lambda k: start.t + ToReal(k) * step.t)
        else: prove_seq(e, "schedule", r, 2 * Q + 1, lambda k: If(k % 2 == 1, start.t + ToReal((k + 1) / 2) * step.t, start.t - ToReal(k / 2) * step.t))
    return fn
