"""get_pattern_mask selects and rewrites as documented."""
from tscommon import *
TRUSTED = ["numpy 1.26 element-wise operations, boolean indexing and np.where as modelled in vf/sym.py and vf/npshim.py"]
def bit(x, b): return (x / 2**b) % 2 == 1
def band(x, y): return sum((If(And(bit(x, b), bit(y, b)), IntVal(2**b), IntVal(0)) for b in range(4)), IntVal(0))

def spec(p, pat, mask, invert):
    """(selected, resulting pattern)"""
    if not mask: return (p == pat if not invert else p != pat), p
    b = band(p, pat)
    if not invert: return b != 0, b
    return Or(p - b != 0, p == 0), p - b
def jobs(tier):
    return [Job("get_pattern_mask mask=%s invert=%s p:%s" % (m, i, kd), body(m, i, kd)) for m in (False, True) for i in (False, True) for kd in ("int64", "uint32", "uint64", "uint8")]
def body(mask, invert, kind):
    def fn(e, load):
        F = e.fresh_fun("P", Int, Int); N = e.fresh_int("N"); e.assume(N >= 0)
        p = array(kind, S(N, "pyint", 0), F, 0, 15); p.buf._input = "pattern list"
        pat = symint(e, "pattern", 0, 15)
        def replay(m):
            n = min(m.eval(N, model_completion=True).as_long(), 40); ks = list(range(n)) + model_index(m)
            return [dict(ps=[m.eval(F(k), model_completion=True).as_long() % 16 for k in ks][:60], pattern=m.eval(pat.t, model_completion=True).as_long() % 16, mask=mask, invert=invert, kind=kind)]
        e.replayer = replay; e.vacuous()
        r = must_return(e, "filter", load(MOD).get_pattern_mask, p, pat, mask, invert)
        if not isinstance(r, tuple) or len(r) != 2: e.fail("filter returns (mask, patterns)", "got %r" % (r,)); return
        def el(k):
            v = F(k); e.assume(And(v >= 0, v <= 15)); return spec(v, pat.t, mask, invert)
        prove_mask(e, "mask", r[0], N, lambda k: el(k)[0])
        prove_filtered(e, "patterns", r[1], N, lambda k: el(k)[0], lambda k: el(k)[1])
    return fn
