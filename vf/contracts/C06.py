"""get_timing_mask selects exactly the closed interval."""
from tscommon import *
TRUSTED = ["bisect.bisect_left / bisect_right on a sorted sequence (contract: split point; sortedness is an obligation at the call)", "numpy 1.26 element access, comparison, slice assignment"]
KINDS = ["longdouble", "uint64", "int64"]

def jobs(tier):
    return [Job("get_timing_mask %s %s start=%s end=%s" % (u, k, a, b), body(u, k, a, b), timeout=20000) for u in UNITS for k in KINDS for a in (True, False) for b in (True, False)]
def body(unit, kind, has_a, has_b):
    def fn(e, load):
        C = e.fresh_fun("C", Int, Int); N = e.fresh_int("N"); e.assume(N >= 0); u = UNITS[unit]; m = 256 // u
        x, y = z3.Ints("x y"); flt = kind == "longdouble"; top = 2**53 * m if flt else 2**53
        e.assume(ForAll([x, y], Implies(And(0 <= x, x <= y, y < N), C(x) <= C(y))))
        def get(k):
            v = C(zi(k)); e.assume(And(v >= 0, v < top))
            if flt: return S(ToReal(v) / m, "longdouble", 0, 2**53, g={256: 8, 32: 5, 1: 0}[m])
            return S(v, kind, 0, 2**53)
        t = A(kind, S(N, "pyint", 0), get); t.buf._input = "timestamp list"
        res = res_enum(load, unit)
        def bound(nm, on):
            if not on: return None, None
            # the sampled bound: any double; represented as an arbitrary real
            v = z3.Real(nm + "!r!%d" % len(e.pc)); s = S(v, "pyfloat"); e.float_inputs.append(v); return s, s
        a, av = bound("start", has_a); b, bv = bound("end", has_b)
        sa = binop("*", av, 1e9 * u) if has_a else None; sb = binop("*", bv, 1e9 * u) if has_b else None
        def replay(mo):
            n = min(mo.eval(N, model_completion=True).as_long(), 24); rp = 1953125
            def bd(s):
                if s is None: return None
                q = mo.eval(s.t, model_completion=True); q = q.as_fraction() if hasattr(q, "as_fraction") else 0
                return int(q * 2**17)
            ev = lambda k: min(max(mo.eval(C(k), model_completion=True).as_long(), 0), 2**53) * (1 if flt else m)
            out = [dict(counts=sorted(ev(k) for k in range(n)), unit=unit, start=bd(a), end=bd(b), kind=kind)]
            for base in ([0, 0, 1, 2, 2, 4][:max(n, 1)], [0], [], list(range(n)), [3, 3, 5, 7, 7, 9], [1, 1], [1, 2]):
                for st in ((None, 0, 1, 2, 3, 8) if has_a else (None,)):
                    for en in ((None, 0, 1, 2, 7, 12) if has_b else (None,)):
                        out.append(dict(counts=[c * rp for c in base], unit=unit, start=st, end=en, kind=kind))
            return out
        e.replayer = replay; e.vacuous()
        r = must_return(e, "time filter", load(MOD).get_timing_mask, t, a, b, res)
        def sel(k):
            tv = get(k); f = []
            if has_a: f.append(real(sa) <= real(tv))
            if has_b: f.append(real(tv) <= real(sb))
            return And(*f) if f else BoolVal(True)
        prove_mask(e, "mask", r, N, sel)
    return fn
