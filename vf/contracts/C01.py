"""Readers: read_a0/read_a1/read_a2 return exactly the file's events."""
from tscommon import *
TRUSTED = ["numpy 1.26 element-wise arithmetic, casts and promotion as modelled in vf/sym.py and vf/npshim.py", "contents of a file do not change while it is read",
           "genfromtxt yields one string per line (blank/comment lines are not part of a well-formed file)", "little-endian host (native order '=')"]

def jobs(tier):
    out = []
    for fmt, legacy in FMTS:
        for unit in UNITS:
            for frac in (True, False): out.append(Job("read_a%s legacy=%s %s fractional=%s" % (fmt, legacy, unit, frac), body(fmt, legacy, unit, frac)))
    return out

def body(fmt, legacy, unit, frac):
    def fn(e, load):
        f = EvFile(e, fmt, legacy); e.files["/work/in"] = f.content
        def replay(m):
            evs, n = f.model_events(m)
            cs = [dict(fmt=int(fmt), legacy=legacy, unit=unit, frac=frac, events=evs)]
            ks = [k for k in model_index(m) if 0 <= k < n]
            if ks: cs.append(dict(cs[0], events=f.model_events(m, ks)[0] * (1 if n == 1 else 2)))
            return cs
        e.replayer = replay
        m = load(MOD); rd = getattr(m, "read_a" + fmt)
        e.vacuous()
        r = must_return(e, "reader", rd, "/work/in", legacy, res_enum(load, unit), frac)
        if not isinstance(r, tuple) or len(r) != 2: e.fail("reader returns (t, p)", "got %r" % (r,)); return
        prove_seq(e, "timestamps", r[0], f.N, lambda k: f.t(k, unit, frac))
        prove_seq(e, "patterns", r[1], f.N, lambda k: f.pattern(k))
    return fn
