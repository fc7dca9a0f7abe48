"""Streaming readers: batch i holds exactly events i*b .. min((i+1)*b, N)-1; the announced count is the number of batches."""
from tscommon import *
TRUSTED = ["numpy 1.26 element-wise arithmetic, casts and promotion as modelled in vf/sym.py and vf/npshim.py", "contents of a file do not change while it is read",
           "read(n) returns n bytes/characters unless the end of the file is reached (regular files)", "little-endian host (native order '=')"]

def jobs(tier):
    return [Job("sread_a%s legacy=%s %s fractional=%s" % (fmt, legacy, unit, frac), body(fmt, legacy, unit, frac)) for fmt, legacy in FMTS for unit in UNITS for frac in (True, False)]

def body(fmt, legacy, unit, frac):
    def fn(e, load):
        f = EvFile(e, fmt, legacy); e.files["/work/in"] = f.content
        bs = symint(e, "bs", 1)
        def replay(m):
            b = m.eval(bs.t, model_completion=True).as_long(); evs, n = f.model_events(m)
            if n > 20000: return []
            return [dict(fmt=int(fmt), legacy=legacy, unit=unit, frac=frac, events=evs, bs=min(b, 10**6))]
        e.replayer = replay
        rd = getattr(load(MOD), "sread_a" + fmt)
        e.vacuous()
        r = must_return(e, "streaming reader", rd, "/work/in", legacy, res_enum(load, unit), frac, bs)
        if not isinstance(r, tuple) or len(r) != 2: e.fail("streaming reader returns (stream, count)", "got %r" % (r,)); return
        st, nb = r
        want = If(f.N == 0, IntVal(0), (f.N - 1) / bs.t + 1)
        if not isnum(nb): e.fail("announced number of batches is a number", repr(nb))
        else: e.prove("announced number of batches", eq_any(nb, want))
        def batch(it, q):
            t, p = q
            left = z3.simplify(f.N - it * bs.t)
            e.prove("a batch begins before the end of the file", left > 0)
            n = If(left < bs.t, left, bs.t)
            prove_seq(e, "batch timestamps", t, n, lambda k: f.t(it * bs.t + k, unit, frac))
            prove_seq(e, "batch patterns", p, n, lambda k: f.pattern(it * bs.t + k))
        def end(it):
            e.prove("the stream ends after the last batch", And(it * bs.t >= f.N, it == want))
        drive(e, st, batch, end)
    return fn

def drive(e, st, batch, end, what="stream"):
    """checks an arbitrary iteration of the generator st"""
    it = e.fresh_int("it"); e.assume(it >= 0)
    if not hasattr(st, "__next__") and (isinstance(st, Seq) or hasattr(st, "_vf_seq")):      # not a generator: an arbitrary element of a sequence
        q = as_seq(st)
        if q.mask is not None: raise Unsupported("filtered stream")
        if not e.branch(it < q.n.t): e.assume(it == q.n.t); end(it); return
        v = q.get(it)
        if not isinstance(v, tuple) or len(v) != 2: e.fail(what + " yields (t, p)", "got %r" % (v,)); return
        batch(it, v); return
    g = iter(st)
    e.pend_link.append(it); m = len(e.pend_link)
    r, v = call(e, next, g)
    if len(e.pend_link) >= m:
        e.pend_link.pop()
        if r == "exc" and isinstance(v, StopIteration): end(IntVal(0)); return
        raise Unsupported("generator without a loop of its own")
    if r == "exc":
        if isinstance(v, StopIteration): end(it); return
        e.fail(what + " raises nothing", "raises %s: %s%s" % (type(v).__name__, v, where(v))); return
    if not isinstance(v, tuple) or len(v) != 2: e.fail(what + " yields (t, p)", "got %r" % (v,)); return
    batch(it, v)
    r, v = call(e, next, g)       # runs to the loop's back edge, where the path ends
    if r == "ret": raise Unsupported("generator yields more than once per iteration")
    if not isinstance(v, StopIteration): e.fail(what + " raises nothing", "raises %s: %s%s" % (type(v).__name__, v, where(v))); return
    end(z3.simplify(it + 1))
