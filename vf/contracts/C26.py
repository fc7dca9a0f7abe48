"""Epoch numbers, their names and dates (parse_epochs.py)."""
from epcommon import *
import types
TRUSTED = ["datetime.timestamp() and datetime.fromtimestamp() convert between local dates and seconds since 1970, the latter to the nearest microsecond", "int(text, base=16) and hex() are inverse conversions"] + ETRUSTED[:1]
EPOCHS = RealVal(2**32) / RealVal(8 * 10**9)     # seconds

class Date:
    def __init__(s, t): s.t = t                  # seconds since 1970, real
    def timestamp(s): return S(s.t, "pyfloat")
    def __str__(s): raise Unsupported("text of a date")
    __format__ = __sub__ = __add__ = __lt__ = __str__
def clock(e):
    class datetime:
        @staticmethod
        def now(*a):
            if a: raise Unsupported("time zones")
            return Date(e.NOW)
        today = now
        @staticmethod
        def fromtimestamp(t, *a):
            if a: raise Unsupported("time zones")
            t = lift(t); e.seconds = real(t); return Date(e.seconds)
    ns = types.ModuleType("datetime"); ns.datetime = datetime
    return {"datetime": ns}

def jobs(tier):
    return [Job("date2epoch, %s" % w, d2e(w), mods=clock) for w in ("given", "now")] + [Job("epoch2date", e2d, mods=clock), Job("names", names, mods=clock)]
def hexname(e, r, what):
    """(value, format) of a hexadecimal name"""
    m = iomod._tok.fullmatch(r) if isinstance(r, str) else None
    if m is None:
        if isinstance(r, str) and "\ue000" not in r: e.fail(what, repr(r)); raise PathEnd()
        raise Unsupported("text of the name")
    return e.tokens[int(m.group(1))]
def d2e(how):
    def fn(e, load):
        s, f = e.fresh_int("second"), e.fresh_real("fraction"); e.assume(And(s >= 0, f >= 0, f < 1, 8 * 10**9 * s < 2**64))
        t = ToReal(s) + f; e.NOW = t if how == "now" else RealVal(0)
        e.replayer = lambda m: [dict(kind="d2e", us=m.eval(s, model_completion=True).as_long() * 10**6)]; e.vacuous()
        f_ = load(EMOD).date2epoch
        r = must_return(e, "conversion", f_, Date(t)) if how == "given" else must_return(e, "conversion", f_)
        v, spec = hexname(e, r, "the epoch number in hexadecimal")
        if spec not in ("08x", "x"): raise Unsupported("format %r" % spec)
        if spec != "08x": e.prove("eight digits", lift(v).t >= 2**28)
        v = lift(v).t
        e.prove("number of the epoch running at that second", And(v * 2**32 <= s * 8 * 10**9, s * 8 * 10**9 < (v + 1) * 2**32))
    return fn
def e2d(e, load):
    v = e.fresh_int("epoch"); e.assume(And(v >= 0, v < 2**32)); e.seconds = None
    e.replayer = lambda m: [dict(kind="e2d", v=m.eval(v, model_completion=True).as_long())]; e.vacuous()
    r = must_return(e, "conversion", load(EMOD).epoch2date, e.token(S(v, "pyint", 0, 2**32 - 1), "x"))
    if not isinstance(r, Date): raise Unsupported("date object")
    d = r.t - ToReal(v) * EPOCHS
    e.prove("start of the epoch, within 1.5 microseconds", And(d <= RealVal("0.0000015"), d >= RealVal("-0.0000015")))
def names(e, load):
    v = e.fresh_int("epoch"); e.assume(And(v >= 0, v < 2**32)); m = load(EMOD)
    e.replayer = lambda mm: [dict(kind="name", v=mm.eval(v, model_completion=True).as_long())]; e.vacuous()
    r = must_return(e, "name of a number", m.int2epoch, S(v, "pyint", 0, 2**32 - 1)); x, spec = hexname(e, r, "lowercase hexadecimal without prefix")
    if spec != "x": raise Unsupported("format %r" % spec)
    e.prove("name of the number", lift(x).t == v)
    q = must_return(e, "number of a name", m.epoch2int, e.token(S(v, "pyint", 0, 2**32 - 1), "x")); e.prove("number of the name", lift(q).t == v)
    q = must_return(e, "number of a padded name", m.epoch2int, e.token(S(v, "pyint", 0, 2**32 - 1), "08x")); e.prove("number of the padded name", lift(q).t == v)
