"""time_freq and fpfind: the returned pair is the composition of all the corrections, in real arithmetic."""
from fpcommon import *

def jobs(tier): return [search_job("time_freq", search)] + [scan_job("fpfind fullscan=%s" % full, scan(full)) for full in (False, True)]
def search(e, load):
    s = e.search = Search(e, "longdouble")
    m = load(MOD); e.vacuous()
    r, v = call(e, m.time_freq, *s.args())
    if r == "exc": raise PathEnd()          # no offsets returned
    if isinstance(v, L): v = v.conc()
    if not isinstance(v, (tuple, list)) or len(v) != 2: e.fail("a pair is returned", repr(type(v))); return
    dt, df = (real(lift(x)) for x in v); n = s.g.c["n"].t
    whole = And(dt == T(n), df == F(n) - 1)
    # the last measured correction may have been discarded as spurious
    x, y = DELAY(s.g.c["early"].t), DELAY(s.g.c["late"].t); p = n - 1; d1 = div(y - x, s.sep.t)
    lim = 10 * If(absr(T(p)) > 1, absr(T(p)), 1); flim = 10 * If(absr(F(p) - 1) > RealVal("1/1000000000"), absr(F(p) - 1), RealVal("1/1000000000"))
    spur = And(n >= 2, Or(absr(x) > lim, absr(y) > lim, absr(d1) > flim), dt == T(p), df == F(p) - 1)
    e.prove("something was measured", n >= 1)
    e.prove("returned offsets are the composition of the corrections", Or(whole, spur))

def scan(full):
    def fn(e, load):
        m = load(MOD); s = e.scan = Scan(e, full); e.vacuous()
        r, v = s.run(m.fpfind)
        if r == "exc": raise PathEnd()
        if isinstance(v, L): v = v.conc()
        if not isinstance(v, (tuple, list)) or len(v) != 2: e.fail("a pair is returned", repr(type(v))); return
        n = s.g.c["n"].t; e.prove("a search has succeeded", And(FI >= 0, FI < n))
        x, y = s.pair(FI); e.prove("precompensation composed with the search result", And(real(lift(v[0])) == x, real(lift(v[1])) == y))
    return fn
