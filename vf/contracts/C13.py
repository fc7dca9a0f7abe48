"""get_first_overlapping_epoch over arbitrary directory listings, get_timestamp over the readers' contracts."""
from epcommon import *
UMOD = "fpfind.lib.utils"
TRUSTED = ["a directory listing names each epoch file once, in any order; epoch files are named by their number in hexadecimal", "set, min and membership tests of Python integers as modelled in vf/contracts/C13.py",
           "read_T1 / read_T2 by contract (they are verified against the file specification under C08, C09)", "numpy.append concatenates"]
def jobs(tier):
    out = [Job("overlap search, first epoch %s, %s common epochs" % (f, s), search(f, s, d), invariants=[within]) for f in ("given", "not given") for s in ("some", "no") for d in ("default",)]
    return out + [Job("get_timestamp %s" % k, *loading(k)) for k in ("T1", "T2")]
def within(lp, it, vals):
    n = lp.e.ghosts.get("N"); return [it < n] if n is not None else []

class EpName:
    """file name: the hexadecimal number v, in any number of digits"""
    def __init__(s, v): s.v = v
    def _vf_int(s, base):
        if base is None or concrete(base) != 16: raise Unsupported("int(epoch name, base %r)" % (base,))
        return S(s.v, "pyint", 0)
    def __bool__(s): return True
    def lower(s): return s
    strip = rstrip = lstrip = lower
    def __str__(s): raise Unsupported("text of an epoch name")
    __len__ = __getitem__ = __format__ = __str__
class Entry:
    def __init__(s, v): s.name = s.stem = EpName(v); s.suffix = ""
    def is_file(s): return True
    def is_dir(s): return False

class World:
    """two directories; COMMON is membership in both, at or after the first epoch; MN its minimum, N the length of the run from there"""
    def __init__(s, e, given, some):
        s.e = e; s.IN = [e.fresh_fun("IN%d_" % d, Int, Bool) for d in (1, 2)]; s.E = [e.fresh_fun("NAME%d_" % d, Int, Int) for d in (1, 2)]; s.POS = [e.fresh_fun("POS%d_" % d, Int, Int) for d in (1, 2)]
        s.n = [e.fresh_int("files") for d in (1, 2)]; s.some = some; s.done = {}; s.lists = []
        for n in s.n: e.assume(n >= 0)
        s.first = e.fresh_int("first") if given else None
        if given: e.assume(s.first >= 0)
        s.MN, s.N = e.fresh_int("MN"), e.fresh_int("RUN"); s.points = []
        if some: e.assume(And(s.MN >= 0, s.N >= 1)); s.at(s.MN); s.at(s.MN + s.N); e.ghosts["N"] = s.N; e.assume(s.common(s.MN))
    def common(s, v): return And(s.IN[0](v), s.IN[1](v), *([v >= s.first] if s.first is not None else []))
    def at(s, v):
        """the definitions, used at the number v"""
        v = z3.simplify(v); i = v.get_id()
        if i in s.done: return v
        s.done[i] = v; e = s.e; s.points.append(v)
        for d in (0, 1): e.assume(Implies(s.IN[d](v), And(v >= 0, s.POS[d](v) >= 0, s.POS[d](v) < s.n[d], s.E[d](s.POS[d](v)) == v)))
        if s.some: e.assume(And(Implies(s.common(v), v >= s.MN), Implies(And(v >= s.MN, v < s.MN + s.N), s.common(v)), Implies(v == s.MN + s.N, Not(s.common(v)))))
        else: e.assume(Not(s.common(v)))
        return v
    def listing(s, d):
        def el(k):
            k = zi(k); v = s.E[d](k); s.e.assume(And(v >= 0, Implies(And(k >= 0, k < s.n[d]), s.IN[d](v)))); return v
        return Seq(S(s.n[d], "pyint", 0), lambda k: Entry(el(k)))
    def recognise(s, x):
        """the set of the numbers in a sequence drawn from a listing"""
        if isinstance(x, PSet): return x
        if isinstance(x, (list, tuple)) or isinstance(x, L) and x.base is None: return None
        q = as_seq(x); e = s.e; k = e.fresh_int("k")
        for d in (0, 1):
            if not e.valid(q.n.t == s.n[d]): continue
            v = q.get(k)
            if not isnum(v): return None
            if e.valid(Implies(And(k >= 0, k < s.n[d]), lift(v).t == s.E[d](k))):
                def mem(v, d=d): return s.IN[d](v) if q.mask is None else And(s.IN[d](v), q.mask(s.POS[d](v)))
                return PSet(s, mem)
        return None

class PSet:
    """a set of integers given by its membership formula"""
    def __init__(s, w, mem): s.w, s.mem = w, mem
    def has(s, v): v = s.w.at(v); return s.mem(v)
    def other(s, o):
        o = s.w.recognise(o)
        if o is None: raise Unsupported("set operation")
        return o
    def intersection(s, *os):
        r = s
        for o in os: o = r.other(o); r = PSet(s.w, lambda v, a=r.mem, b=o.mem: And(a(v), b(v)))
        return r
    def __and__(s, o): return s.intersection(o)
    __rand__ = __iand__ = __and__
    def __or__(s, o): o = s.other(o); return PSet(s.w, lambda v: Or(s.mem(v), o.mem(v)))
    union = __or__
    def __sub__(s, o): o = s.other(o); return PSet(s.w, lambda v: And(s.mem(v), Not(o.mem(v))))
    difference = __sub__
    def copy(s): return s
    def _vf_comp(s, kind, g, c):
        x = S(s.w.e.fresh_int("x"), "pyint")
        y = g(x)
        if not isnum(y) or not s.w.e.valid(lift(y).t == x.t): raise Unsupported("comprehension over a set")
        return s if c is None else PSet(s.w, lambda v: And(s.mem(v), truth(lift(c(S(v, "pyint"))))))
    def _vf_contains(s, x): return S(s.has(lift(x).t), "pybool", 0, 1)
    def __contains__(s, x): return s.w.e.branch(s.has(lift(x).t))
    def nonempty(s):
        e = s.w.e
        if getattr(s, "ne", None) is None:
            b = e.fresh_bool("nonempty")
            v = s.w.at(e.fresh_int("member")); e.assume(Implies(b, s.mem(v)))
            for p in list(s.w.points): e.assume(Implies(Not(b), Not(s.mem(p))))
            s.ne = b
        return s.ne
    def __bool__(s): return s.w.e.branch(s.nonempty())
    def _vf_bool(s): return s.nonempty()
    def _vf_len(s):
        e = s.w.e; n = e.fresh_int("size", weak=True); e.assume(And(n >= 0, (n > 0) == s.nonempty())); return S(n, "pyint", 0)
    def _vf_min(s):
        e = s.w.e
        if not e.branch(s.nonempty()):
            x = ValueError("min() arg is an empty sequence"); x._vf = True; raise x
        if getattr(s, "mn", None) is None:
            m = e.fresh_int("min"); s.w.at(m); e.assume(s.mem(m))
            for p in list(s.w.points): e.assume(Implies(s.mem(p), m <= p))
            s.mn = m
        return S(s.mn, "pyint", 0)
    def __getitem__(s, i):
        if concrete(i) == 0: return s._vf_min()
        raise Unsupported("element of a sorted set")

def search(first, some, _):
    def fn(e, load):
        w = World(e, first == "given", some == "some")
        def glob(p, pat):
            if pat != "*" or str(p) not in ("/work/a", "/work/b"): raise Unsupported("glob %s %s" % (p, pat))
            return w.listing(str(p) == "/work/b")
        e.glob_hook = glob; e.set_hook = w.recognise; e.sort_hook = lambda x: x if isinstance(x, PSet) else w.recognise(x)
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True)
            ps = sorted({ev(p).as_long() for p in w.points} | ({ev(w.MN).as_long() + i for i in range(min(ev(w.N).as_long(), 30))} if w.some else set())); ps = [p for p in ps if p >= 0]
            ds = [[p for p in ps if z3.is_true(ev(w.IN[d](IntVal(p))))] for d in (0, 1)]
            f = None if w.first is None else ev(w.first).as_long()
            return [dict(d1=ds[0], d2=ds[1], first=f, skip=0, num=0, kind="T1")] + [dict(d1=a, d2=b, first=f2, skip=0, num=0, kind="T1") for a in ([1, 2, 3, 5], [15, 16, 17, 255, 256]) for b in ([2, 3, 4, 5], [16, 17, 18, 256]) for f2 in ([None] if w.first is None else [0, a[1], a[2], 400])]
        e.replayer = replay; e.vacuous()
        arg = None if w.first is None else EpName(w.first)
        f = load(UMOD).get_first_overlapping_epoch
        def right(r, what):
            if not w.some:
                e.prove(what + ": no epoch when none is common", BoolVal(r is None)); return
            m = iomod._tok.fullmatch(r) if isinstance(r, str) else None
            if m is None or e.tokens[int(m.group(1))][1] != "x":
                if isinstance(r, str) and "\ue000" in r: raise Unsupported("text of the epoch")
                e.fail(what + ": the epoch in lowercase hexadecimal", repr(r)); return
            e.prove(what + ": smallest common epoch not below the first", lift(e.tokens[int(m.group(1))][0]).t == w.MN)
        a = ("/work/a", "/work/b")
        right(must_return(e, "search", f, *a) if arg is None else must_return(e, "search", f, *a, arg), "epoch alone")
        r = must_return(e, "search with length", f, *a, first_epoch=arg, return_length=True)
        if isinstance(r, L): r = tuple(r.conc())
        if not isinstance(r, tuple) or len(r) != 2 or not isnum(r[1]): e.fail("returns the epoch and the run length", repr(r)); return
        right(r[0], "epoch"); e.prove("length of the run of consecutive common epochs", lift(r[1]).t == (w.N if w.some else 0))
    return fn

def loading(kind):
    st = {}
    def reader(e, k):
        def read(path=None, *a, **kw):
            if path is None or a or kw: raise Unsupported("reader options")
            if k != kind: e.fail("files are read as %s" % kind, "read_" + k); raise PathEnd()
            d, _, nm = str(path).rpartition("/"); m = iomod._tok.fullmatch(nm)
            if d != "/work/a" or not m or e.tokens[int(m.group(1))][1] != "x": raise Unsupported("path of the epoch file")
            x = lift(e.tokens[int(m.group(1))][0]).t; i = z3.simplify(x - st["FS"]); n = st["CNT"](x); e.assume(And(n >= 0, Implies(i >= 0, st["PRE"](i + 1) == st["PRE"](i) + n)))
            def el(k):
                k = zi(k); v = st["EV"](x, k); e.assume(Implies(And(i >= 0, k >= 0, k < n), st["ELEM"](st["PRE"](i) + k) == v)); return v
            return A("longdouble", S(n, "pyint", 0), lambda k: S(el(k), "longdouble")), A("uint32", S(n, "pyint", 0), lambda k: S(st["PAT"](x, zi(k)), "uint32", 0, 15))
        return read
    def overrides(e): return {"fpfind.lib.parse_epochs.read_" + k: reader(e, k) for k in ("T1", "T2")}
    def fn(e, load):
        F, K, N = e.fresh_int("first"), e.fresh_int("skip"), e.fresh_int("num"); e.assume(And(F >= 0, K >= 0, N >= 0))
        st.update(FS=F + K, PRE=e.fresh_fun("PRE", Int, Int), ELEM=e.fresh_fun("ELEM", Int, Real), CNT=e.fresh_fun("CNT", Int, Int), EV=e.fresh_fun("EV", Int, Int, Real), PAT=e.fresh_fun("PAT", Int, Int, Int))
        e.assume(st["PRE"](0) == 0)
        def whole(lp, k, v0, it):
            if not isinstance(v0, Seq): return None
            e.assume(Implies(it >= 0, st["PRE"](it) >= 0))
            return Seq(S(z3.simplify(st["PRE"](it)), "pyint", 0), lambda k: S(st["ELEM"](zi(k)), "longdouble"))
        def arr(lp, k, v0, it):
            if not isinstance(v0, A): return None
            q = whole(lp, k, v0.seq(), it); return A("longdouble", q.n, q.get)
        e.templates[:] = [whole, arr]
        def replay(m):
            ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
            return [dict(d1=list(range(40)), d2=[], first=min(ev(F), 20), skip=min(ev(K), 9), num=min(ev(N), 9), kind=kind)] + [dict(d1=list(range(9, 40)), d2=[], first=f, skip=s, num=n, kind=kind) for f, s, n in ((9, 0, 3), (15, 1, 2), (16, 3, 0), (14, 2, 1))]
        e.replayer = replay; e.vacuous()
        r = must_return(e, "loading", load(UMOD).get_timestamp, "/work/a", kind, EpName(F), S(K, "pyint", 0), S(N, "pyint", 0))
        prove_seq(e, "events of the requested epochs in order", r, st["PRE"](N), lambda k: st["ELEM"](k))
    return fn, overrides
