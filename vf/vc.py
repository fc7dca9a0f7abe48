"""Helpers for writing contracts."""
import traceback
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal, ForAll, Exists, ToReal, ToInt
import sym, npshim, iomod, loops
from sym import S, Unsupported, PathEnd, Restart, lift, concrete, isnum, eq_term, I, binop, ite, intt, real, truth
from npshim import Seq, L, A, Buf, zi, nn, as_seq, SymSet
from engine import Engine
from load import Loader

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

class Job:
    """one verification task: fn(e, load) is run on every path; load(modname) gives a freshly instrumented module"""
    def __init__(s, name, fn, overrides=None, templates=(), invariants=(), mods=None, ideal=False, timeout=15000, limit=None, attrs=None, trusted=(), max_unroll=3):
        s.name, s.fn, s.overrides, s.templates, s.invariants, s.mods, s.ideal, s.timeout, s.limit = name, fn, overrides, list(templates), list(invariants), mods, ideal, timeout, limit
        s.attrs = attrs or {}; s.trusted = set(trusted); s.max_unroll = max_unroll

def run_job(job, deadline):
    e = Engine(job.name, timeout=job.timeout, ideal=job.ideal)
    e.deadline = deadline; e.templates = list(job.templates); e.invariants = list(job.invariants); e.trusted |= job.trusted; e.max_unroll = job.max_unroll
    for k, v in job.attrs.items(): setattr(e, k, v)
    err = None
    def once():
        ov = job.overrides(e) if callable(job.overrides) else (job.overrides or {})
        mods = job.mods(e) if callable(job.mods) else job.mods
        ld = Loader(e, ov, mods); e.loader = ld
        job.fn(e, ld.load)
    try: e.explore(once)
    except Unsupported as x: err = "outside the verifier's reach: %s" % (x,) + where(x)
    except RecursionError as x: err = "recursion"
    except z3.Z3Exception as x: err = "z3: %s" % (x,) + where(x)
    except Exception as x: err = "internal: %s" % "".join(traceback.format_exception(x))[-1500:]
    if e.bounded: err = None
    if err and e.cutloops | {k for k, v in e.loopinfo.items() if v.cands or v.tries}:
        # loop invariants of an unfinished exploration are not established
        for o in e.obl:
            if o["status"] == "failed": o["status"] = "undecided"; o["detail"] = "exploration not finished; " + o["detail"]
    return dict(name=job.name, obl=[dict(o, name=job.name + ": " + o["name"]) for o in e.obl], error=err, functions=sorted(e.functions - e.used_contracts), contracts=sorted(e.used_contracts),
                trusted=sorted(e.trusted), solver_s=e.solver_s, backends=e.backends, paths=e.paths, restarts=e.restarts, vacuity=e.vacuity, notes=e.notes)
def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    fs = [f for f in tb if "/src/fpfind" in f.filename]
    o = " at %s:%d" % (fs[-1].filename.split("/")[-1], fs[-1].lineno) if fs else ""
    return o + " [%s]" % " < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(tb[-4:]))

INTERNAL = (TypeError, AttributeError, NameError, NotImplementedError, RecursionError, ImportError)
def call(e, f, *a, **k):
    """('ret', value) or ('exc', exception) of the real code; exceptions that may be the shim's fault are Unsupported"""
    try: return "ret", f(*a, **k)
    except (Unsupported, PathEnd, Restart): raise
    except SystemExit as x: return "exc", x
    except Exception as x:
        if isinstance(x, z3.Z3Exception): raise Unsupported("z3: %s" % x + where(x))
        if isinstance(x, TypeError) and "NoneType" in str(x) and str(x).startswith(("unsupported operand", "'<' not", "'>' not", "'<=' not", "'>=' not")): return "exc", x
        if not getattr(x, "_vf", False) and isinstance(x, INTERNAL): raise Unsupported("%s: %s%s" % (type(x).__name__, x, where(x)))
        return "exc", x
def must_return(e, what, f, *a, **k):
    r, v = call(e, f, *a, **k)
    if r == "exc":
        e.fail("%s returns normally" % what, "raises %s: %s%s" % (type(v).__name__, v, where(v)))
        raise PathEnd()
    return v

def must_raise(e, what, exc, f, *a, **k):
    r, v = call(e, f, *a, **k)
    if r == "exc" and isinstance(v, exc): e._ob("%s raises %s" % (what, exc.__name__), "proved", "path"); return
    e.fail("%s raises %s" % (what, exc.__name__), "raises %s: %s%s" % (type(v).__name__, v, where(v)) if r == "exc" else "returns normally")
    raise PathEnd()

# ---------------------------------------------------------------- values
def array(kind, n, F, lo=None, hi=None):
    """array with elements F(k) (z3 function), assumed within kind's range per access"""
    e = sym.eng()
    a, b = sym.INTK.get(kind, (None, None)) if kind != "pyint" else (None, None)
    if lo is not None: a, b = lo, hi
    def get(k):
        v = F(zi(k))
        if a is not None: e.assume(And(v >= a, v <= b))
        return S(v, kind, a, b)
    return A(kind, n, get)
def seq(kind, n, F, lo=None, hi=None):
    e = sym.eng()
    def get(k):
        v = F(zi(k))
        if lo is not None: e.assume(And(v >= lo, v <= hi))
        return S(v, kind, lo, hi)
    return Seq(n, get)
def symint(e, name, lo=None, hi=None, kind="pyint"):
    t = e.fresh_int(name)
    if lo is not None: e.assume(t >= lo)
    if hi is not None: e.assume(t <= hi)
    return S(t, kind, lo, hi)
def elem(a, k):
    """element k of an array/list value"""
    q = as_seq(a); return q.get(zi(k))
def length(a): return lift(npshim.vlen(a))
def prove_seq(e, what, got, n, spec, kinds=None, extra=None):
    """obligations: got has length n and got[k] equals spec(k) (a z3 term) for all k"""
    if not isinstance(got, (A, L, Seq, list, tuple)):
        e.fail(what + ": is a sequence", "got %r" % type(got)); return
    if isinstance(got, A) and got.ndim0:
        e.fail(what + ": is one-dimensional", "0-d array"); return
    q = as_seq(got)
    if q.mask is not None: raise Unsupported("filtered sequence in a postcondition")
    e.prove(what + ": length", q.n.t == n)
    k = e.fresh_int("k")
    if e.check_sat(And(k >= 0, k < n)) == "unsat": return
    mark = len(e.pc); e.solver.push()
    e.assume(And(k >= 0, k < n))
    v = q.get(k)
    sp = spec(k)
    try:
        if not isnum(v): e.fail(what + ": elements are numbers", "got %r" % type(v)); return
        e.prove(what + ": every element", eq_any(v, sp))
        if kinds and lift(v).k not in kinds: e.fail(what + ": element type", "got %s, expected %s" % (lift(v).k, kinds))
    finally:
        e.solver.pop(); del e.pc[mark:]; e.cache = {}
def prove_filtered(e, what, got, n, sel, spec):
    """obligations: got consists of spec(k) for exactly the k<n with sel(k), in order"""
    if not isinstance(got, (A, L, Seq)) or isinstance(got, A) and got.ndim0: e.fail(what + ": is a sequence", "got %r" % type(got)); return
    q = as_seq(got)
    k = e.fresh_int("k")
    if q.mask is None:
        # same thing when everything (or nothing) is selected
        if e.valid(q.n.t == n): q = Seq(q.n, q.get, lambda k: BoolVal(True))
        elif concrete(q.n) == 0: e.prove(what + ": nothing is selected", Implies(And(k >= 0, k < n), Not(sel(k)))); return
        else: raise Unsupported("unfiltered sequence where a selection is specified")
    e.prove(what + ": drawn from all the events", q.n.t == n)
    e.solver.push(); mark = len(e.pc)
    try:
        e.assume(And(k >= 0, k < n))
        if e.check_sat() == "unsat": return
        e.prove(what + ": exactly the selected events", q.mask(k) == sel(k))
        e.assume(And(sel(k), q.mask(k)))
        if e.check_sat() == "unsat": return
        v = q.get(k)
        if not isnum(v): e.fail(what + ": elements are numbers", "got %r" % type(v)); return
        e.prove(what + ": every element", eq_any(v, spec(k)))
    finally: e.solver.pop(); del e.pc[mark:]; e.cache = {}
def eq_any(v, sp):
    v = lift(v)
    if isinstance(sp, S): return eq_term(v, sp)
    if sp.sort() == Real or sym.isfltk(v.k): return real(v) == (sp if sp.sort() == Real else ToReal(sp))
    return intt(v) == sp
def same_seq_obj(e, what, a, before):
    """frame: array a still has the getter/length it had before"""
    q = a.buf
    e.prove(what + ": not modified", BoolVal(True) if (q.get is before[0] and q.n is before[1]) else BoolVal(False))
def prove_mask(e, what, got, n, sel):
    if not isinstance(got, A) or got.ndim0 or got.kind != "bool": e.fail(what + ": is a boolean array", "got %r" % (getattr(got, "kind", type(got)),)); return
    q = got.seq()
    if q.mask is not None: raise Unsupported("filtered mask")
    e.prove(what + ": length", q.n.t == n)
    k = e.fresh_int("k"); e.solver.push(); mark = len(e.pc)
    try:
        e.assume(And(k >= 0, k < n))
        if e.check_sat() == "unsat": return
        e.prove(what + ": every element", truth(lift(q.get(k))) == sel(k))
    finally: e.solver.pop(); del e.pc[mark:]; e.cache = {}
