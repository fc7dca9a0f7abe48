"""Loop summarisation: a symbolic iteration number and closed forms for every modified cell.

A loop that runs over a symbolic sequence (or a while loop that does not end after a few
iterations) is 'cut' at its head.  Every modified cell (local variable, field of a tracked
object) gets a candidate closed form in the iteration number; the candidate is checked at
entry (iteration 0) and again at every back edge (iteration it+1): together this is the usual
invariant rule.  Candidates that fail are replaced and the whole exploration restarts."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, RealVal, BoolVal
import sym, npshim
from sym import S, Unsupported, PathEnd, Restart, lift, concrete, isnum, eq_term, I, binop, ite, intt, real, truth
from npshim import Seq, L, A, Buf, zi, nn, as_seq, SymSet
from engine import Poison

class Info:
    def __init__(s): s.heapmods = set(); s.cands = {}; s.tries = {}; s.dead = set(); s.inv_dead = set(); s.live = set(); s.backs = []; s.learned = {}; s.stable = True

UNDEF = Poison("undefined local variable")

def subst(x, a, b):
    """x with integer term a replaced by b"""
    if isinstance(x, S): return S(z3.substitute(x.t, (a, b)), x.k, x.lo, x.hi, x.tz, x.g)
    if isinstance(x, tuple): return tuple(subst(v, a, b) for v in x)
    if is_bytes(x): return iomod_().Bytes(subst(x.n, a, b), lambda k: z3.substitute(x.get(k), (a, b)))
    if isinstance(x, Seq): return Seq(subst(x.n, a, b), lambda k: subst(x.get(z3.substitute(zi(k), (b, a)) if False else k), a, b), None if x.mask is None else (lambda k: z3.substitute(x.mask(k), (a, b))))
    return x
def consts(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    todo = [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
        elif z3.is_quantifier(e): todo.append(e.body())
        todo.extend(e.children())
    return out

def iomod_():
    import iomod
    return iomod
def is_bytes(x): return isinstance(x, iomod_().Bytes)
def fixed_bytes(x):
    """byte terms of a byte string of known length"""
    if isinstance(x, bytes): return [IntVal(v) for v in x]
    if is_bytes(x) and concrete(x.n) is not None: return [z3.simplify(x.get(IntVal(i))) for i in range(concrete(x.n))]
    return None
NONE = object()          # a template's way to say "the value is None here"
class Loop:
    def __init__(s, e, site, kind, names, src=None, has_it=False):
        n = e.ctr.get(("loop", site), 0); e.ctr[("loop", site)] = n + 1
        s.e, s.site, s.kind, s.names = e, site, kind, names
        s.key = "%s@%d" % (site, n)
        s.count = 0; s.arrived = False
        s.info = e.loopinfo.setdefault(s.key, Info())
        s.entry_clock = e.clock; e.clock += 1
        s.iter = None; s.seq = None; s.it = None; s.idx = 0; s.link = None
        s.mode = "native"
        if kind == "for": s.setup_for(src)
        elif s.key in e.cutloops and not e.bounded: s.mode = "cut"
        e.active.append(s)
    def setup_for(s, src):
        e = s.e
        if isinstance(src, A) and src.cols is not None or isinstance(src, (A, L, Seq)) or hasattr(src, "_vf_seq"):
            q = as_seq(src)
            c = concrete(q.n)
            if e.bounded: s.seq = q; s.nat = None; s.live = src if isinstance(src, L) else None; return
            if c is not None and c <= 64 and q.mask is None: s.seq = q; s.nat = c; s.live = src if isinstance(src, L) else None
            else: s.seq = q; s.mode = "cut"; s.nat = None
            return
        if isinstance(src, (list, tuple, range, dict, str, bytes, set, frozenset, dict.items({}).__class__, dict.keys({}).__class__)):
            s.iter = iter(src); return
        if hasattr(src, "__next__") or hasattr(src, "__iter__"):
            s.iter = iter(src)
            if s.key in e.linked and not e.bounded: s.mode = "cut"
            return
        raise sym.pyerr(TypeError, "'%s' object is not iterable" % type(src).__name__)
    def leave(s):
        if s in s.e.active: s.e.active.remove(s)
    # ------------------------------------------------------------ head
    def head(s, loc):
        e = s.e; s.count += 1
        if s.mode == "native":
            if e.bounded and s.count > e.bounded + 2 and (s.kind == "while" or s.iter is not None): raise PathEnd()
            if s.kind == "while" and e.pend_link and s.count == 1:      # the loop of a driven generator
                e.cutloops.add(s.key); raise Restart("cut loop %s" % s.key)
            if s.count > 5000: raise Unsupported("loop runs too long")
            return tuple(loc.get(n, UNDEF) for n in s.names)
        if not s.arrived:
            s.arrived = True
            return s.enter(loc)
        return s.back(loc)
    def entry_it(s):
        e = s.e
        if e.pend_link:
            s.it = e.pend_link.pop(); s.linked_from = True; return
        if e.nexting and not getattr(s, "is_link", False):
            # a summarised loop inside a generator that a native for-loop consumes: link that loop
            lp = e.nexting[-1]
            if lp is not None and lp.key not in e.linked:
                e.linked.add(lp.key); raise Restart("link " + lp.key)
        s.it = e.fresh_int("it"); e.assume(s.it >= 0)
    def cells(s, loc):
        """(key, getter value)"""
        out = [(("v", n), loc.get(n, UNDEF)) for n in s.names]
        for k, c in sorted(s.info.heapmods):
            o = s.e.heap.get(k)
            if o is None or o._birth > s.entry_clock: continue
            out.append((("h", k, c), o.get_cell(c)))
        return out
    def put(s, key, v):
        if key[0] == "h": s.e.heap[key[1]].set_cell(key[2], v)
    def enter(s, loc):
        e = s.e
        if s.kind == "for" and s.seq is None: s.is_link = True
        s.v0 = dict(s.cells(loc))
        s.entry_it()
        if s.kind == "for" and s.seq is not None: e.assume(s.it <= s.seq.n.t)
        s.snap = dict(e.ctr)
        s.cur = {}
        for k, v in s.v0.items(): s.cur[k] = s.candidate(k, v, s.it)
        for k, v in s.cur.items(): s.put(k, v)
        e.entered.append(s)
        s.pc_mark = len(e.pc); s.read_mark = len(e.reads)
        s.check_invs(IntVal(0), s.v0, "entry")
        s.check_must(IntVal(0), s.v0, "entry")
        for i, f in s.invs():
            for t in f(s, s.it, s.cur) or []: e.assume(t)
        for nm, f in e.must_invs:
            t = f(s, s.it, s.cur)
            if t is not None: e.assume(t)
        if e.check_sat() == "unsat": raise PathEnd()
        return tuple(s.cur[("v", n)] for n in s.names)
    def check_must(s, at, vals, where):
        """invariants that are part of the property (e.g. a bound on the number of iterations)"""
        for nm, f in s.e.must_invs:
            t = f(s, at, vals)
            if t is not None: s.e.prove("%s (%s)" % (nm, where), t)
    def check_invs(s, at, vals, where):
        e = s.e
        for i, f in s.invs():
            for t in f(s, at, vals) or []:
                if not e.valid(t):
                    s.info.inv_dead.add(i); raise Restart("invariant %s of %s at %s" % (i, s.key, where))
    def invs(s):
        out = [(i, f) for i, f in enumerate(s.e.invariants)]
        out += [("file position within the file", pos_inv), ("no end of file before", eof_inv)]
        for key, (t, it) in s.info.learned.items():
            out.append(("guard " + key, lambda lp, at, vals, t=t, it=it: [Or(zi(at) == 0, z3.substitute(t, (it, z3.simplify(zi(at) - 1))))]))
        return [x for x in out if x[0] not in s.info.inv_dead]
    def candidate(s, k, v0, it):
        c = s.info.cands.get(k, ("same",))
        return s.apply(c, k, v0, it)
    def apply(s, c, k, v0, it):
        e = s.e
        if c[0] == "same": return v0
        if c[0] == "tmpl":
            x = e.templates[c[1]](s, k, v0, it); return None if x is NONE else x
        if c[0] == "lin":
            d = c[1]
            if z3.is_int_value(d) or sym.isintk(lift(v0).k) or sym.isboolk(lift(v0).k):
                v = sym.asint(lift(v0)); kk = c[2]; dv = z3.simplify(d)
                lo = hi = None
                if z3.is_int_value(dv):
                    if dv.as_long() >= 0: lo = v.lo
                    else: hi = v.hi
                elif v.lo is not None and e.cheap_valid(d >= 0): lo = v.lo
                n = s.itmax()
                if z3.is_int_value(dv) and n is not None and v.hi is not None and dv.as_long() >= 0: hi = v.hi + dv.as_long() * n
                return S(z3.simplify(v.t + d * it), kk, lo, hi, 0)
            v = lift(v0); return S(real(v) + z3.ToReal(it) * d, v.k if sym.isfltk(v.k) else c[2])
        if c[0] == "eof":           # file position
            v = lift(v0); n = c[2]; t = v.t + c[1] * it
            return S(If(t < n, t, n), "pyint", 0)
        if c[0] == "last":
            if z3.is_int_value(z3.simplify(it)) and z3.simplify(it).as_long() == 0: return v0
            x = subst(c[1], c[2], z3.simplify(it - 1))
            if v0 is None or isinstance(v0, Poison):
                if v0 is None and e.branch(it == 0): return None
                return x
            if is_bytes(x): return iomod_().bytes_of_terms([If(it == 0, p, q) for p, q in zip(fixed_bytes(v0), fixed_bytes(x))])
            return ite(it == 0, v0, x)
        if c[0] == "vec":
            return vec_seq([s.apply(ci, k + (i,), x, it) for i, (ci, x) in enumerate(zip(c[1], vec_of(v0)))])
        if c[0] == "grow":
            items, ph = c[1], c[2]; m = len(items); q0 = v0
            n0 = q0.n.t
            def get(j):
                j = zi(j)
                def new():
                    d = z3.simplify(j - n0)
                    if m == 1: return subst(items[0], ph, d)
                    r = None
                    for x in range(m - 1, -1, -1):
                        y = subst(items[x], ph, z3.simplify(d / m)); r = y if r is None else ite(d % m == x, y, r)
                    return r
                if concrete(q0.n) == 0: return new()
                cc = z3.simplify(j < n0)
                if z3.is_true(cc): return q0.get(j)
                if z3.is_false(cc): return new()
                a, b = q0.get(j), new()
                if isnum(a) and isnum(b): return ite(cc, a, b)
                return a if e.branch(cc) else b
            return Seq(S(z3.simplify(n0 + m * it), "pyint", 0), get)
        if c[0] == "fresh":
            x = c[1]
            if isinstance(x, S):
                nm = "h_" + "_".join(str(z) for z in k[1:])
                if sym.isboolk(x.k): return S(e.fresh_bool(nm, weak=True), x.k, 0, 1)
                if sym.isfltk(x.k):
                    r = S(e.fresh_real(nm, weak=not (e.strong_havoc and e.strong_havoc(consts(x.t)))), x.k)
                    if e.opaque and isnum(v0): e.assume(Implies(it == 0, r.t == real(lift(v0))))
                    return r
                t = e.fresh_int(nm, weak=True); r = S(t, x.k)
                if x.k in sym.INTK: e.assume(And(t >= r.lo, t <= r.hi))
                return r
            def retry():
                if k in s.info.live or not isinstance(s.v0[k], Poison): return
                s.info.live.add(k); s.info.cands.pop(k, None); raise Restart("live variable %s" % (k,))
            return Poison("%s after loop %s" % (k, s.key), retry)
        raise Unsupported("candidate " + str(c[0]))
    def itmax(s):
        if s.seq is not None and s.seq.n.hi is not None: return s.seq.n.hi
        return None
    # ------------------------------------------------------------ iteration
    def more(s):
        e = s.e
        if s.mode == "native":
            if s.iter is not None:
                e.nexting.append(s)
                try: s.val = next(s.iter); return True
                except StopIteration: return False
                finally: e.nexting.pop()
            if e.bounded:
                while True:
                    i = s.idx
                    if s.live is not None: s.seq = as_seq(s.live)
                    if not e.branch(s.seq.n.t > i): return False
                    s.idx += 1
                    if s.idx > e.bounded + 1 and concrete(s.seq.n) is None: raise PathEnd()
                    if s.seq.mask is None or e.branch(s.seq.mask(IntVal(i))): s.val = s.seq.get(IntVal(i)); return True
            n = s.nat
            if s.live is not None and s.live.base is None: n = len(s.live.tail)
            if s.idx >= n: return False
            s.val = s.live.tail[s.idx] if s.live is not None and s.live.base is None else s.seq.get(IntVal(s.idx)); s.idx += 1; return True
        if s.seq is not None:
            if not e.branch(s.it < s.seq.n.t): return False
            if s.seq.mask is not None and not e.branch(s.seq.mask(s.it)):
                # filtered out: the body does not run for this index
                s.back(None); raise PathEnd()
            s.val = s.seq.get(s.it); return True
        # linked to a generator
        if s.count > 1:      # second arrival (cells were checked in back())
            e.nexting.append(None)
            try: next(s.iter)
            except StopIteration: return False
            finally: e.nexting.pop()
            raise Unsupported("generator yields more than once per iteration")
        e.pend_link.append(s.it); m = len(e.pend_link)
        e.nexting.append(None)
        try: s.val = next(s.iter); ok = True
        except StopIteration: ok = False
        finally: e.nexting.pop()
        if len(e.pend_link) >= m: raise Unsupported("generator without a loop of its own")
        return ok
    def item(s): return s.val
    # ------------------------------------------------------------ back edge
    def back(s, loc):
        e = s.e
        now = dict(s.cells(loc)) if loc is not None else {k: (s.cur[k] if k[0] == "v" else e.heap[k[1]].get_cell(k[2])) for k in s.cur}
        it1 = z3.simplify(s.it + 1)
        bad = []
        for k, v1 in now.items():
            if k not in s.v0: continue
            c = s.info.cands.get(k, ("same",))
            if c[0] == "fresh":
                x = c[1]
                if isinstance(x, S):
                    if not isinstance(v1, (S, int, float, bool)) or (isnum(v1) and lift(v1).k != x.k and not compatible(lift(v1), x)): bad.append((k, v1, c))
                continue
            if c[0] == "same" and isinstance(s.v0[k], Poison) and k not in s.info.live and k[0] == "v":
                if v1 is not s.v0[k]: s.info.cands[k] = ("fresh", None); bad.append(None)      # not known before the loop: only its last value can matter
                continue
            want = s.apply(c, k, s.v0[k], it1)
            if not same_value(e, v1, want):
                bad.append((k, v1, c))
        if bad and e.defer and any(lp is not s and not lp.info.stable for lp in e.entered):
            e.deferred = True; raise PathEnd()       # first settle the loops this path has been through
        if None in bad: s.info.stable = False; raise Restart("variables local to an iteration")
        if bad:
            s.info.stable = False
            first = [x for x in bad if x[2][0] != "tmpl"] or bad[:1]
            raise Restart("; ".join(s.repropose(*x) for x in first if s.info.cands.get(x[0], ("same",)) is x[2] or s.info.cands.get(x[0], ("same",)) == x[2] == ("same",)))
        s.check_invs(it1, now, "back edge"); s.check_must(it1, now, "back edge"); s.info.stable = True
        e._ob("loop invariant %s" % s.site, "proved", "z3")
        s.info.backs.append(s.guard_facts())
        if s.kind == "for" and s.seq is None:
            return tuple(loc.get(n, UNDEF) for n in s.names)      # linked: the generator's back edge follows in more()
        raise PathEnd()
    def guard_facts(s):
        """what the decisions of this iteration say about the iteration number and the state before the loop"""
        e = s.e; out = {}; me = s.it.decl().name() if z3.is_const(s.it) else None
        if me is None: return out
        for t in e.pc[s.pc_mark:]:
            cs = consts(t)
            if me in cs and len(cs) < 12 and not z3.is_quantifier(t) and s.clean(t): out[z3.simplify(t).sexpr()] = (t, s.it)
        return out
    def repropose(s, k, v1, old):
        e = s.e; v0 = s.v0[k]; cur = s.cur[k]
        tried = s.info.tries.setdefault(k, [])
        # a generator-like order of proposals
        for c in s.proposals(k, v0, v1, cur):
            tag = c_tag(c)
            n = sum(1 for t in tried if t == tag)
            if tag in ("tmpl%d" % i for i in range(99)) and n: continue
            if n >= (4 if c[0] in ("grow", "lin", "vec", "last") else 1) and c[0] != "fresh": continue
            tried.append(tag); s.info.cands[k] = c
            if c[0] == "tmpl" and k[0] == "h":      # the same closed form for the other cells of the object
                for k2 in s.v0:
                    if k2[:2] == k[:2] and k2 != k and k2 not in s.info.cands:
                        x = e.templates[c[1]](s, k2, s.v0[k2], IntVal(0))
                        if x is not None and x is not NONE and same_value(e, s.v0[k2], x): s.info.cands[k2] = c; s.info.tries.setdefault(k2, []).append(tag)
            return "cell %s of %s: %s" % (k, s.key, tag)
        raise Unsupported("no closed form for %s in %s" % (k, s.key))
    def fresh_names(s):
        e = s.e
        def is_new(n):
            b, _, i = n.rpartition("!")
            if not b or not i.isdigit(): return False
            return int(i) >= s.snap.get(b, 0)
        return is_new
    def clean(s, t):
        """no symbol created during this iteration occurs in t"""
        new = s.fresh_names()
        return not any(new(n) for n in consts(t))
    def step_fits(s, f, k, v0, v1, cur):
        """heuristic: the template explains this iteration"""
        e = s.e; b = f(s, k, v0, z3.simplify(s.it + 1))
        if b is NONE: b = None
        if b is not None and same_value(e, v1, b): return True
        a = f(s, k, v0, s.it)
        if not all(isnum(x) and not sym.isboolk(lift(x).k) for x in (a, b, v1, cur)): return False
        return e.valid(real(lift(v1)) - real(lift(cur)) == real(lift(b)) - real(lift(a)))
    def proposals(s, k, v0, v1, cur):
        e = s.e
        fit = []
        for i, f in enumerate(e.templates):
            if s.info.tries.get(k, []).count("tmpl%d" % i): continue
            x = f(s, k, v0, IntVal(0))
            if x is None: continue
            if x is NONE: x = None
            if isnum(v0) and isnum(x) and isnum(v1):
                # a closed form must explain the first iteration
                y = f(s, k, v0, IntVal(1))
                if isnum(y) and e.check_sat(s.it == 0, Not(eq_term(y, v1)), timeout=4000) == "sat": continue
            if same_value(e, v0, x): fit.append((0 if len(e.templates) < 3 or s.step_fits(f, k, v0, v1, cur) else 1, i))
        for _, i in sorted(fit): yield ("tmpl", i)
        if isinstance(v0, Seq) and isinstance(v1, Seq):
            a, b = vec_of(v0), vec_of(v1)
            if a is not None and b is not None and len(a) == len(b) and all(isnum(x) for x in a + b):
                cc = vec_of(cur) or a
                outs = []
                for i in range(len(a)):
                    ck = s.info.cands.get(k); ci = ck[1][i] if ck and ck[0] == "vec" else ("same",)
                    want = s.apply(ci, k + (i,), a[i], z3.simplify(s.it + 1))
                    if same_value(e, b[i], want): outs.append(ci); continue
                    ch = None
                    for p in s.proposals(k + (i,), a[i], b[i], cc[i]):
                        if p[0] != "fresh" or ch is None: ch = p
                        break
                    outs.append(ch)
                yield ("vec", outs)
            elif v1.mask is None and v0.mask is None and isinstance(cur, Seq) and k[-1] == "list":
                d = concrete(binop("-", v1.n, cur.n))
                if d is not None and 0 < d <= 16:
                    items = [v1.get(z3.simplify(cur.n.t + i)) for i in range(d)]
                    ok = all(isnum(x) for x in items)
                    if ok:
                        items = [lift(x) for x in items]
                        if all(s.clean(x.t) for x in items): yield ("grow", [S(z3.simplify(x.t), x.k, x.lo, x.hi, x.tz, x.g) for x in items], s.it)
        elif isnum(v0) and isnum(v1) and isnum(cur):
            a, b, c = lift(v0), lift(v1), lift(cur)
            if not sym.isboolk(a.k) and not sym.isboolk(b.k):
                if sym.isintk(a.k) and sym.isintk(b.k):
                    d = z3.simplify(intt(b) - intt(c))
                    if k[0] == "h" and k[2] == "pos" and isinstance(e.heap[k[1]], iomod_infile()):
                        f = e.heap[k[1]]; rs = [r for fk, r in e.reads[s.read_mark:] if fk == k[1]]
                        if rs:
                            step = z3.simplify(sum(rs[1:], rs[0])); n = f.c.n.t; w = c.t + step
                            if s.clean(step) and s.it.decl().name() not in consts(step):
                                if e.valid(b.t == w): yield ("lin", step, "pyint")
                                if e.valid(b.t == If(w < n, w, n)): yield ("eof", step, n)
                    elif not z3.is_int_value(d):
                        r = e.check_sat()
                        if r == "sat":
                            dv = e.model.eval(d, model_completion=True)
                            if z3.is_int_value(dv) and e.valid(d == dv): yield ("lin", dv, b.k)
                    if s.clean(d) and s.it.decl().name() not in consts(d): yield ("lin", d, b.k)
                elif sym.isfltk(b.k):
                    d = z3.simplify(real(b) - real(c))
                    if s.clean(d) and s.it.decl().name() not in consts(d): yield ("lin", d, b.k)
        if isnum(v1) and (isnum(v0) or v0 is None or isinstance(v0, Poison)):
            b = lift(v1)
            prev = set(consts(lift(cur).t)) if isnum(cur) else set()
            if s.clean(b.t): yield ("last", S(b.t, b.k, b.lo, b.hi, b.tz, b.g), s.it)
        p0, p1 = fixed_bytes(v0), fixed_bytes(v1)
        if p0 is not None and p1 is not None and len(p0) == len(p1) and p0 and all(s.clean(t) for t in p1): yield ("last", iomod_().bytes_of_terms(p1), s.it)
        if isnum(v1) and isnum(v0) and not isinstance(v1, Poison):
            a, b = lift(v0), lift(v1)
            kk = b.k if compatible(a, b) else None
            if kk: yield ("fresh", S(b.t, wider(a, b)))
        yield ("fresh", None)
def c_tag(c): return "tmpl%d" % c[1] if c[0] == "tmpl" else c[0] + ("" if c[0] != "fresh" else "S" if c[1] is not None else "P")
def wider(a, b):
    if sym.isfltk(a.k): return a.k
    return b.k
def compatible(a, b): return sym.isfltk(a.k) == sym.isfltk(b.k) and sym.isboolk(a.k) == sym.isboolk(b.k)
def vec_of(q):
    c = concrete(q.n)
    if c is None or q.mask is not None or c > 64: return None
    return [q.get(IntVal(i)) for i in range(c)]
def vec_seq(xs): return npshim.seq_of_values(xs)

def same_value(e, a, b):
    if a is b: return True
    if isinstance(a, Poison) or isinstance(b, Poison): return False
    if isnum(a) and isnum(b):
        x, y = lift(a), lift(b)
        if sym.isboolk(x.k) != sym.isboolk(y.k): return False
        return e.valid(eq_term(x, y))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if not e.valid(a.n.t == b.n.t): return False
        if (a.mask is None) != (b.mask is None): return False
        c = concrete(a.n)
        if c == 0: return True
        if c is not None and c <= 32 and a.mask is None: return all(same_value(e, a.get(IntVal(i)), b.get(IntVal(i))) for i in range(c))
        k = e.fresh_int("sv")
        n0 = len(e.dec), e.pos
        x, y = a.get(k), b.get(k)
        if not (isnum(x) and isnum(y)): return x is y
        dom = And(k >= 0, k < a.n.t)
        if a.mask is not None:
            if not e.valid(Implies(dom, a.mask(k) == b.mask(k))): return False
            dom = And(dom, a.mask(k))
        return e.valid(Implies(dom, eq_term(x, y)))
    if isinstance(a, A) and isinstance(b, A):
        if a.kind != b.kind or a.cols != b.cols: return False
        return same_value(e, a.seq(), b.seq())
    if a is None or b is None: return False
    if hasattr(a, "_vf_same"): return a._vf_same(e, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same_value(e, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a == b
    p, q = fixed_bytes(a), fixed_bytes(b)
    if p is not None and q is not None: return len(p) == len(q) and e.valid(And(*[x == y for x, y in zip(p, q)]))
    return False

def pos_inv(lp, it, vals):
    return [v.t <= lp.e.heap[k[1]].c.n.t for k, v in vals.items() if k[0] == "h" and k[2] == "pos" and isinstance(lp.e.heap[k[1]], iomod_infile())]
def iomod_infile():
    import iomod
    return iomod.InFile
def eof_inv(lp, it, vals):
    out = []
    for k, v in vals.items():
        c = lp.info.cands.get(k)
        if c and c[0] == "eof": out.append(Or(it == 0, lift(lp.v0[k]).t + c[1] * (it - 1) < c[2]))
    return out
