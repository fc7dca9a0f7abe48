"""Path exploration, solver access, obligations, loop summarisation."""
import time, traceback, sys, os, itertools
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
import sym
from sym import S, Unsupported, PathEnd, Restart, lift, concrete, isnum, eq_term

TIMEOUT = 15000
TRACE = os.environ.get('VF_TRACE')

class Poison:
    """value of a havocked variable that the engine cannot represent"""
    def __init__(s, why, retry=None): object.__setattr__(s, "why", why); object.__setattr__(s, "retry", retry)
    def _u(s, *a, **k):
        r = object.__getattribute__(s, "retry")
        if r: r()
        raise Unsupported("use of havocked value: " + object.__getattribute__(s, "why"))
    __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __add__ = __eq__ = __ne__ = __lt__ = __str__ = __format__ = _u
    __hash__ = None
    def __getattr__(s, n): s._u()

class Engine:
    def __init__(s, name, timeout=TIMEOUT, ideal=False):
        s.job, s.timeout, s.ideal = name, timeout, ideal
        s.loopinfo = {}; s.cutloops = set(); s.linked = set()
        s.obl = []; s.solver_s = 0.0; s.queries = 0; s.paths = 0; s.restarts = 0; s.vacuity = 0
        s.backends = {}
        s.notes = []; s.templates = []          # contract supplied closed forms
        s.must_invs = []; s.invariants = []                       # contract supplied loop invariants: fn(loop) -> [z3 Bool]
        s.trusted = set(); s.functions = set(); s.used_contracts = set()
        s.deadline = None
        s.guarded = False; s.defer = True; s.deferred = False
        s.opaque = False                        # products and quotients of unknown reals uninterpreted until needed
        s.strong_havoc = None                   # which havocked cells may have any value as far as the property is concerned
        s.replayer = None                       # model -> list of harness cases
        s.max_unroll = 3; s.bounded = int(os.environ.get('VF_BOUNDED') or 0)
        sym.set_engine(s)
    # ------------------------------------------------------------ paths
    def explore(s, fn):
        while True:
            try:
                s._explore(fn)
                if s.bounded or s.guarded or not any(o["status"] != "proved" for o in s.obl): return
                # refuted: perhaps for lack of 'the guard held before'; learn what every iteration decided and try again
                s.guarded = True; more = False
                for i in s.loopinfo.values():
                    if i.backs:
                        ks = set(i.backs[0]).intersection(*i.backs[1:])
                        if ks and len(ks) <= 40: i.learned = {k: i.backs[0][k] for k in sorted(ks)}; more = True
                if not more: return
                raise Restart("guards learned")
            except Restart as e:
                s.restarts += 1; s.defer = str(e) != "loops settled"
                if TRACE: print("restart", e, "t=%.1f" % s.solver_s, file=sys.stderr, flush=True)
                if s.restarts > 300: raise Unsupported("loop summarisation did not converge: %s" % (e,))
    def _explore(s, fn):
        work = [[]]; s.obl = []; s.deferred = False
        for i in s.loopinfo.values(): i.backs = []
        while work:
            if s.deadline and time.time() > s.deadline: raise Unsupported("proof time limit")
            dec = work.pop(); s._begin(dec)
            s.paths += 1
            try: fn()
            except PathEnd: pass
            work.extend(s.alts)
            if not work and s.deferred: s.defer = False; raise Restart("loops settled")
            if s.bounded and (s.paths >= 400 or sum(o["status"] == "failed" for o in s.obl) >= 3): return
            if s.paths > 20000: raise Unsupported("too many paths")
    def _begin(s, dec):
        sym.set_engine(s)
        s.dec = list(dec); s.pos = 0; s.alts = []; s.pc = []; s.solver = z3.Solver(); s.solver.set("timeout", s.timeout)
        s.ctr = {}; s.tokens = {}; s.active = []; s.pend_link = []; s.clock = 0; s.heap = {}; s.weak = set(); s.ghosts = {}; s.rnds = []; s.float_inputs = []
        s.pow2s = {}; s.cache = {}; s.touchlog = []; s.assumed_facts = []
        s.nexting = []; s.str_int_hook = None; s.streq_hook = None; s.argv = ['prog']; s.warned = False; s.text = []; s.rng = 0; s.reads = []; s.files = {}; s.outs = {}; s.fs_hook = None; s.out_hook = None; s.fs_events = []
        s.hooks_shift = []; s.hooks_sub = []; s.hooks_mask = []; s.context = None; s.stdout = None; s.stdin = None; s.stdin_file = None; s.args_hook = None; s.entered = []; s.warn_error = False
    def assume(s, c):
        if isinstance(c, S): c = sym.truth(c)
        if isinstance(c, bool): c = BoolVal(c)
        s.pc.append(c); s.solver.add(c); s.cache = {}
    def assume_checked(s, c):
        s.assume(c)
        if s.check_sat() == "unsat": raise PathEnd()
    def check_sat(s, *extra, timeout=None):
        t0 = time.time()
        if timeout: s.solver.set("timeout", timeout)
        if extra:
            s.solver.push()
            for e in extra: s.solver.add(e)
        r = s.solver.check()
        s.model = s.solver.model() if r == z3.sat else None
        if extra: s.solver.pop()
        if timeout: s.solver.set("timeout", s.timeout)
        s.solver_s += time.time() - t0; s.queries += 1
        if TRACE and time.time() - t0 > 1: print("slow %.1f %s: %s" % (time.time() - t0, r, " ".join(str(extra)[:300].split())), [f.name for f in traceback.extract_stack()[-8:-1]], file=sys.stderr, flush=True)
        return str(r)
    def branch(s, c):
        if isinstance(c, S): c = sym.truth(c)
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.pos < len(s.dec):
            d = s.dec[s.pos]; s.pos += 1
            if d[0] == "F": s.assume(c if d[1] else Not(c))
            elif d[0] == "K": pass
            return d[1]
        a, b = s.check_sat(c), s.check_sat(Not(c))
        if a == "unsat" and b == "unsat": raise PathEnd()       # infeasible path
        if a == "unsat": s.dec.append(("K", False)); s.pos += 1; return False
        if b == "unsat": s.dec.append(("K", True)); s.pos += 1; return True
        s.note_fork()
        s.alts.append(s.dec + [("F", False)])
        s.dec.append(("F", True)); s.pos += 1; s.assume(c)
        return True
    def choose(s, n, label=""):
        """unconstrained choice among n alternatives"""
        if n == 1: return 0
        if s.pos < len(s.dec):
            d = s.dec[s.pos]; s.pos += 1; return d[1]
        for i in range(n - 1, 0, -1): s.alts.append(s.dec + [("C", i)])
        s.dec.append(("C", 0)); s.pos += 1
        return 0
    def note_fork(s):
        if s.bounded: return
        """a symbolic decision inside a natively unrolled while loop: summarise that loop instead"""
        for lp in reversed(s.active):
            if lp.kind == "while" and lp.mode == "native" and lp.count >= s.max_unroll:
                s.cutloops.add(lp.key); raise Restart("cut loop %s" % (lp.key,))
            if lp.mode == "cut": break
    def valid(s, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return s.check_sat() == "unsat"
        return s.check_sat(Not(c)) == "unsat"
    def cheap_valid(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if (k, "v") in s.cache: return s.cache[(k, "v")][0]
        r = s.check_sat(Not(c), timeout=3000) == "unsat"
        s.cache[(k, "v")] = (r, c)
        return r
    # ------------------------------------------------------------ fresh symbols
    def name(s, base):
        n = s.ctr.get(base, 0); s.ctr[base] = n + 1
        return "%s!%d" % (base, n)
    def fresh_int(s, base="i", weak=False):
        n = s.name(base); v = z3.Int(n)
        if weak: s.weak.add(n)
        return v
    def fresh_real(s, base="r", weak=False):
        n = s.name(base); v = z3.Real(n)
        if weak: s.weak.add(n)
        return v
    def fresh_bool(s, base="b", weak=False):
        n = s.name(base); v = z3.Bool(n)
        if weak: s.weak.add(n)
        return v
    def fresh_fun(s, base, *sorts, weak=False):
        n = s.name(base)
        if weak: s.weak.add(n)
        return z3.Function(n, *sorts)
    def pow2(s, t):
        c = z3.simplify(t)
        if z3.is_int_value(c): return IntVal(2 ** c.as_long())
        P = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        k = c.get_id()
        if k not in s.pow2s:
            for (u, p) in list(s.pow2s.values()):
                # monotone and doubling instances
                s.assume(Implies(c <= u, P(c) <= P(u))); s.assume(Implies(u <= c, P(u) <= P(c)))
            s.pow2s[k] = (c, P(c))
            s.assume(P(c) >= 1); s.assume(Implies(c >= 1, P(c) % 2 == 0)); s.assume(Implies(c == 0, P(c) == 1))
            s.assume(Implies(c >= 0, P(c + 1) == 2 * P(c)))
        return P(c)
    def shift_hook(s, a, b):
        for h in s.hooks_shift:
            r = h(a, b)
            if r is not None: return r
    def mask_hook(s, a, sh):
        for h in s.hooks_mask:
            r = h(a, sh)
            if r is not None: return r
    def sub_hook(s, a, h, n):
        for k in s.hooks_sub:
            r = k(a, h, n)
            if r is not None: return r
    def token(s, x, spec):
        i = len(s.tokens); s.tokens[i] = (x, spec)
        return "\ue000%d\ue001" % i
    def round_(s, a, nd):
        import npshim
        return npshim.py_round(a, nd)
    # ------------------------------------------------------------ obligations
    def prove(s, name, c, detail="", cases=None):
        """obligation: c holds on this path"""
        if isinstance(c, S): c = sym.truth(c)
        if isinstance(c, bool): c = BoolVal(c)
        q = z3.simplify(c)
        if z3.is_true(q): s._ob(name, "proved", "simplifier"); return True
        r = s.check_sat(Not(c)); backend = "z3"; model = s.model
        if r == "unknown":
            s2 = z3.Solver(); s2.set("timeout", s.timeout * 2); s2.add(*s.pc); s2.add(Not(c)); t0 = time.time()
            r = str(s2.check()); s.solver_s += time.time() - t0; backend = "z3 (fresh)"
            if r == "sat": model = s2.model()
            if r == "unknown":
                r = cvc5_check(s.pc + [Not(c)]); backend = "cvc5"; model = None
        if r == "unsat": s._ob(name, "proved", backend); return True
        if s.opaque:
            s2 = z3.Solver(); s2.set("timeout", s.timeout); s2.add(*[sym.interpreted(p) for p in s.pc]); s2.add(sym.interpreted(Not(c))); t0 = time.time()
            r = str(s2.check()); s.solver_s += time.time() - t0; backend = "z3 (nonlinear)"; model = s2.model() if r == "sat" else None
            if r == "unknown":
                r = cvc5_check([sym.interpreted(p) for p in s.pc] + [sym.interpreted(Not(c))]); backend = "cvc5"
            if r == "unsat": s._ob(name, "proved", backend); return True
        if r == "sat":
            w = s.weak_in(c) if s.weak else None
            if w and all(x.startswith("rnd") for x in w):
                # rounding is the only abstraction: look for a counter-model in which nothing is rounded
                m2 = s.exact_model(Not(c))
                if m2 is not None: model, w = m2, None
            det = "counter-model: " + mstr(model) + ("; goal: " + str(z3.simplify(c))[:500]) + detail
            cs = None
            if model is not None and (cases or s.replayer):
                try: cs = (cases or s.replayer)(model)
                except Exception as e: det += " (no replay: %r)" % (e,)
            if w: s._ob(name, "undecided", "refuted only under abstraction of %s; %s" % (sorted(w)[:6], det), cs)
            else: s._ob(name, "failed", det, cs)
        else: s._ob(name, "undecided", "solver gave no answer; goal: " + str(q)[:400] + detail)
        s.assume(c)
        return False
    def lemma(s, name, c):
        s.prove("lemma: " + name, c); s.assume(c)
    def fail(s, name, detail, cases=None):
        """obligation that cannot hold on this (feasible) path"""
        r = s.check_sat()
        if r == "unsat": raise PathEnd()
        cs = None
        if r == "sat":
            model = s.model
            if cases or s.replayer:
                try: cs = (cases or s.replayer)(model)
                except Exception as e: detail += " (no replay: %r)" % (e,)
            s.model = model
            if s.weak:
                w = s.weak_in(And(*s.pc) if s.pc else BoolVal(True))
                if w: s._ob(name, "undecided", "reached only under abstraction of %s: %s" % (sorted(w)[:6], detail), cs); return
            s._ob(name, "failed", detail + "; counter-model: " + mstr(s.model), cs)
        else: s._ob(name, "undecided", detail + " (path feasibility unknown)")
    def _ob(s, name, status, detail="", cases=None):
        if status == "proved": s.backends[detail] = s.backends.get(detail, 0) + 1; detail = ""
        s.obl.append(dict(name=name, status=status, detail=detail[:3000], cases=cases))
    def exact_model(s, c):
        q = [r == t for t, r in s.rnds] + [z3.IsInt(t * 1024) for t, r in s.rnds] + [And(t < 2**42, t > -2**42) for t, r in s.rnds]
        for x in s.float_inputs: q += [z3.IsInt(x * 2**17), x < 2**20, x > -2**20]
        s2 = z3.Solver(); s2.set("timeout", s.timeout); s2.add(*s.pc); s2.add(c, *q); t0 = time.time()
        r = s2.check(); s.solver_s += time.time() - t0
        return s2.model() if r == z3.sat else None
    def weak_in(s, c):
        """havocked symbols in the cone of influence of the formula (through the path condition)"""
        import loops
        syms = loops.consts(c); rest = [(loops.consts(p), p) for p in s.pc]; again = True
        while again:
            again = False; keep = []
            for cs, p in rest:
                if cs & syms:
                    if not cs <= syms: syms |= cs; again = True
                else: keep.append((cs, p))
            rest = keep
        return syms & s.weak
    def vacuous(s, name="precondition"):
        """reachability check: the assumptions so far are satisfiable"""
        s.vacuity += 1
        r = s.check_sat()
        if r == "unsat": s._ob("reachable: " + name, "undecided", "assumptions are contradictory")
        elif r == "sat": s._ob("reachable: " + name, "proved", "z3")
    # ------------------------------------------------------------ heap
    def register(s, obj, site):
        s.clock += 1; obj._birth = s.clock
        n = s.ctr.get(("obj", site), 0); s.ctr[("obj", site)] = n + 1
        obj._key = "%s#%d" % (site, n)
        s.heap[obj._key] = obj
    def touch(s, obj, cell):
        """called before a tracked object's cell is changed"""
        w = getattr(obj, "_input", None)
        if w: s.fail("%s is not modified" % w, "the function writes to its input")
        for lp in s.active:
            if lp.mode == "cut" and obj._birth <= lp.entry_clock:
                k = (obj._key, cell)
                if k not in lp.info.heapmods:
                    lp.info.heapmods.add(k); raise Restart("loop %s modifies %s.%s" % (lp.key, obj._key, cell))
        s.touchlog.append((obj._key, cell))

    # ------------------------------------------------------------ file system
    def fs_lookup(s, p):
        p = str(p)
        if s.fs_hook:
            c = s.fs_hook(p)
            if c is not None: return c
        if p in s.files: return s.files[p]
        raise sym.pyerr(FileNotFoundError, 2, "No such file or directory: %r" % p)
    def fs_exists(s, p):
        p = str(p)
        if s.fs_hook and s.fs_hook(p) is not None: return True
        return p in s.files
    def fs_out(s, p, mode):
        import iomod
        p = str(p)
        if s.out_hook: p = s.out_hook(p) or p
        s.fs_events.append(("open", p, mode))
        if p not in s.outs: s.outs[p] = iomod.OutContent(p, None)
        return s.outs[p]
    def fs_unlink(s, p, missing_ok=False):
        p = str(p); q = (s.out_hook(p) or p) if s.out_hook else p
        gone = False
        for ev in s.fs_events:
            if ev[1] in (p, q): gone = ev[0] == "unlink"
        if gone or not (s.fs_exists(p) or any(ev[1] == q for ev in s.fs_events)):
            if missing_ok: return
            raise sym.pyerr(FileNotFoundError, 2, "No such file or directory: %r" % p)
        s.fs_events.append(("unlink", p))
    def out_text(s, x):
        if s.stdout is not None: s.stdout.write(x)
        else: s.text.append(x)
    def expect(s, p, ex):
        import iomod
        s.outs[p] = iomod.OutContent(p, ex); return s.outs[p]

def mstr(m):
    if m is None: return "none"
    out = []
    for d in m.decls()[:60]:
        try: out.append("%s=%s" % (d.name(), str(m[d]).replace("\n", " ")[:120]))
        except Exception: pass
    return ", ".join(out)[:1800]

def cvc5_check(cs, limit=15):
    import subprocess, tempfile
    so = z3.Solver(); so.add(*cs)
    txt = "(set-logic ALL)\n" + so.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (limit * 1000), f.name], capture_output=True, text=True, timeout=limit + 10)
        o = p.stdout.strip().split("\n")[0]
        return o if o in ("sat", "unsat") else "unknown"
    except Exception: return "unknown"
    finally: os.unlink(f.name)
