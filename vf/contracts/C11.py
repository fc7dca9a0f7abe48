"""T3 files: coincidence matrix, accepted count, garbage counts and error ratio against ghost tallies over the entries."""
from epcommon import *
TRUSTED = ETRUSTED + ["the ratio of two counts below 2^53 is one correctly rounded double division", "round(x, 3) is correctly rounded"]
CODE = {1: 0, 2: 1, 4: 2, 8: 3}
def jobs(tier): return [Job("read_T3", reading, max_unroll=1), Job("lemma: ratio", ratio_lemma)]
def ratio_lemma(e, load):
    x, y, q, t = e.fresh_real("x"), e.fresh_real("y"), e.fresh_real("q"), e.fresh_real("t"); e.assume(And(x >= 0, y >= 0, x + y > 0, q * (x + y) == x)); e.vacuous()
    e.prove("a share of a total lies between 0 and 1", And(q >= 0, q <= 1)); e.prove("division is the inverse of multiplication", x / (x + y) == q)

class T3File:
    def __init__(s, e):
        s.e = e; s.W, s.N, s.ep = e.fresh_int("words"), e.fresh_int("N"), e.fresh_int("epoch"); e.assume(And(s.W >= 0, s.N >= 0, s.N <= 4 * s.W, s.W < 2**29, s.ep >= 0, s.ep < 2**32))
        s.B = e.fresh_fun("byte", Int, Int); s.D = e.fresh_fun("entry", Int, Int); s.done = {}
        s.H = [e.fresh_int("hdr") for _ in range(16)]
        for b in s.H: iomod.byte_fact(b)
        def w(i): return sum(s.H[4 * i + j] * 256**j for j in range(4))
        e.assume(And(w(0) == 0x103, w(1) == s.ep, w(2) == s.N, w(3) == 8))
        s.C = [e.fresh_fun("COINC%d_" % i, Int, Int) for i in range(16)]; s.OK, s.GA, s.GB = [e.fresh_fun(n, Int, Int) for n in ("OK", "GARBAGEA", "GARBAGEB")]
        s.content = iomod.BinContent(S(16 + 4 * s.W, "pyint", 16), s.byte)
    def byte(s, i):
        i = z3.simplify(zi(i))
        if z3.is_int_value(i) and i.as_long() < 16: return s.H[i.as_long()]
        b = s.B(z3.simplify(i - 16)); iomod.byte_fact(b); return b
    def facts(s, k):
        """entry k and the tallies over entries 0..k-1 (defining equations of the ghosts, used at k)"""
        k = z3.simplify(zi(k)); i = k.get_id()
        if i in s.done: return k
        s.done[i] = k; e = s.e; d = s.D(k); r = 4 * (k / 4)
        e.assume(And(d >= 0, d <= 255, Implies(k >= 0, d == s.byte_at(k))))
        A_, B_ = d / 16, d % 16
        one = lambda x: Or(*[x == c for c in CODE])
        k1 = z3.simplify(k + 1); inc = lambda f, c: f(k1) == f(k) + If(c, 1, 0)
        e.assume(Implies(k >= 0, And(*[inc(s.C[4 * CODE[x] + CODE[y]], And(A_ == x, B_ == y)) for x in CODE for y in CODE],
            inc(s.OK, And(one(A_), one(B_))), inc(s.GA, Not(one(A_))), inc(s.GB, Not(one(B_))), *[f(k) >= 0 for f in s.C])))
        return k
    def byte_at(s, k):
        """byte k most-significant first within its little-endian word"""
        r = None
        for j in range(4):
            b = s.B(4 * (k / 4) + 3 - j); iomod.byte_fact(b); r = b if r is None else If(k % 4 == j, b, r)
        return r
    def templates(s):
        for f in [*s.C, s.OK, s.GA, s.GB]: s.e.assume(f(0) == 0)
        def num(v0): return isnum(v0) and sym.isintk(lift(v0).k)
        def t(f): return lambda lp, k, v0, it: S(f(s.facts(it)), "pyint", 0) if num(v0) else None
        return [t(f) for f in [*s.C, s.OK, s.GA, s.GB]]
    def model(s, m):
        ev = lambda t: m.eval(z3.simplify(t), model_completion=True).as_long()
        n = ev(s.N); ks = list(range(min(n, 40))) + [k for k in model_index(m, ("it!", "k!")) if 40 <= k < n]
        return dict(entries=[ev(s.byte_at(IntVal(k))) % 256 for k in ks])

def reading(e, load):
    f = T3File(e); e.files["/work/ba1f36c0"] = f.content; e.templates[:] = f.templates()
    e.replayer = lambda m: [f.model(m), dict(entries=f.model(m)["entries"] * 3 + [0x11, 0x14])]
    e.vacuous()
    r = must_return(e, "read_T3", load(EMOD).read_T3, "/work/ba1f36c0")
    N = f.N; f.facts(N)
    q = as_seq(r.coinc_matrix)
    if concrete(q.n) != 16: e.fail("the matrix has 16 cells", repr(q.n)); return
    for i in range(16): e.prove("coincidence matrix", real(lift(q.get(IntVal(i)))) == ToReal(f.C[i](N)))
    e.prove("accepted count", real(lift(r.okcount)) == ToReal(f.OK(N)))
    g = as_seq(r.garbage)
    e.prove("garbage counts", And(real(lift(g.get(IntVal(0)))) == ToReal(f.GA(N)), real(lift(g.get(IntVal(1)))) == ToReal(f.GB(N))))
    same = sum(f.C[i](N) for i in (0, 5, 10, 15)); orth = sum(f.C[i](N) for i in (2, 7, 8, 13)); z = real(lift(r.qber))
    e.prove("error ratio without counts", Implies(same + orth == 0, z == RealVal("1/2")))
    eps = RealVal("1/1000000000"); R = lambda js: sum((ToReal(f.C[i](N)) for i in js[1:]), ToReal(f.C[js[0]](N))); rs, ro = R((0, 5, 10, 15)), R((2, 7, 8, 13))
    some = same + orth > 0; q = e.fresh_real("ratio"); e.assume(Implies(some, q * (rs + ro) == rs)); e.assume(Implies(some, And(q >= 0, q <= 1)))         # see ratio_lemma
    for t, r_ in e.rnds:
        t = z3.simplify(t)
        if z3.is_app_of(t, z3.Z3_OP_DIV) and e.valid(Implies(some, And(t.arg(0) == rs, t.arg(1) == rs + ro))): 
            e.assume(Implies(some, And(t == q, r_ - q <= q / 2**53, q - r_ <= q / 2**53)))       # what the code divides is the ratio; one rounding
    e.prove("error ratio", Implies(some, And(z - q <= RealVal("1/2000") + eps, q - z <= RealVal("1/2000") + eps)))
    k = z3.ToInt(1000 * z + RealVal("1/2")); e.prove("error ratio to three decimals", And(1000 * z - ToReal(k) <= eps, ToReal(k) - 1000 * z <= eps))
