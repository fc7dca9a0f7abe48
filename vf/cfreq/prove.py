#!/usr/bin/env python3
"""Deductive check of freqcd.c: annotate (annotate.py, spec.py), generate verification conditions
with CBMC (every loop cut at its invariant, so nothing is unwound), discharge them with cvc5 / Z3."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
import annotate, spec

ALLJOBS = ["start", "step", "keepevent", "events", "lines", "keepline"]
def plan(prop):
    """(job, tag) pairs whose obligations make up the proof of prop: its own and those of every invariant it assumes"""
    tags = {"C20": ["C20", "C22", "C21", "C23"], "C21": ["C21", "C23"], "C22": ["C22", "C21", "C23"], "C23": ["C23", "C21"]}[prop]
    out = []
    for t in tags:
        for j in ALLJOBS:
            if t == "C20" and j == "events": out += [("events-hit0", t), ("events-hit1", t), ("events-hitB", t), ("events-miss", t)]
            elif t == "C23" and j not in ("start", "step"): continue
            elif t == "C20" and j in ("keepevent", "keepline", "lines"): continue      # no C20 invariant on these loops
            elif t == "C22" and j in ("keepevent", "events"): continue
            else: out.append((j, t))
    return out
TRUSTED = ["contracts of read, write, open, select, malloc, getopt, sscanf, strtol, pow, exit as written in vf/cfreq/ghost.h",
           "CBMC's translation of C to verification conditions (C semantics of gcc/x86-64: two's complement, wrapping signed arithmetic), cvc5 and Z3",
           "the loop transformation of vf/cfreq/annotate.py (base, havoc of everything modified, assume, step); modified variables and aliases computed from the clang AST",
           "the frequency stream contains no NUL byte; fewer than 2^60 bytes per stream",
           "the frequency and event streams are read through the descriptors opened for them; descriptors are below FD_SETSIZE"]
FUNCS = ["main", "readint", "emsg"]

def sh(cmd, t):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    with LOCK: LIVE.add(p)
    try: out, _ = p.communicate(timeout=max(t, 1)); return out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate(); return ""
    finally:
        with LOCK: LIVE.discard(p)
LOCK = threading.Lock(); LIVE = set()
COMMON = ["--no-malloc-may-fail", "--no-standard-checks", "--unwind", "17", "--unwinding-assertions", "--slice-formula"]

def lemmas():
    obl = []
    import z3
    a, f, d, q = z3.Ints("a f d q"); s = z3.Solver()
    s.add(a >= 0, a <= 4095, f <= 2097151, f >= -2097151, z3.Or(a * f >= 2 ** 33, a * f <= -2 ** 33))
    ok = s.check() == z3.unsat
    s = z3.Solver(); s.add(d == 4096 * q + a, d * f != 4096 * (q * f) + a * f); ok2 = z3.simplify((4096 * q + a) * f - 4096 * (q * f) - a * f, som=True).eq(z3.IntVal(0))
    obl.append(("lemma mulrange: |(d mod 4096) f| < 2^33 and d f = 4096 (d div 4096) f + (d mod 4096) f", ok and ok2))
    import numpy as np
    v = np.arange(-1220703, 1220704, dtype=np.int64)
    got = np.trunc(v * 1.7179869184).astype(np.int64); q = (np.abs(v) * 2 ** 34) // 10 ** 10
    obl.append(("lemma conv: trunc(v * 1.7179869184) in double arithmetic equals trunc(v 2^34 / 10^10), all |v| <= 1220703", bool((got == np.sign(v) * q).all()) and 1.7179869184 == 2 ** 34 / 1e10))
    obl.append(("lemma dmax: |v| 2^34 < 2^21 10^10 exactly when |v| <= 1220703", 1220703 * 2 ** 34 < 2 ** 21 * 10 ** 10 <= 1220704 * 2 ** 34))
    return obl

def case_of(trace):
    """two events and an offset from a counter-model of the event step"""
    def last(n):
        m = re.findall(r"^\s*%s=(-?\d+)" % n, trace, re.M); return int(m[-1]) if m else None
    ev, ref, fb, x = last("g_evk"), last("tsref"), last("fcorr"), last("g_x")
    if None in (ev, ref, fb): return None
    lo, hi = ev & 0xffffffff, (ev >> 32) & 0xffffffff
    if x: lo, hi = hi, lo
    ts = (hi << 22) | (lo >> 10)
    return [dict(legacy=bool(x), f=fb, events=[[ref & (2 ** 54 - 1), 0], [ts, lo & 1023], [ts, 5]], cuts=[8, 16], tail=0)]

def run(prop, tier):
    t0 = time.time(); limit = 320 if tier == "quick" else 520; dl = t0 + limit
    out = dict(obligations=[], functions=FUNCS, trusted=TRUSTED, notes=[], solver_s=0.0, backends={}, paths=0, vacuity=0, error=None, restarts=0)
    obl = out["obligations"]
    def add(name, status, detail="", cases=None): obl.append(dict(name=name, status=status, detail=detail, cases=cases))
    wd = tempfile.mkdtemp(prefix="cfreq")
    try:
        for nm, ok in lemmas(): add("freqcd: " + nm, "proved" if ok else "undecided", "" if ok else "refuted or not shown")
        try:
            used, missing = annotate.annotate(os.path.join(REPO, "src/fpfind/freqcd.c"), spec.role, spec.CONTRACTS, os.path.join(wd, "f.c"))
        except annotate.Unsupported as x:
            out["error"] = "annotation: %s" % x; add("freqcd: loops annotated", "undecided", str(x)); return out
        gone = [r for r in spec.CONTRACTS if r not in used]
        if gone or missing:
            out["notes"].append("loops without a contract: %s; contracts without a loop: %s" % (missing, gone))
        if gone: add("freqcd: every loop contract has its loop", "undecided", str(gone)); out["error"] = "loop structure changed: " + str(gone); return out
        with open(os.path.join(wd, "f.c"), "a") as f: f.write(open(os.path.join(HERE, "harness.c")).read())
        tasks = []; built = {}
        for job, tag in plan(prop):
            o = os.path.join(wd, "%s%s.o" % (job, tag))
            p = subprocess.run(["goto-cc", "-I" + HERE, "-include", os.path.join(HERE, "ghost.h")] + spec.macros(job, tag) + ["-o", o, os.path.join(wd, "f.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                out["error"] = "goto-cc: " + p.stdout.decode(errors="replace")[-600:]; add("freqcd: annotated source compiles", "undecided", out["error"]); return out
            chk = ["--pointer-check", "--bounds-check"] if tag == "C21" else []
            txt = sh(["cbmc", o] + COMMON[:2] + chk + ["--show-properties"], 60)
            groups = {}
            for n, l, d in re.findall(r"^Property (\S+):\n(.*)\n(.*)\n", txt, re.M):
                d = d.strip(); fn = re.search(r"function (\S+)", l); ln = re.search(r"line (\d+)", l); fn = fn.group(1) if fn else "?"
                if ".assertion." in n:
                    if (job == "events-hitB") != d.startswith("C20: the correction computed"): continue
                    if not (d.startswith(tag + ": ") or d.startswith("internal: ") and tag in ("C21", "C23") or d.startswith("vacuity")): continue
                    if d.startswith("vacuity") and (tag != prop or (" %s loop" % spec.JOBS[job.partition("-")[0]][-1]) not in d): continue
                    k = d
                elif ".no-body." in n: continue
                elif ".unwind" in n: k = "internal: no loop is left to unwind"
                elif tag == "C21": k = "memory safety of %s, line %s" % (fn.replace("vf_main", "main"), ln.group(1) if ln else "?") if fn in ("vf_main", "readint", "emsg", "usage") else "memory safety inside the contracts, %s" % fn
                else: continue
                groups.setdefault(k, []).append(n)
            if not groups: add("freqcd: obligations of job %s" % job, "undecided", "none generated")
            for k, ns in groups.items(): tasks.append((job, tag, k, ns, o, chk))
        bad_nobody = set()
        SLOW = ["input still to come", "partial event untouched", "partial line kept", "(offset in force)", "text", "last"]
        tasks.sort(key=lambda t: ("memory" in t[2], not any(x in t[2] for x in SLOW), "vacuity" in t[2]))
        def one(t):
            job, tag, k, ns, o, chk = t; res = "?"; used = None; txt = ""; ts = time.time(); extra = []
            for n in ns: extra += ["--property", n]
            first = "--z3" if "events-hit" in job else "--cvc5"
            for b, tmo in ((first, 130), ("--z3" if first == "--cvc5" else "--cvc5", 130)):
                left = dl - time.time()
                if left < 2: break
                txt = sh(["cbmc", o] + COMMON + chk + [b] + extra, min(tmo, left))
                used = b[2:]
                for m in re.findall(r"no body for (?:function|callee) '?([A-Za-z_0-9]+)", txt):
                    if not m.startswith(("nondet_", "__CPROVER_uninterpreted_")): bad_nobody.add(m)
                if "VERIFICATION SUCCESSFUL" in txt: res = "ok"; break
                if "VERIFICATION FAILED" in txt: res = "fail"; break
            tr = ""
            if res == "fail" and job == "events-hitB":      # refuted with opaque products: decide with the real ones
                o2 = o.replace("hitB", "hitBm"); res = "?"
                p = subprocess.run(["goto-cc", "-I" + HERE, "-include", os.path.join(HERE, "ghost.h")] + spec.macros("events-hitBm", tag) + ["-o", o2, os.path.join(wd, "f.c")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if p.returncode == 0:
                    txt = sh(["cbmc", o2] + COMMON + chk + ["--" + used] + extra, min(130, dl - time.time())); o = o2
                    res = "ok" if "VERIFICATION SUCCESSFUL" in txt else "fail" if "VERIFICATION FAILED" in txt else "?"
            if res == "fail" and not k.startswith("vacuity") and time.time() < dl:
                tr = sh(["cbmc", o] + COMMON + chk + ["--" + used, "--trace"] + extra, min(100, dl - time.time()))
            return t, res, used, time.time() - ts, tr
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_PROCS", "8"))) as ex:
            results = list(ex.map(one, tasks))
        fails = []
        for (job, tag, k, ns, o, chk), res, used, w, tr in results:
            out["solver_s"] += w; name = "freqcd.c %s: %s" % (job, k)
            if used: out["backends"][used] = out["backends"].get(used, 0) + 1
            if os.environ.get("VF_DEBUG") and (w > 20 or res != "ok"): print("  %-6s %6.1f %s" % (res, w, name))
            if k.startswith("vacuity"):
                if res == "fail": out["vacuity"] += 1
                elif res == "ok": add(name, "undecided", "the point is unreachable under the contracts: vacuous")
                continue
            if res == "ok": add(name, "proved")
            elif res == "?": add(name, "undecided", "no answer within the time limit")
            else: fails.append((job, tag, k, name, tr))
        for job, tag, k, name, tr in fails:
            vals = "; ".join("%s=%s" % x for x in dict(re.findall(r"^\s\s([A-Za-z_]\w*)=(-?\d+|TRUE|FALSE)", tr, re.M)).items())[:1500]
            inv = "invariant" in k or "state on entry" in k or k.startswith(("internal", "memory"))
            others = [o for o in obl if o["status"] == "undecided"] or [f for f in fails if "invariant" in f[2] or "state on entry" in f[2]]
            semantic = tag == prop and not inv and not others and not bad_nobody
            add(name, "failed" if semantic else "undecided", "refuted by the solver" + ("" if semantic else " (an auxiliary condition, or one that relies on an undischarged invariant)") + "; counter-model: " + vals,
                case_of(tr) if job.startswith("events-hit") else None)
        if bad_nobody:
            out["notes"].append("functions without a contract: %s" % sorted(bad_nobody))
            for o in obl:
                if o["status"] == "proved": o["status"] = "undecided"; o["detail"] = "calls a function without contract: %s" % sorted(bad_nobody)
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)
        for p in list(LIVE):
            try: os.killpg(p.pid, 9)
            except Exception: pass
        out["wall"] = round(time.time() - t0, 1)

if __name__ == "__main__":
    r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    print("RESULT " + json.dumps(r))
    if os.environ.get("VF_DEBUG"):
        for o in r["obligations"]:
            if o["status"] != "proved": print(o["status"], o["name"], o["detail"][:600], o["cases"])
        print(len(r["obligations"]), sum(o["status"] == "proved" for o in r["obligations"]), "vacuity", r["vacuity"], r["notes"], r["error"], "wall", r["wall"], "solver %.0f" % r["solver_s"])
