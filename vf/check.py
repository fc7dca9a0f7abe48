#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   (run with python3-vt)

1. Proof: regenerates the verification conditions of the property's contracts from
   /repo's current source and discharges them (vf/contracts/<PROP>.py, or vf/cfreq for freqcd.c).
2. Run-time contract harness (rt/run.py) on the real code: replays the solver's
   counter-models and searches for failing inputs (bounded, never counted as proved).
Exit 0 quiet, exit 1 with a VIOLATION line, 2 error of the check itself.
"""
import sys, os, json, time, subprocess, argparse, traceback, tempfile, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CPROPS = ("C20", "C21", "C22", "C23")     # freqcd.c: CBMC / cvc5 / Z3, see vf/cfreq
RULE_LIMIT = 420          # seconds the proof part may take

def known(prop):
    out = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]; key, _, what = rest.partition(" ")
                out.append((key[len("key="):], what))
    return out

def start_harness(prop, seed, budget, extra=()):
    return subprocess.Popen([PY, os.path.join(ROOT, "rt", "run.py"), prop, "--seed", str(seed), "--budget", str(budget)] + list(extra),
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
def end_harness(p, limit):
    try: out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); return dict(n=0, distinct=0, skipped=0, fail=None, samples=[], error="harness time limit", rule="", wall=limit)
    try: return json.loads(out.decode().strip().splitlines()[-1])
    except Exception: return dict(n=0, distinct=0, skipped=0, fail=None, samples=[], error="harness produced no result", rule="", wall=0)

def replay_case(prop, case):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(dict(case=case), f)
    try: return end_harness(start_harness(prop, 1, 60, ["--case", f.name]), 120)
    finally: os.unlink(f.name)

def bounded_search(prop, tier):
    if prop in CPROPS: return []
    """the same verification jobs with every loop unrolled a few times: looks for concrete counter-models (never counted as proved)"""
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "prove.py"), prop, tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True, env=dict(os.environ, VF_BOUNDED="2"))
    r = end_prove((p, 120 if tier == "quick" else 300))
    return [o for o in r.get("obligations", []) if o["status"] == "failed" and o.get("cases")]
def prove(prop, tier):
    """Runs the proof in a child so that a crash or time limit of a solver cannot take the check down."""
    script = os.path.join(HERE, "cfreq" if prop in CPROPS else "", "prove.py")
    if prop not in CPROPS and not os.path.exists(os.path.join(HERE, "contracts", prop + ".py")): return None
    lim = RULE_LIMIT if tier == "quick" else 600
    p = subprocess.Popen([sys.executable, script, prop, tier], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    return p, lim
def end_prove(h):
    p, lim = h
    try: out, err = p.communicate(timeout=lim)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); err = b"proof time limit " + err
    res = None
    for l in out.decode(errors="replace").splitlines():
        if l.startswith("RESULT "): res = json.loads(l[7:])
    if res is None: res = dict(obligations=[], error="prover gave no result: " + err.decode(errors="replace")[-1500:], functions=[], trusted=[], notes=[], solver_s=0)
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args(); prop = a.prop; seed = int(os.environ.get("VERIF_SEED") or 1); tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    budget = {"quick": 20, "thorough": 240}[tier]
    h = prove(prop, tier)
    hp = start_harness(prop, seed, budget)
    run = end_harness(hp, budget + 150)
    if h and run.get("fail"): h = (h[0], 90)          # a failing input is already known
    proof = end_prove(h) if h else None
    obs = (proof or {}).get("obligations", [])
    bad = [o for o in obs if o["status"] == "failed"]
    open_ = [o for o in obs if o["status"] == "undecided"]
    perr = (proof or {}).get("error")
    # --- concrete failures -------------------------------------------------
    fails = []
    if run.get("fail"): fails.append((run["fail"]["case"], run["fail"]["msg"], "search"))
    for o in bad + open_[:6]:
        if fails: break
        for c in (o.get("cases") or [])[:4]:
            r = replay_case(prop, c)
            run["n"] += r.get("n", 0); run["distinct"] += r.get("distinct", 0)
            if r.get("fail"): fails.append((c, r["fail"]["msg"], "counter-model of " + o["name"])); break
    bsearch = None
    if (bad or open_) and not fails:
        cand = bounded_search(prop, tier); bsearch = len(cand); tb = time.time()
        for o in cand[:12]:
            if fails or time.time() - tb > 60: break
            for c in o["cases"][:3]:
                r = replay_case(prop, c)
                run["n"] += r.get("n", 0); run["distinct"] += r.get("distinct", 0)
                if r.get("fail"): fails.append((c, r["fail"]["msg"], "bounded symbolic execution, " + o["name"])); break
    extra_search = 0
    if (bad or open_ or perr) and not fails:
        extra_search = 60 if tier == "quick" else 240        # bounded stand-in: look harder
        r = end_harness(start_harness(prop, seed + 1000, extra_search), extra_search + 150)
        run["n"] += r.get("n", 0); run["distinct"] += r.get("distinct", 0)
        if r.get("fail"): fails.append((r["fail"]["case"], r["fail"]["msg"], "search"))
    kf = known(prop); viol = 0; lines = []
    rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    def emit(body, tail=""):
        path = os.path.join(rdir, "%s.json" % prop)
        body.update(property=prop, rerun="%s %s %s --case %s" % (PY, os.path.join(ROOT, "rt", "run.py"), prop, path))
        with open(path, "w") as f: json.dump(body, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    fresh = []
    for case, msg, src in fails:
        blob = json.dumps(case, sort_keys=True) + msg
        hit = [k for k in kf if k[0] in blob]
        if hit: lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
        else: fresh.append((case, msg, src))
    if fresh:
        viol = 1; case, msg, src = fresh[0]
        emit(dict(case=case, message=msg, found_by=src, failed_obligations=[dict(name=o["name"], detail=o.get("detail", "")) for o in bad][:8]))
    elif bad:
        viol = 1
        emit(dict(failed_obligation=bad[0]["name"], verifier_output=bad[0].get("detail", ""), all_failed=[o["name"] for o in bad],
                  searched_cases=run["n"]), " no-failing-input-found")
    # --- evidence ----------------------------------------------------------
    level = "exploration"
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    for c in man["checks"]:
        if c["property"] == prop: level = c["level"]
    cov = dict(evaluations=run.get("n", 0), distinct_nontrivial=run.get("distinct", 0), rule=run.get("rule", ""), samples=run.get("samples", []),
               harness_skipped=run.get("skipped", 0), harness_wall_s=round(run.get("wall", 0), 2), harness_error=run.get("error"),
               bounded_symbolic_search="not needed" if bsearch is None else "%d counter-models" % bsearch,
               harness_role="bounded: replay of counter-models and search for failing inputs; not counted as proved")
    assumptions = []
    if proof is not None:
        cov.update(obligations=len(obs), discharged=sum(o["status"] == "proved" for o in obs),
                   undecided=[dict(name=o["name"], reason=o.get("detail", "")[:300]) for o in open_][:40],
                   failed=[o["name"] for o in bad][:40],
                   checker_cmd="python3-vt vf/%sprove.py %s %s" % ("cfreq/" if prop in CPROPS else "", prop, tier),
                   trusted_base=proof.get("trusted", []), functions_under_contract=proof.get("functions", []),
                   backends=proof.get("backends", {}), solver_s=round(proof.get("solver_s", 0), 2), paths=proof.get("paths", 0),
                   vacuity_checks=proof.get("vacuity", 0), prover_notes=proof.get("notes", []), prover_error=perr,
                   obligation_names=sorted({o["name"] for o in obs})[:200])
        assumptions = proof.get("trusted", [])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for l in lines: print(l)
    if viol: sys.exit(1)
    # a check that explored nothing must not look like success
    if proof is not None and not obs and not perr: print("prover generated no obligation", file=sys.stderr); sys.exit(2)
    if run.get("n", 0) - run.get("skipped", 0) <= 0 and not (proof and cov["discharged"] and cov["discharged"] == cov["obligations"]):
        print("nothing was checked: %s / %s" % (run.get("error"), perr), file=sys.stderr); sys.exit(2)
    print("OK property=%s obligations=%s discharged=%s undecided=%d harness_cases=%d" % (prop, cov.get("obligations"), cov.get("discharged"), len(open_), cov["evaluations"]))
    sys.exit(0)

if __name__ == "__main__":
    main()
