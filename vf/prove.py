#!/usr/bin/env python3
"""prove.py PROP TIER: generate and discharge the verification conditions of one property from /repo's current source."""
import sys, os, json, time, importlib, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "contracts")); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

def worker(i, prop, tier, deadline, q):
    try:
        m = importlib.import_module(prop)
        job = m.jobs(tier)[i]
        import vc
        dl = deadline if job.limit is None else min(deadline, time.time() + job.limit)
        q.put((i, job.run(dl) if hasattr(job, "run") else vc.run_job(job, dl)))
    except BaseException as x:
        q.put((i, dict(name="job %d" % i, obl=[], error="crash: " + "".join(traceback.format_exception(x))[-1200:], functions=[], contracts=[], trusted=[], solver_s=0, backends={}, paths=0, restarts=0, vacuity=0, notes=[])))

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    limit = 330 if tier == "quick" else 500
    if os.environ.get("VF_BOUNDED"): limit = 75 if tier == "quick" else 200
    t0 = time.time(); deadline = t0 + limit
    m = importlib.import_module(prop)
    js = m.jobs(tier)
    idx = [i for i, j in enumerate(js) if not only or only in j.name]
    q = mp.Queue(); todo = list(idx); live = {}; res = {}
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    while len(res) < len(idx):
        while todo and len(live) < nproc:
            i = todo.pop(0); p = mp.Process(target=worker, args=(i, prop, tier, deadline, q)); p.start(); live[i] = [p, None]
        try:
            i, r = q.get(timeout=0.5); res[i] = r
            if i in live: live.pop(i)[0].join(2)
        except Exception: pass
        for i, (p, dead) in list(live.items()):
            if time.time() > deadline + 20: p.kill(); p.join(); dead = 1; live[i][1] = 0
            if not p.is_alive():
                if live[i][1] is None: live[i][1] = time.time()
                elif time.time() - live[i][1] > 2 and i not in res:
                    res[i] = dict(name=js[i].name, obl=[], error="job ended without an answer (time limit or crash)", functions=[], contracts=[], trusted=[], solver_s=0, backends={}, paths=0, restarts=0, vacuity=0, notes=[]); live.pop(i)
        if time.time() > deadline + 20:
            for i in todo: res[i] = dict(name=js[i].name, obl=[], error="not started: time limit", functions=[], contracts=[], trusted=[], solver_s=0, backends={}, paths=0, restarts=0, vacuity=0, notes=[])
            todo = []
    out = dict(obligations=[], functions=set(), trusted=set(), notes=[], solver_s=0.0, backends={}, paths=0, vacuity=0, error=None, restarts=0)
    errs = []
    for i in idx:
        r = res[i]
        out["obligations"] += r["obl"]
        if r["error"]:
            errs.append("%s: %s" % (r["name"], r["error"]))
            out["obligations"].append(dict(name=r["name"] + ": verification conditions generated", status="undecided", detail=r["error"], cases=None))
        elif not r["obl"]:
            out["obligations"].append(dict(name=r["name"] + ": at least one obligation", status="undecided", detail="no obligation generated", cases=None))
        out["functions"] |= set(r["functions"]); out["trusted"] |= set(r["trusted"]) | {"contract of %s used at its call sites (verified by its own job)" % c for c in r["contracts"]}
        out["notes"] += r["notes"]; out["solver_s"] += r["solver_s"]; out["paths"] += r["paths"]; out["vacuity"] += r["vacuity"]; out["restarts"] += r["restarts"]
        for k, v in r["backends"].items(): out["backends"][k] = out["backends"].get(k, 0) + v
    out["functions"] = sorted(out["functions"]); out["trusted"] = sorted(out["trusted"] | set(getattr(m, "TRUSTED", [])))
    if errs: out["error"] = " | ".join(errs)[:3000]
    print("RESULT " + json.dumps(out, default=str))
    if os.environ.get("VF_DEBUG"):
        seen = {}
        for o in out["obligations"]:
            if o["status"] != "proved":
                k = (o["status"], o["name"].rpartition(": ")[2], o["detail"][:60]); seen.setdefault(k, []).append(o)
        for k, os_ in seen.items():
            o = os_[0]; print("%s (%d) %s\n      %s\n      cases: %s" % (o["status"].upper(), len(os_), o["name"], o["detail"][:1800], str(o.get("cases"))[:600]))
        print("jobs %d obligations %d proved %d paths %d restarts %d solver %.1f errors %d; slowest %s" % (len(idx), len(out["obligations"]), sum(o["status"] == "proved" for o in out["obligations"]), out["paths"], out["restarts"], out["solver_s"], len(errs), sorted(((round(res[i]["solver_s"], 1), res[i]["name"]) for i in idx), reverse=True)[:3]))
        print("time %.1f" % (time.time() - t0))
if __name__ == "__main__": main()
