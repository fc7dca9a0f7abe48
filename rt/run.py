"""run.py PROP [--seed N] [--budget SECONDS] [--max N] [--case FILE] -> one JSON line"""
import sys, os, json, time, random, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--budget", type=float, default=10); ap.add_argument("--max", type=int, default=10**9)
ap.add_argument("--case"); ap.add_argument("--mincases", type=int, default=0)
a = ap.parse_args()
import warnings; warnings.simplefilter("ignore")
n = int(a.prop[1:])
mod = "ts" if n <= 7 else "ep" if n <= 13 or n == 26 else "fp" if n <= 19 or n == 25 else "fq"
real_stdout = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
if not os.environ.get("VERIF_DEBUG"):
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
res = dict(prop=a.prop, n=0, skipped=0, distinct=0, fail=None, samples=[], error=None)
t0 = time.time()
try:
    __import__(mod)
    P = common.REG[a.prop]
    def one(case):
        try:
            with common.limit(getattr(P, "case_limit", 60)): P.check(case)
        except common.Skip: res["skipped"] += 1; return None
        except common.Timeout: return "did not finish within %s s" % getattr(P, "case_limit", 60)
        except common.Fail as e: return str(e) or "violated"
        except Exception as e:
            return "unexpected %r\n%s" % (e, traceback.format_exc()[-1200:])
        return None
    if a.case:
        cases = [json.load(open(a.case))["case"]]
    else:
        cases = P.gen(random.Random("%s/%d" % (a.prop, a.seed)))
    seen = set()
    for c in cases:
        c = json.loads(json.dumps(c))
        res["n"] += 1
        key = hash(json.dumps(c, sort_keys=True))
        if key not in seen:
            seen.add(key)
            if P.nontrivial(c) if hasattr(P, "nontrivial") else True: res["distinct"] += 1
        m = one(c)
        if len(res["samples"]) < 3 and res["n"] % 7 == 3 and len(json.dumps(c)) < 1500: res["samples"].append(c)
        if m:
            res["fail"] = dict(case=c, msg=m); break
        if res["n"] >= a.max: break
        if time.time() - t0 > a.budget and res["n"] >= a.mincases: break
except Exception:
    res["error"] = traceback.format_exc()
finally:
    common.cleanup()
res["rule"] = getattr(common.REG.get(a.prop), "rule", "")
res["wall"] = time.time() - t0
real_stdout.write(json.dumps(res) + "\n"); real_stdout.flush()
os._exit(0)
