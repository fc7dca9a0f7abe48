#!/usr/bin/env python3
"""Authoring aid (no check reads it): writes /verif/seeded/<id>/ from tools/seeds/*.py and
validates each in a scratch copy: builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, shutil, json, tempfile, glob, re
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def blame_original(path, lineno):
    o = sh("git -C %s blame -s -L %d,%d %s" % (R, lineno, lineno, path)).stdout.decode()
    return o.startswith("^")
def make(bid, prop, edits, needs, breaks, demo, kind):
    d = os.path.join(V, "seeded", bid); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh("cp -a /repo %s/r" % t)
        for path, old, new in edits:
            p = "%s/r/%s" % (t, path); s = open(p).read()
            assert s.count(old) >= 1, (bid, "missing", old)
            assert s.count(old) == 1, (bid, "not unique", old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s/r diff" % t).stdout.decode()
        # removed lines must be original ones
        open(d + "/patch.diff", "w").write(diff)
        cur = None; ln = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not blame_original(cur, ln): print("  WARNING %s: %s:%d is not an original line" % (bid, cur, ln))
                ln += 1
            elif l.startswith(" "): ln += 1
        head = "#!/bin/bash\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nT=$(mktemp -d) || exit 9\ntrap 'rm -rf \"$T\"' EXIT\n"
        if kind == "py":
            open(d + "/demo.py", "w").write("import sys, os, io, struct, warnings\nwarnings.simplefilter('ignore')\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nTMP = sys.argv[1]; sys.argv = sys.argv[:1]\ndef put(f, d):\n    with open(f, 'wb') as h: h.write(d)\ndef get(f):\n    with open(f, 'rb') as h: return h.read()\n" + demo)
            open(d + "/demo.sh", "w").write(head + "/opt/venv/bin/python \"$D/demo.py\" \"$T\"\n")
        else:
            open(d + "/demo.py", "w").write("import sys, os, subprocess, struct, time, fcntl, select\nTMP = sys.argv[1]; EXE = os.path.join(TMP, 'freqcd')\n" + demo)
            open(d + "/demo.sh", "w").write(head + "gcc -O1 -o \"$T/freqcd\" src/fpfind/freqcd.c src/fpfind/lib/getopt.c -lm || exit 9\npython3 \"$D/demo.py\" \"$T\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=t + "/r", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(bid, prop, "clean:", a.returncode, "patched:", b.returncode, (a.stdout[-300:] if a.returncode else b""), b.stdout[-160:] if b.returncode else "NOT SHOWN")
    finally: shutil.rmtree(t)
def test(bid):
    d = os.path.join(V, "seeded", bid)
    assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0, bid
    try:
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/seed_out.json"))
        st = base.get("stable") or base.get("passed") or base
        miss = [x for x in (st if isinstance(st, list) else list(st)) if x not in (out.get("passed") or [])]
        print(bid, "build", b.returncode, "missing tests", miss[:3])
    finally: sh("git -C /repo checkout -- ."); sh("rm -f /tmp/seed_out.json")
if __name__ == "__main__":
    sel = sys.argv[2:] 
    from importlib.machinery import SourceFileLoader
    if sys.argv[1] == "make":
        for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
            m = SourceFileLoader("s", f).load_module()
            for b in m.BUGS:
                if not sel or b["id"] in sel:
                    make(b["id"], b["prop"], b["edits"], b["needs"], b["breaks"], b["demo"], b.get("kind", "py"))
    else:
        for bid in sel or sorted(os.listdir(V + "/seeded")): test(bid)
