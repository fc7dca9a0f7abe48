"""Shared parts of the run-time contract harnesses.

Runs under the project's interpreter (/opt/venv/bin/python) on the real code in
/repo/src.  Each property module registers `gen` (directed cases first, then
random ones drawn from the seed) and `check` (an oracle written from the
property statement; returns None or a description of the violation).
"""
import contextlib, io, os, pathlib, random, shutil, signal, sys, tempfile, traceback, warnings
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
sys.path.insert(0, SRC)
warnings.simplefilter("ignore")
PY = "/opt/venv/bin/python"

REG = {}
UNITS = {"NS1": 1, "PS125": 8, "PS4": 256}

_tmp = None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vrt")
    return _tmp
def cleanup():
    if _tmp: shutil.rmtree(_tmp, ignore_errors=True)
_ctr = [0]
def tmpname(suffix=""):
    _ctr[0] = (_ctr[0] + 1) % 50
    return os.path.join(tmp(), "f%d%s" % (_ctr[0], suffix))
def newdir():
    d = os.path.join(tmp(), "d"); shutil.rmtree(d, ignore_errors=True); os.mkdir(d); return d

class Fail(Exception): pass
class Skip(Exception): pass
class Timeout(Exception): pass
def require(c, *msg):
    if not c: raise Fail(" ".join(str(m) for m in msg)[:1500])

@contextlib.contextmanager
def limit(seconds):
    def h(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

def prop(pid):
    def deco(cls):
        REG[pid] = cls; return cls
    return deco

def frac(x):
    """Exact value of any number (Python or numpy) as a Fraction."""
    import numpy as np
    if isinstance(x, (int,)): return Fraction(x)
    if isinstance(x, np.ndarray): x = x[()]
    if isinstance(x, (np.integer,)): return Fraction(int(x))
    if isinstance(x, (np.bool_, bool)): return Fraction(int(x))
    if isinstance(x, float): return Fraction(x)
    a, b = x.as_integer_ratio(); return Fraction(int(a), int(b))

def same_list(got, want, what):
    require(len(got) == len(want), what, "has", len(got), "entries, expected", len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        require(frac(g) == w, what, "entry", i, "is", repr(g), "expected", str(w))

def run_main(mod, argv, stdin=None):
    """Calls mod.main() with argv, returns (stdout text, exception or None)."""
    out = io.StringIO(); old = sys.argv, sys.stdout, sys.stderr
    class B(io.TextIOWrapper): pass
    raw = io.BytesIO(); out = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
    sys.argv = ["prog"] + argv; sys.stdout = out; sys.stderr = io.StringIO()
    exc = None
    try: mod.main()
    except SystemExit as e:
        if e.code not in (0, None): exc = e
    except (Fail, Timeout): raise
    except Exception as e: exc = e
    finally: sys.argv, sys.stdout, sys.stderr = old
    out.flush(); return raw.getvalue(), exc

def pick64(r):
    k = r.randrange(8)
    if k == 0: return r.randrange(64)
    if k == 1: return (1 << 64) - 1 - r.randrange(64)
    if k == 2: return ((1 << 63) + r.randrange(-40, 40)) % (1 << 64)
    if k == 3:
        return ((r.choice([1 << 32, 1 << 22, 1 << 31, 1 << 42]) + r.randrange(-40, 40))) % (1 << 64)
    if k == 4:
        return ((1 << r.randrange(64)) + r.randrange(-2, 3)) % (1 << 64)
    if k == 5:
        return (((((1 << 53) + r.randrange(-3, 1 << 53)) % (1 << 54)) << 10) | r.randrange(1024))
    return r.getrandbits(64)

def pickn(r, big=False):
    return r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33] + ([100, 257, 1000] if big else []))
