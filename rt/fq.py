from common import *
import fcntl, termios, struct, subprocess, time, importlib, array
M54 = (1 << 54) - 1
_bin = [None]
def binary():
    if _bin[0] is None:
        exe = os.path.join(tmp(), "freqcd")
        for flags in (["-g", "-O1", "-fsanitize=address", "-static-libasan"], ["-O1"]):
            p = subprocess.run(["gcc", "-w"] + flags + ["-o", exe, os.path.join(SRC, "fpfind/freqcd.c"), os.path.join(SRC, "fpfind/lib/getopt.c"), "-lm"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode == 0: break
        else: raise Fail("freqcd does not compile: " + p.stderr.decode()[-500:])
        _bin[0] = exe
    return _bin[0]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99")

def pending(fd):
    b = array.array("i", [0]); fcntl.ioctl(fd, termios.FIONREAD, b, True); return b[0]

def enc(t, low, legacy):
    v = (t << 10) | low
    a, b = v & 0xffffffff, v >> 32
    return struct.pack("<II", b, a) if legacy else struct.pack("<II", a, b)
def dec(b, legacy):
    x, y = struct.unpack("<II", b)
    v = (x << 32 | y) if legacy else (y << 32 | x)
    return v >> 10, v & 1023

class Proc:
    def __init__(self, args, freq=False):
        self.fifo = None
        if freq:
            self.fifo = tmpname(".fifo")
            try: os.unlink(self.fifo)
            except OSError: pass
            os.mkfifo(self.fifo); self.ffd = os.open(self.fifo, os.O_RDWR | os.O_NONBLOCK); args = args + ["-F", self.fifo]
        self.p = subprocess.Popen([binary()] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=tmp(), bufsize=0)
        self.out = b""
        fl = fcntl.fcntl(self.p.stdout, fcntl.F_GETFL); fcntl.fcntl(self.p.stdout, fcntl.F_SETFL, fl | os.O_NONBLOCK)
    def drain(self):
        while True:
            try: b = os.read(self.p.stdout.fileno(), 65536)
            except BlockingIOError: return
            if not b: return
            self.out += b
    def wait(self, fd):
        t = time.time(); k = 0
        while pending(fd):
            self.drain()
            if self.p.poll() is not None: return
            if time.time() - t > 20: raise Fail("input is not read")
            k += 1
            if k > 50: time.sleep(0.0002)
    def send(self, data):
        """One chunk, returning once it has been read completely."""
        if not data: return
        try: os.write(self.p.stdin.fileno(), data)
        except BrokenPipeError: return
        self.wait(self.p.stdin.fileno())
    def expect(self, n):
        """Waits for n bytes of output: the events before have been processed."""
        t = time.time(); k = 0
        while len(self.out) < n:
            self.drain()
            if self.p.poll() is not None: self.drain(); return
            if time.time() - t > 5: raise Fail("%d bytes of output, expected %d" % (len(self.out), n))
            k += 1
            if k > 50: time.sleep(0.0002)
    def sendfreq(self, data):
        os.write(self.ffd, data); self.wait(self.ffd)
    def closefreq(self):
        if self.ffd is not None: os.close(self.ffd); self.ffd = None
    def finish(self):
        try: self.p.stdin.close()
        except BrokenPipeError: pass
        t = time.time()
        while self.p.poll() is None:
            self.drain()
            if time.time() - t > 20: self.p.kill(); raise Fail("does not stop at the end of input")
            time.sleep(0.0005)
        self.drain(); self.err = self.p.stderr.read().decode("latin1"); self.p.stdout.close(); self.p.stderr.close()
        if self.fifo and self.ffd is not None: os.close(self.ffd)
        if self.p.returncode == 99 or "Sanitizer" in self.err: raise Fail("memory error: " + self.err[:700])
        return self.p.returncode
    def kill(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
        if self.fifo and getattr(self, "ffd", None) is not None:
            try: os.close(self.ffd)
            except OSError: pass

def signed(x):
    x &= M54
    return x - (1 << 54) if x >= 1 << 53 else x

def check_reads(reads, out, legacy, offsets):
    """reads: list of lists of (t, low) per read; offsets: offset in force at each read."""
    evs = [e for r in reads for e in r]
    require(len(out) == 8 * len(evs), "output has", len(out), "bytes for", len(evs), "complete events")
    got = [dec(out[i:i + 8], legacy) for i in range(0, len(out), 8)]
    k = 0; ref = None; base = 0
    for rd, f in zip(reads, offsets):
        if not rd: continue
        if ref is None: ref = rd[0][0]
        c = 0
        for (t, low) in rd:
            gt, gl = got[k]
            require(gl == low, "event", k, "low bits", hex(gl), "expected", hex(low))
            el = t - ref
            if el < -(1 << 53): el += 1 << 54
            c = signed(gt - t)
            want = Fraction(el * f, 1 << 34)
            # accumulated correction is known modulo 2^54
            d = c - base - want
            require(abs(d) <= Fraction(3, 2), "event", k, "(timestamp %d, %d after the reference, offset %d):" % (t, el, f), "correction", c, "accumulated before", base, "expected change", float(want))
            if f == 0: require(c == base, "event", k, "changed by offset 0")
            k += 1
        ref = rd[-1][0]; base = c

def mkstream(r, n, legacy=False):
    k = r.randrange(6); t = r.choice([0, 5, 1 << 20, (1 << 54) - (1 << 30), r.getrandbits(54), (1 << 53) - 100])
    out = []
    for _ in range(n):
        out.append([t & M54, r.randrange(1024)])
        step = {0: lambda: r.randrange(1 << 12), 1: lambda: r.randrange(1 << 38), 2: lambda: r.randrange(1 << 46), 3: lambda: r.choice([-1, 1]) * r.randrange(1 << 13) + 4096,
                4: lambda: r.choice([r.randrange(1 << 40), -r.randrange(1 << 30)]), 5: lambda: r.choice([r.randrange(1 << 52), 1 << 50, (1 << 53) - 1])}[k]()
        nt = (t + step) & M54
        if step < 0 and t + step < 0: nt = t  # no jump back across zero
        t = nt
    return out

def offs(r): return r.choice([0, 1, -1, 2097151, -2097151, 1000000, -1000000, 17, -5, r.randrange(-2097151, 2097152)])

def run_events(c, freq=None):
    leg = c["legacy"]; evs = c["events"]
    data = b"".join(enc(t, l, leg) for t, l in evs) + bytes(range(1, 1 + c.get("tail", 0)))
    cuts = [0] + c["cuts"] + [len(data)]
    p = Proc((["-x"] if leg else []) + ["-f", str(c["f"])])
    reads = []; done = 0
    try:
        for a, b in zip(cuts, cuts[1:]):
            if a == b: continue
            p.send(data[a:b])
            if c.get("slow") and c["slow"] == a: time.sleep(.62)
            n = min(b // 8, len(evs))
            reads.append([tuple(e) for e in evs[done:n]]); done = n
            p.expect(8 * done)
        p.finish()
    finally: p.kill()
    return reads, p.out

@prop("C20")
class C20:
    rule = "event streams with small and large gaps, slightly out of order and across counter rollover, cut into reads, over word order and offset; non-trivial: non-zero offset and two or more events"
    @staticmethod
    def nontrivial(c): return c["f"] != 0 and len(c["events"]) > 1
    @staticmethod
    def case(r, evs=None, f=None, cuts=None, legacy=None):
        evs = evs if evs is not None else mkstream(r, r.choice([1, 2, 3, 8, 30, 200]))
        n = len(evs)
        if cuts is None: cuts = sorted(8 * r.randrange(n + 1) for _ in range(r.choice([0, 1, 2, 5, 12])))
        return dict(events=evs, cuts=cuts, f=f if f is not None else offs(r), legacy=bool(r.randrange(2)) if legacy is None else legacy)
    @staticmethod
    def gen(r):
        for f in (1000000, -2097151, 2097151, 0, -1):
            for leg in (False, True):
                yield C20.case(r, [[0, 1], [1000000000, 2], [2000000000, 1023]], f, [], leg)
                yield C20.case(r, [[0, 1], [1 << 40, 2], [1 << 41, 4], [3 << 40, 8]], f, [8, 16, 24], leg)
                # rollover inside a read, and between reads
                yield C20.case(r, [[M54 - 100000, 1], [50, 2], [1 << 30, 3]], f, [], leg)
                yield C20.case(r, [[M54 - 100000, 1], [50, 2], [1 << 30, 3]], f, [8], leg)
                yield C20.case(r, [[M54 - 100000, 1], [50, 2], [1 << 30, 3]], f, [8, 16], leg)
                # events slightly before the reference
                yield C20.case(r, [[1 << 30, 1], [(1 << 30) - 5000, 2], [(1 << 30) + 5, 3]], f, [8], leg)
                yield C20.case(r, [[1 << 30, 1], [(1 << 30) - 4096 * 3, 2], [1 << 31, 3]], f, [16], leg)
                yield C20.case(r, [[0, 1], [(1 << 54) - 1, 2]], f, [], leg)
                yield C20.case(r, [[3, 1], [(1 << 53) + 2, 2], [(1 << 53) + 9, 5]], f, [16], leg)
        # many reads accumulate
        yield C20.case(r, [[(i * 12345678901) & M54, i % 1024] for i in range(300)], 2097151, [8 * i for i in range(1, 300)], False)
        while True: yield C20.case(r)
    @staticmethod
    def check(c):
        reads, out = run_events(c)
        check_reads(reads, out, c["legacy"], [c["f"]] * len(reads))

@prop("C21")
class C21:
    rule = "byte streams cut at arbitrary bytes (inside events, below one event, full buffers), with trailing partial events and a time-out; non-trivial: a cut inside an event"
    @staticmethod
    def nontrivial(c): return any(x % 8 for x in c["cuts"])
    @staticmethod
    def gen(r):
        S = lambda n: [[(1000 + i * 777777777) & M54, (i * 37) % 1024] for i in range(n)]
        for f in (0, 2000000, -1500000):
            for leg in (False, True):
                yield dict(events=S(3), cuts=list(range(1, 24)), f=f, legacy=leg, tail=0)
                yield dict(events=S(4), cuts=[4, 6, 20, 21, 29], f=f, legacy=leg, tail=5)
                yield dict(events=S(4), cuts=[3, 9, 12, 15, 17, 31], f=f, legacy=leg, tail=0, slow=15)
                yield dict(events=S(2), cuts=[13], f=f, legacy=leg, tail=1)
                yield dict(events=S(6), cuts=[8, 12, 14, 24, 28, 30, 40], f=f, legacy=leg, tail=7)
            yield dict(events=[], cuts=[], f=f, legacy=False, tail=7)
            yield dict(events=S(1023), cuts=[], f=0, legacy=False, tail=4)
            yield dict(events=S(1024), cuts=[8191], f=f, legacy=True, tail=0)
            yield dict(events=S(1030), cuts=[1, 8193 - 8], f=f, legacy=True, tail=0)
        yield dict(big=True, n=5000, cuts=[3, 8195, 20000, 20001, 28190], f=0, legacy=False, tail=3)
        yield dict(big=True, n=3000, cuts=[], f=0, legacy=True, tail=0)
        yield dict(big=True, n=1024, cuts=[], f=0, legacy=True, tail=0); yield dict(big=True, n=1025, cuts=[1], f=0, legacy=True, tail=0)
        while True:
            n = r.choice([0, 1, 2, 3, 5, 12, 60]); tail = r.randrange(8); L = 8 * n + tail
            k = r.choice([0, 1, 2, 5, 12, 40])
            yield dict(events=mkstream(r, n), cuts=sorted(r.randrange(L + 1) for _ in range(k)), f=offs(r), legacy=bool(r.randrange(2)), tail=tail)
    @staticmethod
    def check(c):
        if c.get("big"):
            c = dict(c, events=[[(i * 99999) & M54, i % 1024] for i in range(c["n"])])
            leg = c["legacy"]; data = b"".join(enc(t, l, leg) for t, l in c["events"]); full = data + bytes(c["tail"])
            p = Proc((["-x"] if leg else []) + ["-f", "0"])
            try:
                cuts = [0] + c["cuts"] + [len(full)]
                for a, b in zip(cuts, cuts[1:]): p.send(full[a:b])
                p.finish()
            finally: p.kill()
            require(p.out == data, "output of %d bytes differs from the %d bytes of complete events" % (len(p.out), len(data)))
            return
        reads, out = run_events(c)
        check_reads(reads, out, c["legacy"], [c["f"]] * len(reads))

def is_int(line):
    return re.fullmatch(r"-?[0-9]+", line) is not None
import re
BADLINES = ["abc", "12x", "", "2097152", "-2097152", "4294967301", "-4294967297", "99999999999999999999999", "-99999999999999999999999", "0x10", "1.5", "1e3", "--5", "-", "2147483647", "-2147483648", "2147483648",
            "-2147483647", "8589934592", "9223372036854775807", "-9223372036854775808", "18446744073709551617", "5 6", "7,", "x7", "+", "12-"]
GOODLINES = ["0", "5", "-5", "2097151", "-2097151", "1000000", "-0", "00012", "-0000000000000000000000077", "0" * 90 + "12345", "1", "-1"]

@prop("C22")
class C22:
    rule = "frequency lines (valid, out of range, malformed, long) cut into arbitrary reads between probe events; non-trivial: a line is cut or invalid"
    @staticmethod
    def nontrivial(c): return any(s[0] == "F" for s in c["steps"])
    @staticmethod
    def chunks(r, text):
        k = r.choice([0, 0, 1, 1, 2, 4]); cuts = sorted(r.randrange(len(text) + 1) for _ in range(k)); e = [0] + cuts + [len(text)]
        return [text[a:b] for a, b in zip(e, e[1:]) if a < b]
    @staticmethod
    def gen(r):
        for g in GOODLINES: yield dict(f=77, legacy=False, steps=[["F", "1234\n"], ["E"], ["F", g + "\n"], ["E"]])
        for b in BADLINES: yield dict(f=77, legacy=False, steps=[["E"], ["F", b + "\n"], ["E"], ["F", "5\n" + b + "\n"], ["E"]])
        yield dict(f=9, legacy=True, steps=[["F", "12"], ["E"], ["F", "34\n"], ["E"], ["F", "5"], ["E"], ["E"], ["C"], ["E"]])
        yield dict(f=9, legacy=False, steps=[["F", "10\n20\n30"], ["E"], ["F", "\n"], ["E"], ["F", "40\nx\n"], ["E"], ["C"], ["E"], ["E"]])
        yield dict(f=9, legacy=False, steps=[["F", "1\n2\n3\n4\n5\n6\n7\n8\n9\n"], ["E"], ["F", "-"], ["F", "1"], ["F", "0"], ["F", "\n"], ["E"]])
        yield dict(f=-3, legacy=False, steps=[["F", "0" * 97 + "8\n"], ["E"], ["F", "9" * 98 + "\n"], ["E"], ["F", "1" * 60 + "\n" + "22\n"], ["E"]])
        yield dict(f=-3, legacy=False, steps=[["F", "\n".join(str(i) for i in range(100, 130)) + "\n"], ["E"], ["F", "\n".join(str(i) for i in range(1000, 1060))], ["E"], ["F", "\n"], ["E"]])
        yield dict(f=2097151, legacy=False, steps=[["E"], ["F", "-2097151\n"], ["E"], ["E"], ["F", "0\n"], ["E"], ["E"]])
        while True:
            steps = []; lines = []
            for _ in range(r.choice([1, 2, 3, 5])):
                text = ""
                for _ in range(r.choice([1, 1, 2, 4])):
                    k = r.randrange(4)
                    text += (r.choice(GOODLINES) if k == 0 else r.choice(BADLINES) if k == 1 else str(r.randrange(-2097151, 2097152)) if k == 2 else str(r.choice([-1, 1]) * (r.getrandbits(r.randrange(20, 70))))) + "\n"
                for ch in C22.chunks(r, text):
                    steps.append(["F", ch])
                    if r.random() < .5: steps.append(["E"])
                steps.append(["E"])
            if r.random() < .3: steps += [["C"], ["E"]]
            yield dict(f=offs(r), legacy=bool(r.randrange(2)), steps=steps)
    @staticmethod
    def check(c):
        leg = c["legacy"]; p = Proc((["-x"] if leg else []) + ["-f", str(c["f"])], freq=True)
        cur = c["f"]; buf = ""; reads = []; offsets = []; t = 12345; closed = False
        try:
            ev = lambda: reads.append([(t, len(reads) % 1024)]) or offsets.append(cur) or p.send(enc(t, reads[-1][0][1], leg)) or p.expect(8 * len(reads))
            ev()
            for s in c["steps"]:
                if s[0] == "F":
                    p.sendfreq(s[1].encode()); buf += s[1]
                    while "\n" in buf:
                        line, _, buf = buf.partition("\n")
                        if is_int(line) and abs(int(line)) <= 2097151: cur = int(line)
                elif s[0] == "C":
                    p.closefreq(); time.sleep(.005)
                else:
                    t = (t + (1 << 40)) & M54; ev()
            p.finish()
        finally: p.kill()
        require(len(p.out) == 8 * len(reads), "output has", len(p.out), "bytes for", len(reads), "events:", p.err[-200:])
        check_reads(reads, p.out, leg, offsets)

@prop("C23")
class C23:
    rule = "offset options on both sides of the limits, overflowing and decimal, at any position; long file names; non-trivial: value not small"
    @staticmethod
    def nontrivial(c): return c.get("v") is None or abs(c["v"]) > 1000
    @staticmethod
    def gen(r):
        V = [0, 1, -1, 2097151, 2097152, -2097151, -2097152, 2097153, 4194304, 2147483647, -2147483648, 2147483648, -2147483647, -2147483649, 4294967296, 4294967301, -4294967291, 1 << 33, 1 << 62, (1 << 63) - 1, -(1 << 63), 1 << 63, 1 << 64, (1 << 64) + 5, 10 ** 30, -10 ** 30, 1048576]
        D = [0, 1, -1, 2, 3, -3, 1220703, 1220702, 1220704, -1220703, -1220704, 1220710, 10, 1000000, 1250000000, 1250000001, 2147483647, -2147483648, 2500000000, 4294967297, -(1 << 63), 10 ** 25, 1221000, 610351]
        for v in V: yield dict(kind="v", v=v, d=False, form=abs(v) % 4)
        for v in D: yield dict(kind="v", v=v, d=True, form=abs(v) % 4)
        for L in (1, 198, 199, 200, 201, 202, 220, 300, 1000, 5000):
            for o in "ioF": yield dict(kind="name", L=L, opt=o)
        for o in (["-f", "abc"], ["-f", "x1"], ["-d", "-f", "z"]): yield dict(kind="bad", args=o)
        while True:
            d = bool(r.randrange(2)); k = r.randrange(4)
            v = r.choice([-1, 1]) * (r.randrange(2200000) if k else r.getrandbits(r.randrange(20, 70)))
            if d and r.random() < .5: v = r.choice([-1, 1]) * r.randrange(1220000, 1221500)
            yield dict(kind="v", v=v, d=d, form=r.randrange(4))
    @staticmethod
    def check(c):
        if c["kind"] == "name":
            d = os.path.join(tmp(), "n"); os.makedirs(d, exist_ok=True)
            pr = subprocess.Popen([binary(), "-" + c["opt"], "q" * c["L"]], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=d)
            try: out, err = pr.communicate(timeout=20)
            except subprocess.TimeoutExpired: pr.kill(); raise Fail("does not stop")
            require(pr.returncode != 99 and pr.returncode >= 0, "file name of", c["L"], "characters:", pr.returncode, err.decode("latin1")[:500])
            return
        ev = [[0, 1], [1 << 46, 2]]; data = b"".join(enc(t, l, False) for t, l in ev)
        outf = os.path.join(tmp(), "c23.out")
        try: os.unlink(outf)
        except OSError: pass
        if c["kind"] == "bad": args = c["args"]; ok = False
        else:
            v = c["v"]; dd = ["-d"] if c["d"] else []
            ff = ["-f", str(v)] if c["form"] % 2 else ["-f%d" % v]
            args = dd + ff if c["form"] < 2 else ff + dd
            if c["d"]:
                q = abs(v) * (1 << 34) // 10 ** 10; eff = q if v >= 0 else -q
            else: eff = v
            ok = abs(eff) <= 2097151
        pr = subprocess.Popen([binary()] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=tmp())
        try: out, err = pr.communicate(data, timeout=20)
        except subprocess.TimeoutExpired: pr.kill(); raise Fail("does not stop")
        require(pr.returncode != 99, "memory error", err.decode("latin1")[:500])
        if not ok:
            require(pr.returncode != 0, "offset", args, "accepted"); require(out == b"", "events written although the offset", args, "is rejected")
        else:
            require(pr.returncode == 0, "offset", args, "rejected with status", pr.returncode, err.decode("latin1")[:200])
            check_reads([[tuple(e) for e in ev]], out, False, [eff])

@prop("C24")
class C24:
    rule = "timestamp lists generated to stdout or file and read back from file or stdin over word order; non-trivial: a timestamp of 2^32 or more"
    @staticmethod
    def nontrivial(c): return any(t >= 1 << 32 for t in c["ts"])
    @staticmethod
    def gen(r):
        B = [0, 1, 1000000000, (1 << 22) - 1, 1 << 22, 1 << 32, (1 << 53) + 1, (1 << 54) - 1, 1 << 54, (1 << 54) + 7, (1 << 60) + 3]
        for x in (False, True):
            for kind in ("gen-out", "gen-file", "read-file", "read-stdin"):
                yield dict(kind=kind, ts=B if kind.startswith("gen") else [t & M54 for t in B], x=x)
                yield dict(kind=kind, ts=[7], x=x)
        while True:
            kind = r.choice(["gen-out", "gen-file", "read-file", "read-stdin"]); n = r.choice([1, 2, 5, 20])
            yield dict(kind=kind, ts=[r.getrandbits(r.choice([4, 22, 32, 54, 54] + ([60] if kind.startswith("gen") else []))) for _ in range(n)], x=bool(r.randrange(2)))
    @staticmethod
    def check(c):
        import fpfind.lib.generate_freqcd_testcase as G
        importlib.reload(G)
        want = b"".join(enc(t & M54, 1, c["x"]) for t in c["ts"]); x = ["-x"] if c["x"] else []
        old = os.getcwd(); os.chdir(tmp())
        try:
            if c["kind"].startswith("gen"):
                o = tmpname(".gen")
                if c["kind"] == "gen-file":
                    with open(o, "wb") as f: f.write(b"previous contents")
                out, exc = run_main(G, (["-o", o] if c["kind"] == "gen-file" else []) + x + ["-t"] + [str(t) for t in c["ts"]])
                require(exc is None, "generator failed", repr(exc))
                got = open(o, "rb").read() if c["kind"] == "gen-file" else out
                if c["kind"] == "gen-file": require(out == b"", "unexpected output", out[:80])
                require(got == want, "generated", got[:80].hex(), "expected", want[:80].hex())
            else:
                data = b"".join(enc(t, (t % 15) + 1, c["x"]) for t in c["ts"])
                fn = tmpname(".ev")
                with open(fn, "wb") as f: f.write(data)
                import io
                sin = sys.stdin; before = set(os.listdir(tmp()))
                sys.stdin = io.TextIOWrapper(io.BytesIO(data if c["kind"] == "read-stdin" else b""))
                try: out, exc = run_main(G, x + [fn if c["kind"] == "read-file" else "-"])
                finally: sys.stdin = sin
                require(exc is None, "reading failed", repr(exc))
                with open(fn, "rb") as f: require(f.read() == data, "input file was changed")
                require([int(l) for l in out.decode().split()] == c["ts"], "printed", out[:200], "expected", c["ts"][:10])
                require(out.count(b"\n") == len(c["ts"]), "not one timestamp per line")
        finally: os.chdir(old)
