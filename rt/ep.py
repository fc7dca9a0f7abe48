from common import *
import numpy as np, struct, pathlib
import fpfind.lib.parse_epochs as E
import fpfind.lib.utils as U
from fpfind import TSRES
import logging
logging.disable(logging.CRITICAL)
R = lambda n: getattr(TSRES, n)

def pickbits(r, w):
    """A w-bit number, biased to the edges."""
    if w <= 0: return 0
    k = r.randrange(6); m = (1 << w) - 1
    if k == 0: return r.randrange(4) & m
    if k == 1: return m - (r.randrange(4) & m)
    if k == 2: return ((1 << r.randrange(w)) + r.randrange(-2, 3)) & m
    return r.getrandbits(w)

EPOCHS = [0, 1, 0x1ffff, 0x20000, 0x20001, 0xffffffff, 0xba1f36c0, 0x7fffffff, 0x80000000, 0xfffe0000, 0x5555aaaa]

def check_times(t, raw, epoch, unit, frac_, full, shift):
    """raw: timestamps in 2^-shift... units of 1/256 ns as Fractions; compares to the requested unit."""
    u = UNITS[unit]; msb = (epoch >> 17) << 54 if full else 0
    require(len(t) == len(raw), len(t), "timestamps, expected", len(raw))
    for i, (g, x) in enumerate(zip(t, raw)):
        exact = Fraction(x * u, 256); add = Fraction(msb * u, 256)
        if not frac_:
            w = Fraction(exact.numerator // exact.denominator) + add
            require(frac(g) == w, "timestamp", i, "is", repr(g), "expected", w)
        elif not full:
            require(frac(g) == exact, "timestamp", i, "is", repr(g), "expected", exact)
        else:
            require(abs(frac(g) - exact - add) <= Fraction(u, 16), "timestamp", i, "is", repr(g), "expected", exact + add)

def opts(i):
    return dict(unit=["NS1", "PS125", "PS4"][i % 3], frac=bool((i // 3) % 2), full=bool((i // 6) % 2))

@prop("C08")
class C08:
    rule = "epochs and event lists written and read back over unit x fractional x full epoch; non-trivial: at least one event"
    @staticmethod
    def nontrivial(c): return len(c["events"]) > 0
    @staticmethod
    def gen(r):
        i = 0
        for e in EPOCHS:
            for k in range(12):
                i += 1
                yield dict(opts(k), epoch=e, events=[[0, 1], [0, 15], [(1 << 37) - 1, 8], [255, 2], [256, 3], [31, 4], [32, 5], [1 << 36, 9], [(1 << 32) - 1, 6], [1 << 22, 7]][: (10 if i % 3 else i % 11)], scalar=None)
        yield dict(opts(0), epoch=1 << 32 | 77, events=[[5, 3]], scalar=None)
        while True:
            ev = [[pickbits(r, 37), r.randrange(1, 16)] for _ in range(pickn(r))]
            sc = r.randrange(1, 16) if r.random() < .2 else None
            if sc: ev = [[a, sc] for a, _ in ev]
            yield dict(opts(r.randrange(12)), epoch=r.choice(EPOCHS) if r.random() < .4 else r.getrandbits(32), events=ev, scalar=sc)
    @staticmethod
    def check(c):
        d = newdir(); ep = c["epoch"]
        target = E.write_T1(d, ep, [a for a, _ in c["events"]], c["scalar"] if c["scalar"] else [b for _, b in c["events"]])
        ep &= (1 << 32) - 1
        fn = os.path.join(d, "%x" % ep)
        require(os.path.exists(fn), "epoch file not named after its epoch:", os.listdir(d))
        with open(fn, "rb") as f: data = f.read()
        want = struct.pack("<iIIii", 0x101, ep, len(c["events"]), 49, 4)
        for a, b in c["events"]:
            v = ((((ep & 0x1ffff) << 37) + a) << 10) | b
            want += struct.pack("<II", v >> 32, v & 0xffffffff)
        want += bytes(8)
        require(data == want, "T1 file bytes differ from the file specification")
        t, p = E.read_T1(fn, c["full"], R(c["unit"]), c["frac"])
        same_list(p, [b for _, b in c["events"]], "patterns")
        check_times(t, [((ep & 0x1ffff) << 37) + a for a, _ in c["events"]], ep, c["unit"], c["frac"], c["full"], 0)

def pack_bits(items):
    """[(value, width)] packed most-significant first into little-endian 32-bit words."""
    v = 0; n = 0
    for x, w in items: v = (v << w) | x; n += w
    pad = -n % 32; v <<= pad; n += pad
    return b"".join(struct.pack("<I", (v >> (n - 32 * (i + 1))) & 0xffffffff) for i in range(n // 32))

def bits_of(entries, to, bb, term=(1, 0)):
    it = []
    for d, ext, b in entries:
        if ext: it += [(0, to), (d, 32)]
        else: it.append((d, to))
        it.append((b, bb))
    if term is not None: it += [(term[0], to), (term[1], bb)]
    return it

def entries(r, n, to, bb, total=None):
    out = []; acc = 0
    for _ in range(n):
        ext = to < 2 or r.random() < .3
        d = pickbits(r, 32) if ext else max(2, pickbits(r, to))
        if total is not None and acc + d >= total:
            if to < 2: d = r.randrange(3); ext = True
            else: d, ext = r.choice([2, (1 << to) - 1 if to <= 8 else 2, max(2, pickbits(r, min(to, 8)))]), False
            if acc + d >= total: break
        acc += d
        out.append([d, ext, pickbits(r, bb)])
    return out

WIDTHS2 = [(1, 1), (2, 1), (1, 30), (30, 1), (2, 29), (20, 4), (16, 15), (15, 16), (8, 4), (27, 4), (10, 1), (3, 3), (31 - 8, 8)]
WIDTHS4 = WIDTHS2 + [(31, 1), (1, 31), (16, 16), (28, 4), (2, 30)]

def t2_file(c):
    return struct.pack("<iIIiii", 0x102, c["epoch"], c["length"], c["to"], c["bb"], 0) + pack_bits(bits_of(c["entries"], c["to"], c["bb"]))
def t4_file(c):
    return struct.pack("<IIIII", 0x104, c["epoch"], c["length"], c["to"], c["bb"]) + pack_bits(bits_of(c["entries"], c["to"], c["bb"]))

def write(data, name="ba1f36c0"):
    fn = os.path.join(newdir(), name)
    with open(fn, "wb") as f: f.write(data)
    return fn

@prop("C09")
class C09:
    rule = "T2 files over epochs x field widths x short/extended differences x unit x fractional x full epoch; non-trivial: at least one event"
    case_limit = 20
    @staticmethod
    def nontrivial(c): return len(c["entries"]) > 0
    @staticmethod
    def gen(r):
        i = 0
        for to, bb in WIDTHS2:
            for k in range(12):
                n = [0, 1, 2, 3, 7, 8, 17, 40][i % 8]; i += 1
                yield dict(opts(k), epoch=EPOCHS[i % len(EPOCHS)], to=to, bb=bb, entries=entries(r, n, to, bb, 1 << 32), length=i % 3)
        while True:
            to = r.randrange(1, 31); bb = r.randrange(1, 32 - to); n = pickn(r)
            yield dict(opts(r.randrange(12)), epoch=r.choice(EPOCHS) if r.random() < .3 else r.getrandbits(32), to=to, bb=bb, entries=entries(r, n, to, bb, 1 << 32), length=r.randrange(3))
    @staticmethod
    def check(c):
        fn = write(t2_file(dict(c, length=len(c["entries"]) if c["length"] else 0)), "%x" % c["epoch"])
        t, p = E.read_T2(fn, c["full"], R(c["unit"]), c["frac"])
        same_list(p, [b for _, _, b in c["entries"]], "bases")
        acc = (c["epoch"] & 0x1ffff) << 32; raw = []
        for d, _, _ in c["entries"]: acc += d; raw.append(acc * 32)
        check_times(t, raw, c["epoch"], c["unit"], c["frac"], c["full"], 0)

@prop("C10")
class C10:
    rule = "T4 files over field widths x short/extended differences; non-trivial: at least one entry"
    case_limit = 20
    @staticmethod
    def nontrivial(c): return len(c["entries"]) > 0
    @staticmethod
    def gen(r):
        i = 0
        for to, bb in WIDTHS4:
            for n in [0, 1, 2, 3, 7, 8, 17, 40]:
                i += 1
                yield dict(epoch=EPOCHS[i % len(EPOCHS)], to=to, bb=bb, entries=entries(r, n, to, bb), length=n if i % 3 else 0)
        while True:
            to = r.randrange(1, 32); bb = r.randrange(1, 33 - to); n = pickn(r)
            yield dict(epoch=r.getrandbits(32), to=to, bb=bb, entries=entries(r, n, to, bb), length=n if r.random() < .7 else 0)
    @staticmethod
    def check(c):
        fn = write(t4_file(c), "%x" % c["epoch"])
        t, p = E.read_T4(fn)
        same_list(p, [b for _, _, b in c["entries"]], "bases")
        acc = 0; w = []
        for d, _, _ in c["entries"]: acc += d - 2; w.append(acc)
        same_list(t, w, "indices")

@prop("C11")
class C11:
    rule = "T3 files with all 256 entry bytes, all lengths mod 4, then random; non-trivial: at least one accepted entry"
    @staticmethod
    def nontrivial(c): return any(bin(x >> 4).count("1") == 1 and bin(x & 15).count("1") == 1 for x in c["entries"])
    @staticmethod
    def gen(r):
        for n in range(10): yield dict(entries=[0x11, 0x24, 0x48, 0x82, 0x14, 0x28, 0x41, 0x88, 0x00, 0x33][:n])
        yield dict(entries=list(range(256)))
        for x in range(256): yield dict(entries=[x, 0x18, x])
        yield dict(entries=[0x11] * 5 + [0x14] * 7); yield dict(entries=[0x12, 0x21, 0x18])
        while True:
            pool = [0x11, 0x22, 0x44, 0x88, 0x14, 0x28, 0x41, 0x82] + [r.randrange(256) for _ in range(4)]
            n = pickn(r, True)
            yield dict(entries=[r.choice(pool) if r.random() < .7 else r.randrange(256) for _ in range(n)])
    @staticmethod
    def check(c):
        e = c["entries"]; n = len(e)
        b = bytes(e) + bytes(-n % 4)
        data = struct.pack("<iIIi", 0x103, 0xba1f36c0, n, 8) + b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
        s = E.read_T3(write(data))
        one = {1: 0, 2: 1, 4: 2, 8: 3}; M = [0] * 16; ok = 0; g = [0, 0]
        for x in e:
            a, bb = one.get(x >> 4), one.get(x & 15)
            if a is not None and bb is not None: M[4 * a + bb] += 1; ok += 1
            else:
                g[0] += a is None; g[1] += bb is None
        require([int(x) for x in s.coinc_matrix] == M, "matrix", s.coinc_matrix, "expected", M)
        require(int(s.okcount) == ok, "accepted", s.okcount, "expected", ok)
        require([int(x) for x in s.garbage] == g, "garbage", s.garbage, "expected", g)
        same = M[0] + M[5] + M[10] + M[15]; orth = M[2] + M[7] + M[8] + M[13]
        q = 0.5 if same + orth == 0 else same / (same + orth)
        require(abs(s.qber - q) <= 0.0005 + 1e-9, "error ratio", s.qber, "expected", round(q, 3))
        require(abs(s.qber * 1000 - round(s.qber * 1000)) < 1e-6, "error ratio has more than three decimals", s.qber)

@prop("C12")
class C12:
    rule = "T1/T2/T4 files cut at every byte after the header, with wrong announced lengths, or with a terminal base; all must be rejected"
    case_limit = 5
    @staticmethod
    def base(r, kind, n):
        if kind == "T1":
            ep = r.choice(EPOCHS)
            body = b"".join(struct.pack("<II", *divmod((((((ep & 0x1ffff) << 37) + pickbits(r, 37)) << 10) | r.randrange(1, 16)), 1 << 32)) for _ in range(n)) + bytes(8)
            return dict(ep=ep, body=body.hex())
        to, bb = r.choice(WIDTHS2)
        return dict(ep=r.choice(EPOCHS), to=to, bb=bb, ents=entries(r, n, to, bb))
    @staticmethod
    def gen(r):
        # cut at each byte
        i = 0
        while True:
            i += 1
            kind = ["T1", "T2", "T4"][i % 3]; n = r.choice([0, 1, 2, 3, 5, 9])
            c = C12.base(r, kind, n)
            if kind == "T1": body = bytes.fromhex(c["body"])
            else: body = pack_bits(bits_of(c["ents"], c["to"], c["bb"]))
            if i % 2:
                # bytes of the body needed for the terminator
                need = len(body)
                cuts = range(need) if (i < 40 and need <= 40) else [r.randrange(need) for _ in range(3)]
                for k in cuts:
                    yield dict(kind=kind, ep=c["ep"], to=c.get("to"), bb=c.get("bb"), length=r.choice([0, n, 0 if not n else n]), body=body[:k].hex(), why="truncated")
                if kind != "T1":  # no terminator at all
                    b2 = pack_bits(bits_of(c["ents"], c["to"], c["bb"], None))
                    yield dict(kind=kind, ep=c["ep"], to=c["to"], bb=c["bb"], length=n, body=b2.hex(), why="no terminator") if len(c["ents"]) * 0 == 0 and C12.noterm(c) else dict(kind=kind, ep=c["ep"], to=c["to"], bb=c["bb"], length=0, body="", why="empty body")
            elif i % 4 == 0 or kind == "T1":
                L = r.choice([x for x in (n - 1, n + 1, n + 2, 1, 2, 1 << 31, (1 << 32) - 1) if x > 0 and x != n])
                yield dict(kind=kind, ep=c["ep"], to=c.get("to"), bb=c.get("bb"), length=L, body=body.hex(), why="announced %d, holds %d" % (L, n))
            else:
                tb = r.choice([1, 1 << (c["bb"] - 1), (1 << c["bb"]) - 1])
                b2 = pack_bits(bits_of(c["ents"], c["to"], c["bb"], (1, tb))) + bytes(r.choice([0, 4]))
                yield dict(kind=kind, ep=c["ep"], to=c["to"], bb=c["bb"], length=r.choice([0, n]), body=b2.hex(), why="terminal base")
            if i % 11 == 0:
                yield dict(kind="T2", ep=1, to=r.choice([-100, -1, 10, 10]), bb=r.choice([-100, -33, -1]), length=0, body=bytes(r.randrange(256) for _ in range(12)).hex(), why="negative width")
    @staticmethod
    def noterm(c):
        """The bits up to the end hold no terminator (padding cannot complete one)."""
        n = sum(w for _, w in bits_of(c["ents"], c["to"], c["bb"], None))
        return -n % 32 < c["to"]   # the padding zeroes do not even fill a difference field
    @staticmethod
    def check(c):
        body = bytes.fromhex(c["body"])
        if c["kind"] == "T1": h = struct.pack("<iIIii", 0x101, c["ep"], c["length"], 49, 4)
        elif c["kind"] == "T2": h = struct.pack("<iIIiii", 0x102, c["ep"], c["length"], c["to"], c["bb"], 0)
        else: h = struct.pack("<IIIII", 0x104, c["ep"], c["length"], c["to"], c["bb"])
        fn = write(h + body, "%x" % c["ep"])
        try: res = getattr(E, "read_" + c["kind"])(fn)
        except ValueError: return
        raise Fail("%s file (%s) was read as %d events instead of being rejected" % (c["kind"], c["why"], len(res[0])))

def mkepochs(d, ep, kind, evs):
    """evs: list of 1/8-ns offsets (ints) within the epoch."""
    fn = os.path.join(d, "%x" % ep)
    if kind == "T1":
        data = struct.pack("<iIIii", 0x101, ep, len(evs), 49, 4) + b"".join(struct.pack("<II", *divmod((((((ep & 0x1ffff) << 37) + e * 32) << 10) | 1), 1 << 32)) for e in evs) + bytes(8)
    else:
        prev = 0; ents = []
        for e in evs: ents.append([e - prev, True, 1]); prev = e
        data = struct.pack("<iIIiii", 0x102, ep, len(evs), 20, 4, 0) + pack_bits(bits_of(ents, 20, 4))
    with open(fn, "wb") as f: f.write(data)

@prop("C13")
class C13:
    rule = "pairs of directories with gaps and offsets, with and without a first epoch; epochs loaded with skips; non-trivial: some common epoch"
    @staticmethod
    def nontrivial(c): return len(set(c["d1"]) & set(c["d2"])) > 0
    @staticmethod
    def gen(r):
        def case(d1, d2, first, skip=0, num=1, kind="T1"):
            return dict(d1=d1, d2=d2, first=first, skip=skip, num=num, kind=kind)
        yield case([], [], None); yield case([1], [2], None); yield case([1, 2, 3], [2, 3, 4], None, 0, 2)
        yield case([9, 10, 15, 16, 17], [9, 10, 15, 16, 17], None, 0, 2, "T2"); yield case([9, 10, 15, 16, 17], [10, 9, 15, 16, 17, 18], 11, 1, 2)
        yield case([9, 10], [9, 10], 10, 0, 1); yield case([9, 10], [9, 10], 11, 0, 1); yield case([0xff, 0x100, 0x101, 0x103], [0xff, 0x100, 0x101, 0x103], 0x100, 0, 2)
        yield case([0, 1, 2], [0, 1, 2], None, 0, 3, "T2"); yield case([0, 1, 2], [0, 1, 2], 0, 1, 2, "T1"); yield case([0xfffffffe, 0xffffffff], [0xffffffff, 0xfffffffe], None, 1, 1)
        yield case([5, 6, 7], [5, 6, 7], 0, 0, 0)
        while True:
            base = r.choice([0, 1, 0xfd, 0xba1f36c0, 0x1fffe, 0xfffff, r.randrange(1 << 31)])
            pool = [base + i for i in range(r.choice([3, 8, 20]))]
            d1 = [x for x in pool if r.random() < .8]; d2 = [x for x in pool if r.random() < .8]
            if r.random() < .2: d1 = [x + 100 for x in d1]
            r.shuffle(d1); r.shuffle(d2)
            first = r.choice([None, base, base + 1, base + 3, base + r.randrange(25), max(0, base - 2)])
            yield case(d1, d2, first, r.choice([0, 0, 1, 2]), r.choice([0, 1, 2, 3]), r.choice(["T1", "T2"]))
    @staticmethod
    def check(c):
        root = newdir(); p1, p2 = os.path.join(root, "a"), os.path.join(root, "b"); os.mkdir(p1); os.mkdir(p2)
        rr = random.Random(str(c)); ev = {}
        for x in c["d1"]:
            ev[x] = sorted(rr.randrange(1 << 29) for _ in range(rr.choice([0, 1, 2, 3]))) if x not in ev else ev[x]
            mkepochs(p1, x, c["kind"], ev[x])
        for x in c["d2"]: open(os.path.join(p2, "%x" % x), "wb").close()
        first = None if c["first"] is None else "%x" % c["first"]
        common_ = sorted(x for x in set(c["d1"]) & set(c["d2"]) if c["first"] is None or x >= c["first"])
        want = (None, 0)
        if common_:
            n = 1
            while common_[0] + n in common_: n += 1
            want = ("%x" % common_[0], n)
        got = U.get_first_overlapping_epoch(p1, p2, first, True)
        require(tuple(got) == want, "overlap", got, "expected", want)
        require(U.get_first_overlapping_epoch(pathlib.Path(p1), p2, first_epoch=first) == want[0], "overlap without length differs")
        if not c["d1"]: return
        start = min(c["d1"]) if c["first"] is None or c["first"] not in c["d1"] else c["first"]
        eps = [start + c["skip"] + i for i in range(c["num"])]
        if not all(x in c["d1"] for x in eps): return
        t = U.get_timestamp(p1, c["kind"], "%x" % start, c["skip"], c["num"])
        exp = [Fraction(((x & 0x1ffff) << 32) + e, 8) for x in eps for e in ev[x]]
        same_list(t, exp, "loaded timestamps")

@prop("C26")
class C26:
    rule = "epoch numbers and times around epoch boundaries, whole multiples of 2^20 s and random; non-trivial: not zero"
    @staticmethod
    def nontrivial(c): return (c.get("us") or c.get("v")) != 0
    @staticmethod
    def gen(r):
        for k in list(range(0, 40)) + [64, 100, 128, 256, 512, 1000, 1024, 1500, 1600, 2000]:
            for d in (-1, 0, 1):
                if 0 <= k * 2 ** 20 + d < 2 ** 31: yield dict(kind="d2e", us=(k * 2 ** 20 + d) * 10 ** 6)
        for v in EPOCHS + [0xba0a0000, 0xff, 0x100, 0xfffffff, 0x10000000]: yield dict(kind="e2d", v=v); yield dict(kind="name", v=v)
        yield dict(kind="now", us=0)
        while True:
            k = r.randrange(4)
            if k == 0: yield dict(kind="d2e", us=r.randrange(2 ** 31) * 10 ** 6 + r.choice([0, 0, 1, 999999, r.randrange(10 ** 6)]))
            elif k == 1: yield dict(kind="d2e", us=r.randrange(2048) * 2 ** 20 * 10 ** 6)
            elif k == 2: yield dict(kind="e2d", v=r.getrandbits(r.choice([32, 32, 28, 16])))
            else: yield dict(kind="name", v=r.getrandbits(r.choice([32, 32, 28, 16, 4])))
    @staticmethod
    def check(c):
        import datetime as dt, time
        k = c["kind"]
        if k == "now":
            a = int(time.time()); g = E.date2epoch(); b = int(time.time())
            require(g in {"%08x" % ((s * 8 * 10 ** 9) >> 32) for s in range(a, b + 1)}, "current epoch", g)
        elif k == "d2e":
            d = dt.datetime.fromtimestamp(c["us"] // 10 ** 6) + dt.timedelta(microseconds=c["us"] % 10 ** 6)
            s = int(d.timestamp())
            if s != c["us"] // 10 ** 6: raise Skip()
            require(E.date2epoch(d) == "%08x" % ((s * 8 * 10 ** 9) >> 32), "epoch at second", s, "is", E.date2epoch(d))
        elif k == "e2d":
            d = E.epoch2date("%08x" % c["v"]); ref = dt.datetime.fromtimestamp(0)
            x = Fraction(c["v"] << 32, 8 * 10 ** 9); got = Fraction(d.timestamp())
            require(abs(got - x) < Fraction(3, 10 ** 6), "date of epoch", hex(c["v"]), "is", d, float(got - x))
            require(E.epoch2date("%x" % c["v"]) == d, "padding changes the date")
        else:
            n = "%x" % c["v"]
            require(E.int2epoch(c["v"]) == n and E.epoch2int(n) == c["v"] and E.epoch2int("%08x" % c["v"]) == c["v"], "name of", c["v"], E.int2epoch(c["v"]))
