TS="src/fpfind/lib/parse_timestamps.py"; EP="src/fpfind/lib/parse_epochs.py"; UT="src/fpfind/lib/utils.py"; FP="src/fpfind/fpfind.py"; GE="src/fpfind/lib/generate_freqcd_testcase.py"; FC="src/fpfind/freqcd.c"
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, kind="py"): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind))

bug("b01-fraction-precision","C01",[(TS,"        t = np.array(t, dtype=np_float)\n        t = t / (TSRES.PS4.value/resolution.value)\n","        t = np.array(t / (TSRES.PS4.value/resolution.value), dtype=np_float)\n")],
 "fractional output of an event at or above 2^53 counts whose lowest count bit is set","the division happens in double precision, so the last bit of large timestamps is lost","""
from fpfind.lib.parse_timestamps import read_a1, TSRES
from fractions import Fraction
c = (1 << 54) - 1
put(TMP + "/x", struct.pack("<Q", (c << 10) | 3))
t, p = read_a1(TMP + "/x", resolution=TSRES.PS4, fractional=True)
a, b = t[0].as_integer_ratio()
sys.exit(0 if Fraction(int(a), int(b)) == c and int(p[0]) == 3 else 1)
""")
bug("b02-empty-batch-count","C02",[(TS,"    num_batches = int(((size-1) // (buffer_size*8)) + 1)\n","    num_batches = max(1, int(((size-1) // (buffer_size*8)) + 1))\n")],
 "streaming an a1 file without any event","the announced number of batches is one although no batch is produced","""
from fpfind.lib.parse_timestamps import sread_a1
put(TMP + "/x", b"")
s, n = sread_a1(TMP + "/x")
sys.exit(0 if n == len(list(s)) == 0 else 1)
""")
bug("b03-stale-words","C03",[(TS,"""    with open(filename, "w") as f:
        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            data = np.empty((2*events.size,), dtype=np.uint32)
            data[0::2] = (events & 0xFFFFFFFF); data[1::2] = (events >> 32)
            for line in data:
""","""    with open(filename, "w") as f:
        data = None
        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            size = 2*events.size
            if data is None or data.size < size:
                data = np.empty((size,), dtype=np.uint32)
            data[0:size:2] = (events & 0xFFFFFFFF); data[1:size:2] = (events >> 32)
            for line in data:
""")],
 "streaming to format a0 in batches of which a later one is smaller than an earlier one","events of the earlier batch are written again after the smaller batch","""
import numpy as np
from fpfind.lib.parse_timestamps import swrite_a0, TSRES
A = lambda *v: np.array(v, dtype=np.uint64)
swrite_a0(TMP + "/x", [(A(1, 2, 3), A(1, 2, 4)), (A(9), A(8))], 2, resolution=TSRES.PS4, display=False)
got = get(TMP + "/x").decode().split()
want = []
for t, p in [(1, 1), (2, 2), (3, 4), (9, 8)]:
    v = t * 1024 + p; want += ["%08x" % (v & 0xffffffff), "%08x" % (v >> 32)]
sys.exit(0 if got == want else 1)
""")
bug("b04-skip-rewrite","C04",[(TS,"            mask, p = get_pattern_mask(p, args.pfilter_pattern, args.pfilter_mask, args.pfilter_invert)\n            t = t[mask]\n","            mask, masked = get_pattern_mask(p, args.pfilter_pattern, args.pfilter_mask, args.pfilter_invert)\n            if not mask.all():\n                t = t[mask]\n                p = masked\n")],
 "converting with a bitmask pattern filter that selects every event of a batch but changes some patterns","patterns are written without the bitmask applied when no event is dropped","""
from fpfind.lib import parse_timestamps as m
put(TMP + "/x", b"".join(struct.pack("<Q", (t << 10) | p) for t, p in [(5, 5), (6, 1), (7, 13)]))
sys.argv = ["x", "-A1", "-a1", "-q", "--pfilter-pattern", "1", "--pfilter-mask", TMP + "/x", TMP + "/y"]
m.main()
d = get(TMP + "/y")
sys.exit(0 if [v[0] for v in struct.iter_unpack("<Q", d)] == [(5 << 10) | 1, (6 << 10) | 1, (7 << 10) | 1] else 1)
""")
bug("b05-mask-in-place","C05",[(TS,"        _p = (p & pattern)  # patterns containing bitmask bits\n","        p &= pattern  # patterns containing bitmask bits\n        _p = p\n")],
 "reusing the pattern array after it was filtered with a bitmask","the bitmask filter overwrites the patterns it is given","""
import numpy as np
from fpfind.lib.parse_timestamps import get_pattern_mask
p = np.array([3, 5, 8]); get_pattern_mask(p, 1, True, False)
sys.exit(0 if list(p) == [3, 5, 8] else 1)
""")
bug("b06-start-truncated","C06",[(TS,"        i = bisect.bisect_left(t, start)  # binary search\n","        i = bisect.bisect_left(t, int(start))  # binary search\n")],
 "a start time that is not a whole number of timestamp units, with an event in the unit it falls into","an event just before the start is kept","""
import numpy as np
from fpfind.lib.parse_timestamps import get_timing_mask
m = get_timing_mask(np.array([1, 2, 3]), 2.5e-9, None)
sys.exit(0 if list(m) == [False, False, True] else 1)
""")
bug("b07-stop-at-empty","C07",[(TS,"        # Store timing only if timestamps not filtered out\n        if len(t) != 0:\n            if first_t is None:\n                first_t = t[0] / resolution.value  # convert to nanoseconds\n            last_t = t[-1] / resolution.value\n","        # Store timing only if timestamps not filtered out\n        if len(t) == 0:\n            if first_t is not None:\n                break\n            continue\n        if first_t is None:\n            first_t = t[0] / resolution.value  # convert to nanoseconds\n        last_t = t[-1] / resolution.value\n")],
 "a batch that became empty by filtering lies between two batches with events","all batches after the empty one are left out of the statistics","""
import numpy as np, contextlib
from fpfind.lib.parse_timestamps import print_statistics_stream
A = lambda *v: np.array(v, dtype=np.uint64)
o = io.StringIO()
with contextlib.redirect_stdout(o): print_statistics_stream("nofile", [(A(1), A(1)), (A(), A()), (A(2, 5), A(1, 2))], 3, display=False)
sys.exit(0 if "Total events    : 3" in o.getvalue() else 1)
""")
bug("b08-epoch-wrap","C08",[(EP,"    elif resolution in (TSRES.PS4,) and full_epoch:\n        timestamps = np.array(timestamps, dtype=object)\n        epoch_msb = int(epoch_msb) << 54\n","    elif resolution in (TSRES.PS4,) and full_epoch and epoch_msb >> 11:\n        timestamps = np.array(timestamps, dtype=object)\n        epoch_msb = int(epoch_msb) << 54\n")],
 "full epoch in whole units of 1/256 ns, with an epoch number from 2^27 up to 2^28","the epoch part wraps around at 64 bits","""
from fpfind.lib.parse_epochs import read_T1, write_T1, TSRES
e = (1500 << 17) | 5
f = write_T1(TMP, e, [77], [2])
t, p = read_T1(f, True, TSRES.PS4, False)
sys.exit(0 if int(t[0]) == (1500 << 54) + (5 << 37) + 77 else 1)
""")
bug("b09-extended-one","C09",[(EP,"""            # End-of-file check
            if timing == 1:
                base, buffer, size = extract_bits(basebits, buffer, size, f)
                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch definition: "
                        "Terminal base bits not zero"
                    )
                break

            # Check if timing is actually in extended format, i.e. 32-bits
            if timing == 0:
                logging.debug("Extracting extended timing...")
                timing, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)

            timestamp += timing
""","""            # Check if timing is actually in extended format, i.e. 32-bits
            if timing == 0:
                logging.debug("Extracting extended timing...")
                timing, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)

            # End-of-file check
            if timing == 1:
                base, buffer, size = extract_bits(basebits, buffer, size, f)
                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch definition: "
                        "Terminal base bits not zero"
                    )
                break

            timestamp += timing
""")],
 "a T2 file with a time difference of 1 stored in the 32-bit field","the event is taken for the terminator","""
from fpfind.lib.parse_epochs import read_T2, TSRES
def pk(ds, w, b):
    bits = ""
    for d, x, ext in ds:
        bits += ("0" * w + format(d, "032b") if ext else format(d, "0%db" % w)) + format(x, "0%db" % b)
    bits += format(1, "0%db" % w) + "0" * b
    bits += "0" * (-len(bits) % 32)
    return struct.pack("<iIIiii", 0x102, 0xab, 0, w, b, 0) + b"".join(struct.pack("<I", int(bits[i:i + 32], 2)) for i in range(0, len(bits), 32))
put(TMP + "/ab", pk([(5, 1, 0), (1, 2, 1), (7, 1, 0)], 8, 4))
try: t, p = read_T2(TMP + "/ab", resolution=TSRES.PS125, fractional=False)
except ValueError: sys.exit(1)
sys.exit(0 if [int(v) - (0xab << 32) for v in t] == [5, 6, 13] and list(p) == [1, 2, 1] else 1)
""")
bug("b10-index-width","C10",[(EP,"    return np.array(indices), np.array(bases)\n","    return np.array(indices, dtype=np.int64).astype(np.int32), np.array(bases)\n")],
 "a T4 file whose coincidence index passes 2^31","indices wrap to negative numbers","""
from fpfind.lib.parse_epochs import read_T4
def pk(ds, w, b):
    bits = ""
    for d, x, ext in ds:
        bits += ("0" * w + format(d, "032b") if ext else format(d, "0%db" % w)) + format(x, "0%db" % b)
    bits += format(1, "0%db" % w) + "0" * b
    bits += "0" * (-len(bits) % 32)
    return struct.pack("<IIIII", 0x104, 0xab, 0, w, b) + b"".join(struct.pack("<I", int(bits[i:i + 32], 2)) for i in range(0, len(bits), 32))
put(TMP + "/ab", pk([(5, 1, 0), (0xf0000000, 2, 1), (7, 1, 0)], 8, 4))
t, p = read_T4(TMP + "/ab")
sys.exit(0 if [int(v) for v in t] == [3, 3 + 0xf0000000 - 2, 8 + 0xf0000000 - 2] else 1)
""")
bug("b11-one-side-garbage","C11",[(EP,"            if b < 0:\n                service.garbage[1] += 1\n","            elif b < 0:\n                service.garbage[1] += 1\n")],
 "an entry in which both sides have no or several detectors","such entries are counted as garbage for one side only","""
from fpfind.lib.parse_epochs import read_T3
put(TMP + "/ab", struct.pack("<iIIi", 0x103, 0xab, 4, 8) + struct.pack("<I", 0x41223311))
s = read_T3(TMP + "/ab")
sys.exit(0 if list(s.garbage) == [1, 1] and s.okcount == 3 else 1)
""")
bug("b12-more-than-announced","C12",[(EP,"""    if length and len(timestamps) != length:
        raise ValueError("Number of epochs do not match length specified in header")

    # Add full epoch if required
""","""    if length and len(timestamps) < length:
        raise ValueError("Number of epochs do not match length specified in header")

    # Add full epoch if required
""")],
 "a T2 file that holds more events than its header announces","the inconsistent file is read without an error","""
from fpfind.lib.parse_epochs import read_T2
bits = "00000101" + "0001" + "00000110" + "0001" + "00000001" + "0000"
bits += "0" * (-len(bits) % 32)
put(TMP + "/ab", struct.pack("<iIIiii", 0x102, 0xab, 1, 8, 4, 0) + b"".join(struct.pack("<I", int(bits[i:i + 32], 2)) for i in range(0, len(bits), 32)))
try: read_T2(TMP + "/ab")
except ValueError: sys.exit(0)
sys.exit(1)
""")
bug("b13-epoch-name-order","C13",[(UT,"        epochint_first = epoch2int(first_epoch)\n        epochints = set([v for v in epochints if v >= epochint_first])\n","        epochints = set([v for v in epochints if int2epoch(v) >= first_epoch.lower()])\n")],
 "epoch numbers with different numbers of hexadecimal digits around the requested first epoch","epochs are compared as text, so 'ff' counts as later than '100'","""
from fpfind.lib.utils import get_first_overlapping_epoch as g
for d in "ab":
    os.mkdir(TMP + "/" + d)
    for n in ("fe", "ff", "100", "101"): open(TMP + "/" + d + "/" + n, "w").close()
sys.exit(0 if g(TMP + "/a", TMP + "/b", "100", True) == ("100", 2) else 1)
""")
bug("b14-slice-end","C14",[(UT,"        ts = ts[ts < duration]\n","        ts = ts[:np.searchsorted(ts, duration, side=\"right\")]\n")],
 "an event exactly at the end of the requested duration","the slice includes the event at start+duration","""
import numpy as np
from fpfind.lib.utils import slice_timestamps
sys.exit(0 if list(slice_timestamps(np.array([1., 2., 5., 9.]), 1., 4.)) == [0., 1.] else 1)
""")
bug("b15-bin-overflow","C15",[(UT,"        np.int64((arr // time_res) % num_bins), minlength=num_bins\n","        np.int64((arr // time_res).astype(np.int32) % num_bins), minlength=num_bins\n")],
 "events more than 2^31 bins after the reference time","the bin number overflows 32 bits and events land in a wrong bin","""
import numpy as np
from fpfind.lib.utils import generate_fft
a = np.array([0., 7., 3.0 * 2**31 + 5.])
h = np.fft.irfft(generate_fft(a, 16, 1.), 16)
want = np.bincount((a.astype(np.int64) % 16), minlength=16)
sys.exit(0 if np.allclose(h, want, atol=1e-6) else 1)
""")
SIM = """
import numpy as np
rng = np.random.default_rng(7)
NB, RES = 1 << 17, 1000
W = NB * RES
"""
bug("b16-precomp-delay","C16",[(FP,"        dt += f * dt1\n        f *= (1 + df1)\n        logger.debug(\"  Applied another","        dt += dt1\n        f *= (1 + df1)\n        logger.debug(\"  Applied another")],
 "a non-zero frequency precompensation together with a large time offset","the reported time offset refers to the precompensated timestamps instead of the given ones",SIM+"""
from fpfind.fpfind import fpfind
a = np.sort(rng.uniform(0, 8 * W, 160000)); b = a * (1 + 5e-5) + 2e7
dt, df = fpfind(a, b, 1, NB, RES, 100, 6, 6 * W, [5e-5])
sys.exit(0 if abs(dt - 2e7) < 400 else 1)
""")
bug("b17-negative-delay","C17",[(FP,"        if abs(dt1) > NTP_MAXDELAY_NS:\n","        if dt1 > NTP_MAXDELAY_NS:\n")],
 "a match at a delay below -100 ms","the out-of-range match is reported as a result",SIM+"""
from fpfind.fpfind import time_freq
RES = 4096; W = NB * RES
a = np.sort(rng.uniform(0, 3 * W, 60000)); b = a - 2e8; b = b[b >= 0]
try: r = time_freq(a, b, 1, NB, RES, RES, 6, 1.5 * W)
except ValueError: sys.exit(0)
print(r); sys.exit(1)
""")
bug("b18-ordered-length","C18",[(FP,"        df0s = np.arange(0, int((stop-start) // step + 1))  # conventional\n","        df0s = np.arange(0, int(stop // step + 1))  # conventional\n")],
 "ordered schedule with a start value that is not zero","values beyond the stop value are listed, or values before it are missing","""
from fpfind.fpfind import generate_precompensations as g
sys.exit(0 if list(g(1, 3, .5, ordered=True)) == [1, 1.5, 2, 2.5, 3] else 1)
""")
bug("b19-inversion-order","C19",[(FP,"        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0\n        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1\n","        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1\n        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0\n")],
 "output flag bit 0 with a time offset large enough for the frequency offset to matter","the time offset is scaled with the inverted frequency offset","""
import contextlib
import fpfind.fpfind as m
import numpy as np
m.read_a1 = lambda *a, **k: (np.array([1., 2.]), None)
m.fpfind = lambda *a, **k: (8e7, 1e-4)
sys.argv = ["fpfind", "-t", "x", "-T", "y", "-V", "1"]
o = io.StringIO()
with contextlib.redirect_stdout(o): m.main()
sys.exit(0 if o.getvalue().split()[1] == str(round(-8e7 * (1 + 1e-4))) else 1)
""")
FQ = """
def ev(ts, low=1): return struct.pack("<Q", ((ts << 10) | low) & (2**64 - 1))
def run(args, data):
    p = subprocess.run([EXE] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout
"""
bug("b20-low-bits","C20",[(FC,"                eventptr->low = (ts << 10) | (low & 0x3ff);\n","                eventptr->low = (ts << 10) | (low & 0xf);\n")],
 "input events with any of the bits 4 to 9 set","the bits between timestamp and detector pattern are cleared",FQ+"""
d = ev(5, 0x3f1) + ev(900, 0x25)
sys.exit(0 if run(["-f", "0"], d) == (0, d) else 1)
""","c")
bug("b21-rewrite","C21",[(FC,"        eventnum = 0;  // clear events to avoid rewriting:\n                       // occurs when 'freqhandle' available for reading, but\n                       // 'inhandle' has no more events\n","")],
 "the input pauses for longer than the select time-out, or a frequency update arrives on its own","the last events are written again",FQ+"""
p = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write(ev(5)); p.stdin.flush(); time.sleep(2); p.stdin.close()
o = p.stdout.read(); p.wait()
sys.exit(0 if o == ev(5) else 1)
""","c")
bug("b22-negative-update","C22",[(FC,"                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;\n","                    if (fcorr_tmp < FCORR_MAX) fcorr = fcorr_tmp;\n")],
 "a frequency update below -2097151","an out-of-range negative update is applied",FQ+"""
os.mkfifo(TMP + "/f"); fd = os.open(TMP + "/f", os.O_RDWR)
p = subprocess.Popen([EXE, "-F", TMP + "/f"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write(ev(5)); p.stdin.flush()
if p.stdout.read(8) != ev(5): p.kill(); sys.exit(2)
os.write(fd, b"-3000000\\n")
t0 = time.time()
while time.time() - t0 < 20:                      # wait until the line was taken
    import array, termios
    n = array.array("i", [0]); fcntl.ioctl(fd, termios.FIONREAD, n)
    if n[0] == 0: break
    time.sleep(.02)
time.sleep(.3)
p.stdin.write(ev(1 << 40)); p.stdin.flush(); p.stdin.close()
o = p.stdout.read(); p.wait()
sys.exit(0 if o == ev(1 << 40) else 1)
""","c")
bug("b23-decimal-range","C23",[(FC,"    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);\n","    if (fcorr >= FCORR_MAX) return -emsg(5);\n")],
 "a negative decimal offset whose converted value exceeds the range although the number itself does not","the out-of-range offset is accepted",FQ+"""
rc, o = run(["-d", "-f", "-1500000"], ev(5) + ev(1 << 40))
sys.exit(0 if rc != 0 and o == b"" else 1)
""","c")
bug("b24-wrap-boundary","C24",[(GE,"    if timestamp >= (1 << 54):\n","    if timestamp > (1 << 54):\n")],
 "a timestamp of exactly 2^54","the generator fails instead of writing the wrapped timestamp","""
from fpfind.lib.generate_freqcd_testcase import get_event
try: sys.exit(0 if get_event(1 << 54) == struct.pack("<Q", 1) else 1)
except struct.error: sys.exit(1)
""")
bug("b25-buffer-epoch","C25",[(FP,"np.ceil(minimum_duration/EPOCH_LENGTH).astype(np.int32)","np.int32(minimum_duration // EPOCH_LENGTH)")],
 "epoch directories and a required duration that is not a whole number of epochs","one epoch too few is read, so the spare epoch is missing","""
import fpfind.fpfind as F, numpy as np
seen = []
F.get_first_overlapping_epoch = lambda *a, **k: ("9", 50)
def get_timestamp(d, kind, first, skip, num):
    seen.append(int(num)); return np.arange(1, 200, dtype=np.longdouble)
F.get_timestamp = get_timestamp
F.fpfind = lambda *a, **k: (0.0, 0.0)
def run(*argv):
    del seen[:]; sys.argv = ["fpfind", "-d", TMP, "-D", TMP] + list(argv); old = sys.stdout; sys.stdout = io.StringIO()
    try: F.main()
    finally: sys.stdout = old
    return list(seen)
ok = run("-q", "26") == [15, 15] and run("-q", "26", "-s", "6.25") == [16, 16] and run("-q", "20") == [2, 2]
sys.exit(0 if ok else 1)
""")
bug("b26-round-second","C26",[(EP,"    total_seconds = int(datetime.timestamp())\n","    total_seconds = round(datetime.timestamp())\n")],
 "a time in the second half of a second whose following second is in another epoch","the epoch of the following second is returned","""
import datetime as dt
from fpfind.lib.parse_epochs import date2epoch
bad = 0
for s in range(1668000000, 1668000040):
    for us in (0, 250000, 900000):
        d = dt.datetime.fromtimestamp(s) + dt.timedelta(microseconds=us)
        bad += date2epoch(d) != "%08x" % (s * 8 * 10**9 >> 32)
sys.exit(1 if bad else 0)
""")
