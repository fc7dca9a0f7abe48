From 67d1295ab348e21616fcd6cb3a8c04efe89750ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 01/18] fix: keep all 54 bits when reading a0 timestamps

The high word was promoted to float64 by mixing uint64 with int64, which
loses the lowest bit of timestamps of 2^53 and above, returns floats for
raw (TSRES.PS4, non-fractional) timestamps, and fails on empty files.
---
 src/fpfind/lib/parse_timestamps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..e69b893 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -104,8 +104,8 @@ def read_a0(
         There is no legacy formatting for event types a0 and a2. Preserved in
         the function signature to maintain parity with 'read_a1'.
     """
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.genfromtxt(filename, delimiter="\n", dtype="U8").reshape(-1)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
-- 
2.43.0


From 9f283a61d3508f1ca71b9af15f497173edf37f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 02/18] fix: read a2 events of any value and files with a
 single event

Events on both sides of 2^63 in one batch were promoted to float64 (on
which the shift fails), and genfromtxt returns a 0-d array for a single line.
---
 src/fpfind/lib/parse_timestamps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index e69b893..ecc5382 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -134,8 +134,8 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.genfromtxt(filename, delimiter="\n", dtype="U16").reshape(-1)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From 0acab7158d9cfe3b7db4d1424a3e00abf76b433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 03/18] fix: allow integer 4ps timestamps when reading T2
 epochs

Adding Python integers to np.uint64 yields np.float64, which cannot be
shifted: read_T2(resolution=TSRES.PS4, fractional=False) always raised.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..575743d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -309,7 +309,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From d1639c0da698af56c2df9ee70a47fcfcbcd5e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 04/18] fix: reject epoch files that end before their
 terminator

read_T2 and read_T4 looped forever on the zeroes read past the end of the
file, and read_T1 took a partial last word as an event or the end of file
as the terminator.
---
 src/fpfind/lib/parse_epochs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 575743d..3e34953 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if len(event_low) < 4:
+                raise ValueError("File ended before termination")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
@@ -245,6 +247,7 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
 
     Raises:
         ValueError: msb_size > size but fileobject not provided.
+        ValueError: fileobject has no complete word left.
 
     Example:
 
@@ -264,8 +267,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) < 4:
+            raise ValueError("File ended before termination")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 0ad9a15b5bcf64325aaeeba069d233a4b8f5a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 05/18] fix: apply the legacy option of
 generate_freqcd_testcase

main() set a local variable, so '-x' had no effect on generated events.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..8e59f89 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -83,6 +83,7 @@ def main():
         sys.exit(1)
 
     args = parser.parse_args()
+    global LEGACY
     if args.x:
         LEGACY = True
 
-- 
2.43.0


From c8aabb308d6354332ae7d1e4ab3a7a0379d5f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 06/18] fix: do not overwrite the input file of
 generate_freqcd_testcase

The named input file was overwritten with stdin, which only the temporary
file for '-' should be.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 8e59f89..0eb267b 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
-- 
2.43.0


From 4377ea3ed085765a722c9cedf9fe59fdc1ca00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 07/18] fix: return the peak found when fully scanning
 precompensations

The for-else clause raised 'No peak found!' after every full scan, since
the loop is never left early.
---
 src/fpfind/fpfind.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..afebde3 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    result = None  # first successful (dt, df)
 
     # Go through all precompensations
     for df0 in df0s:
@@ -373,6 +374,8 @@ def fpfind(
             "", resolution=target_resolution, dt=dt, df=f-1,
         )
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
+        if result is None:
+            result = (dt, f - 1)
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
         if precompensation_fullscan:
@@ -380,11 +383,10 @@ def fpfind(
         break
 
     # No appropriate frequency compensation found
-    else:
+    if result is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return result
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From ec7425980432ce4197edab190d38d9c488e714b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 08/18] fix: slice timestamps that have no events after the
 start

slice_timestamps raised IndexError, which also bypassed the handling of
failed peak finding when the data is too short for the later window.
---
 src/fpfind/lib/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..4a2e634 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -268,10 +268,10 @@ def slice_timestamps(
     if start is not None:
         ts = ts - start  # note: 'ts -= start' is in-place
         ts = ts[ts >= 0]
-    else:
+    elif len(ts) != 0:
         ts = ts - ts[0]
     if duration is not None:
-        if duration >= ts[-1]:
+        if len(ts) != 0 and duration >= ts[-1]:
             warnings.warn(
                 f"Desired duration ({duration*1e-9:.3f} s) is longer "
                 f"than available data ({ts[-1]*1e-9:.3f} s)")
-- 
2.43.0


From e96c1aee0c69161e906daaea26b8c4df90c4966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 09/18] fix: complete statistics report for events without
 duration

The event rate of a single event (or of simultaneous events) raised an
exception before the list of patterns was printed.
---
 src/fpfind/lib/parse_timestamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index ecc5382..763c087 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -514,7 +514,8 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        if duration != 0:
+            print(f"Event rate (/s) : {int(num_events//duration)}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From 5b07c154c8aebfda0dd38b6dcd657b32ffd84197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 10/18] fix: correct freqcd timestamps across rollover and
 out-of-order events

The unsigned difference to the reference was shifted as a huge value when
an event precedes the reference, either slightly or after the 54-bit
counter rolled over, which added a spurious correction to later events.
---
 src/fpfind/freqcd.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..f54b22f 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -272,7 +272,8 @@ int main(int argc, char *argv[]) {
                     // noting subsequent initializations should zero 'tsref'
     int isset_tsref = 0;    // initialization marker for tsref
     ull ts, tsmeas;         // timestamp
-    ll tscorr;              // timestamp correction
+    ll tsdiff;              // signed time elapsed since reference timestamp
+    ll tscorr = 0;          // timestamp correction
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
@@ -358,7 +359,11 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // Difference is negative for events slightly out of order, and
+                // wraps around when the 54-bit timestamp counter overflows
+                tsdiff = (ll)(tsmeas - tsref);
+                if (tsdiff < -((ll)1 << 53)) tsdiff += (ll)1 << 54;
+                tscorr = ((tsdiff >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From ff6f94b37fb30055914e9ec1f82bb0ccc43e5e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 11/18] fix: do not reapply freqcd correction on reads without
 a complete event

A read that leaves less than one event added the last correction again
(or used an uninitialized reference timestamp).
---
 src/fpfind/freqcd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index f54b22f..9c4fb7e 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -385,8 +385,10 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From 93f38f4c6e3c219223f6f663ba5fbf15ea156121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 12/18] fix: keep partial freqcd frequency values across reads

A read without newline was overwritten by the next read, so that a value
split between reads was lost or misread.
---
 src/fpfind/freqcd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 9c4fb7e..75b14b8 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -431,13 +431,17 @@ int main(int argc, char *argv[]) {
             }
 
             /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+            // Too long to be a number: drop characters but mark as non-number,
+            // so that reads of zero size do not appear as a closed stream
+            if (freqbytespartial == FREQBUFSIZE - 1) {
+                freqbuffer[0] = '?';
+                freqbytespartial = 1;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From cc66a701d547bf5d8d36bcb9af426701e7c9cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 13/18] fix: ignore freqcd frequency values that do not fit an
 integer

abs() truncates its long argument to int, so that e.g. 4294967301 was
applied as 5.
---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 75b14b8..3c79cb7 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From abd233d26389690d009f804a372fcf67c7e5752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 14/18] fix: reject freqcd frequency options that overflow an
 integer

Values such as 4294967301 were read as 5, and INT_MIN passed the abs()
check; in decimal mode large values overflow the conversion to int.
---
 src/fpfind/freqcd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 3c79cb7..8d466fc 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -171,6 +171,7 @@ int main(int argc, char *argv[]) {
 
     /* parse options */
     int fcorr = FCORR_DEFAULT;  // frequency correction value
+    long fcorr_arg = FCORR_DEFAULT;  // frequency correction supplied as option
     char infilename[FNAMELENGTH] = {};  // store filename
     char outfilename[FNAMELENGTH] = {};  // store filename
     char freqfilename[FNAMELENGTH] = {};  // store filename
@@ -193,7 +194,7 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            if (sscanf(optarg, "%ld", &fcorr_arg) != 1) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -209,6 +210,9 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
+    // and before narrowing, so that large values do not wrap around
+    if ((fcorr_arg <= -FCORR_MAX) || (fcorr_arg >= FCORR_MAX)) return -emsg(5);
+    fcorr = fcorr_arg;
     if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
     if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
 
-- 
2.43.0


From a345373d18cb2747d3bd31e9883f4ddbc96ab8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 15/18] fix: leave space for termination of freqcd file names

sscanf with %200s writes up to 201 bytes into a 200-byte buffer.
---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 8d466fc..4ad2a3a 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -80,7 +80,7 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
+#define FNAMEFORMAT "%199s"        /* for sscanf of filenames */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
-- 
2.43.0


From 8757e7782950692117838cc9a732df0a4b488f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 16/18] fix: print statistics of files without events in memory

print_statistics raised IndexError for an empty list of events, where the
streaming variant reports zero events.
---
 src/fpfind/lib/parse_timestamps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 763c087..31ad0c4 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) != 0 else None,
+        end_timestamp=t[-1] if len(t) != 0 else None,
         patterns=sorted(np.unique(p)),
     )
 
-- 
2.43.0


From 118e6c178d5843a362b07d5ebcaf48b0791bf7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 17/18] fix: reject epoch headers with negative bit widths

read_T2 never terminated on them, since extracting a negative number of
bits adds bits to the buffer without reading the file.
---
 src/fpfind/lib/parse_epochs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 3e34953..1124ffa 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -247,6 +247,7 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
 
     Raises:
         ValueError: msb_size > size but fileobject not provided.
+        ValueError: msb_size is negative.
         ValueError: fileobject has no complete word left.
 
     Example:
@@ -265,6 +266,9 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
         operation always precedes the value retrieval. This function
         can be reused in bit-packing schemes of other epoch types.
     """
+    if msb_size < 0:
+        raise ValueError("Number of bits cannot be negative")
+
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
         word = fileobject.read(4)
-- 
2.43.0


From 4649c6b1f7355b19f4c86a0d143ff43f57ec4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:55 +0000
Subject: [PATCH 18/18] fix: date2epoch rounds exactly at epoch boundaries

Dividing by 125e-12 in floating point falls just below the exact value for
some whole seconds at which an epoch starts, giving the previous epoch.
Use integer arithmetic.
---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 1124ffa..47f695f 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -114,7 +114,7 @@ def date2epoch(datetime=None):
         datetime = dt.datetime.now()
 
     total_seconds = int(datetime.timestamp())
-    epoch_val = int(total_seconds/125e-12) >> 32
+    epoch_val = (total_seconds * 8_000_000_000) >> 32  # exact, 125ps units
     return f"{epoch_val:08x}"
 
 
-- 
2.43.0

