#pragma once
#ifndef VF_CHK_C20
#define VF_CHK_C20 1
#define VF_CHK_C21 1
#define VF_CHK_C22 1
#define VF_CHK_C23 1
#define VF_USE_C20 1
#define VF_USE_C21 1
#define VF_USE_C22 1
#define VF_USE_C23 1
#endif
/* Specification of freqcd: ghost state, contracts of the operating system and
   library functions it calls, and the reference semantics of the event and
   frequency streams.  Included in front of the (mechanically annotated) source. */
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <sys/select.h>
#include <unistd.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <string.h>
#include <ctype.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/stat.h>
typedef unsigned long long g_u64;
typedef long long g_i64;

g_u64 nondet_g_u64(void);
#ifdef __clang__
void __CPROVER_assert(_Bool, const char *); void __CPROVER_assume(_Bool); _Bool __CPROVER_w_ok(const void *, unsigned long), __CPROVER_r_ok(const void *, unsigned long); void __CPROVER_havoc_object(void *); unsigned long __CPROVER_POINTER_OFFSET(const void *);
#endif
 g_i64 nondet_g_i64(void); int nondet_int(void); long nondet_long(void);
unsigned nondet_unsigned(void); char nondet_char(void); _Bool nondet_bool(void); double nondet_double(void);
unsigned long nondet_ulong(void);

/* The event stream: its e-th 8-byte word.  The frequency stream: its p-th byte (no NUL bytes). */
g_u64 __CPROVER_uninterpreted_ev(g_u64);
unsigned char __CPROVER_uninterpreted_fq(g_u64);
#define G_EV(e) __CPROVER_uninterpreted_ev(e)
#define G_FQ(p) ((char)__CPROVER_uninterpreted_fq(p))
#define G_EVB(e, b) ((char)(unsigned char)(G_EV(e) >> (8 * (b))))

/* options */
static int g_x, g_d;               /* -x, -d seen                               */
static long g_arg;                 /* value of the last -f                      */
static _Bool g_badarg;             /* some option argument was unreadable       */
static _Bool g_optsdone;           /* getopt returned EOF                       */
static _Bool g_fail;               /* a library call failed                     */
static _Bool g_entered;            /* the streams have been waited for          */
static _Bool g_helped;
static int g_tag;                  /* option whose argument optarg holds        */
static char g_optbuf[8];
#define G_FDI 3
#define G_FDO 4
#define G_FDF 5
static int g_infd, g_outfd = 1, g_ffd;   /* descriptors; 0 for g_ffd: no frequency stream */

/* event stream */
static g_u64 g_in;                 /* bytes received                            */
static g_u64 g_done;               /* events written                            */
static g_u64 g_ref, g_acc;         /* last event of the previous read, and its accumulated correction mod 2^54 */
static g_u64 g_ref2, g_acc2;       /* the same for the last event written       */
static _Bool g_set2;               /* an event has been received: g_ref2, g_acc2 are meaningful */
static long g_f, g_fb;             /* offset in force; offset in force for the current read */
static g_u64 g_evk; static g_u64 g_K;                  /* arbitrary event index (witness of every "for all events") */
/* frequency stream */
static g_u64 g_fin;                /* bytes received                            */
static g_u64 g_ls;                 /* start of the current line                 */
static g_u64 g_W, g_W2, g_W3, g_P, g_pn;            /* arbitrary stream positions                */
static _Bool g_over;               /* a line longer than the buffer was received */
static _Bool g_eof;

g_i64 __CPROVER_uninterpreted_mul(g_i64, g_i64);
static g_i64 vf_mul(g_i64 a, g_i64 b) {
#if VF_MULUF
    if (a == 0 || b == 0) return 0;
    return a < b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a);
#else
    return a * b;
#endif
}
#define VF_MUL(a, b) vf_mul(a, b)
#define G_M54 ((1ULL << 54) - 1)
#define G_FMAX 2097151L
#define G_DMAX 1220703L            /* largest |v| with |v| 2^34 < 2^21 10^10 */
#define G_LOWW(v) ((unsigned)(g_x ? (v) >> 32 : (v)))
#define G_HIGHW(v) ((unsigned)(g_x ? (v) : (v) >> 32))
#define G_TS(v) (((g_u64)G_HIGHW(v) << 22) | (G_LOWW(v) >> 10))
#define G_CONV(v) ((long)(int)((int)(v) * 1.7179869184))     /* lemma: equals trunc(v 2^34 / 10^10), |v| <= G_DMAX (checked for every v) */
#define G_ACCEPT (!g_badarg && (g_d ? -G_DMAX <= g_arg && g_arg <= G_DMAX : -G_FMAX <= g_arg && g_arg <= G_FMAX))
#define G_OPTF (g_d ? G_CONV(g_arg) : g_arg)

static g_i64 g_elapsed(g_u64 ts, g_u64 ref) {
    g_i64 d = (g_i64)(ts - ref);
    if (d < -((g_i64)1 << 53)) d += (g_i64)1 << 54;
    return d;
}
static g_i64 g_sx54(g_u64 v) { v &= G_M54; return (v >> 53) ? (g_i64)(v | ~G_M54) : (g_i64)v; }

/* event v written as word o: low ten bits kept, accumulated correction changed by elapsed time times offset
   to within 1.5 counts (2^34 c - d f between -1.5 2^34 and 1.5 2^34, where d f = 4096 p + m), and not at all for offset 0 */
_Bool __CPROVER_uninterpreted_ok(g_u64, g_u64, g_u64, g_u64, long);
static _Bool g_corr_ok(g_u64 ts, g_u64 to) {
#if VF_OPAQUE      /* jobs that only carry the relation along */
    return __CPROVER_uninterpreted_ok(ts, to, g_acc, g_ref, g_fb);
#else
    g_i64 c = g_sx54(to - ts - g_acc);
    g_i64 d = g_elapsed(ts, g_ref);
    g_i64 f = g_fb;
    g_i64 p = VF_MUL(d >> 12, f);
    g_i64 m = VF_MUL(d & 4095, f);
    __CPROVER_assume(-((g_i64)1 << 33) < m && m < ((g_i64)1 << 33));      /* lemma mulrange */
    g_i64 r = c * 4194304 - p;
    if (f == 0 && c != 0) return 0;
    if (r <= -((g_i64)1 << 24) || r >= ((g_i64)1 << 24)) return 0;
    r = r * 4096 - m;
    return -3 * ((g_i64)1 << 33) <= r && r <= 3 * ((g_i64)1 << 33);
#endif
}
static _Bool g_event_ok(g_u64 v, g_u64 o) { return (G_LOWW(v) & 0x3ff) == (G_LOWW(o) & 0x3ff) && g_corr_ok(G_TS(v), G_TS(o)); }
static g_u64 g_word(const unsigned char *b) {
    return (g_u64)b[0] | (g_u64)b[1] << 8 | (g_u64)b[2] << 16 | (g_u64)b[3] << 24 | (g_u64)b[4] << 32 | (g_u64)b[5] << 40 | (g_u64)b[6] << 48 | (g_u64)b[7] << 56;
}

/* ------------------------------------------------------------ library contracts */
int vf_getopt(int argc, char *const argv[], const char *optstring) {
    if (nondet_bool()) { g_optsdone = 1; g_f = G_ACCEPT ? G_OPTF : 0; return -1; }
    int k = nondet_int(); __CPROVER_assume(0 <= k && k < 16);
    int n = 0; while (n < 16 && optstring[n]) n++;
    __CPROVER_assert(n < 16, "internal: option string fits");
    g_tag = 0;
    if (k >= n || optstring[k] == ':') { optarg = 0; return '?'; }
    char c = optstring[k];
    if (optstring[k + 1] == ':') { g_tag = c; optarg = g_optbuf; } else optarg = 0;
    if (c == 'x') g_x = 1;
    if (c == 'd') g_d = 1;
    return c;
}
/* text of an option argument: either a number (value arbitrary) or a name, read by the formats in use */
static int vf_scan_long(const char *s, long *out) {
    __CPROVER_assert(s == g_optbuf, "internal: number read from the option argument");
    if (nondet_bool()) { if (g_tag == 'f') g_badarg = 1; g_fail = 1; return 0; }
    long v = nondet_long(); if (g_tag == 'f') g_arg = v;
    *out = v; return 1;
}
static int vf_scan_str(const char *s, const char *fmt, char *out) {
    int w = 0, i = 1;
    for (; i < 6 && fmt[i] >= '0' && fmt[i] <= '9'; i++) w = 10 * w + (fmt[i] - '0');
    __CPROVER_assert(fmt[0] == '%' && fmt[i] == 's' && fmt[i + 1] == 0, "internal: format %<width>s");
    __CPROVER_assert(!VF_CHK_C23 || (i > 1 && __CPROVER_w_ok(out, w + 1)), "C23: reading a file name stays within its buffer");
    if (nondet_bool()) { g_badarg = 1; g_fail = 1; return nondet_bool() ? 0 : -1; }
    __CPROVER_havoc_object(out); out[0] = g_tag;
    return 1;
}
#define VF_IS_LONG(p) _Generic((p), long *: 1, default: 0)
#define vf_sscanf(s, fmt, p) _Generic((p), long *: vf_scan_long(s, (long *)(p)), default: vf_scan_str(s, fmt, (char *)(p)))

int vf_open(const char *path, int flags) {
    __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT), "C23: nothing is opened when the offset is rejected");
    if (nondet_bool()) { g_fail = 1; return -1; }
    if ((flags & 3) != 0) { __CPROVER_assert(!VF_CHK_C21 || (path[0] == 'o'), "C21: the output is the file given by -o"); g_outfd = G_FDO; return G_FDO; }
    if (path[0] == 'i') { g_infd = G_FDI; return G_FDI; }
    __CPROVER_assert(!VF_CHK_C22 || (path[0] == 'F'), "C22: the frequency stream is the file given by -F"); g_ffd = G_FDF; return G_FDF;
}
static void *g_alloc(unsigned long n) { unsigned long k = n ^ 5; char *p = malloc(k ^ 5); return p; }
void *vf_malloc(unsigned long n) {
    void *p = g_alloc(n);
    if (nondet_bool()) { g_fail = 1; return 0; }
    return p;
}
void vf_free(void *p) { }
int vf_select(void) {
    __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT && g_optsdone), "C23: no stream is waited for when the offset is rejected");
    g_entered = 1;
    int r = nondet_int(); __CPROVER_assume(r >= -1); if (r == -1) g_fail = 1; return r;
}
_Bool vf_isset(int fd) { return nondet_bool(); }
void vf_fdset(int fd) { __CPROVER_assert(!VF_CHK_C21 || (fd >= 0 && fd < 1024), "C21: descriptor fits the set"); }
double vf_pow(double a, double b) { if (a == 10.0 && b == 10.0) return 10000000000.0; return nondet_double(); }
int vf_printf(void) { return nondet_int(); }
void vf_exit(int code) { __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT || !g_optsdone || (code & 255) != 0), "C23: a rejected offset ends with an error status"); __CPROVER_assume(0); }

static void g_give(char *buf, long n, g_u64 e) {   /* the bytes of event e among the n delivered to buf are the stream's */
    g_u64 first = g_in / 8; int q = (int)(g_in % 8);
    if (e < first || e - first > 200000) return;
    int at = 8 * (int)(e - first) - q; g_u64 v = G_EV(e);
    for (int b = 0; b < 8; b++) if (at + b >= 0 && at + b < (int)n) __CPROVER_assume(buf[at + b] == (char)(unsigned char)(v >> (8 * b)));
}
long vf_read(int fd, void *dst, unsigned long n) {
    char *buf = dst;
    unsigned long off = __CPROVER_POINTER_OFFSET(buf);
    char *base = buf - off;
    __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT && g_optsdone), "C23: nothing is read when the offset is rejected");
    __CPROVER_assert(!VF_CHK_C21 || (n > 0 && n <= 1000000), "C21: read asks for a positive number of bytes");
    __CPROVER_assert(!VF_CHK_C21 || (__CPROVER_w_ok(buf, n)), "C21: read stays within the buffer");
    long r = nondet_long(); __CPROVER_assume(r >= -1 && r <= (long)n);
    if (r == -1) { g_fail = 1; return r; }
    if (fd == g_infd) {
        if (r == 0) { g_eof = 1; return 0; }
        __CPROVER_assume(g_in <= (1ULL << 60));
        char s[8]; unsigned long o8 = off < 8 ? off : 8;
        for (int b = 0; b < 8; b++) if (b < off) s[b] = base[b];
        __CPROVER_havoc_object(base);
        for (int b = 0; b < 8; b++) if (b < off) __CPROVER_assume(base[b] == s[b]);
        g_give(buf, r, g_in / 8); g_give(buf, r, g_K); g_give(buf, r, (g_in + r) / 8); if (g_in + r >= 8) g_give(buf, r, (g_in + r) / 8 - 1);
        g_in += r; g_fb = g_f;
        if (!g_set2 && g_in >= 8) { g_set2 = 1; g_ref2 = G_TS(G_EV(0)); g_acc2 = 0; }
        g_ref = g_ref2; g_acc = g_acc2;
        return r;
    }
    __CPROVER_assert(!VF_CHK_C22 || (fd == g_ffd && g_ffd != 0), "C22: updates are read from the frequency stream");
    if (r == 0) return 0;
    __CPROVER_assume(g_fin <= (1ULL << 60));
    {
        g_u64 w = g_W - g_ls, w2 = g_W2 - g_ls; char s = 0, s2 = 0;
        _Bool k = g_W >= g_ls && g_W < g_fin && w < off, k2 = g_W2 >= g_ls && g_W2 < g_fin && w2 < off;
        if (k) s = base[w]; if (k2) s2 = base[w2];
        __CPROVER_havoc_object(base);
        if (k) __CPROVER_assume(base[w] == s); if (k2) __CPROVER_assume(base[w2] == s2);
        if (g_W >= g_fin && g_W < g_fin + r) __CPROVER_assume(buf[g_W - g_fin] == G_FQ(g_W) && G_FQ(g_W) != 0);
        g_fin += r;
    }
    return r;
}
long vf_write(int fd, const void *src, unsigned long n) {
    const unsigned char *buf = src;
    __CPROVER_assert(!VF_CHK_C23 || (G_ACCEPT && g_optsdone), "C23: nothing is written when the offset is rejected");
    __CPROVER_assert(!VF_CHK_C21 || (fd == g_outfd), "C21: events go to the output");
    __CPROVER_assert(!VF_CHK_C21 || (n <= 1000000 && n % 8 == 0), "C21: whole events are written");
    __CPROVER_assert(!VF_CHK_C21 || (__CPROVER_r_ok(buf, n)), "C21: write stays within the buffer");
    g_u64 m = n / 8;
    __CPROVER_assert(!VF_CHK_C21 || (g_done + m <= g_in / 8), "C21: no event is invented or written twice");
    if (g_K >= g_done && g_K < g_done + m && !g_over) __CPROVER_assert(!VF_CHK_C20 || (g_event_ok(g_evk, g_word(buf + 8 * (g_K - g_done)))), "C20: low ten bits kept, accumulated correction changes by elapsed time times offset within 1.5 counts, and not at all for offset zero");
    if (nondet_bool()) { long r = nondet_long(); __CPROVER_assume(r >= -1 && r < (long)n); g_fail = 1; return r; }
    if (m > 0) { g_u64 v = G_EV(g_done + m - 1); g_ref2 = G_TS(v); g_acc2 = (G_TS(g_word(buf + n - 8)) - g_ref2) & G_M54; }
    g_done += m;
    return n;
}
/* strtol, base 10, on a stored line: the text must be exactly the next line of the frequency stream */
static g_u64 g_memo_s; static _Bool g_memo; static long g_memo_v; static g_u64 g_memo_e, g_memo_n;
long vf_strtol(const char *s, char **end, int base) {
    if (s == g_optbuf) { long v = nondet_long(); __CPROVER_assume(0); return v; }
    __CPROVER_assert(!VF_CHK_C22 || (base == 10), "C22: decimal");
    __CPROVER_assert(__CPROVER_r_ok(s, g_pn + 1) && s[g_pn] == 0, "internal: the text converted is terminated in the buffer (at the hint)");
    if (g_over) { unsigned e0 = nondet_unsigned(); __CPROVER_assume(e0 <= g_pn); *end = (char *)s + e0; return nondet_long(); }
    /* nl: the first line end at or after g_ls (2^62 when there is none), given by the instances used here */
    g_u64 nl = nondet_g_u64(); __CPROVER_assume(nl >= g_ls && nl <= (1ULL << 62));
    __CPROVER_assume(nl == (1ULL << 62) || G_FQ(nl) == '\n');
    __CPROVER_assume(!(g_P >= g_ls && g_P < nl) || G_FQ(g_P) != '\n');
    __CPROVER_assume(g_W2 == nl);                 /* g_W2 was arbitrary: choose it here */
    g_u64 n = nl - g_ls;
    __CPROVER_assert(!VF_CHK_C22 || nl < g_fin, "C22: a line is converted only when its end has been received");
    __CPROVER_assume(nl < g_fin);
    __CPROVER_assert(!VF_CHK_C22 || (__CPROVER_r_ok(s, n + 1) && s[n] == 0), "C22: the text converted ends where the line ends");
    __CPROVER_assert(!VF_CHK_C22 || !(g_W >= g_ls && g_W < nl) || s[g_W - g_ls] == G_FQ(g_W), "C22: the text converted is the next line of the stream");
    _Bool isint = n > 0 && nondet_bool(); long v = nondet_long(); g_u64 e = nondet_g_u64();
    __CPROVER_assume(e <= g_pn);
    __CPROVER_assume(isint ? e == n : (e < n || n == 0) && e <= n);
    __CPROVER_assume(isint || g_W3 == g_ls + e);  /* likewise */
    if (isint && -G_FMAX <= v && v <= G_FMAX) g_f = v;  /* the specification of a line */
    g_ls += n + 1;
    *end = (char *)s + e; return v;
}

#define G_BYTES_PART(buf, at, part, from) ( \
    (!(0 >= (from) && 0 < (part)) || (buf)[(at) + 0] == G_EVB(g_in / 8, 0)) && (!(1 >= (from) && 1 < (part)) || (buf)[(at) + 1] == G_EVB(g_in / 8, 1)) && \
    (!(2 >= (from) && 2 < (part)) || (buf)[(at) + 2] == G_EVB(g_in / 8, 2)) && (!(3 >= (from) && 3 < (part)) || (buf)[(at) + 3] == G_EVB(g_in / 8, 3)) && \
    (!(4 >= (from) && 4 < (part)) || (buf)[(at) + 4] == G_EVB(g_in / 8, 4)) && (!(5 >= (from) && 5 < (part)) || (buf)[(at) + 5] == G_EVB(g_in / 8, 5)) && \
    (!(6 >= (from) && 6 < (part)) || (buf)[(at) + 6] == G_EVB(g_in / 8, 6)))

/* ------------------------------------------------------------ interception */
#undef FD_ZERO
#undef FD_SET
#undef FD_ISSET
#define FD_ZERO(s) ((void)(s))
#define FD_SET(fd, s) vf_fdset(fd)
#define FD_ISSET(fd, s) vf_isset(fd)
#define getopt vf_getopt
#define sscanf vf_sscanf
#define open(path, flags, ...) vf_open(path, flags)
#define malloc vf_malloc
#define free vf_free
#define select(...) vf_select()
#define read vf_read
#define write vf_write
#define pow vf_pow
#define strtol vf_strtol
#define fprintf(...) vf_printf()
#define exit vf_exit
#undef errno
#define errno nondet_int()
#define main vf_main

