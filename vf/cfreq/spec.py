"""Loop contracts of freqcd.c (main), keyed by what the loop does."""
BATCH = "(g_in / 8 - g_done)"          # events of the current read
def role(i):
    """role of a loop from its calls and the variables it touches"""
    if "getopt" in i.calls: return "options"
    if "select" in i.calls or "poll" in i.calls or {"read", "write"} <= i.calls: return "main"
    if not any(r.role == "main" for r in i.parents if hasattr(r, "role")): pass
    if "outbuffer" in i.names: return "events"
    if 10 in i.chars: return "lines"
    if "freqbuffer" in i.names: return "keepline"
    if i.names & {"inbuffer", "inbufferbytes"}: return "keepevent"
    return None

def fq(w, hi, extra="1"): return "!(!g_over && g_ffd && %s >= g_ls && %s < %s) || (%s)" % (w, w, hi, extra)
def partline(w): return fq(w, "g_fin", "freqbuffer[%s - g_ls] == G_FQ(%s) && G_FQ(%s) != '\\n' && G_FQ(%s) != 0" % (w, w, w, w))
def scan(w): return fq(w, "g_fin", "freqbuffer[%s - (g_fin - freqbytesread)] == G_FQ(%s) && G_FQ(%s) != 0 && (%s >= (g_fin - freqbytesread) + i || G_FQ(%s) != '\\n')" % (w, w, w, w, w))
def keepline(w): return fq(w, "g_fin", "freqbuffer[%s - g_ls + (%s - g_ls < (g_u64)j ? 0 : next_num_idx)] == G_FQ(%s) && G_FQ(%s) != '\\n' && G_FQ(%s) != 0" % (w, w, w, w, w))

# state in which the main loop is entered: checked where the options part ends (job "start"), assumed in full generality by the other jobs
ENTRY = [("C21", "input buffer", "__CPROVER_w_ok(inbuffer, INBUFSIZE) && __CPROVER_POINTER_OFFSET(inbuffer) == 0 && inbufferbytes == (char *)inbuffer"),
         ("C21", "output buffer", "__CPROVER_w_ok(outbuffer, OUTBUFSIZE) && __CPROVER_POINTER_OFFSET(outbuffer) == 0 && !__CPROVER_same_object(inbuffer, outbuffer)"),
         ("C22", "frequency buffer", "!g_ffd || (__CPROVER_w_ok(freqbuffer, FREQBUFSIZE) && __CPROVER_POINTER_OFFSET(freqbuffer) == 0 && !__CPROVER_same_object(freqbuffer, outbuffer) && !__CPROVER_same_object(freqbuffer, inbuffer))"),
         ("C21", "word order", "(islegacy != 0) == (g_x != 0)"),
         ("C21", "handles", "inhandle == g_infd && outhandle == g_outfd && (g_infd == 0 || g_infd == G_FDI) && (g_outfd == 1 || g_outfd == G_FDO) && (g_ffd == 0 || g_ffd == G_FDF)"),
         ("C23", "accepted", "g_optsdone && G_ACCEPT && !g_fail")]
ENTRY_CHECK = "if (VF_BASE_main) { %s; }" % "; ".join("if (VF_CHK_%s) " % tag + "__CPROVER_assert(%s, \"%s: state on entry of the main loop (%s)\")" % (t, tag, nm) for tag, nm, t in ENTRY)
ENTRY_SETUP = "{ vf_entry:; if (VF_SKIP) { @HAVOC; inbuffer = g_alloc(INBUFSIZE); outbuffer = g_alloc(OUTBUFSIZE); inbufferbytes = (char *)inbuffer; freqbuffer = g_alloc(FREQBUFSIZE); g_infd = nondet_bool() ? 0 : G_FDI; inhandle = g_infd; g_outfd = nondet_bool() ? 1 : G_FDO; outhandle = g_outfd; g_ffd = nondet_bool() ? 0 : G_FDF; g_x = VF_X == 2 ? nondet_bool() : VF_X; g_d = 0; g_arg = 0; g_badarg = 0; g_optsdone = 1; g_fail = 0; __CPROVER_assume((islegacy != 0) == (g_x != 0)); } "

JOBS = {"start": ["options"], "step": ["main"], "keepevent": ["main", "keepevent"], "events": ["main", "events"], "lines": ["main", "lines"], "keepline": ["main", "keepline"]}
USES = {"C20": "C20 C21 C22 C23", "C21": "C21 C23", "C22": "C21 C22 C23", "C23": "C21 C23"}
def macros(job, tag):
    job, _, case = job.partition("-")
    d = {"VF_SKIP": int(job != "start"), "VF_HIT": {"hit": 1, "miss": 0, "": 2}['hit' if case.startswith('hit') else case], "VF_OPAQUE": int(not case.startswith("hitB")), "VF_MULUF": int(case != "hitBm"), "VF_X": int(case[3]) if case in ("hit0", "hit1") else 2}
    for t in ("C20", "C21", "C22", "C23"):
        d["VF_CHK_" + t] = int(t == tag); d["VF_USE_" + t] = int(t in USES[tag])
    for r in CONTRACTS:
        last = JOBS[job][-1]
        d["VF_BASE_" + r] = int((job == "start" and r in ("options", "main")) or (job == "step" and r not in ("options", "main")))
        d["VF_STEP_" + r] = int(r == last or (job == "start" and r == "options"))
        d["VF_BODY_" + r] = int(r in JOBS[job])
        d["VF_EXIT_" + r] = int(r != last or job in ("start", "step"))
    return ["-D%s=%d" % x for x in d.items()]

CONTRACTS = {
 "options": dict(
    before="{ if (VF_SKIP) goto vf_entry; ",
    ghosts={"g_x": "nondet_bool()", "g_d": "nondet_bool()", "g_arg": "nondet_long()", "g_badarg": "nondet_bool()", "g_fail": "nondet_bool()", "g_tag": "nondet_int()"},
    inv=[("C23", "offset option", "fcorr_arg == g_arg && (isdecimal != 0) == (g_d != 0)"), ("C21", "word order", "(islegacy != 0) == (g_x != 0)"),
         ("C23", "unreadable", "!g_badarg && !g_fail"),
         ("C21", "file names", "(infilename[0] == 0 || infilename[0] == 'i') && (outfilename[0] == 0 || outfilename[0] == 'o')"),
         ("C21", "frequency file name", "freqfilename[0] == 0 || freqfilename[0] == 'F'")]),
 "main": dict(
    before=ENTRY_SETUP,
    pre=ENTRY_CHECK,
    after_base="__CPROVER_assume(VF_BODY_main)",
    ghosts={"g_in": "nondet_g_u64()", "g_done": "nondet_g_u64()", "g_ref": "nondet_g_u64()", "g_acc": "nondet_g_u64()", "g_ref2": "nondet_g_u64()", "g_acc2": "nondet_g_u64()",
            "g_set2": "nondet_bool()", "g_f": "nondet_long()", "g_fb": "nondet_long()", "g_fin": "nondet_g_u64()", "g_ls": "nondet_g_u64()", "g_over": "nondet_bool()",
            "g_entered": "nondet_bool()", "g_fail": "nondet_bool()", "g_W2": "nondet_g_u64()", "g_W3": "nondet_g_u64()"},
    post="if (g_ffd && g_fin - g_ls >= 99) g_over = 1",
    live={"freqbuffer": "g_ffd"},
    defs={"freqbuffer_next": ("!g_ffd", "freqbuffer + freqbytespartial")},
    also=[partline("g_W2"), partline("g_W3")],
    inv=[("C21", "no failure so far", "!g_fail"),
         ("C21", "bytes held", "0 <= inbytesread && inbytesread <= 8192 && (g_u64)(inbytesread % 8) == g_in % 8 && g_in <= (1ULL << 61)"),
         ("C21", "partial event kept", "G_BYTES_PART(inbufferbytes, inbytesread - inbytesread % 8, inbytesread % 8, 0)"),
         ("C21", "every complete event written", "g_done == g_in / 8 && eventnum == 0 && outevents == 0"),
         ("C20", "reference set by the first event", "(isset_tsref != 0) == g_set2 && g_set2 == (g_in >= 8)"),
         ("C20", "reference and accumulated correction", "!g_set2 || g_over || (tsref == g_ref2 && ((g_u64)tsoverflowcorr & G_M54) == g_acc2)"),
         ("C20", "correction starts at zero", "g_set2 || tsoverflowcorr == 0"),
         ("C22", "offset in force", "g_over || (fcorr == g_f && -G_FMAX <= g_f && g_f <= G_FMAX)"),
         ("C21", "frequency handle", "freqhandle == 0 || freqhandle == g_ffd"),
         ("C21", "held characters fit", "!g_ffd || (0 <= freqbytespartial && freqbytespartial <= 98)"),
         ("C22", "held characters", "!g_ffd || (g_fin <= (1ULL << 61) && (g_over || ((g_u64)freqbytespartial == g_fin - g_ls && g_ls <= g_fin)))"),
         ("C22", "partial line kept", partline("g_W"))]),
 "keepevent": dict(
    inv=[("C21", "progress", "0 <= j && j <= inbytespartial && i == inbytesread - inbytespartial + j"),
         ("C21", "bytes moved", "G_BYTES_PART(inbufferbytes, 0, j, 0)"),
         ("C21", "bytes to move", "G_BYTES_PART(inbufferbytes, inbytesread - inbytespartial, inbytespartial, 0)")]),
 "events": dict(
    locals="",
    inv=[("C21", "progress", "0 <= i && i <= eventnum && outevents == i"),
         ("C20", "reference, accumulated correction and offset of this read", "g_over || eventnum == 0 || (g_fb == fcorr && g_ref == tsref && g_acc == ((g_u64)tsoverflowcorr & G_M54))"),
         ("C20", "input still to come", "!(g_K >= g_done + i && g_K < g_done + eventnum) || g_word((unsigned char *)(inbuffer + (g_K - g_done))) == g_evk"),
         ("C20", "last input still to come", "!(i < eventnum) || g_word((unsigned char *)(inbuffer + (eventnum - 1))) == G_EV(g_done + eventnum - 1)"),
         ("C20", "event corrected", "g_over || !(g_K >= g_done && g_K < g_done + i) || g_event_ok(g_evk, g_word((unsigned char *)(outbuffer + (g_K - g_done))))"),
         ("C20", "last event", "g_over || !(i > 0 && i == eventnum) || (tsmeas == G_TS(G_EV(g_done + i - 1)) && G_TS(g_word((unsigned char *)(outbuffer + (i - 1)))) == ((tsmeas + tscorr + tsoverflowcorr) & G_M54))"),
         ("C21", "partial event untouched", "G_BYTES_PART(inbufferbytes, inbytesread - inbytesread % 8, inbytesread % 8, 0)")],
    # case split of the C20 job: the iteration that processes event g_K (equalities assumed above are substituted), or another one
    tail="__CPROVER_assume(VF_HIT == 2 || (VF_HIT == 1) == (g_K == g_done + i)); if (VF_HIT == 1) { __CPROVER_assume(i < eventnum && !g_over); g_evk = g_word((unsigned char *)(inbuffer + i)); g_fb = fcorr; g_ref = tsref; g_acc = (g_u64)tsoverflowcorr & G_M54; }",
    post="if (VF_HIT == 1) { if (!VF_OPAQUE) __CPROVER_assert(g_corr_ok(tsmeas, (tsmeas + tscorr + tsoverflowcorr) & G_M54), \"C20: the correction computed for an event is elapsed time times offset within 1.5 counts, and zero for offset zero\"); __CPROVER_assume(g_corr_ok(tsmeas, (tsmeas + tscorr + tsoverflowcorr) & G_M54)); }",
    defs={"eventptr": (None, "inbuffer + i")}),
 "lines": dict(
    ghosts={"g_f": "nondet_long()", "g_ls": "nondet_g_u64()", "g_W2": "nondet_g_u64()", "g_W3": "nondet_g_u64()"},
    also=[scan("g_W2"), scan("g_W3"), scan("g_P")], assume0="g_P = (g_fin - freqbytesread) + i; g_pn = i - next_num_idx",
    inv=[("C21", "progress", "0 <= i && i <= freqbytesread && 0 <= next_num_idx && next_num_idx <= i"),
         ("C22", "line start", "g_over || g_ls == (g_fin - freqbytesread) + next_num_idx"),
         ("C22", "offset in force", "g_over || (fcorr == g_f && -G_FMAX <= g_f && g_f <= G_FMAX)"),
         ("C22", "text of the current line", scan("g_W"))]),
 "keepline": dict(
    inv=[("C21", "progress", "0 <= j && j <= freqbytespartial && i == next_num_idx + j"),
         ("C22", "text moved", keepline("g_W"))]),
}
