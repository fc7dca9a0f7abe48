N = {"default": ("exploration", "contract-based deductive verification: not yet discharged; run-time contracts on the real code (bounded)", "Bounded: contract oracle on the real code over directed and random inputs; never counted as proved.")}
T = "contract-based deductive verification: verification conditions generated from the current Python source, discharged by z3"
def proof(i, note): N[i] = ("proof", T, note + " A bounded run-time contract harness replays counter-models and searches for failing inputs; it is not counted as proved.")
proof("C01", "All obligations of read_a0/a1/a2 for every file of any length, three units, both output modes.")
proof("C02", "sread_a0/a1/a2 for every file length and batch size (loop invariant over the file position).")
proof("C03", "write_*/swrite_* for every event list and every batching.")
proof("C04", "main() in all format combinations against the contracts of C01-C03, C05, C06.")
proof("C05", "get_pattern_mask in all four modes and element types.")
proof("C06", "get_timing_mask for every time-ordered array; bisect by contract.")
proof("C07", "Statistics functions and main -p, for every batching; fewer than 2^53 events; times as reals.")
proof("C14", "slice_timestamps; normalize_timestamps for one to four sequences; times as reals.")
proof("C18", "generate_precompensations in both modes; fewer than 2^50 steps.")
proof("C19", "main() output stage for all 16 flag values; real arithmetic.")
proof("C08", "read_T1 for every epoch, event list, unit and output mode; write_T1 byte for byte for every epoch and event list.")
proof("C09", "read_T2 with extract_bits inlined, for all field widths, event counts and packings (bit-field theory).")
proof("C10", "read_T4 with extract_bits inlined, for all field widths, entry counts and packings (bit-field theory).")
proof("C12", "read_T1/T2/T4 on every truncated or inconsistent file, any header widths; termination by a bound on the iterations.")
TC = "contract-based deductive verification: verification conditions generated by CBMC from the current C source with every loop cut at its invariant, discharged by cvc5 and z3"
def proofc(i, note): N[i] = ("proof", TC, note + " A bounded run-time contract harness replays counter-models and searches for failing inputs; it is not counted as proved.")
proofc("C20", "main() of freqcd.c: every stream, word order, read chunking and offset; bit-precise arithmetic, two arithmetic lemmas.")
proofc("C21", "main() of freqcd.c: every chunking; memory safety of every access; operating-system calls by contract.")
proofc("C22", "main() and readint() of freqcd.c: every frequency stream and chunking; strtol by contract.")
proofc("C23", "main() of freqcd.c: every sequence of options; getopt and sscanf by contract; double conversion checked for all values in range.")
proof("C16","time_freq and fpfind for every history of measured delays, any number of refinements and any bin-width schedule; real arithmetic; an even number of bins, positive threshold; partial correctness.")
proof("C17","Guards of time_freq and failure handling of fpfind for every sequence of correlation outcomes and every list of precompensations; real arithmetic; an even number of bins; partial correctness.")
proof("C24","generate_freqcd_testcase main and get_event for timestamp lists and event files of any length; read_a1 by contract.")
proof("C11","read_T3 for every file, any number of entries; ghost tallies; one correctly rounded division.")
proof("C13","get_first_overlapping_epoch for every pair of directory listings and first epoch; get_timestamp for every first epoch, skip and count; read_T1/read_T2 by contract.")
proof("C15","generate_fft, get_xcorr, get_timing_delay_fft for every event sequence, even number of bins, bin width and peak position; bincount, the discrete Fourier transform and argmax by contract; counting lemmas; real arithmetic.")
proof("C25","main() of fpfind up to and including the search, both data sources, all numeric options symbolic, 2^1..2^32 bins; callees by contract; real arithmetic.")
proof("C26","date2epoch, epoch2date, epoch2int, int2epoch for every epoch number and time; datetime by contract.")
