#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
PT="src/fpfind/lib/parse_timestamps.py"; PE="src/fpfind/lib/parse_epochs.py"
UT="src/fpfind/lib/utils.py"; FP="src/fpfind/fpfind.py"; FC="src/fpfind/freqcd.c"
GT="src/fpfind/lib/generate_freqcd_testcase.py"
CN="src/fpfind/lib/constants.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Timestamp readers decode every event exactly",
 "Reading a well-formed timestamp file in any of the formats a0 (text, two 8-digit hex words per event, low word first), a1 (binary, low word first, or high word first when legacy) and a2 (text, one 16-digit hex value per event) returns exactly one timestamp and one detector pattern per event, in file order. The timestamp is the event's upper 54 bits, a count of 1/256 ns, converted without any loss to the requested unit (1 ns, 1/8 ns or 1/256 ns), keeping the fraction when fractional output is requested and rounding down to a whole unit otherwise; the pattern is the event's lowest four bits.",
 ["inputs"],"every number of events from zero up, every 64-bit event value, every format/legacy/resolution/fractional combination",
 "The reader tests need a data directory that is not in the repository, and they fix one file each; no test reaches a count above 2^53, a single-event file, or formats a0 and a2.",
 [PT,CN],[("a0/a1/a2 readers","read_a0, read_a1, read_a2"),("unit conversion","_format_timestamps")],["return values of the readers"])

p("C02","Streaming a file in batches yields the whole-file events",
 "For every well-formed timestamp file and every positive batch size, concatenating the batches of the streaming reader of a format gives the same timestamps and patterns, in the same order and unit, as the file holds. Every batch but the last holds exactly the requested number of events, the last holds between one and that number, and the announced number of batches equals the number produced (zero for an empty file).",
 ["inputs","configurations"],"every file length, every batch size, every format, legacy flag and output unit",
 "No test calls a streaming reader; batch boundaries depend on the pair (file length, batch size), an unbounded space.",
 [PT],[("block streaming","sread_a0, sread_a1, sread_a2")],["batches yielded and number announced"])

p("C03","Writers emit exactly one spec-conforming record per event",
 "Writing timestamps (each a whole number of 1/256 ns below 2^54, given in any of the three units) with 4-bit detector patterns emits exactly one record per event, in order, whose 64-bit value is count*1024 + pattern, laid out as the format requires (a0: low then high 8-digit lowercase hex word on separate lines; a1: little-endian 64 bits, with the two 32-bit words exchanged when legacy; a2: 16-digit lowercase hex line). A streaming writer produces the same bytes for every way of cutting the events into batches, and no writer modifies the arrays it is given.",
 ["inputs","configurations"],"every sequence of events, every batch partition, every format, unit and legacy flag",
 "No test calls a writer of this module; the exactness of the 54-bit conversion and the word layout must hold for every value.",
 [PT],[("event packing","_consolidate_events"),("writers","write_a0, write_a1, write_a2, swrite_a0, swrite_a1, swrite_a2")],["bytes of the output file"])

p("C04","Converting between formats preserves or exactly selects events",
 "The timestamp conversion command, for every pair of input and output format and either legacy flag, writes a file that holds exactly the input's events, with unchanged counts and patterns and in the same order, when no filter is given; with filters it holds exactly the events (and rewritten patterns) that the pattern filter followed by the time filter selects from the whole file. The result is the same with in-memory processing as with streaming.",
 ["inputs","configurations"],"every input file, every combination of the format, legacy, filter and in-memory options (time bounds taken as double-precision numbers, counts below 2^53 where a time bound is given)",
 "There is no test of the command at all; the guarantee spans two readers, two writers, two filters and the option handling.",
 [PT],[("command","main, event_filter, inline_filter")],["output file of parse_timestamps"])

p("C05","Pattern filter selects and rewrites exactly the documented events",
 "For every list of 4-bit detector patterns and every 4-bit filter pattern, the pattern filter returns a selection mask of the list's length together with the resulting patterns of the selected events in order: events equal to the pattern; or events different from it when inverted; or, used as a bitmask, events sharing any bit with it, reduced to the shared bits; or, as an inverted bitmask, events left with at least one detector after the pattern's bits are removed, plus the events that had no detector to begin with, reduced to the remaining bits. The input list is not modified.",
 ["inputs"],"every list of patterns, every filter pattern 0..15, all four modes",
 "The docstring examples cover one filter pattern and are not run by the test suite.",
 [PT],[("pattern filter","get_pattern_mask")],["returned mask and patterns"])

p("C06","Time filter keeps exactly the events inside the closed interval",
 "For every time-ordered list of timestamps in any of the three units (below 2^53 of the unit) and every choice of start and end in seconds, either of which may be absent, the bounds converted to the unit in double precision, the time filter returns a mask of the list's length that is set exactly at the timestamps t with start <= t <= end (both ends included, an absent bound being unlimited), for lists of any length including zero. The timestamps are not modified.",
 ["inputs"],"every sorted list, every pair of optional bounds, including bounds outside the data, equal bounds and reversed bounds",
 "The docstring examples use one four-element list and are not run by the test suite.",
 [PT],[("time filter","get_timing_mask")],["returned mask"])

p("C07","Event statistics are those of the whole event sequence",
 "For every sequence of events, the printed report states the number of events, the number of events on each of the four channels, with more than one channel and with none, and the sorted set of patterns that occur, together with the first and last timestamp in seconds, all computed over the whole sequence. The report is the same for whole-file and streaming processing and for every way the sequence is cut into batches (empty batches included), and is complete for every non-empty sequence.",
 ["inputs","configurations"],"every event sequence (including one event, or all events at one time), every batch partition, every unit",
 "No test runs the statistics; counts that span batch boundaries cannot be settled by sampling a few files.",
 [PT],[("statistics","print_statistics, print_statistics_stream, print_statistics_report")],["arguments/lines of the printed report"])

p("C08","T1 epoch files round-trip every event, unit and full epoch",
 "For every 32-bit epoch and every list of events (37-bit offset in 1/256 ns, non-zero 4-bit pattern), writing a T1 epoch file and reading it back returns the patterns and, in order, the timestamps (low 17 bits of the epoch)*2^37 + offset, exactly in fractional output and rounded down to a whole unit in integer output, in each of the three units. Requesting the full epoch adds exactly (epoch div 2^17)*2^54 of 1/256 ns in integer output, and at least 1/8 ns precision in fractional output.",
 ["inputs","configurations"],"every epoch number, every list of offsets and patterns, every unit, fractional and full-epoch flag",
 "The stable tests write one fixed list of timestamps for one epoch and compare only two entries for inequality.",
 [PE],[("T1 writer","write_T1"),("T1 reader","read_T1")],["return values of the T1 reader, bytes of the T1 file"])

p("C09","T2 epoch files decode to the exact event sequence",
 "For every well-formed T2 epoch file (any epoch, time-difference width and base width with both positive and together below 32 bits, any number of events, each time difference stored either in the short field or as a zero marker plus 32 bits, all differences together below 2^32, bits packed most-significant first into little-endian 32-bit words, and terminated by difference 1 with base 0), the reader returns one event per stored difference, its timestamp in 1/8 ns being (low 17 bits of the epoch)*2^32 plus the sum of the differences so far and its base the stored base. Units are converted as for T1 (exact fraction, or whole units rounded down), and a full epoch adds (epoch div 2^17)*2^49 of 1/8 ns.",
 ["inputs","configurations"],"every epoch, every pair of field widths, every sequence of differences and bases, every unit, fractional and full-epoch flag",
 "The T2 tests need absent data and fix one field width; where 32-bit word boundaries fall inside the fields depends on the whole history of the bit stream.",
 [PE],[("bit unpacking","extract_bits"),("T2 reader","read_T2")],["return values of the T2 reader"])

p("C10","T4 epoch files decode to the exact coincidence indices",
 "For every well-formed T4 epoch file (any index-difference and base width with together at most 32 bits, each difference stored in the short field or as a zero marker plus 32 bits, terminated by 1 with base 0), the reader returns one entry per stored difference, its index being the sum over the entries so far of (stored difference - 2), and its base the stored base.",
 ["inputs"],"every pair of field widths and every sequence of differences and bases",
 "There is no test of the T4 reader.",
 [PE],[("bit unpacking","extract_bits"),("T4 reader","read_T4")],["return values of the T4 reader"])

p("C11","T3 tallies classify every coincidence exactly once",
 "For every T3 file, over the first header-declared number of entries (bytes taken most-significant first from little-endian 32-bit words), each entry whose two 4-bit patterns are both single detectors is counted in exactly one cell of the 4x4 coincidence matrix, the one for that pair of detectors, and in the accepted count; each other entry is counted as garbage for every side that is not a single detector. The error ratio is same-detector counts divided by same-detector plus orthogonal-detector counts, to three decimals, and 0.5 when there are none.",
 ["inputs"],"every entry byte, every number of entries, every order",
 "There is no test of the T3 reader.",
 [PE],[("T3 reader","read_T3")],["fields of the returned T3 record"])

p("C12","Truncated or inconsistent epoch files are rejected, never misread",
 "Reading a T1, T2 or T4 epoch file always terminates. If the file ends after a complete header but before its terminator, or the header announces a non-zero number of events different from the number before the terminator, or a T2/T4 terminator carries a non-zero base, the reader raises a ValueError instead of returning events.",
 ["inputs","fault_sequences","crash_points"],"every byte prefix of every well-formed T1/T2/T4 body whose header announces at least one event, every header count, every terminator base",
 "No test reads a malformed file; truncation can happen at any byte.",
 [PE],[("length and terminator checks","read_T1, read_T2, read_T4, extract_bits")],["exception or result of the readers"])

p("C13","Overlap search and epoch loading pick exactly the right epochs",
 "Given two directories of epoch files, the overlap search returns the smallest epoch number (in lowercase hex) present in both that is not below a requested first epoch, together with the length of the longest run of consecutive common epochs starting there, or no epoch and zero when there is none. Loading a number of epochs from a first epoch and a skip returns the events of exactly the epochs first+skip, first+skip+1, ..., concatenated in that order.",
 ["inputs","configurations"],"every pair of epoch sets, every first epoch, skip and count",
 "No test exercises the directory search; runs and gaps form an unbounded space.",
 [UT,PE],[("overlap search","get_first_overlapping_epoch"),("epoch loading","get_timestamp"),("epoch names","epoch2int, int2epoch")],["returned epoch, run length and timestamp array"])

p("C14","Slicing and normalising keep relative times and the inputs intact",
 "Normalising several time-ordered timestamp sequences shifts all of them by one common amount, the latest of their first timestamps plus the requested skip, and keeps, in order, exactly the events at or after that point, so that differences between sequences are preserved. Slicing by start and duration keeps exactly the events t with 0 <= t-start < duration, returned as t-start; neither operation modifies the sequences it is given, and slices that hold no event are returned empty.",
 ["inputs"],"every set of sorted sequences, every skip, start and duration, sliced ranges with no events included",
 "No stable test calls these functions.",
 [UT],[("slicing","slice_timestamps"),("normalising","normalize_timestamps")],["returned arrays and the caller's arrays afterwards"])

p("C15","Correlation peaks translate to the correct signed delay",
 "For event sequences that differ by a delay of a whole number of bins d smaller than half the (even) histogram length, the circular cross-correlation computed from their binned transforms equals, bin by bin, the number of event pairs separated by that many bins modulo the histogram length, and the delay reported for its highest bin is the signed delay of smallest magnitude congruent to that bin, positive when the second sequence is later. Binning assigns every event to bin floor(t/width) modulo the number of bins and loses none.",
 ["inputs"],"every pair of event sequences, every even number of bins and every bin width, every peak position including zero and the wrap-around half",
 "There is no test of the correlation functions.",
 [UT],[("binning and transform","generate_fft"),("correlation","get_xcorr"),("delay","get_timing_delay_fft")],["correlation histogram and reported delay"])

p("C16","The reported offset pair is the composition of all corrections applied",
 "Whenever the frequency/time search returns a time offset dt and frequency offset df, the map T -> (T - dt)/(1 + df) equals the composition, in order, of the frequency precompensation that was in effect and of every per-iteration correction (T - dt_i)/(1 + df_i) measured by the iterations, where df_i is the change of measured delay between early and late windows divided by their separation. Only the correction of a last iteration that is not the first may be left out, when it is spurious: one of its delays exceeds ten times the accumulated delay (at least 10 ns) or its frequency correction exceeds ten times the accumulated one (at least 1e-8). In particular the offsets refer to the timestamps as given, before precompensation.",
 ["inputs","histories"],"every sequence of measured delays over any number of refinement iterations, every precompensation, in real arithmetic",
 "The end-to-end tests import a module that no longer exists and need absent data; the accumulated result depends on the whole iteration history.",
 [FP],[("refinement","time_freq"),("precompensation scan","fpfind")],["returned (dt, df)"])

p("C17","Out-of-range or insignificant matches are never reported as success",
 "A scan reports a result only if some precompensation in the list led to an accepted peak, namely the first such in list order, whether or not scanning is told to continue afterwards, and otherwise raises a ValueError. A refinement never returns a frequency offset of magnitude 2^-13 or more, raises an error when the peak never reaches the significance threshold before the bin width exceeds 10000 ns, when the correlation is flat, or when the early delay exceeds 100 ms in magnitude, and non-empty data too short for the requested windows lead to the same kind of error.",
 ["inputs","histories","fault_sequences"],"every sequence of correlation outcomes, every list of precompensations with any subset of them failing, every recording length",
 "No test exercises a failing search.",
 [FP,UT],[("guards","time_freq"),("scan and failure","fpfind")],["returned values or raised exception"])

p("C18","Precompensation schedule covers the scan range in the documented order",
 "For every start, non-negative range and positive step, the schedule lists start, start+step, start-step, start+2*step, start-2*step, ... with every offset from start of at most the range and none beyond, each once, or in ordered mode start, start+step, ... with every such value not above the stop value and none beyond, in increasing order. A zero step yields the single precompensation zero.",
 ["inputs"],"every start, stop and step, both orders, in real arithmetic",
 "The docstring examples are not run and cover four argument triples.",
 [FP],[("schedule","generate_precompensations")],["returned list"])

p("C19","fpfind prints the offsets in the requested units and direction",
 "The fpfind command prints the found frequency offset and, unless suppressed, a tab and the time offset rounded to an integer: as found when no output flag is set; with the inversion flag the pair (dt', df') satisfying (1+df')(1+df)=1 and dt'*(1+df')+dt=0 as documented; with the frequency-unit flag df rounded to an integer multiple of 2^-34; with the time-unit flag dt multiplied by 8. The flags act independently in every one of their 16 combinations.",
 ["inputs","configurations"],"every (dt, df) with |df| < 1, every flag value 0..15, in real arithmetic",
 "No test runs the command.",
 [FP],[("output","main")],["line printed on standard output"])

p("C20","freqcd corrects every event by the frequency offset, accurately",
 "For every input stream in either word order, whose timestamps do not jump backwards by 2^53 or more except when the 54-bit counter rolls over, each output timestamp equals, modulo 2^54, the input timestamp plus the accumulated correction, which starts at zero at the first event and changes between the last event of one read and an event of the next read by the elapsed time times the frequency offset (in units of 2^-34) to within 1.5 counts. An offset of zero leaves all events unchanged, and the low ten bits of every event are always unchanged.",
 ["inputs","histories"],"every stream of 64-bit events, every offset of magnitude up to 2097151, both word orders, every number of reads, counter roll-over and slightly out-of-order events included",
 "The one freqcd test compares three timestamps at one offset, and it cannot run in this environment.",
 [FC],[("event loop","freqcd.c main: digest events"),("reference update","freqcd.c main: tsref, tsoverflowcorr")],["bytes on standard output or the output file"])

p("C21","freqcd neither loses nor invents events for any read chunking",
 "However the operating system cuts the input into reads (including reads that end inside an event, or that hold less than one event), freqcd writes exactly one event for each complete 8-byte event received, in order and each once, and ignores a trailing incomplete event; reads or time-outs that bring no complete event do not change the correction applied to later events. Its buffer accesses stay within the buffers.",
 ["schedules","inputs","histories"],"every byte stream and every sequence of read sizes, interleaved with any sequence of time-outs and frequency-stream activity",
 "No test feeds freqcd split events; the space of chunkings is unbounded.",
 [FC],[("partial event carry-over","freqcd.c main: inbytespartial"),("write-out","freqcd.c main: outbuffer")],["bytes written per read"])

p("C22","freqcd applies exactly the valid frequency updates, in order",
 "Text arriving on the frequency stream, however it is cut into reads, is taken as newline-terminated lines: a line that is a decimal integer of magnitude at most 2097151 replaces the current offset for later events, and any other line has no effect, whatever its value or length (lines that fit the 99-character buffer, without NUL bytes). An update never changes the correction already accumulated, and the end of the frequency stream leaves the last offset in force.",
 ["schedules","inputs","histories"],"every sequence of lines, every cut of them into reads, every interleaving with event reads",
 "The update test file contains only comments; partial lines depend on read boundaries.",
 [FC],[("line assembly","freqcd.c main: freqbuffer"),("value parsing","readint")],["offset in effect after each read"])

p("C23","freqcd accepts exactly the offsets in range and rejects the rest",
 "A frequency offset option is accepted exactly when its value, after conversion from 0.1 ppb units (times 2^34/10^10, truncated towards zero) in decimal mode, has magnitude at most 2097151, and then exactly that value is used, wherever the options stand on the command line; otherwise the program stops with an error status before it reads or writes any event. File name arguments of any length never write outside their buffers.",
 ["inputs","configurations"],"every integer option text of any magnitude, both modes, every option order, file names of any length",
 "No test passes an out-of-range offset or a long file name.",
 [FC],[("option parsing","freqcd.c main: getopt loop"),("range check","freqcd.c main: FCORR_MAX")],["exit status and output bytes"])

p("C24","The test-stream generator emits exact events and spares its input",
 "For every list of non-negative integer timestamps, the generator writes for each, in order, the 8-byte event with that timestamp modulo 2^54 and detector pattern 1, in normal or, with the legacy option, exchanged word order, to standard output or the named output file. Given an input file or standard input of such events it prints each event's timestamp count in decimal, one per line, and leaves the input file unchanged.",
 ["inputs","configurations"],"every list of timestamps, both word orders, both output targets, both input sources",
 "The only test that uses the generator cannot run here and covers three timestamps.",
 [GT],[("event packing","get_event"),("command","main")],["bytes written, lines printed, input file afterwards"])

p("C25","fpfind searches the requested data with the requested settings",
 "The fpfind command runs the search exactly once, on exactly the data asked for: with timestamp files, all events of the reference and target file in the stated word order; with epoch directories, the T2 events of the reference and the T1 events of the target directory, from the first epoch common to both (not below a given first epoch) plus the epochs to skip, over as many consecutive epochs as cover (separation+1) x wraps x initial resolution x 2^order nanoseconds, and one more. Both sides are shifted to their common start plus the initial duration to skip (timestamp files only), keeping relative times. The search gets 2^order bins and the initial and final resolution, threshold, wraps, a separation of the given multiple of wraps x initial resolution x 2^order ns, and the requested precompensations (only zero unless scanning is enabled; full scan as requested). If the data of either side is not given, the command fails and prints no result.",
 ["inputs","configurations"],"every value of the numeric options in their documented ranges, both data sources, every file content","No test runs the command.",
 [FP],[("command","main")],["arguments of the search and the printed line"])

p("C26","Epoch numbers, names and dates correspond exactly",
 "date2epoch gives, as eight lowercase hexadecimal digits, the number of the epoch (2^32 units of 125 ps since 1970) that is running at the whole second of the given time, or of the current time if none is given; the conversion is exact, also at seconds at which an epoch starts. epoch2date gives the start of the named epoch to within two microseconds. int2epoch and epoch2int convert between numbers and lowercase hexadecimal names without prefix and are inverse to each other; epoch2int also accepts leading zeros.",
 ["inputs"],"every 32-bit epoch number and every time in that range, sub-second parts included","No test calls these conversions.",
 ["src/fpfind/lib/parse_epochs.py"],[("conversions","date2epoch, epoch2date, epoch2int, int2epoch")],["returned names, numbers and dates"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
