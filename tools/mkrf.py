import os,subprocess,sys
SRC="/repo/src/fpfind/"
def make(name, file, *subs):
    s=open(SRC+file).read(); o=s
    for a,b in subs:
        assert s.count(a)>=1,(name,a)
        s=s.replace(a,b)
    d="/tmp/rf/a/src/fpfind/"+file; e="/tmp/rf/b/src/fpfind/"+file
    for p,t in((d,o),(e,s)):
        os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"w").write(t)
    r=subprocess.run(["diff","-u","a/src/fpfind/"+file,"b/src/fpfind/"+file],cwd="/tmp/rf",capture_output=True,text=True).stdout
    open("/verif/tools/refactors/"+name+".diff","w").write(r)
F="freqcd.c"
make("fq_helpers",F,("int main(","""/* timestamp count of an event */
static ull event_count(unsigned int high, unsigned int low) {
    return ((ull)high << 22) | (low >> 10);
}
static void swap_words(unsigned int *a, unsigned int *b) {
    unsigned int t = *a;
    *a = *b;
    *b = t;
}
static ll elapsed(ull now, ull ref) {
    ll d = (ll)(now - ref);
    if (d < -((ll)1 << 53)) d += (ll)1 << 54;
    return d;
}

int main("""),("""                if (islegacy) {
                    _swp = low;
                    low = high;
                    high = _swp;
                }
""","""                if (islegacy) swap_words(&low, &high);
"""),("((ull)high << 22) | (low >> 10);\n                isset","event_count(high, low);\n                isset"),("tsmeas = ((ull)high << 22) | (low >> 10);","tsmeas = event_count(high, low);"),
("""                tsdiff = (ll)(tsmeas - tsref);
                if (tsdiff < -((ll)1 << 53)) tsdiff += (ll)1 << 54;
""","                tsdiff = elapsed(tsmeas, tsref);\n"))
make("fq_memmove",F,("""        for (i = inbytesread - inbytespartial, j = 0; j < inbytespartial; i++, j++) {
            inbufferbytes[j] = inbufferbytes[i];
        }
""","        memmove(inbufferbytes, inbufferbytes + (inbytesread - inbytespartial), inbytespartial);\n"),("""            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
                freqbuffer[j] = freqbuffer[i];
            }
""","            memmove(freqbuffer, &freqbuffer[next_num_idx], freqbytespartial);\n"))
make("fq_while",F,("""            for (i = 0; i < eventnum; i++) {

                /* extract""","""            i = 0;
            while (i < eventnum) {

                /* extract"""),("                outbuffer[outevents++] = *eventptr;\n                eventptr++;\n","                outbuffer[outevents] = *eventptr;\n                outevents++;\n                eventptr++;\n                i++;\n"),
("""            for (i = 0; i < freqbytesread; i++) {
                if (freqbuffer[i] == '\\n') {""","""            for (i = 0; i < freqbytesread; ++i) {
                if ('\\n' == freqbuffer[i]) {"""))
make("fq_index",F,("""                low = eventptr->low;
                high = eventptr->high;
                if (islegacy) {
                    _swp = low;
                    low = high;
                    high = _swp;
                }
                tsmeas""","""                low = islegacy ? inbuffer[i].high : inbuffer[i].low;
                high = islegacy ? inbuffer[i].low : inbuffer[i].high;
                tsmeas"""),("""                eventptr->high = ts >> 22;
                eventptr->low = (ts << 10) | (low & 0x3ff);
""","""                struct rawevent out_ev;
                out_ev.high = ts >> 22;
                out_ev.low = (ts << 10) | (low & 0x3ff);
"""),("eventptr->high, eventptr->low);\n                fprintf","out_ev.high, out_ev.low);\n                fprintf") if False else ("""                fprintf(stderr, "[debug] +---------- %08x %08x\\n", eventptr->high, eventptr->low);
""","""                fprintf(stderr, "[debug] +---------- %08x %08x\\n", out_ev.high, out_ev.low);
"""),("""                if (islegacy) {
                    _swp = eventptr->low;
                    eventptr->low = eventptr->high;
                    eventptr->high = _swp;
                }
                outbuffer[outevents++] = *eventptr;
                eventptr++;
""","""                if (islegacy) {
                    outbuffer[outevents].low = out_ev.high;
                    outbuffer[outevents].high = out_ev.low;
                } else {
                    outbuffer[outevents] = out_ev;
                }
                outevents++;
"""))
make("fq_order",F,("""    ull tsref = 0;  // reference""","""    unsigned int _swp;
    ull tsref = 0;  // reference"""),("    unsigned int _swp;      // temporary swap variable, support 'legacy' option\n",""),("""                tsref = tsmeas;
                tsoverflowcorr += tscorr;
""","""                tsoverflowcorr = tsoverflowcorr + tscorr;
                tsref = tsmeas;
"""),("        outevents = 0;  // clear outbuffer only after successful write\n        eventnum = 0;","        eventnum = 0;\n        outevents = 0;"),("if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;","if (fcorr_tmp > -FCORR_MAX && fcorr_tmp < FCORR_MAX) { fcorr = fcorr_tmp; }"),("inbytespartial = inbytesread % sizeof(struct rawevent);","inbytespartial = inbytesread & 7;"))

# ---------------- Python: parse_timestamps.py
P="lib/parse_timestamps.py"
make("ts_unpack",P,
("#############\n#  READERS  #\n#############\n","""#############
#  READERS  #
#############

def _parse_hex(tokens):
    \"\"\"Converts hexadecimal tokens into 64-bit words.\"\"\"
    return np.array([int(token, 16) for token in tokens], dtype=np.uint64)

def _unpack_words(data, high, low):
    \"\"\"Returns timestamps and detector patterns from pairs of words.\"\"\"
    pattern = data[:, low] & 0xF
    counts = (np.uint64(data[:, high]) << 22) + (data[:, low] >> 10)
    return counts, pattern
"""),
("""data = np.array([int(v,16) for v in data], dtype=np.uint64)""","data = _parse_hex(data)"),
("""    t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
    t = _format_timestamps(t, resolution, fractional)
    p = data[:, 0] & 0xF
    return t, p""","""    t, p = _unpack_words(data, 1, 0)
    return _format_timestamps(t, resolution, fractional), p"""),
("""    t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
    t = _format_timestamps(t, resolution, fractional)
    p = data[:, low_pos] & 0xF
    return t, p""","""    t, p = _unpack_words(data, high_pos, low_pos)
    return _format_timestamps(t, resolution, fractional), p"""),
("""                t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
                t = _format_timestamps(t, resolution, fractional)
                p = data[:, low_pos] & 0xF
                yield t, p""","""                t, p = _unpack_words(data, high_pos, low_pos)
                yield _format_timestamps(t, resolution, fractional), p"""),
("""                t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                t = _format_timestamps(t, resolution, fractional)
                p = data[:, 0] & 0xF
                yield t, p""","""                t, p = _unpack_words(data, 1, 0)
                yield _format_timestamps(t, resolution, fractional), p"""))
make("ts_loops",P,
("""            while True:
                buffer = f.read(buffer_size*8)  # 8 bytes per event
                if len(buffer) == 0:
                    break

                data""","""            nbytes = 8*buffer_size
            buffer = f.read(nbytes)  # 8 bytes per event
            while len(buffer) > 0:
                data"""),
("""                p = data[:, low_pos] & 0xF
                yield t, p
""","""                p = data[:, low_pos] & 0xF
                yield t, p
                buffer = f.read(nbytes)
"""),
("""            while True:
                buffer = f.read(buffer_size*18)  # 16 char per event + 2 newlines
                if len(buffer) == 0:
                    break

                data""","""            for buffer in iter(lambda: f.read(buffer_size*18), ""):
                data"""),
("""            while True:
                buffer = f.read(buffer_size*17)  # 16 char per event + 1 char newline
                if len(buffer) == 0:
                    break
""","""            while True:
                buffer = f.read(buffer_size*17)  # 16 char per event + 1 char newline
                if not buffer:
                    return
"""))
make("ts_writers",P,
("""        for line in data:
            f.write(f"{line:016x}\\n")

def write_a0""","""        f.writelines([f"{line:016x}\\n" for line in data])

def write_a0"""),
("""    data[0::2] = (events & 0xFFFFFFFF); data[1::2] = (events >> 32)
    with""","""    data[1::2] = events >> 32
    data[0::2] = events & 0xFFFF_FFFF
    with"""),
("""        for line in events:
            if legacy:
                line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
            f.write(struct.pack("=Q", line))

def swrite_a1""","""        _write_words(f, events, legacy)

def _swap(word):
    word = int(word)
    high, low = word >> 32, word & 0xFFFFFFFF
    return (low << 32) | high

def _write_words(f, events, legacy):
    for event in events:
        word = _swap(event) if legacy else event
        f.write(struct.pack("=Q", word))

def swrite_a1"""),
("""            for line in events:
                if legacy:
                    line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
                f.write(struct.pack("=Q", line))
""","""            _write_words(f, events, legacy)
"""))
make("ts_consolidate",P,
("""    data = (np.array(t, dtype=np_float) * (TSRES.PS4.value//resolution.value)).astype(np.uint64) << 10
    data += np.array(p).astype(np.uint64)
    if sort:
        data = np.sort(data)
    return data""","""    scale = TSRES.PS4.value//resolution.value
    patterns = np.array(p).astype(np.uint64)
    counts = (scale * np.array(t, dtype=np_float)).astype(np.uint64)
    data = (counts << 10) + patterns
    return np.sort(data) if sort else data"""))
make("ts_format",P,
("""    if fractional:
        t = np.array(t, dtype=np_float)
        t = t / (TSRES.PS4.value/resolution.value)
    elif resolution is not TSRES.PS4:  # short-circuit
        t = np.array(t, dtype=np.uint64)
        t = t // (TSRES.PS4.value//resolution.value)
    return t
""","""    if fractional:
        return np.array(t, dtype=np_float) / (TSRES.PS4.value/resolution.value)
    if resolution is TSRES.PS4:
        return t
    divisor = TSRES.PS4.value//resolution.value
    return np.array(t, dtype=np.uint64) // divisor
"""))
make("ts_masks",P,
("""    # Fixed pattern
    if not mask:
        pmask = (p == pattern)
        if invert:
            pmask = ~pmask
        masked = p[pmask]
""","""    # Fixed pattern
    if not mask:
        pmask = (p != pattern) if invert else (p == pattern)
        masked = p[pmask]
"""),
("""        _p = _p ^ (_p & pattern)  # patterns with bitmask removed
""","""        _p = _p & ~pattern  # patterns with bitmask removed
""") if False else ("""        masked = _p[pmask]  # return detector patterns after masking
        masked = np.where(masked == 16, 0, masked)  # recover dummy events
""","""        masked = np.where(_p == 16, 0, _p)[pmask]  # recover dummy events
"""),
("""    if start is None:
        start = t[0]
        i = 0
    else:
        start *= (1e9 * resolution.value)  # convert s -> ns -> resolution
        i = bisect.bisect_left(t, start)  # binary search
    if start > t[-1]:
        return mask
""","""    scale = 1e9 * resolution.value  # convert s -> ns -> resolution
    i = 0
    if start is not None:
        start = start * scale
        i = bisect.bisect_left(t, start)  # binary search
        if start > t[-1]:
            return mask
"""),
("""    if end is None:
        end = t[-1]
        j = len(t)
    else:
        end *= (1e9 * resolution.value)  # convert s -> ns -> resolution
        j = bisect.bisect_right(t, end)  # binary search
    if end < t[0]:
        return mask
""","""    j = len(t)
    if end is not None:
        end = end * scale
        j = bisect.bisect_right(t, end)  # binary search
        if end < t[0]:
            return mask
"""))
make("ts_stats",P,
("""    for t, p in stream:
        num_events += len(p)
        count_p1 += count(p & 0b0001 != 0)
        count_p2 += count(p & 0b0010 != 0)
        count_p3 += count(p & 0b0100 != 0)
        count_p4 += count(p & 0b1000 != 0)
""","""    for batch in stream:
        t, p = batch
        num_events = num_events + len(p)
        count_p4 += count((p & 0b1000) != 0)
        count_p3 += count((p & 0b0100) != 0)
        count_p2 += count((p & 0b0010) != 0)
        count_p1 += count((p & 0b0001) != 0)
"""),
("""        if len(t) != 0:
            if first_t is None:
                first_t = t[0] / resolution.value  # convert to nanoseconds
            last_t = t[-1] / resolution.value
""","""        if len(t) == 0:
            continue
        last_t = t[-1] / resolution.value
        if first_t is None:
            first_t = t[0] / resolution.value  # convert to nanoseconds
"""))
make("ts_stats2",P,
("""        count_p1 += count(p & 0b0001 != 0)
        count_p2 += count(p & 0b0010 != 0)
        count_p3 += count(p & 0b0100 != 0)
        count_p4 += count(p & 0b1000 != 0)
""","""        for ch in range(4):
            counts[ch] += count(p & (1 << ch) != 0)
"""),
("""    count_p1 = 0; count_p2 = 0; count_p3 = 0; count_p4 = 0
""","    counts = [0]*4\n"),
("""        ch1_counts=count_p1,
        ch2_counts=count_p2,
        ch3_counts=count_p3,
        ch4_counts=count_p4,
""","""        ch1_counts=counts[0],
        ch2_counts=counts[1],
        ch3_counts=counts[2],
        ch4_counts=counts[3],
"""))
make("ts_main",P,
("""    def event_filter(t, p, resolution: TSRES = TSRES.NS1):
        if args.pfilter_pattern is not None:
            mask, p = get_pattern_mask(p, args.pfilter_pattern, args.pfilter_mask, args.pfilter_invert)
            t = t[mask]
        if args.tfilter_start is not None or args.tfilter_end is not None:
            mask = get_timing_mask(t, args.tfilter_start, args.tfilter_end, resolution)
            t = t[mask]
            p = p[mask]
        return t, p

    def inline_filter(stream, resolution: TSRES = TSRES.NS1):
        for t, p in stream:
            yield event_filter(t, p, resolution)
""","""    has_tfilter = args.tfilter_start is not None or args.tfilter_end is not None

    def event_filter(t, p, resolution: TSRES = TSRES.NS1):
        if args.pfilter_pattern is not None:
            pmask, p = get_pattern_mask(p, args.pfilter_pattern, mask=args.pfilter_mask, invert=args.pfilter_invert)
            t = t[pmask]
        if not has_tfilter:
            return t, p
        tmask = get_timing_mask(t, start=args.tfilter_start, end=args.tfilter_end, resolution=resolution)
        return t[tmask], p[tmask]

    def inline_filter(stream, resolution: TSRES = TSRES.NS1):
        return (event_filter(t, p, resolution) for t, p in stream)
"""))
# ---------------- parse_epochs.py
E="lib/parse_epochs.py"
make("ep_event",E,
("def read_T1(\n","""def _read_event(f):
    \"\"\"Returns next 64-bit event, high word first.\"\"\"
    data = f.read(8)
    if len(data) < 8:
        raise ValueError("File ended before termination")
    high, low = unpack("<II", data)
    return (high << 32) | low


def read_T1(
"""),
("""        while True:
            event_high = f.read(4)
            event_low = f.read(4)
            if len(event_low) < 4:
                raise ValueError("File ended before termination")

            value = \\
                (int.from_bytes(event_high, byteorder="little") << 32) \\
                + int.from_bytes(event_low, byteorder="little")

            if value == 0:
                break  # termination
""","""        while True:
            value = _read_event(f)
            if value == 0:
                break  # termination
"""))
make("ep_walrus",E,
("""            # Timestamp in units of 4ps, stored in 54-bit MSB
            timestamp = value >> 10
            timestamps.append(timestamp)

            base = value & 0b1111
            bases.append(base)
""","""            bases.append(value & 0b1111)
            # Timestamp in units of 4ps, stored in 54-bit MSB
            timestamps.append(value >> 10)
"""),
("""    msb = buffer >> (size - msb_size)
    buffer &= (1 << (size - msb_size)) - 1
    size -= msb_size
""","""    size -= msb_size
    msb, buffer = divmod(buffer, 1 << size)
"""))
make("ep_bits",E,
("""    msb = buffer >> (size - msb_size)
    buffer &= (1 << (size - msb_size)) - 1
    size -= msb_size
""","""    remaining = size - msb_size
    msb = buffer >> remaining
    buffer = buffer - (msb << remaining)
    size = remaining
"""),("""        buffer <<= 32
        buffer += int.from_bytes(word, byteorder="little")
        size += 32
""","""        size = size + 32
        buffer = (buffer << 32) | unpack("<I", word)[0]
"""))
make("ep_t2",E,
("""            # Check if timing is actually in extended format, i.e. 32-bits
            if timing == 0:
                logging.debug("Extracting extended timing...")
                timing, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)

            timestamp += timing
            timestamps.append(timestamp)

            # Extract detector pattern, but not important here
            # Note we are guaranteed (timeorder+basebits < 32)
            logging.debug("Extracting base...")
            base, buffer, size = extract_bits(basebits, buffer, size, f)
            bases.append(base)
""","""            # Check if timing is actually in extended format, i.e. 32-bits
            if not timing:
                timing, buffer, size = extract_bits(32, buffer, size, f)

            base, buffer, size = extract_bits(basebits, buffer, size, f)
            timestamp = timestamp + timing
            bases.append(base)
            timestamps.append(timestamp)
"""),
("""            # Index retrieved, normalize
            time_index += time_dindex - 2
            indices.append(time_index)
""","""            # Index retrieved, normalize
            step = time_dindex - 2
            time_index = time_index + step
            indices += [time_index]
"""))
make("ep_t2loop",E,
("""        while True:

            # Read timing information
            logging.debug("Extracting timing...")
            timing, buffer, size = \\
                extract_bits(timeorder, buffer, size, f)

            # End-of-file check
            if timing == 1:
                base, buffer, size = extract_bits(basebits, buffer, size, f)
                if base != 0:
                    raise ValueError(
                        "File inconsistent with T2 epoch definition: "
                        "Terminal base bits not zero"
                    )
                break
""","""        timing, buffer, size = extract_bits(timeorder, buffer, size, f)
        while timing != 1:
"""),
("""            # Extract detector pattern, but not important here
            # Note we are guaranteed (timeorder+basebits < 32)
            logging.debug("Extracting base...")
            base, buffer, size = extract_bits(basebits, buffer, size, f)
            bases.append(base)

    # Validity checks
    if length and len(timestamps)""","""            # Extract detector pattern, but not important here
            # Note we are guaranteed (timeorder+basebits < 32)
            logging.debug("Extracting base...")
            base, buffer, size = extract_bits(basebits, buffer, size, f)
            bases.append(base)
            timing, buffer, size = extract_bits(timeorder, buffer, size, f)

        # Terminator reached
        base, buffer, size = extract_bits(basebits, buffer, size, f)
        if base != 0:
            raise ValueError(
                "File inconsistent with T2 epoch definition: "
                "Terminal base bits not zero"
            )

    # Validity checks
    if length and len(timestamps)"""))
make("ep_t3",E,
("""    for i in range(headt3.length_entry):
        detection = detections[i]
        a = decode[(detection >> 4) & 0xf]  # Alice
        b = decode[detection & 0xf]  # Bob
        if a >= 0 and b >= 0:
            service.coinc_matrix[a * 4 + b] += 1
            service.okcount += 1
        else:
            if a < 0:
                service.garbage[0] += 1
            if b < 0:
                service.garbage[1] += 1
""","""    i = 0
    while i < headt3.length_entry:
        alice, bob = divmod(detections[i], 16)
        a, b = decode[alice], decode[bob]
        if a < 0:
            service.garbage[0] += 1
        if b < 0:
            service.garbage[1] += 1
        if a >= 0 and b >= 0:
            service.okcount += 1
            service.coinc_matrix[4 * a + b] += 1
        i += 1
"""),
("""            data, = unpack("<I", word)  # comma for unpacking tuple result
            data_b = data.to_bytes(4, byteorder="big")
""","""            data_b = int.from_bytes(word, byteorder="little").to_bytes(4, byteorder="big")
"""))
make("ep_fmt",E,
("""    if fractional:
        # Convert to desired resolution
        timestamps = np.array(timestamps, dtype=np.float128)
        timestamps = timestamps / (TSRES.PS4.value/resolution.value)
        epoch_msb = np.float128(epoch_msb << 54)
        epoch_msb = epoch_msb / (TSRES.PS4.value/resolution.value)
""","""    if fractional:
        # Convert to desired resolution
        factor = TSRES.PS4.value/resolution.value
        timestamps = np.array(timestamps, dtype=np.float128) / factor
        epoch_msb = np.float128(epoch_msb << 54) / factor
"""),
("""        timestamps = np.array(timestamps, dtype=np.uint64)
        timestamps = timestamps >> bitdiff
        epoch_msb = np.uint64(epoch_msb) << np.uint64(49-bitdiff)

    # Add epoch
    if full_epoch:
        timestamps += epoch_msb
""","""        timestamps = np.array(timestamps, dtype=np.uint64) >> bitdiff
        epoch_msb = np.uint64(epoch_msb) << np.uint64(49-bitdiff)

    # Add epoch
    if full_epoch:
        timestamps = timestamps + epoch_msb
"""))
make("ep_w1",E,
("""        for timestamp, detector in zip(timestamps, detectors):
            full_timestamp = timestamp_epoch + timestamp
            event = (full_timestamp << 10) + int(detector)

            # Write high word, then low word
            f.write(pack("<II", event >> 32, event & 0xffff_ffff))
""","""        for i, timestamp in enumerate(timestamps):
            event = ((timestamp + timestamp_epoch) << 10) + int(detectors[i])
            high, low = divmod(event, 1 << 32)

            # Write high word, then low word
            f.write(pack("<I", high))
            f.write(pack("<I", low))
"""))

# ---------------- fpfind.py
M="fpfind.py"
EARLY="""        ats_early = slice_timestamps(ats, 0, _duration)
        bts_early = slice_timestamps(bts, 0, _duration)
        afft = generate_fft(ats_early, num_bins, resolution)
        bfft = generate_fft(bts_early, num_bins, resolution)
        ys = get_xcorr(afft, bfft)
"""
LATE="""        ats_late = slice_timestamps(ats, separation_duration, _duration)
        bts_late = slice_timestamps(bts, separation_duration, _duration)
        _afft = generate_fft(ats_late, num_bins, resolution)
        _bfft = generate_fft(bts_late, num_bins, resolution)
        _ys = get_xcorr(_afft, _bfft)
"""
make("fp_measure",M,("# Main algorithm\n@profile\ndef time_freq(","""def _correlate(ats, bts, start, duration, num_bins, resolution):
    \"\"\"Cross-correlation of events within given window.\"\"\"
    ffts = []
    for ts in (ats, bts):
        window = slice_timestamps(ts, start, duration)
        ffts.append(generate_fft(window, num_bins, resolution))
    return get_xcorr(*ffts)

# Main algorithm
@profile
def time_freq("""),(EARLY,"        ys = _correlate(ats, bts, 0, _duration, num_bins, resolution)\n"),(LATE,"        _ys = _correlate(ats, bts, separation_duration, _duration, num_bins, resolution)\n"))
make("fp_order",M,(EARLY,"""        afft = generate_fft(slice_timestamps(ats, 0, _duration), num_bins, resolution)
        bfft = generate_fft(slice_timestamps(bts, 0, _duration), num_bins, resolution)
        ys = get_xcorr(afft, bfft)
"""),("""        dt += f * dt1
        f  *= (1 + df1)
        logger.debug("      Calculated""","""        factor = 1 + df1
        dt = dt + f * dt1
        f = f * factor
        logger.debug("      Calculated"""),
("        bts = (bts - dt1) / (1 + df1)\n","        bts = (bts - dt1) / factor\n"),
("""        resolution = max(resolution, target_resolution)
        curr_iteration += 1
""","""        if resolution < target_resolution:
            resolution = target_resolution
        curr_iteration = curr_iteration + 1
"""))
make("fp_merge",M,("        while curr_iteration == 1:\n","        merging = curr_iteration == 1\n        while merging:\n"),
("""            if sig >= threshold:
                logger.debug(f"          Accepted")
                break
            else:
                logger.debug(f"          Rejected")
                ys = np.sum(ys.reshape(-1, 2), axis = 1)
                resolution *= 2
""","""            if sig >= threshold:
                logger.debug(f"          Accepted")
                merging = False
                continue
            logger.debug(f"          Rejected")
            ys = ys[0::2] + ys[1::2]
            resolution = 2 * resolution
"""))
make("fp_merge2",M,("""            xs = np.arange(len(ys)) * resolution
            dt1 = get_timing_delay_fft(ys, xs)[0]
            sig = get_statistics(ys, resolution).significance
""","""            dt1, sig = _locate(ys, resolution)
"""),("""        xs = np.arange(num_bins) * resolution
        dt1 = get_timing_delay_fft(ys, xs)[0]  # get smaller candidate
        sig = get_statistics(ys, resolution).significance
""","""        dt1, sig = _locate(ys, resolution)
"""),("# Main algorithm\n@profile\ndef time_freq(","""def _locate(ys, resolution):
    xs = np.arange(len(ys)) * resolution
    delay, _ = get_timing_delay_fft(ys, xs)
    return delay, get_statistics(ys, resolution).significance

# Main algorithm
@profile
def time_freq("""))
make("fp_guard",M,("""        buffer = 10
        threshold_dt = buffer*max(abs(dt), 1)
        threshold_df = buffer*max(abs(f-1), 1e-9)
        if curr_iteration != 1 and (
            abs(dt1)  > threshold_dt or \\
            abs(_dt1) > threshold_dt or \\
            abs(df1)  > threshold_df
        ):
""","""        threshold_dt = 10*max(1, abs(dt))
        threshold_df = 10*max(1e-9, abs(f-1))
        spurious = max(abs(dt1), abs(_dt1)) > threshold_dt or abs(df1) > threshold_df
        if spurious and curr_iteration > 1:
"""))
make("fp_scan",M,("""        except ValueError as e:
            logger.info(f"Peak finding failed, {df0*1e6:7.3f} ppm: {str(e)}")
            continue

        # Refine estimates, using the same recursive relations
        dt += f * dt1
        f *= (1 + df1)
        logger.debug("  Applied another %.4f ppm compensation.", df1*1e6)
        e = PeakFindingFailed(
            "", resolution=target_resolution, dt=dt, df=f-1,
        )
        logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
        if result is None:
            result = (dt, f - 1)
        # TODO: Justify the good enough frequency value
        # TODO(2024-01-31): Add looping code to customize refinement steps.
        if precompensation_fullscan:
            continue
        break
""","""        except ValueError as e:
            logger.info(f"Peak finding failed, {df0*1e6:7.3f} ppm: {str(e)}")
        else:
            # Refine estimates, using the same recursive relations
            delay = dt + f * dt1
            factor = f * (1 + df1)
            logger.debug("  Applied another %.4f ppm compensation.", df1*1e6)
            if result is None:
                result = (delay, factor - 1)
            if not precompensation_fullscan:
                break
"""),("alice, (bob - dt)/f,","alice, bob / f,"))
make("fp_scan2",M,("""    df0s = precompensations
    result = None  # first successful (dt, df)
""","""    results = []  # successful (dt, df)
"""),("    for df0 in df0s:\n","    for i in range(len(precompensations)):\n        df0 = precompensations[i]\n"),("""        if result is None:
            result = (dt, f - 1)
""","        results.append((dt, f - 1))\n"),("""    if result is None:
        raise ValueError("No peak found!")  # TODO

    return result
""","""    if not results:
        raise ValueError("No peak found!")  # TODO

    return results[0]
"""))
make("fp_pre",M,("""        df0s = np.arange(0, int((stop-start) // step + 1))  # conventional
    else:
        df0s = np.arange(1, int(stop // step + 1) * 2) // 2  # flip-flop
        df0s[::2] *= -1

    df0s = df0s.astype(np.float64) * step
    df0s = df0s + start
    return df0s
""","""        steps = np.arange(int((stop-start) // step + 1))  # conventional
    else:
        count = int(stop // step + 1)
        steps = np.arange(1, 2*count) // 2  # flip-flop
        steps[::2] = -steps[::2]

    return start + step * steps.astype(np.float64)
"""))
make("fp_out",M,("""    flag = args.output
    if flag & 0b0001:
        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
    if flag & 0b0010:
        df = f"{round(df * (1 << 34)):d}"
    if flag & 0b1000:
        dt *= 8

    output = f"{df}\\t"
    if not (flag & 0b0100):
        output += f"{round(dt):d}\\t"
    output = output.rstrip()
    print(output, file=sys.stdout)  # newline auto-added
""","""    print(_format_output(dt, df, args.output))
"""),("# fmt: on\ndef main():\n","""def _format_output(dt, df, flag):
    inverted, scaled, no_time, eighths = [bool(flag & (1 << i)) for i in range(4)]
    if inverted:
        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
    fields = [f"{round(df * (1 << 34)):d}" if scaled else f"{df}"]
    if not no_time:
        if eighths:
            dt = dt * 8
        fields.append(f"{round(dt):d}")
    return "\\t".join(fields)

# fmt: on
def main():
"""))
# ---------------- utils.py
U="lib/utils.py"
make("ut_slice",U,("""    if start is not None:
        ts = ts - start  # note: 'ts -= start' is in-place
        ts = ts[ts >= 0]
    elif len(ts) != 0:
        ts = ts - ts[0]
""","""    if start is None:
        if len(ts) > 0:
            ts = ts - ts[0]
    else:
        shifted = ts - start  # note: 'ts -= start' is in-place
        ts = shifted[shifted >= 0]
"""),("""    if duration is not None:
        if len(ts) != 0 and duration >= ts[-1]:
            warnings.warn(
                f"Desired duration ({duration*1e-9:.3f} s) is longer "
                f"than available data ({ts[-1]*1e-9:.3f} s)")
        ts = ts[ts < duration]
    return ts
""","""    if duration is None:
        return ts
    if len(ts) and ts[-1] <= duration:
        warnings.warn(
            f"Desired duration ({duration*1e-9:.3f} s) is longer "
            f"than available data ({ts[-1]*1e-9:.3f} s)")
    keep = ts < duration
    return ts[keep]
"""))
make("ut_fft",U,("""    bin_arr = np.bincount(
        np.int64((arr // time_res) % num_bins), minlength=num_bins
    )
    return scipy.fft.rfft(bin_arr)
""","""    bins = arr // time_res
    bins = np.mod(bins, num_bins).astype(np.int64)
    counts = np.bincount(bins, minlength=num_bins)
    return scipy.fft.rfft(counts)
"""),("""    fft = np.conjugate(afft) * bfft
    if filter is not None:
        fft = fft * filter
    result = scipy.fft.irfft(fft)
    return np.abs(result)
""","""    fft = bfft * np.conj(afft)
    if filter is not None:
        fft = filter * fft
    return np.abs(scipy.fft.irfft(fft))
"""))
make("ut_delay",U,("""    ppos = np.argmax(hist)
    ptime = time_bins[ppos]
    if ppos == 0:
        npos = 0
    else:
        npos = len(hist) - ppos
    ntime = -time_bins[npos]
    result = (ptime, ntime) if np.abs(ppos) < np.abs(npos) else (ntime, ptime)
    return result

def get_delay""","""    ppos = np.argmax(hist)
    npos = (len(hist) - ppos) % len(hist)
    ptime, ntime = time_bins[ppos], -time_bins[npos]
    if ppos < npos:
        return ptime, ntime
    return ntime, ptime

def get_delay"""))
make("ut_epochs",U,("""    epochints1 = [epoch2int(fp.name) for fp in pathlib.Path(dir1).glob("*")]
    epochints2 = [epoch2int(fp.name) for fp in pathlib.Path(dir2).glob("*")]
    epochints = set(epochints1).intersection(epochints2)
""","""    epochints1 = {epoch2int(fp.name) for fp in pathlib.Path(dir1).glob("*")}
    epochints2 = {epoch2int(fp.name) for fp in pathlib.Path(dir2).glob("*")}
    epochints = epochints1 & epochints2
"""),("""        epochints = set([v for v in epochints if v >= epochint_first])
""","""        epochints = {v for v in epochints if v >= epochint_first}
"""),("""        num_epochs = 1
        while (min_epochint + num_epochs) in epochints:
            num_epochs += 1
""","""        next_epochint = min_epochint + 1
        while next_epochint in epochints:
            next_epochint += 1
        num_epochs = next_epochint - min_epochint
"""))
make("ut_epochs2",U,("""    timestamp = np.array([], dtype=np.float128)
    for i in range(num_of_epochs):
        epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
        reader = read_T1 if file_type == "T1" else read_T2
        timestamp = np.append(timestamp, reader(epoch_name)[0])
    return timestamp
""","""    reader = read_T1 if file_type == "T1" else read_T2
    start = epoch2int(first_epoch) + skip_epoch
    timestamp = np.array([], dtype=np.float128)
    for value in range(start, start + num_of_epochs):
        ts, _ = reader(epochdir / int2epoch(value))
        timestamp = np.concatenate((timestamp, ts))
    return timestamp
"""),("""    start_time = max([ts[0] for ts in T]) + skip*1e9  # units of ns
    T = [slice_timestamps(ts, start_time) for ts in T]
    return T
""","""    start_time = max(ts[0] for ts in T) + skip*1e9  # units of ns
    result = []
    for ts in T:
        result.append(slice_timestamps(ts, start_time))
    return result
"""))
make("ut_stats",U,("""    @property
    def significance(self):
        if self.stdev == 0:
            return 0
        return round((self.max - self.mean) / self.stdev, 3)
""","""    @property
    def significance(self):
        stdev = self.stdev
        if stdev == 0:
            return 0
        height = self.max - self.mean
        return round(height / stdev, 3)
"""),("""    bin_offset_left = max(0, bin_center - num_windowbins_onesided)
    bin_offset_right = min(len(hist), bin_center + num_windowbins_onesided)
""","""    nbins = len(hist)
    bin_offset_right = min(nbins, bin_center + num_windowbins_onesided)
    bin_offset_left = max(0, bin_center - num_windowbins_onesided)
"""))
G="lib/generate_freqcd_testcase.py"
make("gen_event",G,("""        timestamp = timestamp & 0x3FFFFFFFFFFFFF
    assert isinstance(detectors, int) and (0 <= detectors < 16)
    event = (timestamp << 10) + detectors
    if LEGACY:
        event = ((event & 0xFFFFFFFF) << 32) + (event >> 32)
    return struct.pack("=Q", event)
""","""        timestamp = timestamp % (1 << 54)
    assert isinstance(detectors, int) and (0 <= detectors < 16)
    event = (timestamp << 10) | detectors
    high, low = divmod(event, 1 << 32)
    words = (high, low) if LEGACY else (low, high)
    return struct.pack("=II", *words)
"""))
make("gen_main",G,("""        for ts in args.t:
            write(get_event(ts))
""","""        events = [get_event(ts) for ts in args.t]
        for event in events:
            write(event)
"""),("""        write = lambda e: fwrite(e, args.o)
        open(args.o, "wb").close()  # truncate file
""","""        with open(args.o, "wb"):
            pass  # truncate file
        def write(event):
            fwrite(event, args.o)
"""))
