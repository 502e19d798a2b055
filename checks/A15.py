"""A15: music modules (MOD, XM, S3M, PTM) are shown as they were written: headers, notes, effects, instruments, samples."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct as opened, expect, get
from hachoir.parser.audio import AmigaModule, PTMModule, S3MModule, XMModule


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


def text(s, size, fill=b"\0"):
    return s.encode("latin-1").ljust(size, fill)


def places(ctx, what, parent, want):
    """The fields of a set: names, places and sizes in bytes"""
    got = [(f.name, f.address / 8, f.size / 8) for f in parent]
    if got != want:
        ctx.report("%s: fields %r, expected %r" % (what, got[:12], want[:12]))


# Amiga modules

MOD = {"M.K.": ("Noise/Pro-Tracker", 4), "M!K!": ("Noise/Pro-Tracker", 4), "M&K&": ("Noise/Pro-Tracker", 4), "RASP": ("StarTrekker", 4), "FLT4": ("StarTrekker", 4), "6CHN": ("FastTracker", 6), "8CHN": ("FastTracker", 8),
       "CD81": ("Octalyser", 8), "OCTA": ("Octalyser", 8), "FA04": ("Digital Tracker", 4), "FA06": ("Digital Tracker", 6), "FA08": ("Digital Tracker", 8)}


def mod_note(instrument, period, effect, param):
    return bytes([(instrument & 0xF0) | period >> 8, period & 255, (instrument & 15) << 4 | effect, param])


def mod(kind, samples, positions, notes, title="title", restart=127):
    """samples: (name, words, fine tune, volume, loop start, loop length) or None; notes: {(pattern, row, channel): note}"""
    channels = MOD[kind][1]
    out = text(title, 20)
    for s in range(31):
        name, words, tune, volume, start, length = samples.get(s, ("", 0, 0, 0, 0, 0))
        out += text(name, 22) + struct.pack(">HBBHH", words, tune, volume, start, length)
    out += bytes([len(positions), restart]) + bytes(positions).ljust(128, b"\0") + kind.encode()
    for p in range(max(positions + [0]) + 1):
        for row in range(64):
            for channel in range(channels):
                out += mod_note(*notes.get((p, row, channel), (0, 0, 0, 0)))
    for s in range(31):
        if s in samples:
            out += bytes((s * 7 + i) & 255 for i in range(2 * samples[s][1]))
    return out


TUNES = "0 1 2 3 4 5 6 7 -8 -7 -6 -5 -4 -3 -2 -1".split()


def amiga(case, ctx):
    kind = case["kind"]
    program, channels = MOD[kind]
    options = [{}, {0: ("bass", 1, 0, 64, 0, 1)}, {30: ("last", 3, 15, 32, 1, 2)}, {0: ("a", 2, 7, 1, 0, 1), 1: ("b", 0, 8, 0, 0, 0), 2: ("c", 5, 1, 63, 4, 1)}, {i: ("s%d" % i, i + 1, i % 16, 2 * i, i, 1) for i in range(31)}]
    for (s, samples), positions in itertools.product(enumerate(options), ([0], [0, 0], [1], [2, 0, 1], [0] * 127 + [3])):
        positions = list(positions)
        patterns = max(positions) + 1
        notes = {(p, row, ch): ((p * 5 + row + ch * 16) & 255, (row * 61 + ch * 500 + p) & 0xFFF, (row + ch) & 15, (row * 4 + ch + p) & 255) for p in range(patterns) for row in range(64) for ch in range(channels)}
        data = mod(kind, samples, positions, notes, restart=s)
        what = "%s module with samples %s and patterns %s" % (kind, sorted(samples), positions[:4])
        p = opened(ctx, data, AmigaModule)
        contiguous(ctx, what, p, len(data) * 8, 2)
        expect(ctx, what + ": description", p.description, "%s module, %s channels" % (program, channels))
        fields(ctx, what, p, header__name="title", header__length=len(positions), header__played_patterns_count=s, header__type=kind)
        at, want = 1084, [("header", 0, 1084)]
        for n in range(patterns):
            want.append(("pattern[%d]" % n, at, 256 * channels))
            at += 256 * channels
        n = 0
        for i in range(31):
            if samples.get(i, (0, 0))[1]:
                want.append(("sample_data[%d]" % n, at, 2 * samples[i][1]))
                at, n = at + 2 * samples[i][1], n + 1
        places(ctx, what, p, want)
        for i in range(31):
            name, words, tune, volume, start, length = samples.get(i, ("", 0, 0, 0, 0, 0))
            info = p["header/samples/info[%d]" % i]
            fields(ctx, "%s: sample %s" % (what, i), info, name=name, sample_count=words, fine_tune=tune, volume=volume, loop_start=start, loop_len=length)
            expect(ctx, "%s: fine tune %s" % (what, tune), info["fine_tune"].display, TUNES[tune & 15])
            if volume in (0, 1, 32, 64):
                expect(ctx, "%s: volume %s" % (what, volume), info["volume"].display, {0: "-inf dB", 1: "-36.1 dB", 32: "-6.0 dB", 64: "0.0 dB"}[volume])
        expect(ctx, what + ": positions", [f.value for f in p["header/patterns"]], positions + [0] * (128 - len(positions)))
        for (n, row, ch), (instrument, period, effect, param) in notes.items():
            if case["all"] or row in (0, 1, 63):
                note = p["pattern[%d]/row[%d]/note[%d]" % (n, row, ch)]
                fields(ctx, "%s: note %s" % (what, (n, row, ch)), note, note_hi_nibble=instrument >> 4, period=period, note_low_nibble=instrument & 15, effect=effect, parameter=param)
        ctx.seen("states", repr((kind, s, len(positions), patterns)))
        ctx.count("traces")
        ctx.count("transitions", len(notes))


# XM

NOTES = "C C# D D# E F F# G G# A A# B".split()
# tests/test_parser.py asks for these names (known finding): the table has two G#
PINNED = {}
for octave in range(10):
    for index, name in enumerate("C C# D D# E F F# G G# G# A A# B".split()):
        PINNED[octave * 12 + index] = "%s (octave %d)" % (name, octave)
VOLUMES = {6: "Volume slide down", 7: "Volume slide up", 8: "Fine volume slide down", 9: "Fine volume slide up", 10: "Set vibrato speed", 11: "Vibrato", 12: "Set panning", 13: "Panning slide left", 14: "Panning slide right", 15: "Tone porta"}
EFFECTS = {0: "Arppegio", 1: "Porta up", 2: "Porta down", 3: "Tone porta", 4: "Vibrato", 5: "Tone porta+Volume slide", 6: "Vibrato+Volume slide", 7: "Tremolo", 8: "Set panning", 9: "Sample offset", 10: "Volume slide", 11: "Position jump",
           12: "Set volume", 13: "Pattern break", 15: "Set tempo/BPM", 16: "Set global volume", 17: "Global volume slide", 21: "Set envelope position", 25: "Panning slide", 27: "Multi retrig note", 29: "Tremor"}
EXTENDED = {1: "Fine porta up", 2: "Fine porta down", 3: "Set gliss control", 4: "Set vibrato control", 5: "Set finetune", 6: "Set loop begin/loop", 7: "Set tremolo control", 9: "Retrig note", 10: "Fine volume slide up", 11: "Fine volume slide down",
            12: "Note cut", 13: "Note delay", 14: "Pattern delay"}


def volume_name(v):
    if 0x10 <= v <= 0x50:
        return "Volume %d" % (v - 16)
    return VOLUMES.get(v >> 4)


def effect_name(effect, param):
    if effect == 14:
        name = EXTENDED.get(param >> 4)
        return name and "%s %d" % (name, param & 15)
    if effect == 0x21:
        return {1: "Extra fine porta up", 2: "Extra fine porta down"}.get(param >> 4)
    return EFFECTS.get(effect)


def xm_note(note=None, instrument=None, volume=None, effect=None, param=None, unused=0):
    """All present: could be written without flags; otherwise a byte of flags"""
    values = (note, instrument, volume, effect, param)
    if unused is None:
        return bytes(values)
    flags = 0x80 | unused << 5 | sum(1 << i for i, v in enumerate(values) if v is not None)
    return bytes([flags]) + bytes(v for v in values if v is not None)


def xm_pattern(rows, data, extra=b""):
    return struct.pack("<IBHH", 9 + len(extra), 0, rows, len(data)) + extra + data


def xm_sample(length=0, start=0, end=0, volume=64, tune=0, kind=0, panning=128, note=0, name="sample"):
    return struct.pack("<IIIBbBBbB", length, start, end, volume, tune, kind, panning, note, 0) + text(name, 22)


def xm_instrument(name, samples, kind=0, points=(2, 3), sustain=(0, 1, 2, 3, 4, 5), types=(0, 0), vibrato=(1, 2, 3, 4), fadeout=256, extra=0):
    """samples: (header, data)"""
    head = text(name, 22) + bytes([kind]) + struct.pack("<H", len(samples))
    if samples:
        head += struct.pack("<I", 40) + bytes(i % len(samples) for i in range(96)) + struct.pack("<48H", *range(100, 148)) + bytes(points) + bytes(sustain) + bytes(types) + bytes(vibrato) + struct.pack("<H", fadeout) + bytes(22)
    head += bytes(extra)
    return struct.pack("<I", len(head) + 4) + head + b"".join(h for h, d in samples) + b"".join(d for h, d in samples)


def xm(patterns=(), instruments=(), title="title", tracker="tracker", channels=2, flags=1, tempo=6, bpm=125, order=(0,), restart=0, tail=b""):
    out = b"Extended Module: " + text(title, 20, b" ") + b"\x1a" + text(tracker, 20, b" ") + b"\x04\x01"
    out += struct.pack("<IHHHHHHHH", 276, len(order), restart, channels, len(patterns), len(instruments), flags, tempo, bpm) + bytes(order).ljust(256, b"\0")
    return out + b"".join(patterns) + b"".join(instruments) + tail


def check_note(ctx, what, f, note, instrument, volume, effect, param, packed, unused=0):
    fields(ctx, what, f, is_extended=packed)
    if packed:
        fields(ctx, what, f, info__unused=unused, info__has_note=note is not None, info__has_instrument=instrument is not None, info__has_volume=volume is not None, info__has_type=effect is not None, info__has_parameter=param is not None)
    want = ["is_extended"] + ["info"] * packed + [n for n, v in zip(("note", "instrument", "volume", "effect_type", "effect_parameter"), (note, instrument, volume, effect, param)) if v is not None]
    expect(ctx, what + ": fields", [x.name for x in f], want)
    text = []
    if note is not None:
        fields(ctx, what, f, note=note)
        got = f["note"].display
        right = "%s (octave %d)" % (NOTES[(note - 1) % 12], (note - 1) // 12) if 1 <= note <= 96 else None
        if right and got != right:
            if got == PINNED.get(note):
                ctx.report("XM note %s is called %s instead of %s" % (note, got, right), key="xm-note-names")
            else:
                ctx.report("%s: note %s is called %r" % (what, note, got))
        text.append(got)
    if instrument is not None:
        fields(ctx, what, f, instrument=instrument)
        text.append("instrument %d" % instrument)
    if volume is not None:
        fields(ctx, what, f, volume=volume)
        if volume_name(volume):
            expect(ctx, "%s: volume %s" % (what, volume), f["volume"].display, volume_name(volume))
        text.append(f["volume"].display)
    if effect is not None:
        if param is not None and effect_name(effect, param):
            expect(ctx, "%s: effect %#x %#x" % (what, effect, param), f["effect_type"].value, effect_name(effect, param))
        text.append("effect %s" % f["effect_type"].value)
    if param is not None:
        fields(ctx, what, f, effect_parameter=param)
        expect(ctx, what + ": parameter", f["effect_parameter"].display, "0x%02x" % param)
        text.append("parameter %d" % param)
    expect(ctx, what + ": description", f.description, "Note " + ", ".join(text) if text else "Note")


def xm_notes(case, ctx):
    """Rows of notes of every kind"""
    if case["what"] == "flags":
        notes = [(n, i, v, e, p, u) for n, i, v, e, p in itertools.product((None, 0, 1, 96, 97), (None, 0, 127, 255), (None, 0x10, 0x50, 0xFF), (None, 0, 14, 15), (None, 0, 0x19, 255)) for u in (0, 1, 3)]
        notes += [(n, i, v, e, p, None) for n, i, v, e, p in itertools.product((0, 1, 2, 50, 96, 97), (0, 127, 255), (0, 0x10, 0x50, 0xFF), (0, 14, 15), (0, 0x19, 255))]
    elif case["what"] == "notes":
        notes = [(n, None, None, None, None, 0) for n in range(98)] + [(n, 1, 0x20, 0, 0, None) for n in range(98)]
    elif case["what"] == "volumes":
        notes = [(None, None, v, None, None, 0) for v in range(256)] + [(1, 1, v, 0, 0, None) for v in range(256)]
    else:
        notes = [(None, None, None, e, p, 0) for e in range(36) for p in range(256)] + [(1, 1, 16, e, p, None) for e in range(36) for p in (0, 0x10, 0x2F, 0xE8, 255)]
    channels = case["channels"]
    notes += [(1, 1, 16, 1, 1, None)] * (-len(notes) % channels)
    rows = [notes[i:i + channels] for i in range(0, len(notes), channels)]
    patterns = []
    # 8 to 256 rows in each pattern
    for i in range(0, len(rows), 64):
        part = rows[i:i + 64]
        patterns.append((part, b"".join(xm_note(*n) for row in part for n in row)))
    data = xm([xm_pattern(len(rows), d) for rows, d in patterns], channels=channels)
    what = "XM notes with %s channels" % channels
    p = opened(ctx, data, XMModule)
    contiguous(ctx, what, p, len(data) * 8, 5)
    at = 336
    want = [("header", 0, 336)]
    for n, (rows, d) in enumerate(patterns):
        want.append(("pattern[%d]" % n, at, 9 + len(d)))
        at += 9 + len(d)
    places(ctx, what, p, want)
    for n, (rows, d) in enumerate(patterns):
        f = p["pattern[%d]" % n]
        fields(ctx, "%s: pattern %s" % (what, n), f, header_size=9, packing_type=0, rows=len(rows), data_size=len(d))
        expect(ctx, what + ": description", f.description, "Pattern with %d rows" % len(rows))
        expect(ctx, what + ": rows", [x.name for x in f][4:], ["row[%d]" % i for i in range(len(rows))])
        for i, row in enumerate(rows):
            for j, note in enumerate(row):
                check_note(ctx, "XM note %s" % (note,), f["row[%d]/note[%d]" % (i, j)], *note[:5], packed=note[5] is not None, unused=note[5] or 0)
                ctx.count("transitions")
                ctx.seen("states", repr((case["what"], note)))
    ctx.count("traces")


LOOPS = ("No loop", "Forward loop", "Ping-pong loop", "Undef")
SAMPLES = [[], [("a", 0, b"")], [("a", 0, b"\1\2\3\4")], [("a", 0x10, b"12345678")], [("a", 1, b"12"), ("b", 2, b"")], [("a", 0, b""), ("b", 0x11, b"1234")], [("a", 2, b"1"), ("b", 0x12, b"23"), ("c", 0, b"345")]]


def xm_files(case, ctx):
    """Sequences of instruments after sequences of patterns"""
    empty, small = (64, b""), (1, xm_note(1, 1) + xm_note())
    for n in range(0, 4):
        for sets in itertools.product(SAMPLES, repeat=n):
            if case["first"] != (SAMPLES.index(sets[0]) if sets else -1):
                continue
            if n == 3 and case["quick"] and sets[2] not in (SAMPLES[0], SAMPLES[4]):
                continue
            for patterns in ((), (small,), (empty,), (empty, small), (small, empty, small)):
                if n == 3 and len(patterns) != 2 or not n and len(patterns) < 3:
                    continue
                xm_file(ctx, sets, patterns, n % 2 * 4)


def xm_file(ctx, sets, patterns, extra, kind=0, **options):
    instruments = []
    for i, samples in enumerate(sets):
        s = [(xm_sample(len(d), j, j + 1, 64 - j, j - 16 * i, k, 10 * j, j - 2, name), d) for j, (name, k, d) in enumerate(samples)]
        instruments.append(xm_instrument("instrument %d" % i, s, kind=i, types=(i, 7 - i), fadeout=i * 257, extra=extra))
    data = xm([xm_pattern(r, d) for r, d in patterns], instruments, **options)
    what = "XM with instruments %s and patterns %s" % ([[(k, len(d)) for n, k, d in s] for s in sets], [r for r, d in patterns])
    p = opened(ctx, data, XMModule)
    contiguous(ctx, what, p, len(data) * 8, 3)
    at, want = 336, [("header", 0, 336)]
    for n, (r, d) in enumerate(patterns):
        want.append(("pattern[%d]" % n, at, 9 + len(d)))
        at += 9 + len(d)
    for n, i in enumerate(instruments):
        want.append(("instrument[%d]" % n, at, len(i)))
        at += len(i)
    places(ctx, what, p, want)
    expect(ctx, what + ": content size", p.content_size, len(data) * 8)
    title, tracker = options.get("title", "title"), options.get("tracker", "tracker")
    expect(ctx, what + ": description", (p.description, p["header"].description), ("'%s' by '%s'" % (title, tracker),) * 2)
    for i, samples in enumerate(sets):
        f = p["instrument[%d]" % i]
        w = "%s: instrument %s" % (what, i)
        head = (263 if samples else 29) + extra
        fields(ctx, w, f, size=head, name="instrument %d" % i, type=i, samples=len(samples))
        expect(ctx, w + ": description", f.description, "Instrument 'instrument %d': %d samples, header %d bytes" % (i, len(samples), head))
        at = 29
        want = [("size", 0, 4), ("name", 4, 22), ("type", 26, 1), ("samples", 27, 2)]
        if samples:
            want.append(("second_header", 29, 234))
            at = 263
        if extra:
            want.append(("unknown_data", at, extra))
            at += extra
        for j in range(len(samples)):
            want.append(("sample_header[%d]" % j, at, 40))
            at += 40
        n = 0
        for j, (name, k, d) in enumerate(samples):
            if d:
                want.append(("sample_data[%d]" % n, at, len(d)))
                at, n = at + len(d), n + 1
        places(ctx, w, f, want)
        if samples:
            second = f["second_header"]
            fields(ctx, w, second, sample_header_size=40, volume_points=2, panning_points=3, volume_sustain_point=0, volume_loop_start_point=1, volume_loop_end_point=2, panning_sustain_point=3, panning_loop_start_point=4, panning_loop_end_point=5,
                   volume_type__on=bool(i & 1), volume_type__sustain=bool(i & 2), volume_type__loop=bool(i & 4), panning_type__on=bool((7 - i) & 1), panning_type__sustain=bool((7 - i) & 2), panning_type__loop=bool((7 - i) & 4),
                   vibrato_type=1, vibrato_sweep=2, vibrato_depth=3, vibrato_rate=4, volume_fadeout=i * 257, notes__sample__0=0, notes__sample__95=95 % len(samples), volume_envelope__point__0=100, volume_envelope__point__23=123, panning_envelope__point__0=124, panning_envelope__point__23=147)
        for j, (name, k, d) in enumerate(samples):
            s = f["sample_header[%d]" % j]
            fields(ctx, "%s: sample %s" % (w, j), s, length=len(d), loop_start=j, loop_end=j + 1, volume=64 - j, fine_tune=j - 16 * i, type__loop_mode=k & 3, panning=10 * j, relative_note=j - 2, name=name)
            expect(ctx, "%s: width of sample %s" % (w, j), get(s, "type/16bits"), bool(k & 16))
            expect(ctx, "%s: loop of sample %s" % (w, j), s["type/loop_mode"].display, LOOPS[k & 3])
            wide = 2 if k & 16 else 1
            freq = 2 * 8363.0 * 2 ** ((j - 2) / 12 + (j - 16 * i) * 2 / (128 * 12 * 2))
            m = re.fullmatch(r'"%s", %dbits, %d samples, ([0-9]+)Hz' % (name, wide * 8, len(d) // wide), s.description)
            if not m or abs(int(m.group(1)) - freq) > freq / 1000 + 2:
                ctx.report("%s: sample %s is described as %r, expected about %.0f Hz" % (w, j, s.description, freq))
    ctx.seen("states", repr(("xm", len(data))))
    ctx.count("traces")
    ctx.count("transitions", 1 + len(patterns) + len(sets))


def xm_header(case, ctx):
    for n, (title, tracker, channels, flags, order, restart) in enumerate(itertools.product(("", "a", "twenty letters long!"), ("FastTracker v2.00", "x"), (2, 4, 32), (0, 1, 2, 3), ((0,), (0, 1, 0), tuple(range(256))), (0, 255))):
        tempo, bpm = (n * 7) & 31, 32 + n & 255
        data = xm([], [xm_instrument("x", [])], title=title, tracker=tracker, channels=channels, flags=flags, tempo=tempo, bpm=bpm, order=order, restart=restart)
        what = "XM header %s" % ((title, tracker, channels, flags, len(order), restart),)
        p = opened(ctx, data, XMModule)
        contiguous(ctx, what, p, len(data) * 8, 3)
        fields(ctx, what, p["header"], signature="Extended Module: ", title=title, marker=0x1A, tracker_name=tracker, format_minor=4, format_major=1, header_size=276, song_length=len(order), restart=restart, channels=channels, patterns=0, instruments=1,
               amiga_ftable=bool(flags & 1), linear_ftable=bool(flags & 2), tempo=tempo, bpm=bpm)
        expect(ctx, what + ": order", [f.value for f in p["header/pattern_order"]], list(order) + [0] * (256 - len(order)))
        expect(ctx, what + ": description", p.description, "'%s' by '%s'" % (title, tracker))
        ctx.seen("states", repr(("header", n)))
        ctx.count("traces")
        ctx.count("transitions")


BLOCKS = {"text": (b"TEXT", b"a comment"), "channels": (b"XFHC", struct.pack("<2I", 1, 2)), "none": None}


def modplug(case, ctx):
    """Blocks of ModPlug after the instruments"""
    values = {"..Fd": ("<I", 5), "..OF": ("<I", 256), ".SLV": ("<B", 1), ".SPP": ("<b", -3), "..RV": ("<H", 770), ".ESP": ("<B", 9)}
    for blocks in itertools.product(("text", "channels"), repeat=case["n"]):
        if len(set(blocks)) != len(blocks):
            continue
        for codes in [()] + [c for n in (1, 2, 3) for c in itertools.permutations(values, n)]:
            for song in (None, (), ("...C",), ("...C", ".VWC", "..TD")):
                tail, want, start = b"", [], 336 + 29
                for b in blocks:
                    kind, body = BLOCKS[b]
                    want.append(({"text": "comment", "channels": "channel_settings"}[b], start + len(tail), 8 + len(body)))
                    tail += kind + struct.pack("<I", len(body)) + body
                if codes:
                    body = b"XTPM" + b"".join(c.encode() + struct.pack("<H", struct.calcsize(values[c][0])) + struct.pack(*values[c]) for c in codes)
                    want.append(("instrument_ext", start + len(tail), len(body)))
                    tail += body
                if song is not None:
                    body = b"STPM" + b"".join(c.encode() + struct.pack("<HI", 4, i + 2) for i, c in enumerate(song))
                    want.append(("song_ext", start + len(tail), len(body)))
                    tail += body
                data = xm([], [xm_instrument("x", [])], tail=tail)
                what = "XM with ModPlug blocks %s, codes %s, song %s" % (blocks, codes, song)
                p = opened(ctx, data, XMModule)
                places(ctx, what, p, [("header", 0, 336), ("instrument[0]", 336, 29)] + want)
                contiguous(ctx, what, p, len(data) * 8, 3)
                if "text" in blocks:
                    fields(ctx, what, p, comment__comment="a comment", comment__block_size=9)
                if "channels" in blocks:
                    fields(ctx, what, p, channel_settings__settings__mix_plugin__0=1, channel_settings__settings__mix_plugin__1=2)
                for i, c in enumerate(codes):
                    fields(ctx, what, p["instrument_ext"], **{"field__%d__code" % i: c, "field__%d__data_size" % i: struct.calcsize(values[c][0]), "field__%d__value" % i: values[c][1]})
                for i, c in enumerate(song or ()):
                    fields(ctx, what, p["song_ext"], **{"field__%d__code" % i: c, "field__%d__%s" % (i, "value" if c == "...C" else "data"): i + 2 if c == "...C" else struct.pack("<I", i + 2)})
                ctx.seen("states", repr(("modplug", blocks, codes, song)))
                ctx.count("traces")
                ctx.count("transitions", len(want))


# S3M and PTM

def s3m(instruments=(), patterns=(), order=(0, 255), title="title", flags=0, version=0x1320, fmt=2, volumes=(64, 6, 125, 0xB0), click=16, panning=None, settings=None, lead=0, gap=0):
    """instruments: (type, file name, data, flags, volume, speed, name, loop); returns the data and the places"""
    n, m = len(instruments), len(patterns)
    head = text(title, 28) + b"\x1a\x10\0\0" + struct.pack("<6H", len(order), n, m, flags, version, fmt) + b"SCRM" + bytes(volumes) + bytes([click, 252 if panning else 0]) + bytes(8) + struct.pack("<H", 0)
    head += bytes(settings or range(32)) + bytes(order)
    size = len(head) + 2 * (n + m) + (32 if panning else 0)
    at = -(-size // 16)
    places = [("header", 0, at * 16)]
    at += lead
    body, ptrs = {}, []
    for i in range(n):
        ptrs.append(at)
        at += 5 + gap
    for i, d in enumerate(patterns):
        ptrs.append(at)
        body[at] = struct.pack("<H", len(d) + 2) + d
        at += -(-len(body[at]) // 16) + gap
    for i, (kind, filename, d, fl, volume, speed, name, loop) in enumerate(instruments):
        pos = at if d else 0
        body[ptrs[i]] = bytes([kind]) + text(filename, 12) + bytes([pos >> 16]) + struct.pack("<H", pos & 0xFFFF) + struct.pack("<III", len(d) // ((2 if fl & 2 else 1) * (2 if fl & 4 else 1)), loop[0], loop[1]) + bytes([volume, 0, 0, fl]) + struct.pack("<IIHHI", speed, 0, 1, 2, 3) + text(name, 28) + (b"SCRS" if kind else bytes(4))
        if d:
            body[at] = d
            at += -(-len(d) // 16) + gap
    head += struct.pack("<%dH" % (n + m), *ptrs)
    if panning:
        head += bytes(panning)
    out = bytearray(head)
    for a in sorted(body):
        out = out.ljust(a * 16, b"\0")
        out += body[a]
    return bytes(out.ljust(-(-len(out) // 16) * 16, b"\0")), ptrs, places, sorted((a, len(b)) for a, b in body.items())


INSTRUMENTS = [(1, "A.SMP", b"12345", 0, 64, 8363, "mono", (0, 5)), (1, "B.SMP", b"1234567890123456", 2, 0, 16726, "stereo", (1, 8)), (1, "C.SMP", b"12345678", 4, 32, 44100, "wide", (2, 3)), (1, "D.SMP", bytes(20), 7, 63, 1, "stereo and wide", (0, 0)), (0, "", b"", 0, 0, 8363, "text only", (0, 0)), (1, "E.SMP", b"", 1, 1, 8363, "no data", (0, 0)),
               (1, "LONGNAME.SMP", b"x" * 16, 1, 1, 65536, "just one paragraph of sample", (0, 16))]


def screamtracker(case, ctx):
    for n in range(0, 4):
        for choice in itertools.product(range(len(INSTRUMENTS)), repeat=n):
            if case["first"] != (choice[0] if choice else -1):
                continue
            for lead, gap in ((0, 0), (1, 0), (0, 1)) if n < 3 else ((0, 0),):
                check_s3m(ctx, [INSTRUMENTS[i] for i in choice], lead, gap, panning=[(i & 15) | 0x20 * (i & 1) for i in range(32)] if n & 1 else None, flags=n * 85 & 255, version=0x1320 + n)


def check_s3m(ctx, instruments, lead=0, gap=0, **options):
    data, ptrs, want, chunks = s3m(instruments, lead=lead, gap=gap, **options)
    what = "S3M with instruments %s, %s" % ([i[1] for i in instruments], (lead, gap))
    p = opened(ctx, data, S3MModule)
    contiguous(ctx, what, p, len(data) * 8, 2)
    expect(ctx, what + ": header", (p["header"].address, p["header"].size // 8), (0, want[0][2]))
    flags, version, panning = options.get("flags", 0), options.get("version", 0x1320), options.get("panning")
    order = options.get("order", (0, 255))
    fields(ctx, what, p["header"], title="title", marker__0=0x1A, type=16, num_orders=len(order), num_instruments=len(instruments), num_patterns=0, flags__st2_vibrato=bool(flags & 1), flags__st2_tempo=bool(flags & 2), flags__amiga_slides=bool(flags & 4), flags__zero_vol_opt=bool(flags & 8),
           flags__amiga_limits=bool(flags & 16), flags__sb_processing=bool(flags & 32), flags__vol_slide=bool(flags & 64), flags__extended=bool(flags & 128), creation_version_major=(version >> 8) & 15, creation_version_unknown=version >> 12, creation_version_minor=version & 255, format_version=2,
           marker__1="SCRM", glob_vol=64, init_speed=6, init_tempo=125, volume=0x30, stereo=True, click_removal=16, panning_info=252 if panning else 0)
    expect(ctx, what + ": description", p["header"].description, "title (0 patterns, %d instruments)" % len(instruments))
    for i, s in enumerate(options.get("settings") or range(32)):
        fields(ctx, what, p["header/channel_settings"], **{"channel__%d__type" % i: s & 127, "channel__%d__disabled" % i: bool(s & 128)})
        name = "Left Sample Channel %d" % (s & 127) if s & 127 < 8 else "Right Sample Channel %d" % ((s & 127) - 8) if s & 127 < 16 else "Adlib channel %d" % ((s & 127) - 16) if s & 127 < 32 else "Value %d unknown" % (s & 127)
        expect(ctx, what + ": channel %s" % i, p["header/channel_settings/channel[%d]/type" % i].display, name)
    expect(ctx, what + ": order", [f.value for f in p["header/orders"]], list(order))
    if panning:
        for i, s in enumerate(panning):
            fields(ctx, what, p["header/channel_panning"], **{"channel__%d__default_position" % i: s & 15, "channel__%d__use_default" % i: bool(s & 32)})
    sampled, at = [], {a: n for a, n in chunks}
    for i, (kind, filename, d, fl, volume, speed, name, loop) in enumerate(instruments):
        f = p["instrument[%d]" % i]
        w = "%s: instrument %s" % (what, i)
        expect(ctx, w + ": place", (f.address // 8, f.size // 8), (ptrs[i] * 16, 80))
        wide = (2 if fl & 2 else 1) * (2 if fl & 4 else 1)
        fields(ctx, w, f, type=kind, filename=filename, sample_size=len(d) // wide, loop_begin=loop[0], loop_end=loop[1], volume=volume, packing=0, flags__loop_on=bool(fl & 1), flags__stereo=bool(fl & 2), c4_speed=speed, name=name, marker="SCRS" if kind else "")
        fields(ctx, w, f["flags"], **{"16bits": bool(fl & 4)})
        expect(ctx, w + ": display", (f["type"].display, f["packing"].display), ({0: "Unknown", 1: "Sample"}[kind], "Unpacked"))
        expect(ctx, w + ": description", f.description, "%d, %s, %d bits" % (speed, "stereo" if fl & 2 else "mono", 16 if fl & 4 else 8))
        expect(ctx, w + ": fields", all(isinstance(x.description, str) for x in f), True)
        if d:
            sampled.append((f["sample_offset"].value, d))
    got = [(f.address // 8, f["data"].value) for f in p if f.name.startswith("sample_data[")]
    if got != sampled:
        ctx.report("%s: samples %r, expected %r" % (what, got, sampled))
    for a, d in sampled:
        if data[a:a + len(d)] != d:
            ctx.report("%s: the sample at %s is not there" % (what, a))
    ctx.seen("states", repr(("s3m", len(data), len(instruments), lead, gap)))
    ctx.count("traces")
    ctx.count("transitions", 1 + len(instruments))


def s3m_header(case, ctx):
    for fl in range(256):
        check_s3m(ctx, [], flags=fl, settings=[(fl + i) & 255 for i in range(32)], order=list(range(2 + fl % 7)), version=0x1300 + fl, panning=[fl] * 32 if fl >= 0x20 else None)


def s3m_pattern(case, ctx):
    """The first row of a pattern is read from its length (known finding)"""
    note = bytes([0x20, 0x36, 4])
    data, ptrs, want, chunks = s3m([], [note + b"\0" + bytes(63)])
    p = opened(ctx, data, S3MModule)
    f = p["pattern[0]/row[0]/note[0]"]
    if (f["info/channel"].value, f["info/has_note"].value) != (0, True) or f["note"].value != 0x36:
        ctx.report("the rows of a pattern of a S3M module are read from the address of its length", key="s3m-pattern-length")
    ctx.count("traces")
    ctx.count("transitions")
    ctx.seen("states", repr(("pattern")))


def ptm_note(channel, note=None, effect=None, volume=None):
    out = bytes([channel | (0x20 if note else 0) | (0x40 if effect else 0) | (0x80 if volume is not None else 0)])
    return out + bytes(note or ()) + bytes(effect or ()) + (bytes([volume]) if volume is not None else b"")


def ptm(instruments, patterns, channels=4, order=(0,), title="title"):
    """instruments: (type, file name, data, volume, speed, name); patterns: bytes, in paragraphs"""
    n, m = len(instruments), len(patterns)
    at = 608 + 80 * n
    at = -(-at // 16) * 16
    ptrs, body = [], {}
    for d in patterns:
        ptrs.append(at // 16)
        body[at] = d
        at += -(-len(d) // 16) * 16
    out = text(title, 28) + b"\x1a\x03\x02\0" + struct.pack("<6H", len(order), n, m, channels, 0, 0) + b"PTMF" + bytes(16) + bytes(range(32)) + bytes(order).ljust(256, b"\0") + struct.pack("<128H", *(ptrs + [0] * (128 - m)))
    for kind, filename, d, volume, speed, name in instruments:
        out += bytes([kind]) + text(filename, 12) + bytes([volume]) + struct.pack("<HHIIIIIII", speed, 0, at if d else 0, len(d), 1, 2, 3, 4, 5) + bytes([0, 0]) + text(name, 28) + b"PTMS"
        if d:
            body[at] = d
            at += len(d)
    out = bytearray(out)
    for a in sorted(body):
        out = out.ljust(a, b"\0")
        out += body[a]
    return bytes(out), ptrs, sorted((a, len(d)) for a, d in body.items())


PTM = [(1 + 16 * 0, "A.SMP", b"12345", 64, 8363, "first"), (5, "B.SMP", b"6", 0, 65535, "loop"), (13, "C.SMP", b"7" * 33, 32, 1, "both ways"), (0, "", b"", 0, 8363, "text only"), (0x11, "D.SMP", b"89", 63, 44100, "wide")]
ORIGIN = {0: "No sample", 1: "Regular", 2: "OPL2/OPL2 instrument", 3: "MIDI instrument"}


def polytracker(case, ctx):
    rows = [b"\0", ptm_note(0, (60, 1)) + b"\0", ptm_note(31, None, (15, 6)) + ptm_note(1, None, None, 64) + b"\0", ptm_note(2, (1, 2), (3, 4), 5) + b"\0"]
    parsed = [[], [(0, 60, 1, None, None, None)], [(31, None, None, 15, 6, None), (1, None, None, None, None, 64)], [(2, 1, 2, 3, 4, 5)]]
    for n in range(0, case["n"] + 1):
        for choice in itertools.product(range(len(PTM)), repeat=n):
            if case["first"] != (choice[0] if choice else -1):
                continue
            for m in (1, 2, 3):
                patterns, notes = [], []
                for k in range(m):
                    ids = [(i + k) % 4 if i < 12 or i > 60 else 0 for i in range(64)]
                    patterns.append(b"".join(rows[i] for i in ids))
                    notes.append([parsed[i] for i in ids])
                instruments = [PTM[i] for i in choice]
                data, ptrs, chunks = ptm(instruments, patterns, channels=m, order=tuple(range(m)))
                what = "PTM with instruments %s and %s patterns" % ([i[1] for i in instruments], m)
                p = opened(ctx, data, PTMModule)
                contiguous(ctx, what, p, len(data) * 8, 2)
                fields(ctx, what, p["header"], title="title", num_orders=m, num_instruments=n, num_patterns=m, channels=m, marker__1="PTMF")
                expect(ctx, what + ": order", [f.value for f in p["header/orders"]], list(range(m)) + [0] * (256 - m))
                samples = []
                for i, (kind, filename, d, volume, speed, name) in enumerate(instruments):
                    f = p["instrument[%d]" % i]
                    w = "%s: instrument %s" % (what, i)
                    expect(ctx, w + ": place", (f.address // 8, f.size // 8), (608 + 80 * i, 80))
                    fields(ctx, w, f, flags__origin=kind & 3, flags__loop=bool(kind & 4), flags__loop_bidir=bool(kind & 8), flags__is_tonable=bool(kind & 32), filename=filename, volume=volume, c4_speed=speed, sample_size=len(d), loop_begin=1, loop_end=2, gus_begin=3, gus_loop_start=4,
                           gus_loop_end=5, gus_loop_flags=0, name=name, marker="PTMS")
                    fields(ctx, w, f["flags"], **{"16bits": bool(kind & 16)})
                    expect(ctx, w + ": origin", f["flags/origin"].display, ORIGIN[kind & 3])
                    if d:
                        samples.append((f["sample_offset"].value, d))
                got = [(f.address // 8, f["data"].value) for f in p if f.name.startswith("sample_data[")]
                expect(ctx, what + ": samples", got, samples)
                for a, d in samples:
                    expect(ctx, what + ": sample in the file", data[a:a + len(d)], d)
                for k in range(m):
                    f = p["pattern[%d]" % k]
                    expect(ctx, what + ": place of pattern %s" % k, f.address // 8, ptrs[k] * 16)
                    expect(ctx, what + ": rows", [x.name for x in f if x.name.startswith("row")], ["row[%d]" % i for i in range(64)])
                    for i in range(64):
                        row = f["row[%d]" % i]
                        expect(ctx, what + ": row", [x.name for x in row], ["note[%d]" % j for j in range(len(notes[k][i]))] + ["terminator"])
                        for j, (channel, note, instrument, effect, param, volume) in enumerate(notes[k][i]):
                            x = row["note[%d]" % j]
                            want = {"info__channel": channel, "info__has_note": note is not None, "info__has_effect": effect is not None, "info__has_volume": volume is not None}
                            want.update({k: v for k, v in (("note", note), ("instrument", instrument), ("effect", effect), ("param", param), ("volume", volume)) if v is not None})
                            fields(ctx, "%s: note %s" % (what, (k, i, j)), x, **want)
                            expect(ctx, what + ": fields of the note", len(list(x)), 1 + len(want) - 4)
                ctx.seen("states", repr(("ptm", choice, m)))
                ctx.count("traces")
                ctx.count("transitions", 1 + n + 64 * m)


if __name__ == "__main__":
    c = lib.Check("A15", "model_checking",
                  "Amiga modules of all kinds with all sets of samples and patterns; XM notes with all flags, all notes, volumes and effects, sequences of instruments with their samples after patterns, header values, ModPlug blocks; S3M and PTM headers, sequences of instruments, samples and patterns: place and value of each field",
                  bounds={"instruments": "sequences up to 3", "patterns": "up to 3", "ModPlug fields": "all orders up to 3"})
    q = c.quick
    c.domain("amiga", [{"kind": k, "all": not q} for k in MOD], amiga, batch=1)
    c.domain("xm notes", [{"what": w, "channels": n} for w in ("flags", "notes", "volumes", "effects") for n in ((2, 8) if q else (2, 4, 6, 8, 32))], xm_notes, batch=1)
    c.domain("xm files", [{"first": i, "quick": q} for i in range(-1, len(SAMPLES))], xm_files, batch=1)
    c.domain("xm header", [{}], xm_header)
    c.domain("modplug", [{"n": n} for n in range(3)], modplug, batch=1)
    c.domain("s3m", [{"first": i} for i in range(-1, len(INSTRUMENTS))], screamtracker, batch=1)
    c.domain("s3m header", [{}], s3m_header)
    c.domain("s3m pattern", [{}], s3m_pattern)
    c.domain("ptm", [{"first": i, "n": 2 if q else 3} for i in range(-1, len(PTM))], polytracker, batch=1)
    c.main()
