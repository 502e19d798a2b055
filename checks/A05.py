"""A05: MP3 with its tags, FLAC, Ogg and MIDI files are shown as they were written: frames, tags, blocks, pages, packets, events, sizes, metadata."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import check_meta, contiguous, direct, expect, fields, get, groups, metadata, opened, plain
from hachoir.parser import guessParser
from hachoir.parser.audio import FlacParser, MidiFile, MpegAudioFile
from hachoir.parser.container import OggFile
from hachoir.stream import StringInputStream
formats.ALLOW.append(("FlacParser", "^/$", "add padding"))    # only the first frame is parsed

Z30 = 30


def vlq(n):
    out = bytes([n & 127])
    while n > 127:
        n >>= 7
        out = bytes([128 | n & 127]) + out
    return out


# ---- MIDI -------------------------------------------------------------------------------------

EVENTS = [("off", b"\x83\x3c\x40", {"command": 0x83, "note": 0x3c, "velocity": 0x40}), ("on", b"\x90\x45\x7f", {"command": 0x90, "note": 0x45, "velocity": 0x7f}),
          ("after", b"\xa1\x01\x02", {"command": 0xa1, "note": 1, "velocity": 2}), ("control", b"\xb2\x07\x64", {"command": 0xb2, "control": 7, "value": 100}),
          ("patch", b"\xc4\x2f", {"command": 0xc4, "program": 0x2f}), ("channel", b"\xd5\x51", {"command": 0xd5, "channel": 0x51}), ("pitch", b"\xe6\x12\x34", {"command": 0xe6, "bottom": 0x12, "top": 0x34}),
          ("text", b"\xff\x01\x05Hello", {"command": 0xff, "meta_command": 1, "data_len": 5, "text": "Hello"}), ("name", b"\xff\x03\x04\xff/\0x", {"meta_command": 3, "data_len": 4, "text": "\xff/\0x"}),
          ("tempo", b"\xff\x51\x03\x07\xa1\x20", {"meta_command": 0x51, "data_len": 3, "microsec_quarter": 500000}), ("time", b"\xff\x58\x04\x06\x03\x24\x08", {"numerator": 6, "denominator": 3, "nb_tick": 36, "nb_32nd_note": 8}),
          ("smpte", b"\xff\x54\x05\x25\x01\x02\x03\x04", {"frame_rate": 1, "hour": 5, "minute": 1, "second": 2, "frame": 3, "subframe": 4}), ("key", b"\xff\x59\x02\xfb\x01", {"meta_command": 0x59, "data": b"\xfb\x01"}),
          ("prefix", b"\xff\x20\x01\x09", {"meta_command": 0x20, "channel": 9}), ("empty", b"\xff\x01\x00", {"meta_command": 1, "data_len": 0}), ("long", b"\xff\x7f\x81\x00" + b"\xff\x2f\x00\x80" * 32, {"meta_command": 0x7f, "data_len": 128}),
          ("sysex", b"\xf0\x03\x7e\x09\xf7", {"command": 0xf0, "data_len": 3, "data": b"\x7e\x09\xf7"}), ("escape", b"\xf7\x02\xf3\x01", {"command": 0xf7, "data_len": 2, "data": b"\xf3\x01"}), ("sysex empty", b"\xf0\x00", {"command": 0xf0, "data_len": 0})]
EVENT = {e[0]: e for e in EVENTS}
END = b"\xff\x2f\x00"
DELTAS = [0, 1, 127, 128, 0x2000, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0x0fffffff]


def track(names, deltas, running):
    """Bytes of the track; [(address, delta, values, status written)] of its events"""
    out, where, last = b"", [], None
    for k, n in enumerate(names):
        d = deltas[k % len(deltas)]
        at = len(out)
        e = EVENT[n]
        raw = e[1]
        written = True
        if running and raw[0] < 0xf0 and last == raw[0]:
            raw = raw[1:]
            written = False
        last = e[1][0] if e[1][0] < 0xf0 else None
        out += vlq(d) + raw
        where.append((at, len(out) - at, d, e[2], written))
    out += vlq(0) + END
    where.append((len(out) - 4, 4, 0, {"command": 0xff, "meta_command": 0x2f, "data_len": 0}, True))
    return b"MTrk" + struct.pack(">I", len(out)) + out, where


def midi_one(ctx, tracks, deltas, running, junk, fmt=1, division=96):
    what = "MIDI file of tracks %s, times %s%s" % (tracks, deltas, ", running status" if running else "") + (", more data" if junk else "")
    made = [track(t, deltas, running) for t in tracks]
    data = b"MThd" + struct.pack(">IHHH", 6, fmt, len(tracks), division) + b"".join(m[0] for m in made)
    size = len(data)
    p = opened(ctx, data + junk, MidiFile)
    expect(ctx, what + ": header", (p["header/file_format"].value, p["header/nb_track"].value, p["header/delta_time"].value), (fmt, len(tracks), division))
    pos = 14
    for k, (raw, where) in enumerate(made):
        t = p["track[%s]" % k]
        expect(ctx, "%s: frame of track %s" % (what, k), (t.address, t.size), (pos * 8, len(raw) * 8))
        expect(ctx, "%s: events of track %s" % (what, k), len(list(t.array("command"))), len(where))
        for i, (at, n, d, values, written) in enumerate(where):
            c = t["command[%s]" % i]
            if not expect(ctx, "%s: place of event %s" % (what, i), (c.address, c.size), ((8 + at) * 8, n * 8)):
                return
            expect(ctx, "%s: time of event %s" % (what, i), c["time"].value, d)
            for key, v in values.items():
                if key == "command" and not written:
                    expect(ctx, "%s: status of event %s" % (what, i), "command" in c, False)
                else:
                    expect(ctx, "%s: %s of event %s" % (what, key, i), get(c, key), v)
            c.description
        contiguous(ctx, what, t, t.size, 1)
        pos += len(raw)
        first = EVENT[tracks[k][0]] if tracks[k] else None
        want = first[2]["text"].strip("\r\n") if first and first[0] == "text" else ""
        if want or not first or first[0] != "name":
            expect(ctx, "%s: title of track %s" % (what, k), t.description, want)
    expect(ctx, what + ": size", p.content_size, size * 8)


def midis(case, ctx):
    n = case["n"]
    names = [e[0] for e in EVENTS]
    for rest in itertools.product(names, repeat=n - 1) if n else [None]:
        seq = () if rest is None else (case["first"],) + rest
        for running in (False, True):
            midi_one(ctx, [seq], [0, 130], running, b"")
        midi_one(ctx, [seq, ("name",), ()], [1], True, b"MTrkmore data")
        midi_one(ctx, [(), seq], [0], False, b"\xff\x2f\x00")


def midi_times(case, ctx):
    for a in DELTAS:
        for b in DELTAS:
            for seq in (("on", "on"), ("text", "sysex"), ("pitch", "pitch", "patch", "patch")):
                midi_one(ctx, [seq], [a, b], case["running"], b"")


# ---- MPEG audio -------------------------------------------------------------------------------

RATES = {3: {3: [0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448], 2: [0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384], 1: [0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320]},
         2: {3: [0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256], 2: [0] + [8 * k for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20)], 1: [0] + [8 * k for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20)]}}
FREQ = {3: (44100, 48000, 32000), 2: (22050, 24000, 16000), 0: (11025, 12000, 8000)}
MODES = ("Stereo", "Joint stereo", "Dual channel", "Single channel")
VERSIONS = {0: "2.5", 2: "2", 3: "1"}
LAYERS = {1: "III", 2: "II", 3: "I"}


def frame(version, layer, rate, freq, pad, crc=1, ext=0, mode=0, mode_ext=0, copyright=0, original=1, emphasis=0, fill=0):
    kbps = RATES[3 if version == 3 else 2][layer][rate]
    hz = FREQ[version][freq]
    if layer == 3:
        size = (12 * kbps * 1000 // hz + pad) * 4
    else:
        samples = 576 if layer == 1 and version != 3 else 1152
        size = samples // 8 * kbps * 1000 // hz + pad
    n = 0x7FF << 21 | version << 19 | layer << 17 | crc << 16 | rate << 12 | freq << 10 | pad << 9 | ext << 8 | mode << 6 | mode_ext << 4 | copyright << 3 | original << 2 | emphasis
    return struct.pack(">I", n) + bytes([fill]) * (size - 4), kbps * 1000, hz


def check_frame(ctx, what, f, at, raw, **want):
    expect(ctx, what + ": place", (f.absolute_address, f.size), (at * 8, len(raw) * 8))
    fields(ctx, what, f, sync=2047, **want)


def mpeg_frames(case, ctx):
    """Every header"""
    v, l = case["version"], case["layer"]
    for rate in range(1, 15):
        for freq in range(3):
            for pad in (0, 1):
                for crc, mode, more in ((1, 0, (0, 0, 0, 0, 0)), (0, 1, (1, 2, 1, 0, 1)), (1, 2, (0, 1, 0, 1, 3)), (0, 3, (1, 3, 1, 1, 0))):
                    ext, mode_ext, cr, orig, emph = more
                    raw, bps, hz = frame(v, l, rate, freq, pad, crc, ext, mode, mode_ext, cr, orig, emph)
                    other = frame(v, l, rate, freq, 1 - pad, crc, ext, mode, mode_ext, cr, orig, emph)[0]
                    seq = [raw, other, raw, raw, other, raw]
                    what = "MPEG-%s layer %s, %s kbit/s, %s Hz, padding %s, mode %s" % (VERSIONS[v], LAYERS[l], bps // 1000, hz, pad, mode)
                    data = b"".join(seq)
                    p = direct(ctx, data, MpegAudioFile)
                    at = 0
                    for k, r in enumerate(seq):
                        check_frame(ctx, "%s: frame %s" % (what, k), p["frames/frame[%s]" % k], at, r, version=v, layer=l, crc16=bool(crc), bit_rate=rate, sampling_rate=freq, use_padding=bool(pad if r is raw else 1 - pad), extension=bool(ext),
                                    channel_mode=mode, mode_ext=mode_ext, copyright=bool(cr), original=bool(orig), emphasis=emph)
                        at += len(r)
                    f = p["frames/frame[0]"]
                    expect(ctx, what + ": displays", (f["emphasis"].display, f["channel_mode"].display), ({0: "none", 1: "50/15 ms", 3: "CCIT J.17"}.get(emph, str(emph)), ("Stereo", "Joint stereo", "Dual channel", "Single channel")[mode]))
                    expect(ctx, what + ": frames", len(list(p.array("frames/frame"))), len(seq))
                    expect(ctx, what + ": size", p.content_size, len(data) * 8)
                    m = metadata(p)
                    d = datetime.timedelta(seconds=len(data) * 8 / bps)
                    check_meta(ctx, what, m, nb_channel=1 if mode == 3 else 2, sample_rate=hz, bit_rate=bps, format_version="MPEG version %s layer %s" % (VERSIONS[v], LAYERS[l]), duration=d if d.total_seconds() >= 0.001 else None)


def tag1(song, author, album, year, comment, track, genre):
    def cut(s, n):
        return s.encode("latin-1")[:n].ljust(n, b"\0")
    if track:
        c = cut(comment, 28) + bytes([0, track])
    else:
        c = cut(comment, 30)
    return b"TAG" + cut(song, 30) + cut(author, 30) + cut(album, 30) + cut(year, 4) + c + bytes([genre])


def check_tag1(ctx, what, f, at, song, author, album, year, comment, track, genre):
    expect(ctx, what + ": place of the ID3v1 tag", (f.absolute_address, f.size), (at * 8, 1024))
    fields(ctx, what, f, signature="TAG", song=song, author=author, album=album, year=year, comment=comment, genre=genre)
    expect(ctx, what + ": track", get(f, "track_nb"), track or "no field")
    if genre < len(GENRES):
        expect(ctx, what + ": name of the genre", letters(f["genre"].display), letters(GENRES[genre]))
    contiguous(ctx, what, f, 1024)
    f.description


def id3v1(case, ctx):
    n = case["n"]
    text = "caf\xe9 comment of thirty letters!"
    fr = frame(3, 1, 9, 0, 0)[0]
    for genre in range(256):
        for track in (0, 1, 9, 32, 127, 128, 255):
            comment = text[:min(n, 28 if track else 30)]
            want = ["Song", "Some author", "Album" * 6, "2003", comment.strip(), track, genre]
            what = "ID3v1 tag with a comment of %s letters, track %s, genre %s" % (n, track, genre)
            for music in (b"", fr * 3) if genre in (0, 17, 32, 255) else (b"",):
                p = direct(ctx, music + tag1("Song", "Some author", "Album" * 6, "2003", comment, track, genre), MpegAudioFile)
                check_tag1(ctx, what, p["id3v1"], len(music), *want)
                expect(ctx, what + ": size", p.content_size, len(music) * 8 + 1024)
                m = metadata(p)
                check_meta(ctx, what, m, title="Song", author="Some author", album="Album" * 6, comment=comment.strip() or None, creation_date=datetime.date(2003, 1, 1))
                expect(ctx, what + ": track of the metadata", plain(m, "track_number"), track if 0 < track < 100 else plain(m, "track_number"))


GENRES = """Blues,Classic Rock,Country,Dance,Disco,Funk,Grunge,Hip-Hop,Jazz,Metal,New Age,Oldies,Other,Pop,R&B,Rap,Reggae,Rock,Techno,Industrial,Alternative,Ska,Death Metal,Pranks,Soundtrack,Euro-Techno,Ambient,Trip-Hop,Vocal,Jazz+Funk,Fusion,
Trance,Classical,Instrumental,Acid,House,Game,Sound Clip,Gospel,Noise,AlternRock,Bass,Soul,Punk,Space,Meditative,Instrumental Pop,Instrumental Rock,Ethnic,Gothic,Darkwave,Techno-Industrial,Electronic,Pop-Folk,Eurodance,Dream,Southern Rock,Comedy,
Cult,Gangsta,Top 40,Christian Rap,Pop/Funk,Jungle,Native American,Cabaret,New Wave,Psychadelic,Rave,Showtunes,Trailer,Lo-Fi,Tribal,Acid Punk,Acid Jazz,Polka,Retro,Musical,Rock & Roll,Hard Rock""".replace("\n", "").split(",")


def letters(x):
    return "".join(c for c in x.lower() if c.isalnum())


def genres(case, ctx):
    for k, name in enumerate(GENRES):
        p = direct(ctx, tag1("Song", "Some author", "Album", "2003", "", 0, k), MpegAudioFile)
        expect(ctx, "genre %s" % k, letters(p["id3v1/genre"].display), letters(name))


def flac_frames(case, ctx):
    rates = ["get from STREAMINFO metadata block", "88.2kHz", "176.4kHz", "192kHz", "8kHz", "16kHz", "22.05kHz", "24kHz", "32kHz", "44.1kHz", "48kHz", "96kHz"]
    for strategy in (0, 1):
        for block in range(16):
            for rate in range(16):
                for ch in range(11):
                    for size in range(8):
                        if (block + rate + ch + size) % 3:
                            continue
                        n = 0x3ffe << 18 | strategy << 16 | block << 12 | rate << 8 | ch << 4 | size << 1
                        data = b"fLaC\x80" + struct.pack(">I", 34)[1:] + struct.pack(">HH", 4096, 4608) + b"\0\0\x0e\0\x20\x10" + (44100 << 44 | 1 << 41 | 15 << 36 | 1000).to_bytes(8, "big") + bytes(16) + struct.pack(">I", n) + b"the rest"
                        f = opened(ctx, data, FlacParser)["frames/frame[0]"]
                        what = "FLAC frame 0x%x" % n
                        fields(ctx, what, f, sync=0x3ffe, blocking_strategy=bool(strategy), block_size=block, sample_rate=rate, channel_assign=ch, sample_size=size)
                        if rate < 12:
                            expect(ctx, what + ": rate", f["sample_rate"].display, rates[rate])


def id3v1_texts(case, ctx):
    """All lengths of all texts"""
    for k, key in enumerate(("song", "author", "album")):
        for n in range(31):
            for fill in ("\0", " "):
                t = ["s", "a", "b"]
                t[k] = "x" * n
                raw = b"TAG" + b"".join(s.encode().ljust(30, fill.encode()) for s in t) + b"1999" + b"c".ljust(30, fill.encode()) + b"\x05"
                p = direct(ctx, raw, MpegAudioFile)
                check_tag1(ctx, "ID3v1 tag with %s letters in %s" % (n, key), p["id3v1"], 0, *t, "1999", "c", 0, 5)


# ---- ID3v2 ------------------------------------------------------------------------------------

CHARSETS = {0: "latin-1", 1: "utf-16", 2: "utf-16-be", 3: "utf-8"}
TEXTS = {"plain": "A title", "accent": "caf\xe9", "foreign": "\u4e2d\u0100\u0001x", "empty": ""}


def coded(s, cs, end=False):
    if cs == 1:
        raw = b"\xff\xfe" + s.encode("utf-16-le")
    else:
        raw = s.encode(CHARSETS[cs])
    return raw + (b"\0\0" if cs in (1, 2) else b"\0") * end


def v2frame(version, kind, cs, text):
    """Tag, content, values, metadata"""
    t = coded(text, cs)
    short = version == 2
    if kind in ("title", "artist", "album", "composer"):
        tag = {"title": ("TT2", "TIT2"), "artist": ("TP1", "TPE1"), "album": ("TAL", "TALB"), "composer": ("TCM", "TCOM")}[kind][not short]
        key = {"title": "title", "artist": "author", "album": "album"}.get(kind)
        return tag, bytes([cs]) + t, {"charset": cs, "text": text} if t else {"charset": cs}, {key: text} if key else {}
    if kind == "year":
        return ("TYE", "TYER")[not short], bytes([cs]) + coded("2004", cs), {"charset": cs, "text": "2004"}, {"creation_date": datetime.date(2004, 1, 1)}
    if kind == "track":
        return ("TRK", "TRCK")[not short], bytes([cs]) + coded("7", cs), {"charset": cs, "text": "7"}, {"track_number": 7}
    if kind == "comment":
        return ("COM", "COMM")[not short], bytes([cs]) + b"eng" + coded("", cs, True) + t, {"charset": cs, "lang": "eng", "title": "", "text": text} if t else {"charset": cs, "title": ""}, {"comment": text}
    if kind == "titled comment":
        return ("COM", "COMM")[not short], bytes([cs]) + b"fra" + coded("About", cs, True) + t, {"charset": cs, "lang": "fra", "title": "About", "text": text} if t else {"title": "About"}, {"comment": ("About: " + text).strip()} if t else {}
    if kind == "url":
        if short:
            return "WXX", bytes([cs]) + coded(text, cs, True) + b"http://a.b/c", {None: bytes([cs]) + coded(text, cs, True) + b"http://a.b/c"}, {}
        return "WXXX", bytes([cs]) + coded(text, cs, True) + b"http://a.b/c", {"charset": cs, "title": text, "text": "http://a.b/c"}, {"url": (text + ": " if text else "") + "http://a.b/c"}
    if kind == "user":
        if short:
            return None
        return "TXXX", bytes([cs]) + coded("key", cs, True) + t, {"charset": cs, "title": "key", "text": text} if t else {"title": "key"}, {}
    if kind == "picture":
        if short:
            return "PIC", bytes([cs]) + b"PNG\x03" + coded(text, cs, True) + b"\x89PNG\0\0\1", {"charset": cs, "img_fmt": "PNG", "pict_type": 3, "text": text, "img_data": b"\x89PNG\0\0\1"}, {}
        return "APIC", bytes([cs]) + b"image/png\0\x04" + coded(text, cs, True) + b"\x89PNG\0\0\1", {"charset": cs, "mime": "image/png", "pict_type": 4, "description": text, "img_data": b"\x89PNG\0\0\1"}, {}
    if kind == "object":
        if short:
            return None
        return "GEOB", bytes([cs]) + b"text/x\0" + coded("a.txt", cs, True) + coded(text, cs, True) + b"\xff\xfe\0d", {"charset": cs, "mime": "text/x", "filename": "a.txt", "description": text}, {}
    if kind == "web":
        return ("WAR", "WOAR")[not short], b"http://x/", {None: b"http://x/"} if short else {"text": "http://x/"}, {}
    if kind == "raw":
        return ("UFI", "PCNT")[not short], b"\0\0\1\2", {None: b"\0\0\1\2"}, {}


KINDS = ["title", "artist", "album", "composer", "year", "track", "comment", "titled comment", "url", "user", "picture", "object", "web", "raw"]


def size7(n):
    return bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])


def id3v2_one(ctx, version, seq, padding, music, filler=0):
    """seq: (kind, charset, text)"""
    what = "ID3v2.%s tag of %s, %s bytes of padding, music of %s bytes" % (version, [(k, CHARSETS[c], t) for k, c, t in seq], padding, len(music))
    body, where, meta = b"", [], {}
    for kind, cs, text in seq:
        made = v2frame(version, kind, cs, TEXTS[text])
        if made is None:
            return
        tag, content, values, m = made
        content += b"\0" * filler if kind == "raw" else b""
        if version == 2:
            head = tag.encode() + struct.pack(">I", len(content))[1:]
        elif version == 3:
            head = tag.encode() + struct.pack(">IH", len(content), 0)
        else:
            head = tag.encode() + size7(len(content)) + b"\0\0"
        where.append((tag, 10 + len(body), len(head), content, values))
        body += head + content
        for k, v in m.items():
            meta.setdefault(k, [])
            if v not in meta[k] and v:
                meta[k].append(v)
    data = b"ID3" + bytes([version, 0, 0]) + size7(len(body) + padding) + body + b"\0" * padding
    size = len(data)
    p = direct(ctx, data + music, MpegAudioFile)
    t = p["id3v2"]
    expect(ctx, what + ": tag", (t["header"].value, t["ver_major"].value, t["ver_minor"].value, t["size"].value, t.size), ("ID3", version, 0, len(body) + padding, size * 8))
    got = [f for f in t.array("field") if f["size"].value]
    if not expect(ctx, what + ": frames", [f["tag"].value for f in got], [w[0] for w in where]):
        return
    for f, (tag, at, head, content, values) in zip(got, where):
        w = what + ", frame " + tag
        expect(ctx, w + ": place", (f.absolute_address, f.size, f["size"].value), (at * 8, (head + len(content)) * 8, len(content)))
        for key, v in values.items():
            if key is None:
                expect(ctx, w + ": data", p.stream.readBytes(f["content"].absolute_address, f["content"].size // 8), v + b"\0" * filler)
            else:
                expect(ctx, "%s: %s" % (w, key), get(f, "content/" + key), v)
        contiguous(ctx, w, f, f.size, 1)
        f.description
    contiguous(ctx, what, p, (size + len(music)) * 8, 1)
    expect(ctx, what + ": size of the file", p.content_size, (size + len(music)) * 8)
    m = metadata(p)
    for key, v in meta.items():
        got = m.getValues(key) if m and m.has(key) else []
        expect(ctx, "%s: %s of the metadata" % (what, key), sorted(map(str, got)), sorted(map(str, v)))


MUSIC = frame(3, 1, 9, 0, 0)[0] * 2


def id3v2_texts(case, ctx):
    version = case["version"]
    for kind in KINDS:
        for cs in range(4):
            for text in TEXTS:
                if cs == 0 and text == "foreign":
                    continue
                for padding in range(0, 13):
                    id3v2_one(ctx, version, [(kind, cs, text)], padding, b"" if padding % 2 else MUSIC)


def id3v2_sequences(case, ctx):
    version, first = case["version"], case["first"]
    for rest in itertools.chain([()], itertools.permutations([k for k in KINDS if k != first], 1), itertools.permutations([k for k in KINDS if k != first], 2)):
        for style in range(3):
            kinds = (first,) + rest
            seq = [(k, (i + style) % 4, ("plain", "accent", "empty" if style == 2 else "plain")[i % 3]) for i, k in enumerate(kinds)]
            id3v2_one(ctx, version, seq, (0, 3, 100)[style], MUSIC)


def id3v2_sizes(case, ctx):
    version = case["version"]
    for filler in [n + d for n in (0, 120, 128 * 128 - 16, 128 * 200) for d in range(20)]:
        for seq in ([("raw", 0, "plain"), ("title", 3, "accent")], [("title", 1, "plain"), ("raw", 0, "plain")]):
            id3v2_one(ctx, version, seq, 0, MUSIC, filler)


def whole(case, ctx):
    """All parts of a MPEG file together"""
    v, l = case["version"], case["layer"]
    for rate in (1, 9):
        raw, bps, hz = frame(v, l, rate, 0, 0, mode=3)
        padded = frame(v, l, rate, 0, 1, mode=3)[0]
        for head in (0, 1, 2):
            for gap in (0, 1, 2, 100, 250) if head < 2 else (0,):
                for n in range(1, 7):
                    for tail in (0, 1):
                        what = "MPEG-%s layer %s file: ID3v2 %s, gap of %s, %s frames of %s kbit/s, ID3v1 %s" % (VERSIONS[v], LAYERS[l], head, gap, n, bps // 1000, tail)
                        h = b"" if not head else b"ID3\x03\0\0" + size7(21 + (head - 1) * 3) + b"TIT2\0\0\0\x0b\0\0\0ten letter" + b"\0" * (head - 1) * 3
                        music = b"".join(padded if k % 2 else raw for k in range(n))
                        end = tag1("Song", "Who", "Al", "2001", "com", 3, 7) if tail else b""
                        data = h + b"\0" * gap + music + end
                        p = direct(ctx, data, MpegAudioFile)
                        at = len(h) + gap
                        for k in range(n):
                            r = padded if k % 2 else raw
                            f = p["frames/frame[%s]" % k]
                            expect(ctx, "%s: frame %s" % (what, k), (f.absolute_address, f.size), (at * 8, len(r) * 8))
                            at += len(r)
                        if tail:
                            check_tag1(ctx, what, p["id3v1"], at, "Song", "Who", "Al", "2001", "com", 3, 7)
                        contiguous(ctx, what, p, len(data) * 8, 1)
                        expect(ctx, what + ": size", p.content_size, len(data) * 8)
                        m = metadata(p)
                        check_meta(ctx, what, m, bit_rate=bps, sample_rate=hz, nb_channel=1, author="Who" if tail else None)
                        titles = (["Song"] if tail else []) + (["ten letter"] if head else [])
                        expect(ctx, what + ": titles", sorted(m.getValues("title")) if m.has("title") else [], sorted(titles))
                        d = datetime.timedelta(seconds=(gap + len(music)) * 8 / bps)
                        if d.total_seconds() >= 0.001:
                            check_meta(ctx, what, m, duration=d)


# ---- FLAC -------------------------------------------------------------------------------------

def comments(items, vendor="lib 1.0", framing=b""):
    out = struct.pack("<I", len(vendor.encode())) + vendor.encode() + struct.pack("<I", len(items))
    for i in items:
        out += struct.pack("<I", len(i.encode())) + i.encode()
    return out + framing


COMMENTS = [("TITLE=A title", "title", "A title"), ("artist=caf\xe9 \u4e2d", "artist", "caf\xe9 \u4e2d"), ("Album=A=B", "album", "A=B"), ("DATE=2005-06-07", "creation_date", datetime.date(2005, 6, 7)), ("TRACKNUMBER=3", "track_number", 3),
            ("GENRE=Jazz", "music_genre", "Jazz"), ("COMMENT=x", "comment", "x"), ("DESCRIPTION=yy", "comment", "yy"), ("LICENSE=free", "copyright", "free"), ("X-OTHER=1", None, None), ("no sign", None, None), ("TITLE=", None, None), ("WWW=http://x", "url", "http://x")]


def wanted(chosen, vendor="lib 1.0"):
    want = {"producer": [vendor]}
    for text, key, v in chosen:
        if key:
            want.setdefault(key, [])
            want[key].append(v)
    return want


def check_comments(ctx, what, f, chosen, m, framing=False):
    expect(ctx, what + ": vendor", f["vendor"].value, "lib 1.0")
    expect(ctx, what + ": number of comments", f["count"].value, len(chosen))
    expect(ctx, what + ": comments", [g.value for g in f.array("metadata")], [c[0] for c in chosen])
    expect(ctx, what + ": framing", "framing_flag" in f, framing)
    for key in {c[1] for c in COMMENTS if c[1]}:
        want = wanted(chosen).get(key, [])
        got = m.getValues(key) if m.has(key) else []
        expect(ctx, "%s: %s of the metadata" % (what, key), sorted(map(str, got)), sorted(map(str, want)))


BLOCKS = {"padding": (1, b"\0" * 5), "application": (2, b"abcdefg"), "seek": (3, struct.pack(">QQH", 1, 2, 3) + struct.pack(">QQH", 1 << 35, 1 << 50, 4096)), "comment": None, "cue": (5, b"\0" * 10 + b"c"), "picture": (6, b"\0\0\0\3image/png"),
          "unknown": (9, b"??"), "no padding": (1, b"")}
NAMES = {"padding": "padding[]", "application": "application[]", "seek": "seek_table", "comment": "comment", "cue": "cue_sheet[]", "picture": "picture[]", "unknown": "metadata_block[]", "no padding": "padding[]"}


def flac_one(ctx, info, seq, chosen, music):
    rate, ch, bits, total = info
    what = "FLAC file of %s Hz, %s channels, %s bits, %s samples, blocks %s, comments %s%s" % (rate, ch, bits, total, list(seq), [c[0] for c in chosen], "" if music else ", no frame")
    n = rate << 44 | (ch - 1) << 41 | (bits - 1) << 36 | total
    blocks = [("stream_info", 0, struct.pack(">HH", 4096, 4608) + b"\0\0\x0e\0\x20\x10" + n.to_bytes(8, "big") + bytes(range(16)))]
    count = {}
    for b in seq:
        kind, raw = BLOCKS[b] or (4, comments([c[0] for c in chosen]))
        name = NAMES[b]
        if name.endswith("[]"):
            count[name] = count.get(name, -1) + 1
            name = name[:-1] + "%s]" % count[name]
        blocks.append((name, kind, raw))
    data = b"fLaC"
    where = []
    for k, (name, kind, raw) in enumerate(blocks):
        where.append((len(data), name, kind, raw))
        data += bytes([kind | (128 if k == len(blocks) - 1 else 0)]) + struct.pack(">I", len(raw))[1:] + raw
    size = len(data)
    p = opened(ctx, data + music, FlacParser)
    expect(ctx, what + ": signature", p["signature"].value, "fLaC")
    md = p["metadata"]
    names = [f.name for f in md]
    for k, (at, name, kind, raw) in enumerate(where):
        if name.startswith("metadata_block"):
            name = names[k]
        if not expect(ctx, "%s: name of block %s" % (what, k), names[k:k + 1], [name]):
            return
        f = md[name]
        expect(ctx, "%s: block %s" % (what, name), (f.absolute_address, f.size, f["last_metadata_block"].value, f["block_type"].value, f["metadata_length"].value), (at * 8, 32 + len(raw) * 8, k == len(where) - 1, kind, len(raw)))
    expect(ctx, what + ": number of blocks", len(names), len(where))
    expect(ctx, what + ": end of the blocks", md.size, (size - 4) * 8)
    fields(ctx, what, md["stream_info/content"], min_block_size=4096, max_block_size=4608, min_frame_size=14, max_frame_size=0x2010, sample_hertz=rate, nb_channel=ch - 1, bits_per_sample=bits - 1, total_samples=total, md5sum=bytes(range(16)))
    if "seek" in seq:
        fields(ctx, what, md["seek_table/content"], **{"point[0]__sample_number": 1, "point[0]__offset": 2, "point[0]__nb_sample": 3, "point[1]__sample_number": 1 << 35, "point[1]__offset": 1 << 50, "point[1]__nb_sample": 4096})
    if music:
        fields(ctx, what, p["frames/frame[0]"], sync=0x3ffe, blocking_strategy=False, block_size=12, sample_rate=9, channel_assign=1, sample_size=4)
    contiguous(ctx, what, p, (size + len(music)) * 8, 2)
    m = metadata(p)
    d = total / rate if rate else 0
    check_meta(ctx, what, m, nb_channel=ch, bits_per_sample=bits, sample_rate=rate, duration=datetime.timedelta(seconds=d) if d >= 0.001 else None)
    if "comment" in seq:
        check_comments(ctx, what, md["comment/content"], chosen, m)


FRAME = bytes([0xff, 0xf8, 0xc9, 0x18]) + b"data of the frame"


def flacs(case, ctx):
    once = {"seek", "comment"}
    for n in range(case["n"] + 1):
        for seq in itertools.product(BLOCKS, repeat=n):
            if any(seq.count(o) > 1 for o in once) or seq[:1] != (case["first"],) and n:
                continue
            if not n and case["first"] != "padding":
                continue
            for music in (b"", FRAME):
                flac_one(ctx, (44100, 2, 16, 1000000), seq, COMMENTS[:3], music)


def flac_infos(case, ctx):
    for rate in (8000, 44100, 96000, 192000):
        for ch in range(1, 9):
            for bits in (4, 8, 16, 20, 24, 32):
                if ch > 2 and bits in (4, 20):
                    continue
                for total in (0, 1, 44100, (1 << 36) - 1):
                    if total / rate > 9 * 86400:
                        continue
                    flac_one(ctx, (rate, ch, bits, total), ("comment", "padding"), COMMENTS[3:5], FRAME)


def flac_comments(case, ctx):
    for n in range(4):
        for chosen in itertools.permutations(COMMENTS, n):
            if chosen[:1] == (COMMENTS[case["first"]],) or not n and not case["first"]:
                flac_one(ctx, (44100, 2, 16, 1000000), ("comment",), chosen, FRAME)


# ---- Ogg --------------------------------------------------------------------------------------

def page(serial, number, flags, granule, lacing, body):
    return b"OggS\0" + bytes([flags]) + struct.pack("<qIIIB", granule, serial, number, 0x12345678, len(lacing)) + bytes(lacing) + body


def laces(size):
    return [255] * (size // 255) + [size % 255]


def paginate(packets, cuts):
    """Pages of a stream: (lacing values, data, continued) split after the given numbers of lacing values"""
    values, data = [], b""
    starts = set()
    for p in packets:
        starts.add(len(values))
        values += laces(len(p))
        data += p
    pages, a = [], 0
    for b in list(cuts) + [len(values)]:
        n = sum(values[a:b])
        pages.append((values[a:b], data[:n], a not in starts and a > 0 and b > a))
        data = data[n:]
        a = b
    return pages


VORBIS = b"\x01vorbis" + struct.pack("<IBIiii", 0, 2, 44100, 256000, 128000, 64000) + b"\xb8\x01"
THEORA = b"\x80theora" + bytes([3, 2, 1]) + struct.pack(">HH", 20, 15) + b"\0\x01\x40\0\0\xf0\4\6" + struct.pack(">II", 30000, 1001) + b"\0\0\4\0\0\3" + b"\1" + b"\0\1\2" + b"\xc6\x50"
VIDEO = b"\x01video\0\0\0" + b"DIVX" + struct.pack("<IQQIIH", 52, 400000, 1, 2, 3, 24) + b"\0\0" + struct.pack("<II", 352, 288) + b"\0" * 4


def check_pages(ctx, what, p, pages, raws):
    at = 0
    for k, (raw, (serial, number, flags, granule, lacing, body)) in enumerate(zip(raws, pages)):
        f = p["page[%s]" % k]
        expect(ctx, "%s: page %s" % (what, k), (f.absolute_address, f.size), (at * 8, len(raw) * 8))
        fields(ctx, "%s: page %s" % (what, k), f, capture_pattern="OggS", stream_structure_version=0, continued_packet=bool(flags & 1), first_page=bool(flags & 2), last_page=bool(flags & 4), abs_granule_pos=granule, serial=serial, page=number, checksum=0x12345678, lacing_size=len(lacing))
        sizes, cur = [], None
        for v in lacing:
            cur = (cur or 0) + v
            if v < 255:
                sizes.append(cur)
                cur = None
        if cur is not None:
            sizes.append(cur)
        if sum(lacing):
            expect(ctx, "%s: sizes in page %s" % (what, k), [g.value for g in f["lacing"]], sizes)
            expect(ctx, "%s: chunks of page %s" % (what, k), [g.size // 8 for g in f["segments"] if g.name not in ("first", "next")], [s for s in sizes if s])
        at += len(raw)
    expect(ctx, what + ": pages", len(list(p.array("page"))), len(pages))
    contiguous(ctx, what, p, at * 8, 1)


def check_stream(ctx, what, p, first, packets):
    s = p["page[%s]/segments" % first].getSubIStream()
    q = guessParser(s)
    if not q:
        ctx.report("%s: the stream of page %s is not opened" % (what, first))
        return
    got = [f.value for f in q.array("packet")]
    expect(ctx, "%s: packets of the stream of page %s" % (what, first), got, [x for x in packets if x])


SIZES = [0, 1, 6, 7, 254, 255, 256, 509, 510, 511, 765]


def filled(n, k):
    return bytes((k * 31 + j * 7 + 1) & 255 for j in range(n))


def oggs(case, ctx):
    """One stream: all sequences of sizes, all ways to cut it in pages"""
    n = case["n"]
    for rest in itertools.product(case["sizes"], repeat=n - 1):
        packets = [VORBIS] + [filled(s, k + 1) for k, s in enumerate((case["first"],) + rest)]
        total = sum(len(laces(len(x))) for x in packets)
        places = range(2, total)
        for c in range(case["cuts"] + 1):
            for more in itertools.combinations(places, c):
                for empty in (None,) + tuple(range(1, c + 3)) if case["empty"] else (None,):
                    cuts = (1,) + more
                    if empty is not None:
                        cuts = sorted(cuts + (([1] + list(more) + [total])[min(empty - 1, c + 1)],))
                    split = paginate(packets, cuts)
                    pages = [(0xabc, k, (1 if cont else 0) | (2 if k == 0 else 0) | (4 if k == len(split) - 1 else 0), -1 if not lac else 1000 * k, lac, body) for k, (lac, body, cont) in enumerate(split)]
                    pages = [(s, k, f, g, l, b) for s, k, f, g, l, b in pages]
                    raws = [page(*x) for x in pages]
                    pages = [(s, k, f, g & (1 << 64) - 1, l, b) for s, k, f, g, l, b in pages]
                    what = "Ogg file with packets of %s, pages cut at %s" % ([len(x) for x in packets], list(cuts))
                    data = b"".join(raws)
                    p = opened(ctx, data, OggFile)
                    check_pages(ctx, what, p, pages, raws)
                    check_stream(ctx, what, p, 0, packets)
                    flags = pages[-1][2]
                    if pages[-1][4]:
                        expect(ctx, what + ": size", OggFile(StringInputStream(data + b"other data", source="file:x", tags=[])).content_size, len(data) * 8)
                    expect(ctx, what + ": type", (p.mime_type, p.description), ("audio/vorbis", "Ogg/Vorbis audio"))


def interleaved(case, ctx):
    """Two or three logical streams, all orders of their pages"""
    heads = [VORBIS, THEORA, VIDEO]
    counts = case["pages"]
    base = [k for k, n in enumerate(counts) for _ in range(n)]
    for order in sorted(set(itertools.permutations(base))):
        for style in range(3):
            streams = []
            for k, n in enumerate(counts):
                packets = [heads[k]] + [filled((300, 10, 510)[style] + 7 * k, j + k * 5) for j in range(n)]
                total = sum(len(laces(len(x))) for x in packets)
                cuts = (1,) + tuple(1 + (total - 1) * (j + 1) // n for j in range(n - 1))
                streams.append((packets, paginate(packets, cuts)))
            pages, used = [], [0] * len(counts)
            for k in list(range(len(counts))) + list(order):
                lac, body, cont = streams[k][1][used[k]]
                pages.append((100 + k, used[k], (1 if cont else 0) | (2 if used[k] == 0 else 0) | (4 if used[k] == len(streams[k][1]) - 1 else 0), used[k] * 441, lac, body))
                used[k] += 1
            raws = [page(*x) for x in pages]
            what = "Ogg file with streams of %s pages in order %s, style %s" % (counts, order, style)
            p = opened(ctx, b"".join(raws), OggFile)
            check_pages(ctx, what, p, pages, raws)
            for k in range(len(counts)):
                check_stream(ctx, what, p, k, streams[k][0])
            expect(ctx, what + ": groups", sorted(g.split("[")[0] for g in groups(metadata(p)) if g.split("[")[0] in ("audio", "video")), sorted(["audio", "video", "video"][:len(counts)]))


def ogg_headers(case, ctx):
    com = b"\x03vorbis" + comments([c[0] for c in COMMENTS[case["from"]:case["from"] + 4]], framing=b"\1")
    chosen = COMMENTS[case["from"]:case["from"] + 4]
    for ch in (1, 2, 6, 8):
        for rate in (8000, 44100, 192000):
            for bps in (32000, 128000, 500000):
                for b0, b1 in ((6, 13), (8, 11), (11, 11)):
                    for granule in (1, 44100, 10000000):
                        what = "Ogg/Vorbis file of %s channels, %s Hz, %s bit/s, blocks %s %s, %s samples, comments from %s" % (ch, rate, bps, b0, b1, granule, case["from"])
                        head = b"\x01vorbis" + struct.pack("<IBIIII", 0, ch, rate, bps * 2, bps, bps // 2) + bytes([b1 << 4 | b0, 1])
                        pages = [(5, 0, 2, 0, [30], head), (5, 1, 0, 0, laces(len(com)) + [255, 10], com + b"\5vorbis" + b"s" * 258), (5, 2, 4, granule, [100, 20], b"x" * 120)]
                        raws = [page(*x) for x in pages]
                        p = opened(ctx, b"".join(raws), OggFile)
                        check_pages(ctx, what, p, pages, raws)
                        fields(ctx, what, p["page[0]/segments/vorbis_hdr"], vorbis_version=0, audio_channels=ch, audio_sample_rate=rate, bitrate_maximum=bps * 2, bitrate_nominal=bps, bitrate_minimum=bps // 2, blocksize_0=b0, blocksize_1=b1, framing_flag=1)
                        m = metadata(p)
                        check_comments(ctx, what, p["page[1]/segments/comment"], chosen, m, True)
                        d = granule / rate
                        check_meta(ctx, what, m, duration=datetime.timedelta(seconds=d) if d >= 0.001 else None)
                        check_meta(ctx, what, m["audio[1]"], sample_rate=rate, nb_channel=ch, bit_rate=bps, compression="Vorbis", format_version="Vorbis version 0")
    theora_headers(ctx)


def theora_headers(ctx):
    for w, h in ((320, 240), (1, 1), (20000, 16)):
        for num, den in ((30, 1), (30000, 1001), (25, 2)):
            for pn, pd in ((1, 1), (4, 3), (0, 0)):
                for q in (0, 1, 31, 63):
                    for gp in (0, 6, 31):
                        for fmt, name in ((0, "4:2:0"), (2, "4:2:2"), (3, "4:4:4")):
                            what = "Theora header %sx%s, %s/%s, aspect %s/%s, quality %s, shift %s, format %s" % (w, h, num, den, pn, pd, q, gp, fmt)
                            bits = q << 10 | gp << 5 | fmt << 3
                            head = b"\x80theora" + bytes([3, 2, 1]) + struct.pack(">HH", (w + 15) // 16, (h + 15) // 16) + struct.pack(">I", w)[1:] + struct.pack(">I", h)[1:] + b"\4\6" + struct.pack(">II", num, den) + struct.pack(">I", pn)[1:] + struct.pack(">I", pd)[1:] + b"\1\0\1\2" + struct.pack(">H", bits)
                            pages = [(5, 0, 2, 0, [len(head)], head), (5, 1, 4, 7, [9], b"x" * 9)]
                            p = opened(ctx, b"".join(page(*x) for x in pages), OggFile)
                            expect(ctx, what + ": type", (p.mime_type, p.description), ("video/theora", "Ogg/Theora video"))
                            fields(ctx, what, p["page[0]/segments/theora_hdr"], version_major=3, version_minor=2, version_revision=1, width=(w + 15) // 16, height=(h + 15) // 16, frame_width=w, frame_height=h, offset_x=4, offset_y=6, fps_num=num, fps_den=den,
                                   aspect_ratio_num=pn, aspect_ratio_den=pd, color_space=1, target_bitrate=258, quality=q, gp_shift=gp, pixel_format=fmt, spare_config=0)
                            m = metadata(p)["video[1]"]
                            check_meta(ctx, what, m, width=w, height=h, frame_rate=num / den, aspect_ratio=float(pn / pd) if pd else None, pixel_format=name, comment="Quality: %s" % q, compression="Theora", format_version="Theora version 3.2 (revision 1)")


def main():
    c = lib.Check("A05", "model_checking",
                  "all sequences of MIDI events, MPEG audio headers, ID3v1 texts, tracks and genres, sequences of ID3v2 frames, charsets and paddings, sequences of FLAC blocks, Ogg packets cut in pages in all ways and streams in all "
                  "orders, written byte by byte: every field at its place, every value, the packets, the size and the metadata",
                  bounds={"MIDI": "sequences of 2 (thorough 3) of %s events" % len(EVENTS), "FLAC": "sequences of 3 (4) of %s blocks" % len(BLOCKS), "Ogg": "1 to 3 packets, 2 (3) cuts"})
    deep = not c.quick
    c.domain("MIDI events", [{"n": n, "first": e[0]} for n in range(0, 4 if deep else 3) for e in (EVENTS if n else EVENTS[:1])], midis, batch=1, cpu_limit=800)
    c.domain("MIDI times", [{"running": r} for r in (0, 1)], midi_times, batch=1, cpu_limit=800)
    c.domain("MPEG frames", [{"version": v, "layer": l} for v in (0, 2, 3) for l in (1, 2, 3)], mpeg_frames, batch=1, cpu_limit=800)
    c.domain("ID3v1", [{"n": n} for n in range(31)], id3v1, batch=1, cpu_limit=800)
    c.domain("genres", [{}], genres, batch=1)
    c.domain("FLAC frames", [{}], flac_frames, batch=1)
    c.domain("ID3v1 texts", [{}], id3v1_texts, batch=1, cpu_limit=800)
    c.domain("ID3v2 texts", [{"version": v} for v in (2, 3, 4)], id3v2_texts, batch=1, cpu_limit=800)
    c.domain("ID3v2 sequences", [{"version": v, "first": k} for v in (2, 3, 4) for k in KINDS if v > 2 or k not in ("user", "object")], id3v2_sequences, batch=1, cpu_limit=800)
    c.domain("ID3v2 sizes", [{"version": v} for v in (2, 3, 4)], id3v2_sizes, batch=1, cpu_limit=800)
    c.domain("whole MPEG files", [{"version": v, "layer": l} for v in (0, 2, 3) for l in (1, 2, 3)], whole, batch=1, cpu_limit=800)
    c.domain("FLAC blocks", [{"n": 4 if deep else 3, "first": b} for b in BLOCKS], flacs, batch=1, cpu_limit=800)
    c.domain("FLAC infos", [{}], flac_infos, batch=1, cpu_limit=800)
    c.domain("FLAC comments", [{"first": k} for k in range(len(COMMENTS))], flac_comments, batch=1, cpu_limit=800)
    c.domain("Ogg pages", [{"n": n, "first": s, "sizes": SIZES if n < 3 or deep else SIZES[1::3], "cuts": 3 if deep else 2, "empty": n < 2} for n in (1, 2, 3) for s in SIZES], oggs, batch=1, cpu_limit=800)
    c.domain("Ogg streams", [{"pages": x} for x in ([1, 1], [2, 2], [3, 2], [1, 1, 1], [2, 2, 1], [2, 2, 2])], interleaved, batch=1, cpu_limit=800)
    c.domain("Ogg headers", [{"from": k} for k in range(0, 10, 3)], ogg_headers, batch=1, cpu_limit=800)
    c.main()


if __name__ == "__main__":
    main()
