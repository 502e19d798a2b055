"""A04: RIFF files (WAV, AVI, animated cursors, CD tracks), AU and AIFF sounds are shown as they were written: chunks, headers, texts, sizes, metadata."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, expect, fields, get, groups, metadata, opened, plain
from hachoir.parser.audio import AiffFile, AuFile
from hachoir.parser.container import RiffFile

SECOND = datetime.timedelta(seconds=1)


def riff(kind, chunks):
    body = kind + b"".join(chunks)
    return b"RIFF" + struct.pack("<I", len(body)) + body


def chunk(tag, data):
    return tag + struct.pack("<I", len(data)) + data + b"\0" * (len(data) & 1)


def frames(ctx, what, p, names, chunks, start=96):
    """Names, places and sizes of the chunks"""
    got = [f.name for f in p if f.is_field_set]
    if not expect(ctx, what + ": chunks", got, names):
        return False
    pos = start
    for n, c in zip(names, chunks):
        f = p[n]
        size = struct.unpack("<I", c[4:8])[0]
        expect(ctx, "%s: frame of %s" % (what, n), (f.address, f.size, f["tag"].value, f["size"].value), (pos, len(c) * 8, c[:4].decode(), size))
        pos += f.size
    return True


INFO = {"INAM": ("title", "title", "The title"), "IART": ("artist", "artist", "caf\xe9"), "ICMT": ("comment", "comment", "x"), "ICOP": ("copyright", "copyright", "2001 someone"), "IENG": ("author", "author", "who"),
        "ISFT": ("producer", "producer", "program 1.0"), "ICRD": ("creation_date", "creation_date", "2006-12-31"), "IGNR": ("field[]", None, "Genre"), "ICMS": ("field[]", None, "")}


def info_list(tags, style):
    parts, names, want = [], [], {}
    n = 0
    for t in tags:
        name, key, text = INFO[t]
        data = text.encode("latin-1") + {"plain": b"", "ended": b"\0", "padded": b"\0\0\0"}[style] if text else b""
        parts.append(chunk(t.encode(), data))
        if name == "field[]":
            name = "field[%s]" % n
            n += 1
        names.append(name)
        if key:
            want[key] = datetime.date(2006, 12, 31) if key == "creation_date" else text
    return chunk(b"LIST", b"INFO" + b"".join(parts)), names, parts, want


def check_info(ctx, what, f, tags, names, parts):
    if not frames(ctx, what, f, names, parts, 96):
        return
    for t, n in zip(tags, names):
        if INFO[t][1]:
            expect(ctx, "%s: text of %s" % (what, n), f[n]["text"].value, INFO[t][2])


# ---- WAV --------------------------------------------------------------------------------------

FORMATS = [(1, 16), (1, 18), (1, 40), (3, 18), (2, 18), (0x55, 30), (6, 18)]
CODECS = {1: "Microsoft Pulse Code Modulation (PCM)", 2: "Microsoft ADPCM", 3: "IEEE Float", 0x55: "MPEG Layer 3", 6: "Microsoft A-Law"}
EXTRA = ["fact", "INFO", "INFO ended", "INFO many", "INFO empty", "JUNK", "JUNK odd", "other", "other odd", "other empty"]


def wavs(case, ctx):
    codec, fsize = FORMATS[case["format"]]
    for ch, bits, rate in case["sounds"]:
        for seq in itertools.permutations(EXTRA, case["n"]):
            if sum(e.startswith("INFO") for e in seq) > 1:
                continue
            for at in range(len(seq) + 1):
                for n in case["sizes"]:
                    for junk in (b"", b"JUNKdata!"):
                        wav_one(ctx, codec, fsize, ch, bits, rate, seq, at, n, junk)


def wav_one(ctx, codec, fsize, ch, bits, rate, seq, at, n, junk):
    what = "WAV of codec %s, header of %s, %s channels, %s bits, %s Hz, %s before the data of %s and %s behind%s" % (codec, fsize, ch, bits, rate, list(seq[:at]), n, list(seq[at:]), ", more data" if junk else "")
    fmt = struct.pack("<HHIIHH", codec, ch, rate, rate * ch * bits // 8, ch * bits // 8, bits)
    fmt += (struct.pack("<H", fsize - 18) if fsize > 16 else b"") + bytes(range(max(fsize - 18, 0)))
    sound = bytes((k * 7) & 255 for k in range(n))
    parts, names, infos, want, count = [], [], None, {}, {}
    samples = None

    def number(name):
        count[name] = count.get(name, -1) + 1
        return "%s[%s]" % (name, count[name])
    for k, e in enumerate(("fmt",) + tuple(seq[:at]) + ("data",) + tuple(seq[at:])):
        if e == "fmt":
            parts.append(chunk(b"fmt ", fmt))
            names.append("format")
        elif e == "data":
            parts.append(chunk(b"data", sound))
            names.append("audio_data")
        elif e == "fact":
            samples = 100000
            parts.append(chunk(b"fact", struct.pack("<I", samples)))
            names.append("nb_sample")
        elif e.startswith("INFO"):
            tags = {"INFO": ["INAM", "ICRD"], "INFO ended": ["ICMT", "ISFT", "IART"], "INFO many": sorted(INFO), "INFO empty": ["INAM", "ICMS"]}[e]
            c, sub, subparts, want = info_list(tags, "ended" if "ended" in e else "plain")
            infos = (tags, sub, subparts)
            parts.append(c)
            names.append("info")
        elif e.startswith("JUNK"):
            parts.append(chunk(b"JUNK", b"\0" * (5 if "odd" in e else 4)))
            names.append(number("junk"))
        else:
            parts.append(chunk(b"cue ", b"" if "empty" in e else b"abc" if "odd" in e else b"abcd"))
            names.append(number("chunk"))
    data = riff(b"WAVE", parts)
    size = len(data)
    data += junk
    p = opened(ctx, data, RiffFile)
    expect(ctx, what + ": size", (p["filesize"].value, p.content_size), (size - 8, size * 8))
    expect(ctx, what + ": type", (p["type"].value, p.mime_type, p.filename_suffix), ("WAVE", "audio/x-wav", ".wav"))
    frames(ctx, what, p, names, parts)
    contiguous(ctx, what, p, len(data) * 8, 2)
    fields(ctx, what, p["format"], codec=codec, nb_channel=ch, sample_per_sec=rate, byte_per_sec=rate * ch * bits // 8, block_align=ch * bits // 8, bit_per_sample=bits)
    if n:
        f = p["audio_data/raw_content"]
        expect(ctx, what + ": data", (f.absolute_address, p.stream.readBytes(f.absolute_address, f.size // 8)), (data.index(b"data" + struct.pack("<I", n)) * 8 + 64, sound))
    if infos:
        check_info(ctx, what, p["info"], *infos)
    if samples:
        expect(ctx, what + ": samples", p["nb_sample/nb_sample"].value, samples)
    m = metadata(p)
    check_meta(ctx, what, m, nb_channel=ch, bits_per_sample=bits, sample_rate=rate, compression=CODECS[codec])
    plain_data = codec in (1, 3, 6)
    seconds = samples / rate if samples else n / (rate * ch * bits / 8) if plain_data else None
    duration = seconds and seconds >= 0.001 and datetime.timedelta(seconds=seconds) or None
    check_meta(ctx, what, m, bit_rate=rate * ch * bits if plain_data else None, duration=duration)
    for key in ("title", "artist", "comment", "copyright", "author", "producer", "creation_date"):
        check_meta(ctx, what, m, **{key: want.get(key)})


def infos(case, ctx):
    """All ordered selections of texts"""
    for tags in itertools.permutations(sorted(INFO), case["n"]):
        for style in ("plain", "ended", "padded"):
            c, names, parts, want = info_list(tags, style)
            data = riff(b"WAVE", [chunk(b"fmt ", struct.pack("<HHIIHH", 1, 2, 44100, 176400, 4, 16)), c, chunk(b"data", b"abcd" * 50)])
            what = "WAV with texts %s, %s" % (list(tags), style)
            p = opened(ctx, data, RiffFile)
            check_info(ctx, what, p["info"], tags, names, parts)
            contiguous(ctx, what, p, len(data) * 8, 3)
            m = metadata(p)
            for key in ("title", "artist", "comment", "copyright", "author", "producer", "creation_date"):
                check_meta(ctx, what, m, **{key: want.get(key)})


# ---- AVI --------------------------------------------------------------------------------------

STREAMS = ["video", "video raw", "audio pcm", "audio mp3", "audio wide", "text"]
MORE = ["odml", "JUNK", "INFO", "strn"]


def avis(case, ctx):
    for seq in itertools.product(STREAMS, repeat=case["n"]):
        if seq and seq[0] != case["first"]:
            continue
        for more in itertools.chain.from_iterable(itertools.combinations(MORE, k) for k in range(case["more"] + 1)):
            for index in (False, True):
                for flags in case["flags"]:
                    for junk in (b"", b"RIFFdata"):
                        avi_one(ctx, seq, more, index, flags, junk)


def avi_one(ctx, seq, more, index, flags, junk):
    what = "AVI with %s, %s, flags %s%s%s" % (list(seq), list(more), hex(flags), ", index" if index else "", ", more data" if junk else "")
    total, usec = 250, 40000
    names, parts, checks = ["avi_hdr"], [chunk(b"avih", struct.pack("<14I", usec, 1000, 0, flags, total, 1, len(seq), 4096, 320, 240, 2, 3, 4, 5))], []
    for k, kind in enumerate(seq):
        if kind.startswith("video"):
            raw = "raw" in kind
            strh = b"vids" + (b"DIB " if raw else b"XVID") + struct.pack("<IHHIIIIIIII4H", 1, 2, 0, 3, 1, 25, 0, total, 9, 10, 0, 0, 0, 320, 240)
            strf = struct.pack("<IIIHHIIIIII", 40, 320, 240, 1, 24, 0x44495658, 7, 8, 9, 10, 11)
        elif kind.startswith("audio"):
            strh = b"auds" + (b"\0\0\0\0" if "pcm" in kind else b"\x55\0\0\0" if "wide" in kind else b"mp3 ") + struct.pack("<IHH2I6I4H", 0, 0, 0x6e65, 0, 1, 44100, 0, 441000, 1, 2, 4, 0, 0, 0, 0)
            strf = struct.pack("<HHIIHH", 1 if "pcm" in kind else 0x55, 2, 44100, 176400 if "pcm" in kind else 16000, 4, 16 if "pcm" in kind else 0)
            if "mp3" in kind:
                strf += struct.pack("<H", 0)
            if "wide" in kind:
                strf += struct.pack("<HHIIxx", 10, 3, 4, 5)
        else:
            strh = b"txts" + b"\0\0\0\0" + struct.pack("<IHHIIIIIIII4H", 0, 0, 0, 0, 1, 1, 0, 10, 0, 0, 0, 0, 0, 0, 0)
            strf = b"text"
        sub = [chunk(b"strh", strh), chunk(b"strf", strf)]
        subnames = ["stream_hdr", "stream_fmt"]
        if "strn" in more:
            sub.append(chunk(b"strn", b"name\0"))
            subnames.append("field[0]")
        parts.append(chunk(b"LIST", b"strl" + b"".join(sub)))
        names.append("stream[%s]" % k)
        checks.append((kind, sub, subnames))
    if "odml" in more:
        parts.append(chunk(b"LIST", b"odml" + chunk(b"dmlh", struct.pack("<I", 1234) + b"\0" * 8)))
        names.append("odml")
    if "JUNK" in more:
        parts.append(chunk(b"JUNK", b"\0" * 7))
        names.append("junk[0]")
    top, topnames = [chunk(b"LIST", b"hdrl" + b"".join(parts))], ["headers"]
    want = {}
    if "INFO" in more:
        c, sub, subparts, want = info_list(["ISFT", "INAM"], "ended")
        top.append(c)
        topnames.append("info")
    movie = [chunk(b"00dc", b"frame"), chunk(b"01wb", b"soun"), chunk(b"00dc", b""), chunk(b"00db", bytes(300)), chunk(b"00dc", b"")]
    top.append(chunk(b"LIST", b"movi" + b"".join(movie)))
    topnames.append("movie")
    if index:
        entries = [(b"00dc", 0x10, 4, 5), (b"01wb", 0, 18, 4), (b"00dc", 0, 30, 0)]
        top.append(chunk(b"idx1", b"".join(t + struct.pack("<III", *v) for t, *v in entries)))
        topnames.append("index")
    data = riff(b"AVI ", top)
    size = len(data)
    data += junk
    p = opened(ctx, data, RiffFile)
    expect(ctx, what + ": type", (p["type"].value, p.mime_type, p.filename_suffix, p.content_size), ("AVI ", "video/x-msvideo", ".avi", size * 8))
    contiguous(ctx, what, p, len(data) * 8, 3)
    if not frames(ctx, what, p, topnames, top) or not frames(ctx, what, p["headers"], names, parts) or not frames(ctx, what + ": movie", p["movie"], ["field[%s]" % k for k in range(len(movie))], movie):
        return
    h = p["headers/avi_hdr"]
    fields(ctx, what + ": header", h, microsec_per_frame=usec, max_byte_per_sec=1000, total_frame=total, init_frame=1, nb_stream=len(seq), sug_buf_size=4096, width=320, height=240, scale=2, rate=3, start=4, length=5)
    fields(ctx, what + ": flags", h, has_index=bool(flags & 0x10), must_use_index=bool(flags & 0x20), is_interleaved=bool(flags & 0x100), trust_cktype=bool(flags & 0x800), was_capture_file=bool(flags & 0x10000),
           is_copyrighted=bool(flags & 0x20000))
    expect(ctx, what + ": description", p.description, "Microsoft AVI video: 320x240 pixels, 25.0 fps, 10 sec")
    if "odml" in more:
        expect(ctx, what + ": frames", p["headers/odml/odml_hdr/total_frame"].value, 1234)
    if index:
        expect(ctx, what + ": index", [(e["tag"].value.encode(), e["flags"].value, e["start"].value, e["length"].value) for e in p["index"].array("index")], entries)
    m = metadata(p)
    audios = videos = 0
    wanted = []
    for k, (kind, sub, subnames) in enumerate(checks):
        s = p["headers/stream[%s]" % k]
        w2 = "%s: stream %s" % (what, k)
        if not frames(ctx, w2, s, subnames, sub):
            continue
        sh, sf = s["stream_hdr"], s["stream_fmt"]
        if kind.startswith("video"):
            fourcc = "DIB" if "raw" in kind else "XVID"
            fields(ctx, w2, sh, stream_type="vids", fourcc=fourcc, flags=1, priority=2, init_frames=3, scale=1, rate=25, start=0, length=total, buf_size=9, quality=10, sample_size=0, left=0, right=320, bottom=240)
            fields(ctx, w2, sf, video_size=40, width=320, height=240, panes=1, depth=24, img_size=7, clr_important=11)
            name = "video" if not videos else "video[%s]" % (videos + 1)
            wanted.append(("video", videos, dict(width=320, height=240, bits_per_pixel=24, frame_rate=25.0, duration=10 * SECOND), fourcc))
            videos += 1
        elif kind.startswith("audio"):
            pcm = "pcm" in kind
            fields(ctx, w2, sh, stream_type="auds", language="en", scale=1, rate=44100, length=441000, sample_size=4)
            fields(ctx, w2, sf, codec=1 if pcm else 0x55, channel=2, sample_rate=44100, bit_rate=176400 if pcm else 16000, block_align=4, bits_per_sample=16 if pcm else 0)
            audios += 1
            wanted.append(("audio", audios, dict(nb_channel=2, sample_rate=44100, bit_rate=(176400 if pcm else 16000) * 8, bits_per_sample=16 if pcm else None, duration=10 * SECOND),
                           CODECS[1] if pcm else CODECS[0x55]))
    keys = groups(m)
    expect(ctx, what + ": groups", len(keys), len(wanted))
    for key, (kind, k, values, text) in zip(keys, wanted):
        if not key.startswith(kind):
            ctx.report("%s: group %s instead of %s" % (what, key, kind))
            continue
        check_meta(ctx, "%s: %s" % (what, key), m[key], **values)
        if text not in str(plain(m[key], "compression")):
            ctx.report("%s: compression of %s is %r, without %r" % (what, key, plain(m[key], "compression"), text))
    movie_size = len(b"movi" + b"".join(movie))
    check_meta(ctx, what, m, width=320, height=240, frame_rate=25.0, duration=10 * SECOND, title=want.get("title"), producer=want.get("producer"))
    if videos:
        check_meta(ctx, what, m, bit_rate=movie_size * 8 / 10.0)


# ---- animated cursors, CD tracks ----------------------------------------------------------------

def icon(k):
    pix = bytes((j + k) & 255 for j in range(32 + k))
    d = struct.pack("<IIIHHIIIIII", 40, 16, 32, 1, 4, 0, len(pix), 0, 0, 0, 0) + bytes(64) + pix
    return struct.pack("<HHH", 0, 2, 1) + struct.pack("<BBBBHHII", 16, 16, 16, 0, 1, 4, len(d), 22) + d


def anis(case, ctx):
    for steps in itertools.product((6, 30), repeat=case["n"]):
        for seq in (False, True):
            for info in (False, True):
                what = "animated cursor with rates %s%s%s" % (list(steps), ", order" if seq else "", ", texts" if info else "")
                icons = [icon(k) for k in range(case["icons"])]
                parts = [chunk(b"anih", struct.pack("<9I", 36, len(icons), len(steps), 16, 17, 4, 1, 10, 1))]
                names = ["anim_hdr"]
                if info:
                    c, sub, subparts, want = info_list(["INAM", "IART"], "plain")
                    parts.append(c)
                    names.append("info")
                if steps:
                    parts.append(chunk(b"rate", struct.pack("<%sI" % len(steps), *steps)))
                    names.append("anim_rate")
                if seq:
                    parts.append(chunk(b"seq ", struct.pack("<%sI" % len(icons), *range(len(icons)))))
                    names.append("anim_seq")
                frame = [chunk(b"icon", i) for i in icons]
                parts.append(chunk(b"LIST", b"fram" + b"".join(frame)))
                names.append("list[0]")
                data = riff(b"ACON", parts)
                p = opened(ctx, data, RiffFile)
                contiguous(ctx, what, p, len(data) * 8, 3)
                if not frames(ctx, what, p, names, parts) or not frames(ctx, what, p["list[0]"], ["icon[%s]" % k for k in range(len(icons))], frame):
                    continue
                fields(ctx, what, p["anim_hdr"], hdr_size=36, nb_frame=len(icons), nb_step=len(steps), cx=16, cy=17, bit_count=4, planes=1, jiffie_rate=10, is_icon=True)
                if steps:
                    expect(ctx, what + ": rates", [f.value for f in p["anim_rate"].array("rate")], list(steps))
                if seq:
                    expect(ctx, what + ": order", [f.value for f in p["anim_seq"].array("icon")], list(range(len(icons))))
                for k, i in enumerate(icons):
                    f = p["list[0]/icon[%s]/icon_file" % k]
                    s = f.getSubIStream()
                    expect(ctx, "%s: icon %s" % (what, k), s.readBytes(0, len(i)), i)
                m = metadata(p)
                check_meta(ctx, what, m, frame_rate=len(steps) * 60.0 / sum(steps) if steps else 6.0, title="The title" if info else None)


def cdas(case, ctx):
    for track in (1, 99):
        for start, length in ((150, 0), (0x12345, 0x6789), (400000, 1)):
            serial = 0x00085C48
            body = struct.pack("<HHIIIBBBBBBBB", 1, track, serial, start, length, start % 75, start // 75 % 60, start // 4500, 0, length % 75, length // 75 % 60, length // 4500, 0)
            data = riff(b"CDDA", [chunk(b"fmt ", body)])
            what = "track %s at %s" % (track, start)
            p = opened(ctx, data, RiffFile)
            expect(ctx, what + ": type", (p["type"].value, p.mime_type, p.filename_suffix, p.content_size), ("CDDA", "audio/x-cda", ".cda", len(data) * 8))
            f = p["cdda"]
            fields(ctx, what, f, cda_version=1, track_no=track, disc_serial=serial, hsg_offset=start, hsg_length=length, rb_offset__frame=start % 75, rb_offset__second=start // 75 % 60, rb_offset__minute=start // 4500,
                   rb_length__frame=length % 75, rb_length__second=length // 75 % 60, rb_length__minute=length // 4500)
            expect(ctx, what + ": serial number", f["disc_serial"].display, "0008-5C48")
            contiguous(ctx, what, p, len(data) * 8, 2)


# ---- AU ---------------------------------------------------------------------------------------

AU_CODECS = {1: (8, "8-bit ISDN u-law"), 2: (8, "8-bit linear PCM"), 3: (16, "16-bit linear PCM"), 4: (24, "24-bit linear PCM"), 5: (32, "32-bit linear PCM"), 6: (32, "32-bit IEEE floating point"),
             7: (64, "64-bit IEEE floating point"), 8: (None, "Fragmented sample data"), 9: (None, "DSP program"), 10: (8, "8-bit fixed point"), 11: (16, "16-bit fixed point"), 12: (24, "24-bit fixed point"),
             13: (32, "32-bit fixed point"), 18: (16, "16-bit linear with emphasis"), 19: (16, "16-bit linear compressed"), 20: (16, "16-bit linear with emphasis and compression"), 21: (None, "Music kit DSP commands"),
             23: (None, "4-bit ISDN u-law compressed (CCITT G.721 ADPCM)"), 24: (None, "ITU-T G.722 ADPCM"), 25: (None, "ITU-T G.723 3-bit ADPCM"), 26: (None, "ITU-T G.723 5-bit ADPCM"), 27: (8, "8-bit ISDN A-law")}


def aus(case, ctx):
    for rate in (8000, 44100):
        for ch in (1, 2):
            for text in (b"", b"info text\0\0\0", b"caf\xe9" + b"\0" * 8, b"\0" * 4):
                for n in (0, 1, 4000, 100000):
                    for unknown in (False, True):
                        for junk in (b"", b".snd more"):
                            if not (unknown and junk) and (n or not unknown):
                                au_one(ctx, case["codec"], rate, ch, text, n, unknown, junk)


def au_one(ctx, codec, rate, ch, text, n, unknown, junk):
    what = "AU of codec %s, %s Hz, %s channels, text %r, %s bytes%s%s" % (codec, rate, ch, text, n, " of unknown size" if unknown else "", ", more data" if junk else "")
    sound = bytes((k * 11) & 255 for k in range(n))
    data = b".snd" + struct.pack(">IIIII", 24 + len(text), 0xFFFFFFFF if unknown else n, codec, rate, ch) + text + sound + junk
    p = opened(ctx, data, AuFile, strict=not junk)
    bits, name = AU_CODECS[codec]
    fields(ctx, what, p, data_ofs=24 + len(text), data_size=0xFFFFFFFF if unknown else n, codec=codec, sample_rate=rate, channels=ch)
    expect(ctx, what + ": size", p.content_size, None if unknown else (24 + len(text) + n) * 8)
    contiguous(ctx, what, p, len(data) * 8)
    info = text.decode("latin-1").strip("\0 ")
    if text:
        expect(ctx, what + ": text", p["info"].value, info)
    if n:
        f = p["audio_data"]
        expect(ctx, what + ": data", (f.address, p.stream.readBytes(f.address, f.size // 8)), ((24 + len(text)) * 8, sound))
    m = metadata(p)
    check_meta(ctx, what, m, sample_rate=rate, nb_channel=ch, compression=name, bits_per_sample=bits, bit_rate=bits and bits * rate * ch, comment=info or None)
    seconds = n * 8 / (bits * rate * ch) if bits else 0
    check_meta(ctx, what, m, duration=datetime.timedelta(seconds=seconds) if seconds >= 0.001 else None)


# ---- AIFF -------------------------------------------------------------------------------------

def big(tag, data):
    return tag + struct.pack(">I", len(data)) + data + b"\0" * (len(data) & 1)


def float80(v):
    if not v:
        return bytes(10)
    e = v.bit_length() - 1
    return struct.pack(">HQ", 16383 + e, v << 63 - e)


AIFF = ["NAME", "NAME odd", "AUTH", "COMT", "COMT marked", "ANNO", "ANNO empty", "FVER"]


def aiffs(case, ctx):
    for rate in (8000, 44100, 96000):
        for ch, bits in ((1, 8), (2, 16), (2, 24)):
            for seq in itertools.permutations(AIFF, case["n"]):
                for at in range(len(seq) + 1):
                    for n in (0, 1, 2, 3, 88200):
                        for junk in (b"", b"FORM more"):
                            if case["n"] > 1 and (rate != 44100 or n == 88200):
                                continue
                            aiff_one(ctx, case["codec"], rate, ch, bits, seq, at, n, junk)


TEXTS = (b"not compressed", None, b"", b"odd")


def aiff_one(ctx, codec, rate, ch, bits, seq, at, n, junk):
    what = "AIFF%s of %s Hz, %s channels, %s bits, %s samples, %s before the sound and %s behind%s" % (" " + codec if codec else "", rate, ch, bits, n, list(seq[:at]), list(seq[at:]), ", more data" if junk else "")
    sound = bytes((k * 13) & 255 for k in range(n * ch * bits // 8 if n < 1000 else 999))
    comm = struct.pack(">HIH", ch, n, bits) + float80(rate)
    if codec:
        text = TEXTS[n % 5 % 4]
        comm += codec.encode() + (bytes([len(text)]) + text + b"\0" * (1 - len(text) & 1) if text is not None else b"")
    names, parts, later, numbers = [], [], [], 0
    for e in ("COMM",) + tuple(seq[:at]) + ("SSND",) + tuple(seq[at:]):
        tag = e.split()[0].encode()
        if e == "COMM":
            body, name = comm, "common"
        elif e == "SSND":
            body, name = struct.pack(">II", 0, 0) + sound, "sound"
        elif tag in (b"NAME", b"AUTH"):
            body, name = (b"a name" if "odd" not in e else b"odd name!"), "name" if tag == b"NAME" else "author"
            later.append((name, body))
        elif tag == b"COMT":
            mark = 7 if "marked" in e else 0
            body, name = struct.pack(">H", 2) + b"".join(struct.pack(">IHH", 3229200000 + k, mark, len(t)) + t + b"\0" * (len(t) & 1) for k, t in enumerate((b"first", b"second"))), "comment"
            later.append((name, mark))
        elif tag == b"FVER":
            body, name = struct.pack(">I", 0xA2805140), "version"
        else:
            body, name = b"" if "empty" in e else b"annotation", "chunk[%s]" % numbers
            numbers += 1
        if name in names:
            return
        parts.append(big(tag, body))
        names.append(name)
    body = (b"AIFC" if codec else b"AIFF") + b"".join(parts)
    data = b"FORM" + struct.pack(">I", len(body)) + body
    size = len(data)
    data += junk
    p = opened(ctx, data, AiffFile, strict=not junk)
    expect(ctx, what + ": size", (p["filesize"].value, p.content_size), (size - 8, size * 8))
    got = [f.name for f in p if f.is_field_set][:len(names)]
    if not expect(ctx, what + ": chunks", got, names):
        return
    pos = 96
    for name, c in zip(names, parts):
        f = p[name]
        expect(ctx, "%s: frame of %s" % (what, name), (f.address, f.size, f["type"].value, f["size"].value), (pos, len(c) * 8, c[:4].decode(), struct.unpack(">I", c[4:8])[0]))
        pos += len(c) * 8
        contiguous(ctx, what, f, len(c) * 8, 2)
    contiguous(ctx, what, p, len(data) * 8, 0)
    fields(ctx, what, p["common"], nb_channel=ch, nb_sample=n, sample_size=bits, sample_rate=float(rate))
    if codec:
        expect(ctx, what + ": text of the codec", get(p, "common/codec_name"), "no field" if text is None else text.decode())
        pad = text is not None and 1 - len(text) & 1
        expect(ctx, what + ": fields of the common chunk", [f.name for f in p["common"]][6:], ["codec"] + ["codec_name"] * (text is not None) + ["codec_padding"] * pad)
        if pad:
            fields(ctx, what, p["common"], codec_padding=b"\0")
    expect(ctx, what + ": codec", p["common/codec"].value if "codec" in p["common"] else None, codec or None)
    f = p["sound"]
    fields(ctx, what, f, offset=0, block_size=0)
    if sound:
        expect(ctx, what + ": sound", p.stream.readBytes(f["data"].absolute_address, len(sound)), sound)
    for name, v in later:
        if name != "comment":
            expect(ctx, "%s: %s" % (what, name), p[name]["text"].value, v.decode())
        else:
            comments = p["comment"].array("comment")
            expect(ctx, what + ": comments", [(c["timestamp"].value, c["text"].value) for c in comments], [(datetime.datetime(1904, 1, 1) + datetime.timedelta(seconds=3229200000 + k), t) for k, t in enumerate(("first", "second"))])
    m = metadata(p)
    check_meta(ctx, what, m, nb_channel=ch, bits_per_sample=bits, sample_rate=float(rate), bit_rate=rate * ch * bits, duration=datetime.timedelta(seconds=n / rate) if n / rate >= 0.001 else None,
               compression={"": None, "NONE": "None", "sowt": "Little-endian, no compression", "MAC3": "MAC 3-to-1"}[codec])


def main():
    c = lib.Check("A04", "model_checking",
                  "all combinations of formats, chunks in all orders around the data, texts, streams, flags, sizes and data behind, written byte by byte: every chunk at its place, every value, the raw data, the size "
                  "and the metadata",
                  bounds={"WAV": "ordered subsets of 2 (thorough 3) of %s chunks around the data" % len(EXTRA), "AVI": "sequences of 2 (3) of %s kinds of streams" % len(STREAMS), "AIFF": "ordered subsets of 2 (3) of %s chunks" % len(AIFF)})
    q = c.quick
    sounds = [(1, 8, 8000), (2, 16, 44100), (6, 24, 96000)]
    for n in range(0, 3 if q else 4):
        c.domain("WAV %s" % n, [{"format": k, "n": n, "sounds": sounds if n < 2 else sounds[1:2], "sizes": [0, 1, 1000, 17641] if n < 2 else [101]} for k in range(len(FORMATS))], wavs, batch=1, cpu_limit=800)
    c.domain("texts", [{"n": n} for n in range(0, 4 if q else 5)], infos, batch=1, cpu_limit=800)
    c.domain("AVI", [{"n": n, "first": f, "more": 4 if n < 2 else 1, "flags": [0, 0x10, 0x20, 0x100, 0x800, 0x10000, 0x20000, 0x30930] if n < 1 else [0x910]} for n in range(0, 3 if q else 4) for f in (STREAMS if n else [""])],
             avis, batch=1, cpu_limit=800)
    c.domain("animated cursors", [{"n": n, "icons": k} for n in range(0, 4) for k in range(1, 4)], anis, batch=1)
    c.domain("CD tracks", [{}], cdas)
    c.domain("AU", [{"codec": k} for k in sorted(AU_CODECS)], aus, batch=1)
    for n in range(0, 3 if q else 4):
        c.domain("AIFF %s" % n, [{"codec": k, "n": n} for k in ("", "NONE", "sowt", "MAC3")], aiffs, batch=1, cpu_limit=800)
    c.main()


if __name__ == "__main__":
    main()
