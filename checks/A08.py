"""A08: QuickTime and MP4, Matroska and Flash movies are shown as they were written: boxes, headers, tables, elements, blocks, tags, metadata."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct, expect, fields, get, groups, metadata, opened, plain
from hachoir.parser.container import MkvFile, MP4File
from hachoir.parser.video import FlvFile

SECOND = datetime.timedelta(seconds=1)
T1904, T2001 = datetime.datetime(1904, 1, 1), datetime.datetime(2001, 1, 1)


# --- MP4 ---

def box(tag, body, form="32"):
    tag = tag.encode("latin-1")
    if form == "64":
        return struct.pack(">I4sQ", 1, tag, len(body) + 16) + body
    if form == "end":
        return struct.pack(">I4s", 0, tag) + body
    return struct.pack(">I4s", len(body) + 8, tag) + body


BOXES = {"moov": "movie", "trak": "track", "edts": "edts", "mdia": "media", "minf": "minf", "dinf": "dinf", "stbl": "stbl", "moof": "moof", "traf": "traf", "mfra": "mfra", "udta": "udta", "tref": "tref",
         "\xa9nam": "name", "\xa9ART": "artist", "covr": "cover"}


def tree_data(t, last=True):
    """(tag, form, children or bytes) as bytes"""
    tag, form, body = t
    if isinstance(body, tuple):
        body = b"".join(tree_data(x) for x in body)
    return box(tag, body, form)


def tree_check(ctx, what, atom, t, pos):
    tag, form, body = t
    data = tree_data(t)
    head = 16 if form == "64" else 8
    ok = expect(ctx, "%s: frame of %s" % (what, atom.path), (atom.absolute_address, atom.size, atom["tag"].value, atom["size"].value, get(atom, "size64")),
                (pos * 8, len(data) * 8, tag, {"32": len(data), "64": 1, "end": 0}[form], len(data) if form == "64" else "no field"))
    if not ok:
        return
    if isinstance(body, bytes):
        if body:
            expect(ctx, "%s: data of %s" % (what, atom.path), (atom["data"].absolute_address, atom["data"].size, atom.stream.readBytes(atom["data"].absolute_address, len(body))), ((pos + head) * 8, len(body) * 8, body))
        elif len(atom) != (3 if form == "64" else 2):
            ctx.report("%s: fields of %s" % (what, atom.path))
        return
    if not body:
        return
    f = atom[BOXES[tag]]
    atoms = f.array("atom")
    pos += head
    if expect(ctx, "%s: boxes in %s" % (what, f.path), (len(atoms), len(f)), (len(body), len(body))):
        for a, x in zip(atoms, body):
            tree_check(ctx, what, a, x, pos)
            pos += len(tree_data(x))


def box_trees(case, ctx):
    """Boxes in boxes; sizes on 32 bits, on 64 bits, up to the end"""
    leaves = [("free", "32", b""), ("skip", "64", b"\1\2\3"), ("mdat", "32", b"data"), ("abcd", "64", b""), ("uuix", "32", b"\xff" * 9)]
    inner = list(leaves) + [("trak", "32", ()), ("udta", "64", (leaves[2],)), ("trak", "32", (leaves[1], leaves[2])), ("mdia", "32", (("minf", "64", (("stbl", "32", (leaves[0],)),)),)), ("\xa9nam", "32", (("data", "32", b"\0\0\0\1\0\0\0\0name"),))]
    n = 0
    for brand in (None, b"isom"):
        for form in ("32", "64"):
            for k in range(case["n"] + 1):
                for seq in itertools.product(inner, repeat=k):
                    n += 1
                    if n % case["of"] != case["i"]:
                        continue
                    for tail in ((), (("mdat", "end", b"the rest"),), (("free", "32", b""),)):
                        if k == case["n"] and tail and n % 7:
                            continue
                        tops = ((("ftyp", "32", b"isom\0\0\2\0iso2mp41"),) if brand else (("free", "32", b"12345678"),)) + (("moov", form, seq),) + tail
                        data = b"".join(map(tree_data, tops))
                        what = "boxes %s" % lib.short(tops[1:], 160)
                        p = direct(ctx, data, MP4File)
                        pos = 0
                        if not expect(ctx, what + ": boxes", [f.name for f in p], ["atom[%s]" % j for j in range(len(tops))]):
                            continue
                        for j, t in enumerate(tops):
                            if t[0] != "ftyp":
                                tree_check(ctx, what, p[j], t, pos)
                            else:
                                f = p[j]["file_type"]
                                expect(ctx, what + ": type", (f["brand"].value, f["version"].value, [x.value for x in f.array("compat_brand")]), ("isom", 512, ["iso2", "mp41"]))
                            pos += len(tree_data(t))
                        contiguous(ctx, what, p, len(data) * 8, 0)
                        expect(ctx, what + ": type", p.mime_type, "video/mp4" if brand else "video/quicktime")
                        # the last box of the last box may also end with it
    ctx.seen("states", "boxes %s" % n)


def fixed(v, n):
    return int(round(v * (1 << n))) & ((1 << 32) - 1)


MATRICES = {"plain": (1, 0, 0, 0, 1, 0, 0, 0, 1), "quarter turn": (0, 1, 0, -1, 0, 0, 1080, 0, 1), "half turn": (-1, 0, 0, 0, -1, 0, 1920.5, 1080.25, 1), "scaled": (0.5, -0.25, 0, 2, 3.75, 0, -10, -0.5, 1)}
NAMES = ("geom_a", "geom_b", "geom_u", "geom_c", "geom_d", "geom_v", "geom_x", "geom_y", "geom_w")


def matrix(m):
    return struct.pack(">9I", *[fixed(v, 30 if k % 3 == 2 else 16) for k, v in enumerate(m)])


def dates(version, a, b, *rest):
    """Dates, numbers and a duration as version 0 or 1"""
    out = struct.pack(">QQ" if version else ">II", a, b)
    for v in rest[:-1]:
        out += struct.pack(">I", v)
    return out + struct.pack(">Q" if version else ">I", rest[-1])


def mvhd(version, made, changed, scale, duration, rate, volume, m, track):
    return bytes([version]) + b"\0\0\0" + dates(version, made, changed, scale, duration) + struct.pack(">IH10x", fixed(rate, 16), int(volume * 256)) + matrix(m) + struct.pack(">6I", 1, 2, 3, 4, 5, 6) + struct.pack(">I", track)


def tkhd(version, flags, made, changed, number, duration, layer, group, volume, m, w, h):
    return bytes([version, 0, 0, flags]) + dates(version, made, changed, number, 0, duration) + b"\0" * 8 + struct.pack(">hhHH", layer, group, int(volume * 256), 0) + matrix(m) + struct.pack(">II", fixed(w, 16), fixed(h, 16))


def mdhd(version, made, changed, scale, duration, lang, quality):
    return bytes([version]) + b"\0\0\0" + dates(version, made, changed, scale, duration) + struct.pack(">Hh", lang, quality)


def language(text):
    return sum((ord(ch) - 0x60) << 10 - 5 * k for k, ch in enumerate(text))


STAMPS = [(0, 0), (3137000000, 3137000001), (2082844800, 2 ** 31), (2 ** 32 - 1, 3000000000)]
LATE = datetime.datetime(2030, 1, 1)


def movie_headers(case, ctx):
    version = case["version"]
    for (made, changed), scale, duration, rate, volume, (mname, m) in itertools.product(STAMPS, (1, 600, 90000), (0, 1, 600, 123457, 2 ** 31 + 5), (1, 0.5, 2, -1), (0, 1, 0.5), sorted(MATRICES.items())):
        for shape in ("video", "two videos", "sound", "none"):
            if shape != "video" and (mname != "plain" or rate != 1):
                continue
            head = mvhd(version, made, changed, scale, duration, rate, volume, m, 7)
            sizes = {"video": [(640, 480)], "two videos": [(640, 480), (320.5, 240)], "sound": [(0, 0)], "none": []}[shape]
            tracks = [tkhd(version, 15 >> k, made, changed, k + 1, duration, -k, k, volume, m, w, h) for k, (w, h) in enumerate(sizes)]
            medias = [mdhd(version, made, changed, scale + k, duration, case["lang"], -5) for k in range(len(tracks))]
            body = box("mvhd", head) + b"".join(box("trak", box("tkhd", t) + box("mdia", box("mdhd", d))) for t, d in zip(tracks, medias))
            data = box("moov", body) + box("mdat", b"data")
            what = "movie of version %s, dates %s %s, scale %s, duration %s, speed %s, volume %s, %s, %s, language %s" % (version, made, changed, scale, duration, rate, volume, mname, shape, case["lang"])
            p = direct(ctx, data, MP4File)
            f = p["atom[0]/movie/atom[0]/movie_hdr"]
            d1, d2 = T1904 + made * SECOND, T1904 + changed * SECOND
            fields(ctx, what, f, version=version, creation_date=d1, lastmod_date=d2, time_scale=scale, duration=duration, play_speed=float(rate), volume=float(volume), preview_start=1, current_time=6, next_track_ID=7)
            expect(ctx, what + ": matrix", [f[n].value for n in NAMES], [float(v) for v in m])
            contiguous(ctx, what, f, len(head) * 8, 0)
            for k, (w, h) in enumerate(sizes):
                t = p["atom[0]/movie/atom[%s]/track" % (k + 1)]
                g = t["atom[0]/track_hdr"]
                fields(ctx, what, g, version=version, creation_date=d1, lastmod_date=d2, track_id=k + 1, duration=duration, video_layer=-k, alternate_group=k, volume=float(volume), frame_size_width=float(w), frame_size_height=float(h),
                       is_enabled=bool(15 >> k & 1), is_in_movie=bool(15 >> k & 2), is_in_preview=bool(15 >> k & 4), is_in_poster=bool(15 >> k & 8))
                expect(ctx, what + ": matrix of the track", [g[n].value for n in NAMES], [float(v) for v in m])
                contiguous(ctx, what, g, len(tracks[k]) * 8, 0)
                g = t["atom[1]/media/atom[0]/media_hdr"]
                lang = case["lang"]
                fields(ctx, what, g, version=version, creation_date=d1, lastmod_date=d2, time_scale=scale + k, duration=duration, quality=-5, language=case["text"])
                contiguous(ctx, what, g, len(medias[k]) * 8, 0)
            seen = [(int(w), int(h)) for w, h in sizes if w and h]
            one = lambda v: None if not v else v[0] if len(v) == 1 else v
            check_meta(ctx, what, metadata(p), creation_date=d1 if d1 < LATE else None, last_modification=d2 if d2 < LATE else None,
                       comment=["Play speed: %.1f%%" % (rate * 100), "User volume: %.1f%%" % (volume * 100)], width=one([w for w, h in seen]), height=one([h for w, h in seen]))
            length = duration / scale
            got = plain(metadata(p), "duration")
            if 0.001 <= length < 86400 * 30 and (got is None or abs(got.total_seconds() - length) > 1e-3):
                ctx.report("%s: duration %s instead of %s s" % (what, got, length))


def tables(case, ctx):
    """Tables of samples: every kind, every count up to a bound, values at the limits"""
    big = [0, 1, 2 ** 31, 2 ** 32 - 1]
    for n in range(case["n"] + 1):
        for values in itertools.product(big, repeat=n):
            kinds = [("stco", "stco", b"", 4, "chunk_offset"), ("stss", "stss", b"", 4, "sample_number"), ("stsz", "stsz", b"\0\0\0\0", 4, "sample_size"), ("co64", "co64", b"", 8, "chunk_offset")]
            for tag, name, before, width, item in kinds:
                vals = [v << 24 | 7 for v in values] if width == 8 else list(values)
                body = b"\0\0\0\0" + before + struct.pack(">I", n) + b"".join(v.to_bytes(width, "big") for v in vals)
                table(ctx, tag, name, body, {item: vals, "count": [n]})
            for bits in (4, 8, 16):
                vals = [(v ^ k * 37) & (1 << bits) - 1 for k, v in enumerate(values)]
                raw = sum(v << bits * (n - 1 - k) for k, v in enumerate(vals)) << (4 if bits * n % 8 else 0)
                body = b"\0\0\0\0\0\0\0" + bytes([bits]) + struct.pack(">I", n) + raw.to_bytes((bits * n + 7) // 8, "big")
                table(ctx, "stz2", "stz2", body, {"sample_size": vals, "count": [n], "field_size": [bits]})
            pairs = list(zip(values, values[::-1]))
            for tag, items in (("stts", ("sample_count", "sample_delta")), ("ctts", ("sample_count", "sample_offset"))):
                body = b"\0\0\0\0" + struct.pack(">I", n) + b"".join(struct.pack(">II", *x) for x in pairs)
                table(ctx, tag, tag, body, {items[0]: [x[0] for x in pairs], items[1]: [x[1] for x in pairs], "count": [n]})
            body = b"\0\0\0\0" + struct.pack(">I", n) + b"".join(struct.pack(">III", a, b, 1) for a, b in pairs)
            table(ctx, "stsc", "stsc", body, {"first_chunk": [x[0] for x in pairs], "samples_per_chunk": [x[1] for x in pairs], "sample_description_index": [1] * n})
            for version in (0, 1):
                body = bytes([version, 0, 0, 0]) + struct.pack(">I", n) + b"".join(struct.pack(">QqI" if version else ">IiI", a, -1 if k % 2 else a & 0x7fffffff, fixed(1 - k / 2, 16)) for k, a in enumerate(values))
                table(ctx, "elst", "elst", body, {"duration": list(values), "time": [-1 if k % 2 else a & 0x7fffffff for k, a in enumerate(values)], "play_speed": [1 - k / 2 for k in range(n)]})
    for version, flags, count in itertools.product((0,), range(0, 64), (0, 1, 2)):
        names = ["sample_duration", "sample_size", "sample_flags", "sample_composition_time_offset"]
        f = (flags & 1) | (flags & 2) << 1 | (flags >> 2) << 8
        body = bytes([version]) + f.to_bytes(3, "big") + struct.pack(">I", count) + (struct.pack(">I", 99) if f & 1 else b"") + (struct.pack(">I", 77) if f & 4 else b"")
        rows = []
        for k in range(count):
            row = {n: 1000 * k + j for j, n in enumerate(names) if f >> 8 >> j & 1}
            body += b"".join(struct.pack(">I", v) for v in row.values())
            rows.append(row)
        g = table(ctx, "trun", "trun", body, {"sample_count": [count]}, at="moof/traf", empty=count and not rows[0])
        if g is not None:
            expect(ctx, "trun of flags %x" % f, (get(g, "data_offset"), get(g, "first_sample_flags"), [{x.name: x.value for x in s} for s in g.array("sample")] if rows and rows[0] else []),
                   (99 if f & 1 else "no field", 77 if f & 4 else "no field", rows if rows and rows[0] else []))


def table(ctx, tag, name, body, want, at="moov/stbl", empty=False):
    outer, inner = at.split("/")
    data = b"\0\0\0\x10ftypisom\0\0\0\0" + box(outer, box(inner, box(tag, body) + box("free", b"\1")))
    what = "table %s %s" % (tag, lib.short({k: v for k, v in want.items()}, 120))
    p = direct(ctx, data, MP4File)
    f = p["atom[1]/%s/atom[0]/%s/atom[0]/%s" % (BOXES[outer], BOXES[inner], name)]
    contiguous(ctx, what, f, len(body) * 8, 0)
    for key, vals in want.items():
        got = [x.value for x in f.array(key)] if key + "[0]" in f else [f[key].value] if key in f else []
        expect(ctx, "%s: %s" % (what, key), got, vals)
    return f


def sample_entries(case, ctx):
    """Descriptions of the samples: sequences of entries of sound and video with boxes in them"""
    def esds(size, long):
        n = lambda v: bytes([128, 128, 128, v]) if long else bytes([v])
        info = b"\x05" + n(2) + b"\x12\x10"
        dec = b"\x40\x15\0\x18\0" + struct.pack(">II", 128000, 96000) + info
        return b"\0\0\0\0\x03" + n(3 + 1 + (4 if long else 1) + len(dec) + 3 * 0) + b"\0\x01\0\x04" + n(len(dec)) + dec

    def avcc(nsps, npps, high):
        return b"\1" + (b"\x64" if high else b"\x42") + b"\0\x1e\xff" + bytes([0xE0 | nsps]) + b"".join(struct.pack(">H", k + 1) + b"s" * (k + 1) for k in range(nsps)) + bytes([npps]) + b"".join(struct.pack(">H", k + 2) + b"p" * (k + 2) for k in range(npps)) \
            + (b"\xfd\xf8\xf8\0" if high else b"")
    sounds = [("mp4a", [("esds", esds(0, False))]), ("mp4a", [("esds", esds(0, True)), ("btrt", struct.pack(">III", 5, 6, 7))]), ("mp4a", []), ("alac", [("alac", b"12345678")]), ("enca", [("abcd", b"")])]
    videos = [("avc1", [("avcC", avcc(a, b, h))] + [("btrt", struct.pack(">III", 1, 2, 3))] * k) for a in (0, 1, 2) for b in (0, 1, 2) for h in (False, True) for k in (0, 1)][case["i"]::4] + [("mp4v", [("esds", esds(0, True))]), ("jpeg", []), ("avc1", [])]
    for kind, entries in (("soun", sounds), ("vide", videos)):
        for n in (0, 1, 2):
            for seq in itertools.product(entries, repeat=n):
                raw = []
                for k, (codec, boxes) in enumerate(seq):
                    if kind == "soun":
                        body = struct.pack(">8xHHHHI", 1 + k, 16, 0, 0, 44100 << 16)
                    else:
                        body = struct.pack(">HH4sIIHHIIIHB31sHh", 1, 2, b"vend", 3, 4, 640, 480, 72 << 16, 72 << 16, 0, 1, 5, b"codec", 24, -1)
                    body = b"\0" * 6 + struct.pack(">H", 1 + k) + body + b"".join(box(t, b) for t, b in boxes)
                    raw.append(box(codec, body))
                stsd = struct.pack(">II", 0, n) + b"".join(raw)
                hdlr = struct.pack(">I4s4s4sII", 0, b"mhlr", kind.encode(), b"appl", 0, 0) + b"A handler\0"
                for extra in (b"", box("stts", struct.pack(">II", 0, 0))):
                    data = box("ftyp", b"isom\0\0\0\0") + box("moov", box("trak", box("mdia", box("hdlr", hdlr) + box("minf", box("stbl", box("stsd", stsd) + extra)))))
                    what = "samples of %s%s" % (lib.short([(c, [(t, len(b)) for t, b in x]) for c, x in seq], 150), ", more boxes" if extra else "")
                    p = opened(ctx, data, MP4File)
                    m = p["atom[1]/movie/atom[0]/track/atom[0]/media"]
                    fields(ctx, what, m["atom[0]/hdlr"], creator="mhlr", subtype=kind, manufacturer="appl", name="A handler")
                    s = m["atom[1]/minf/atom[0]/stbl"]
                    expect(ctx, what + ": boxes", len(s), 1 + bool(extra))
                    f = s["atom[0]/stsd"]
                    contiguous(ctx, what, f, len(stsd) * 8, 0)
                    got = f.array("sample_entry")
                    if not expect(ctx, what + ": entries", (f["count"].value, [e.size for e in got] if n else []), (n, [len(r) * 8 for r in raw])):
                        continue
                    for k, ((codec, boxes), e) in enumerate(zip(seq, got)):
                        contiguous(ctx, what, e, len(raw[k]) * 8, 3)
                        fields(ctx, what, e, size=len(raw[k]), format=codec.encode(), data_reference_index=1 + k)
                        if kind == "soun":
                            fields(ctx, what, e, channels=1 + k, samplesize=16, samplerate=44100.0)
                        else:
                            fields(ctx, what, e, width=640, height=480, horizontal_resolution=72.0, frame_count=1, depth=24)
                        if codec in ("alac", "jpeg"):
                            continue
                        for (t, b), a in zip(boxes, e.array("atom") if boxes else []):
                            fields(ctx, what, a, tag=t, size=len(b) + 8)
                            if t == "btrt":
                                expect(ctx, what + ": rates", [x.value for x in a["btrt"]], list(struct.unpack(">III", b)))
                            elif t == "esds":
                                fields(ctx, what, a, esds__ES__ES_ID=1, esds__ES__decConfigDescr__objectTypeIndication=0x40, esds__ES__decConfigDescr__maxBitrate=128000, esds__ES__decConfigDescr__avgBitrate=96000)
                                expect(ctx, what + ": setting", a["esds/ES/decConfigDescr/descr[0]/data"].value, b"\x12\x10")
                            elif t == "avcC":
                                c = a["avcC/AVCConfig"]
                                nsps = c["numOfSequenceParameterSets"].value
                                expect(ctx, what + ": parameter sets", ([x.value for x in c.array("sequenceParameterSetNALUnit")] if nsps else [], [x.value for x in c.array("pictureParameterSetNALUnit")] if c["numOfPictureParameterSets"].value else []),
                                       (["s" * (j + 1) for j in range(b[5] & 31)], ["p" * (j + 2) for j in range(b[5 + 1 + sum(2 + j + 1 for j in range(b[5] & 31))])]))


def mp4_tags(case, ctx):
    """Lists of tags as iTunes writes them"""
    every = [("\xa9nam", "name", b"\0\0\0\1\0\0\0\0A title"), ("\xa9ART", "artist", b"\0\0\0\1\0\0\0\0caf\xc3\xa9"), ("trkn", "trkn", b"\0\0\0\0\0\0\0\0\0\0\0\3\0\x0c\0\0"), ("covr", "cover", b"\0\0\0\x0d\0\0\0\0\xff\xd8\xff"), ("----", "misc", b""), ("abcd", None, b"")]
    hdlr = struct.pack(">I4s4s4sII", 0, b"\0\0\0\0", b"mdir", b"appl", 0, 0) + b"\0"
    for n in range(4):
        for seq in itertools.permutations(every, n):
            for full in (True, False):
                items = [box(t, box("data", b) if t in BOXES or t == "trkn" else b) for t, _, b in seq]
                meta = (b"\0\0\0\0" if full else b"") + box("hdlr", hdlr) + box("ilst", b"".join(items))
                data = box("ftyp", b"isom\0\0\0\0") + box("moov", box("udta", box("meta", meta)) + box("free", b""))
                what = "tags %s%s" % ([t for t, _, _ in seq], "" if full else " without version")
                p = opened(ctx, data, MP4File)
                f = p["atom[1]/movie/atom[0]/udta/atom[0]/meta/tags"]
                fields(ctx, what, f["atom[0]/hdlr"], subtype="mdir")
                if not n:
                    expect(ctx, what + ": nothing", len(f["atom[1]"]), 2)
                    continue
                f = f["atom[1]/ilst"]
                contiguous(ctx, what, f, sum(map(len, items)) * 8, 1)
                if expect(ctx, what + ": tags", [a["tag"].value for a in f], [t for t, _, _ in seq]):
                    for a, (t, name, b) in zip(f, seq):
                        if b:
                            expect(ctx, "%s: %s" % (what, name), a.stream.readBytes(a["%s/atom[0]/data" % name].absolute_address, len(b) - 0), b)


# --- Matroska ---

def vint(n, width=0):
    width = max(width, next(w for w in range(1, 9) if n < (1 << 7 * w) - 1))
    return (n | 1 << 7 * width).to_bytes(width, "big")


def element(number, body, width=0):
    raw = number.to_bytes((number.bit_length() + 7) // 8, "big")
    return raw + vint(len(body), width) + body


# id: (name, kind); kinds: u unsigned, s signed, f float, d date, t text, 8 UTF-8, b binary, y boolean, - other elements
CONTENT = {
    0x1549A966: [(0x73A4, "SegmentUID", "b"), (0x7384, "SegmentFilename", "8"), (0x3CB923, "PrevUID", "b"), (0x2AD7B1, "TimecodeScale", "u"), (0x4489, "Duration", "f"), (0x4461, "DateUTC", "d"), (0x7BA9, "Title", "8"), (0x4D80, "MuxingApp", "8"), (0x5741, "WritingApp", "8"), (0x3EB923, "NextUID", "b"), (0x3C83AB, "PrevFilename", "8"), (0x3E83BB, "NextFilename", "8"), (0x4444, "SegmentFamily[0]", "b")],
    0x1F43B675: [(0xE7, "Timecode", "u"), (0xA7, "Position", "u"), (0xAB, "PrevSize", "u")],
    0xAE: [(0xD7, "TrackNumber", "u"), (0x73C5, "TrackUID", "u"), (0xB9, "FlagEnabled", "y"), (0x88, "FlagDefault", "y"), (0x9C, "FlagLacing", "y"), (0x6DE7, "MinCache", "u"), (0x6DF8, "MaxCache", "u"), (0x23E383, "DefaultDuration", "u"), (0x23314F, "TrackTimecodeScale", "f"), (0x537F, "TrackOffset", "s"), (0x55EE, "MaxBlockAdditionID", "u"), (0x536E, "Name", "8"),
           (0x86, "CodecID", "t"), (0x63A2, "CodecPrivate", "b"), (0x258688, "CodecName", "8"), (0x7446, "AttachmentLink", "u"), (0xAA, "CodecDecodeAll", "y"), (0x55AA, "FlagForced[0]", "y"), (0x3A9697, "CodecSettings", "8"), (0x3B4040, "CodecInfoURL[0]", "t"), (0x26B240, "CodecDownloadURL[0]", "t"), (0x6FAB, "TrackOverlay[0]", "u")],
    0xE0: [(0x9A, "FlagInterlaced", "y"), (0xB0, "PixelWidth", "u"), (0xBA, "PixelHeight", "u"), (0x54AA, "PixelCropBottom", "u"), (0x54BB, "PixelCropTop", "u"), (0x54CC, "PixelCropLeft", "u"), (0x54DD, "PixelCropRight", "u"), (0x54B0, "DisplayWidth", "u"), (0x54BA, "DisplayHeight", "u"), (0x2EB524, "ColourSpace", "b"), (0x2FB523, "GammaValue", "f")],
    0xE1: [(0xB5, "SamplingFrequency", "f"), (0x78B5, "OutputSamplingFrequency", "f"), (0x9F, "Channels", "u"), (0x7D7B, "ChannelPositions", "b"), (0x6264, "BitDepth", "u")],
    0xB6: [(0x73C4, "ChapterUID", "u"), (0x91, "ChapterTimeStart", "u"), (0x92, "ChapterTimeEnd", "u"), (0x98, "ChapterFlagHidden", "y"), (0x4598, "ChapterFlagEnabled", "y"), (0x6E67, "ChapterSegmentUID", "b"), (0x63C3, "ChapterPhysicalEquiv", "u")],
    0x80: [(0x85, "ChapString", "8"), (0x437C, "ChapLanguage[0]", "t"), (0x437E, "ChapCountry[0]", "t")],
    0x45B9: [(0x45BC, "EditionUID", "u"), (0x45BD, "EditionFlagHidden", "y"), (0x45DB, "EditionFlagDefault", "y"), (0x45DD, "EditionFlagOrdered", "y")],
    0x61A7: [(0x467E, "FileDescription", "8"), (0x466E, "FileName", "8"), (0x4660, "FileMimeType", "t"), (0x46AE, "FileUID", "u"), (0x4675, "FileReferral", "b")],
    0x63C0: [(0x68CA, "TargetTypeValue", "u"), (0x63CA, "TargetType", "t"), (0x63C5, "TrackUID[0]", "u"), (0x63C9, "EditionUID[0]", "u"), (0x63C4, "ChapterUID[0]", "u"), (0x63C6, "AttachmentUID[0]", "u")],
    0x67C8: [(0x45A3, "TagName", "8"), (0x447A, "TagLanguage", "t"), (0x4487, "TagString", "8"), (0x4485, "TagBinary", "b")],
    0xA0: [(0x9B, "BlockDuration", "u"), (0xFA, "ReferencePriority", "u"), (0xFB, "ReferenceBlock[0]", "s"), (0xA4, "CodecState", "b")],
    0xBB: [(0xB3, "CueTime", "u")],
    0x6240: [(0x5031, "ContentEncodingOrder", "u"), (0x5032, "ContentEncodingScope", "u"), (0x5033, "ContentEncodingType", "u")],
    0x5034: [(0x4254, "ContentCompAlgo", "u"), (0x4255, "ContentCompSettings", "b")],
    0x4DBB: [(0x53AC, "SeekPosition", "u")],
    0x1A45DFA3: [(0x4286, "EBMLVersion", "u"), (0x42F7, "EBMLReadVersion", "u"), (0x42F2, "EBMLMaxIDLength", "u"), (0x42F3, "EBMLMaxSizeLength", "u"), (0x4287, "DocTypeVersion", "u"), (0x4285, "DocTypeReadVersion", "u")],
}
# elements with elements: path from the segment
WAY = {0x1549A966: [0x1549A966], 0x1F43B675: [0x1F43B675], 0xAE: [0x1654AE6B, 0xAE], 0xE0: [0x1654AE6B, 0xAE, 0xE0], 0xE1: [0x1654AE6B, 0xAE, 0xE1], 0xB6: [0x1043A770, 0x45B9, 0xB6], 0x80: [0x1043A770, 0x45B9, 0xB6, 0x80], 0x45B9: [0x1043A770, 0x45B9],
       0x61A7: [0x1941A469, 0x61A7], 0x63C0: [0x1254C367, 0x7373, 0x63C0], 0x67C8: [0x1254C367, 0x7373, 0x67C8], 0xA0: [0x1F43B675, 0xA0], 0xBB: [0x1C53BB6B, 0xBB], 0x6240: [0x1654AE6B, 0xAE, 0x6D80, 0x6240], 0x5034: [0x1654AE6B, 0xAE, 0x6D80, 0x6240, 0x5034], 0x4DBB: [0x114D9B74, 0x4DBB]}
NAME = {0x1549A966: "Info[0]", 0x1F43B675: "Cluster[0]", 0x1654AE6B: "Tracks[0]", 0xAE: "TrackEntry[0]", 0xE0: "Video", 0xE1: "Audio", 0x1043A770: "Chapters", 0x45B9: "EditionEntry[0]", 0xB6: "ChapterAtom[0]", 0x80: "ChapterDisplay[0]", 0x1941A469: "Attachments",
        0x61A7: "AttachedFile[0]", 0x1254C367: "Tags[0]", 0x7373: "Tag[0]", 0x63C0: "Targets", 0x67C8: "SimpleTag[0]", 0xA0: "BlockGroup[0]", 0x1C53BB6B: "Cues", 0xBB: "CuePoint[0]", 0x6D80: "ContentEncodings", 0x6240: "ContentEncoding[0]", 0x5034: "ContentCompression",
        0x114D9B74: "SeekHead[0]", 0x4DBB: "Seek[0]"}
VALUES = {
    "u": [("unsigned", v, v.to_bytes(n, "big")) for n in range(1, 9) for v in sorted({0, 1, (1 << 8 * n) - 1, 0x8123456789ABCDEF >> 64 - 8 * n})],
    "s": [("signed", v, v.to_bytes(n, "big", signed=True)) for n in range(1, 9) for v in (0, -1, (1 << 8 * n - 1) - 1, -1 << 8 * n - 1)],
    "f": [("float", 1.5, struct.pack(">f", 1.5)), ("float", -8000.0, struct.pack(">f", -8000)), ("double", 44100.1, struct.pack(">d", 44100.1)), ("double", 0.0, b"\0" * 8)],
    "d": [("date", v, struct.pack(">q", v)) for v in (0, 1, -1, 10 ** 18, -10 ** 18)],
    "t": [("string", "A text/5.1", b"A text/5.1"), ("string", "x", b"x"), ("string", "ended", b"ended\0\0"), ("string", "l" * 200, b"l" * 200)],
    "8": [("unicode", "caf\xe9 \u20ac", "caf\xe9 \u20ac".encode()), ("unicode", "x", b"x"), ("unicode", "y" * 20000, b"y" * 20000)],
    "b": [("binary", None, b"\0"), ("binary", None, b"\1\2\3" * 50), ("binary", None, b"z" * 16384)],
    "y": [("bool", 0, b"\0"), ("bool", 1, b"\1"), ("bool", 1, b"\0\1")],
}
EBML_HEAD = [(0x4286, b"\1"), (0x42F7, b"\1"), (0x42F2, b"\4"), (0x42F3, b"\x08"), (0x4282, b"matroska"), (0x4287, b"\2"), (0x4285, b"\2")]


def mkv(segment, width=0, unknown=False, doctype=b"matroska"):
    head = element(0x1A45DFA3, b"".join(element(i, doctype if i == 0x4282 else b) for i, b in EBML_HEAD))
    if unknown:
        return head + b"\x18\x53\x80\x67" + b"\x01" + b"\xff" * 7 + segment, len(head), 12
    s = element(0x18538067, segment, width)
    return head + s, len(head), len(s) - len(segment)


def mkv_element(ctx, what, f, number, body, at, width=0):
    raw = element(number, body, width)
    return expect(ctx, "%s: frame of %s" % (what, f.path), (f.absolute_address, f.size, f["id"].value, f["size"].value), (at * 8, len(raw) * 8, number, len(body)))


def mkv_values(case, ctx):
    """Every element, with values of every length, its size written on every number of bytes"""
    parent = case["parent"]
    way = WAY[parent]
    for number, name, kind in CONTENT[parent]:
        for j, (field, value, raw) in enumerate(VALUES[kind]):
            for width in (0, 2, 4, 8) if j % 4 == 0 else (0,):
                for other in ("", "void", "checksum", "unknown"):
                    if other and j > 1:
                        continue
                    body = {"": b"", "void": element(0xEC, b"\0" * 7), "checksum": element(0xBF, b"\1\2\3\4"), "unknown": element(0x4ABC, b"xy")}[other]
                    after = body + element(number, raw, width)
                    lead = len(body)
                    for k in reversed(way):
                        inner = after
                        after = element(k, after, width if k != way[0] else 0)
                        lead += len(after) - len(inner)
                    data, pos, head = mkv(after, width if width != 2 else 0, unknown=j % 3 == 2)
                    what = "Matroska %s %s on %s bytes, size on %s%s" % (name, lib.short(value, 30), len(raw), width or "few", ", behind a %s element" % other if other else "")
                    p = direct(ctx, data, MkvFile)
                    s = p["Segment[0]"]
                    expect(ctx, what + ": segment", (p[0].size, s.absolute_address, s.size, s["size"].value), (pos * 8, pos * 8, (len(data) - pos) * 8, len(after) if j % 3 != 2 else None))
                    contiguous(ctx, what, p, len(data) * 8, 12)
                    f = s
                    for k in way:
                        f = f[NAME[k]]
                        expect(ctx, what + ": number of " + f.path, f["id"].value, k)
                    if other:
                        o = {"void": "Void[0]", "checksum": "CRC-32[0]", "unknown": "Unknown[0]"}[other]
                        expect(ctx, what + ": " + other, get(f, o + "/size"), {"void": 7, "checksum": 4, "unknown": 2}[other])
                    g = f[name]
                    if mkv_element(ctx, what, g, number, raw, pos + head + lead, width):
                        if value is None:
                            expect(ctx, what + ": data", (g[field].size, g.stream.readBytes(g[field].absolute_address, len(raw))), (len(raw) * 8, raw))
                        else:
                            expect(ctx, what + ": value", get(g, field), value)
                        if kind == "y":
                            expect(ctx, what + ": answer", g[field].display, str(bool(value)))


def mkv_empty(case, ctx):
    """Elements without data (the value is then 0, or an empty text)"""
    for parent in sorted(WAY):
        for number, name, kind in CONTENT[parent]:
            after = element(number, b"") + element(0xEC, b"")
            for k in reversed(WAY[parent]):
                after = element(k, after)
            data, pos, head = mkv(after + element(0xEC, b"\0") + element(0x1549A966, element(0x7BA9, b"Title")))
            what = "Matroska %s without data" % name
            p = opened(ctx, data, MkvFile)
            s = p["Segment[0]"]
            contiguous(ctx, what, p, len(data) * 8, 12)
            f = s
            for k in WAY[parent]:
                f = f[NAME[k]]
            expect(ctx, what, (get(f, name + "/size"), get(f, "Void[0]/size"), get(s, "Void[0]/size")), (0, 0, 1))
            expect(ctx, what + ": the next elements", [x["Title/unicode"].value for x in s.array("Info") if "Title/unicode" in x], ["Title"])
            expect(ctx, what + ": title", plain(metadata(p), "title"), "Title")


def laced(frames, lacing):
    """Frames in a block: number of frames - 1, sizes, data"""
    n = len(frames)
    sizes = [len(f) for f in frames]
    out = bytes([n - 1])
    if lacing == 1:
        for k in sizes[:-1]:
            out += b"\xff" * (k // 255) + bytes([k % 255])
    elif lacing == 3:
        out += vint(sizes[0])
        for a, b in zip(sizes, sizes[1:-1]):
            d = b - a
            w = next(w for w in range(1, 9) if -(1 << 7 * w - 1) + 1 <= d <= (1 << 7 * w - 1) - 1)
            out += (d + (1 << 7 * w - 1) - 1 | 1 << 7 * w).to_bytes(w, "big")
    return out + b"".join(frames)


def mkv_blocks(case, ctx):
    """Blocks with frames of all sequences of sizes, laced in all the ways"""
    pool = [1, 2, 64, 65, 200, 255, 256, 510, 9000]
    for lacing, n in itertools.product((0, 1, 2, 3), range(1, case["n"] + 1)):
        if lacing == 0 and n > 1:
            continue
        for sizes in itertools.product(pool, repeat=n):
            if lacing == 2 and len(set(sizes)) > 1 or n == case["n"] and n > 2 and sum(sizes) % case["of"] != case["i"] or n <= 2 and case["i"]:
                continue
            if lacing and n == 1 and lacing == 3:
                continue        # (no size is written)
            frames = [bytes([65 + k]) * s for k, s in enumerate(sizes)]
            inner = frames[0] if not lacing else laced(frames, lacing)
            for simple, track, time, key, hidden, drop in itertools.product((True, False), (1, 127, 128), (0, -5, 32767), (0, 1), (0, 1), (0, 1)):
                if (track, time) != (1, 0) and (key or hidden or drop or n > 1) or not simple and (key or drop):
                    continue
                flags = (key << 7 if simple else 0) | hidden << 3 | lacing << 1 | (drop if simple else 0)
                number = bytes([128 | track]) if track < 127 else (1 << 14 | track).to_bytes(2, "big")
                body = number + struct.pack(">hB", time, flags) + inner
                block = element(0xA3, body) if simple else element(0xA0, element(0xA1, body) + element(0x9B, b"\x28"))
                data, pos, head = mkv(element(0x1F43B675, element(0xE7, b"\0\1") + block))
                what = "block of frames of %s bytes, lacing %s, track %s, time %s, %s" % (sizes, lacing, track, time, "simple" if simple else "group")
                p = direct(ctx, data, MkvFile)
                c = p["Segment[0]/Cluster[0]"]
                f = c["SimpleBlock[0]/block"] if simple else c["BlockGroup[0]/Block/block"]
                contiguous(ctx, what, p, len(data) * 8, 12)
                fields(ctx, what, f, track=track, timecode=time, invisible=bool(hidden), lacing=lacing)
                if simple:
                    fields(ctx, what, f, keyframe=bool(key), discardable=bool(drop))
                if not lacing:
                    got = [f["frame"]]
                else:
                    expect(ctx, what + ": number of frames", (f["n_frames"].value, f["n_frames"].display), (n - 1, str(n)))
                    got = list(f["Lace"].array("frame"))
                if expect(ctx, what + ": sizes", [x.size for x in got], [8 * s for s in sizes]):
                    for x, raw in zip(got, frames):
                        if p.stream.readBytes(x.absolute_address, len(raw)) != raw:
                            ctx.report(what + ": data of the frames")


def mkv_cues(case, ctx):
    """Cue points lead to the cluster and to the block of their track and time, wherever the cues are"""
    for nclusters in (1, 2, 3):
        for where in ("front", "back"):
            for times in itertools.product((0, 40), repeat=2):
                clusters = []
                for k in range(nclusters):
                    groups = b"".join(element(0xA0, element(0xA1, bytes([128 | t]) + struct.pack(">hB", d, 0) + b"frame")) for t in (1, 2) for d in (0, 40))
                    clusters.append(element(0x1F43B675, element(0xE7, struct.pack(">H", 1000 * k)) + groups))
                def cues(base):
                    out = []
                    for k in range(nclusters):
                        at = base + sum(map(len, clusters[:k]))
                        out.append(element(0xBB, element(0xB3, struct.pack(">H", 1000 * k + times[k % 2])) + element(0xB7, element(0xF7, bytes([1 + k % 2])) + element(0xF1, struct.pack(">I", at)))))
                    return element(0x1C53BB6B, b"".join(out))
                body = cues(len(cues(0))) + b"".join(clusters) if where == "front" else b"".join(clusters) + cues(0)
                data, pos, head = mkv(body)
                what = "%s clusters, cues in %s, times %s" % (nclusters, where, times)
                for order in ("read", "not read"):
                    p = opened(ctx, data, MkvFile)
                    s = p["Segment[0]"]
                    if order == "read":
                        contiguous(ctx, what, p, len(data) * 8, 12)
                    for k in range(nclusters):
                        c = s["Cues/CuePoint[%s]/CueTrackPositions[0]" % k]
                        if where == "front" and order == "not read":
                            [x for x in s]      # (a cluster behind is found once it is read)
                        got = c["CueClusterPosition/cluster"].value
                        expect(ctx, "%s: cluster %s" % (what, k), got.path if got is not None else None, s["Cluster[%s]" % k].path)
                        got = c["block"].value
                        expect(ctx, "%s: block %s" % (what, k), got.path if got is not None else None, s["Cluster[%s]/BlockGroup[%s]" % (k, 2 * (k % 2) + (times[k % 2] == 40))].path)


def mkv_meta(case, ctx):
    """Metadata: streams of all kinds, in all orders; title, date, duration, tags"""
    lang = element(0x22B59C, b"fre")
    kinds = {
        "video": (element(0x83, b"\1") + element(0x86, b"V_MPEG4") + element(0xE0, element(0xB0, b"\2\x80") + element(0xBA, b"\1\xe0")), dict(compression="V_MPEG4", width=640, height=480, language="English")),
        "video fre": (element(0x83, b"\1") + lang + element(0x536E, b"Name") + element(0x86, b"V_TEST"), dict(compression="V_TEST", title="Name", language="French")),
        "audio": (element(0x83, b"\2") + element(0x86, b"A_AAC") + element(0xE1, element(0xB5, struct.pack(">f", 44100)) + element(0x9F, b"\2") + element(0x6264, b"\x10")), dict(compression="A_AAC", sample_rate=44100.0, nb_channel=2, bits_per_sample=16)),
        "audio fre": (element(0x83, b"\2") + lang + element(0x86, b"A_X") + element(0xE1, element(0xB5, struct.pack(">d", 8000))), dict(compression="A_X", sample_rate=8000.0, language="French")),
        "text": (element(0x83, b"\x11") + lang + element(0x86, b"S_TEXT/UTF8"), dict(compression="S_TEXT/UTF8", language="French")),
    }
    for n in range(case["n"] + 1):
        for seq in itertools.product(sorted(kinds), repeat=n):
            for duration, scale, title, app, date, tags in [(None, 1000000, "", "", None, 0), (5000.5, 1000000, "A title", "Program", 10 ** 17, 3), (90000.0, 500000, "caf\xe9", "", 0, 1)]:
                info = element(0x2AD7B1, scale.to_bytes(4, "big")) + (element(0x4489, struct.pack(">d", duration)) if duration else b"") + (element(0x7BA9, title.encode()) if title else b"") + (element(0x5741, app.encode()) if app else b"") + (element(0x4461, struct.pack(">q", date)) if date is not None else b"")
                names = [("COPYRIGHT", "a notice", "copyright"), ("URL", "http://x/", "url"), ("OTHER", "ignored", None)][:tags]
                body = element(0x1549A966, info) + element(0x1654AE6B, b"".join(element(0xAE, kinds[k][0]) for k in seq)) + (element(0x1254C367, element(0x7373, b"".join(element(0x67C8, element(0x45A3, a.encode()) + element(0x4487, b.encode())) for a, b, _ in names))) if tags else b"")
                body += element(0x1F43B675, element(0xE7, b"\0"))
                doctype = b"webm" if n % 2 else b"matroska"
                data, pos, head = mkv(body, doctype=doctype)
                what = "Matroska, streams %s, duration %s, title %r" % (list(seq), duration, title)
                p = opened(ctx, data, MkvFile)
                expect(ctx, what + ": type", (p.mime_type, p.description, p.content_size), ("video/webm" if n % 2 else "video/x-matroska", "WebM video" if n % 2 else "Matroska video", len(data) * 8))
                more = opened(ctx, data + b"\x1a\x45\xdf\xa3 more", MkvFile)
                expect(ctx, what + ": size when data follow", more.content_size, len(data) * 8)
                m = metadata(p)
                check_meta(ctx, what, m, duration=datetime.timedelta(seconds=duration * scale * 1e-9) if duration else None, title=title or None, producer=app or None, creation_date=T2001 + datetime.timedelta(microseconds=date // 1000) if date is not None else None,
                           copyright="a notice" if tags else None, url="http://x/" if tags > 1 else None)
                count = {}
                want = []
                for k in seq:
                    kind = {"text": "subtitle"}.get(k.split()[0], k.split()[0])
                    count[kind] = count.get(kind, 0) + 1
                    want.append("%s[%s]" % (kind, count[kind]))
                got = groups(m)
                if expect(ctx, what + ": groups", sorted(got), sorted(want)):
                    for name, k in zip(want, seq):
                        check_meta(ctx, "%s: %s" % (what, name), m[name], **{a: b for a, b in kinds[k][1].items() if a != "language"})
                        if "language" in kinds[k][1]:
                            expect(ctx, "%s: language of %s" % (what, name), m[name].getText("language"), kinds[k][1]["language"])


def mkv_files(case, ctx):
    """Attached files: their name, type and content, in every order of the elements"""
    parts = {"name": element(0x466E, b"font.ttf"), "type": element(0x4660, b"application/x-font"), "data": element(0x465C, b"content of the file"), "uid": element(0x46AE, b"\x05")}
    for n in range(1, 5):
        for seq in itertools.permutations(sorted(parts), n):
            if "data" not in seq:
                continue
            for count in (1, 2):
                one = element(0x61A7, b"".join(parts[k] for k in seq))
                data, pos, head = mkv(element(0x1941A469, one * count))
                what = "attached file of %s, %s times" % (list(seq), count)
                p = opened(ctx, data, MkvFile)
                for k in range(count):
                    f = p["Segment[0]/Attachments/AttachedFile[%s]/FileData/file" % k]
                    expect(ctx, what + ": content", f.value, b"content of the file")
                    expect(ctx, what + ": description", f.description, 'File "font.ttf"' if "name" in seq else "('Filename' entry not found)")
                    s = f.getSubIStream()
                    expect(ctx, what + ": stream", (s.readBytes(0, 19), s.sizeGe(160), sorted(t for t in s.tags if t[0] != "class")), (b"content of the file", False, sorted(([("filename", "font.ttf")] if "name" in seq else []) + ([("mime", "application/x-font")] if "type" in seq else []))))


# --- Flash video ---

def amf(v):
    if isinstance(v, bool):
        return b"\1" + bytes([v])
    if isinstance(v, float):
        return b"\0" + struct.pack(">d", v)
    if isinstance(v, str):
        raw = v.encode()
        return b"\2" + struct.pack(">H", len(raw)) + raw
    if isinstance(v, datetime.datetime):
        return b"\x0b" + struct.pack(">dH", (v - datetime.datetime(1970, 1, 1)).total_seconds() * 1000, 0)
    if isinstance(v, list):
        return b"\x0a" + struct.pack(">I", len(v)) + b"".join(map(amf, v))
    head = b"\x08" + struct.pack(">I", len(v)) if not isinstance(v, Object) else b"\3"
    return head + b"".join(struct.pack(">H", len(k)) + k.encode() + amf(x) for k, x in v.items()) + b"\0\0\x09"


class Object(dict):
    pass


def amf_check(ctx, what, f, v):
    code = {bool: 1, float: 0, str: 2, datetime.datetime: 11, list: 10, Object: 3, dict: 8}[type(v)]
    if not expect(ctx, "%s: type of %s" % (what, f.path), f["type"].value, code):
        return
    if isinstance(v, (bool, float, str)):
        expect(ctx, "%s: %s" % (what, f.path), f["value"].value, int(v) if isinstance(v, bool) else v)
    elif isinstance(v, datetime.datetime):
        expect(ctx, "%s: %s" % (what, f.path), f.value, v)
    elif isinstance(v, list):
        got = f.array("item") if v else []
        if expect(ctx, "%s: items of %s" % (what, f.path), (f["count"].value, len(got)), (len(v), len(v))):
            for a, b in zip(got, v):
                amf_check(ctx, what, a, b)
    else:
        got = list(f.array("attr" if isinstance(v, Object) else "item"))
        if expect(ctx, "%s: keys of %s" % (what, f.path), [x["key"].value for x in got], list(v) + [""]):
            for a, k in zip(got, v):
                amf_check(ctx, what, a, v[k])


def flv(chunks, flags=5):
    out = b"FLV\1" + bytes([flags]) + b"\0\0\0\x09\0\0\0\0"
    for tag, time, body in chunks:
        out += bytes([tag]) + len(body).to_bytes(3, "big") + time.to_bytes(3, "big") + b"\0" * 4 + body + struct.pack(">I", len(body) + 11)
    return out


def flv_amf(case, ctx):
    leaves = [True, 1.5, "", "a text", "caf\xe9", datetime.datetime(2006, 11, 4, 1, 2, 3)]
    values = list(leaves)
    pools = leaves
    for depth in range(2):
        new = []
        for n in range(3):
            for seq in itertools.product(pools, repeat=n):
                new += [list(seq), dict(zip(("a", "key"), seq)), Object(zip(("b", "other"), seq))]
        values += new
        pools = [1.5, "a text"] + new[:3] + new[9:12] + new[-3:]
    for k, v in enumerate(values):
        if k % case["of"] != case["i"]:
            continue
        for more in ([], [2.5]):
            body = b"".join(map(amf, ["onMetaData", v] + more))
            data = flv([(18, 0, body), (9, 40, b"\x12data")])
            what = "Flash data %s" % lib.short(v, 120)
            p = opened(ctx, data, FlvFile)
            contiguous(ctx, what, p, len(data) * 8, 8)
            m = p["metadata"]
            if expect(ctx, what + ": entries", len(m.array("entry")), 2 + len(more)):
                amf_check(ctx, what, m["entry[0]"], "onMetaData")
                amf_check(ctx, what, m["entry[1]"], v)
                if more:
                    amf_check(ctx, what, m["entry[2]"], 2.5)
            expect(ctx, what + ": next", get(p, "video[0]/timestamp"), 40)


FLV_AUDIO = {0: "Uncompressed", 1: "ADPCM", 5: "Nellymoser 8kHz mono", 6: "Nellymoser"}
FLV_VIDEO = {2: "Sorensen H.263", 3: "Screen video", 4: "On2 VP6"}
FLV_RATE = [5512, 11025, 22050, 44100]


def flv_chunks(case, ctx):
    sounds = [(8, ("audio", codec, rate, bits, stereo), bytes([codec << 4 | rate << 2 | bits << 1 | stereo]) + b"sound") for codec, rate, bits, stereo in itertools.product(sorted(FLV_AUDIO), range(4), (0, 1), (0, 1))]
    images = [(9, ("video", kind, codec), bytes([kind << 4 | codec]) + data) for kind in (1, 2, 3) for codec in sorted(FLV_VIDEO) for data in (b"", b"image")]
    others = [(15, ("other",), b"something"), (15, ("other",), b"")]
    infos = [{}, {"duration": 12.5}, {"duration": 100.0, "width": 320.0, "height": 240.0, "framerate": 25.0, "creator": "someone"}, {"metadatadate": datetime.datetime(2006, 11, 4, 1, 2, 3), "metadatacreator": "program", "audiosamplerate": 22050.0}]
    few = [sounds[case["i"]], sounds[-1 - case["i"]], images[case["i"] % len(images)], images[1], others[0], others[1]]
    for info in infos:
        for n in range(case["n"] + 1):
            for seq in itertools.product(few, repeat=n):
                for at in sorted({0, n}):
                    chunks = [(t, 40 * k, b) for k, (t, _, b) in enumerate(seq)]
                    if info:
                        chunks.insert(at, (18, 0, amf("onMetaData") + amf(info)))
                    elif at:
                        continue
                    data = flv(chunks, flags=5 if n % 2 else 1)
                    what = "Flash video of %s, %s" % ([x[1] for x in seq], info)
                    p = opened(ctx, data, FlvFile)
                    expect(ctx, what + ": description", (p.description, p.mime_type), ("Macromedia Flash video version 1", "video/x-flv"))
                    fields(ctx, what, p["header"], signature="FLV", version=1, type_flags_audio=bool(n % 2), type_flags_video=True, data_offset=9)
                    count, names = {}, []
                    for t, time, b in chunks:
                        name = {8: "audio", 9: "video", 15: "chunk"}.get(t)
                        names.append("metadata" if name is None else "%s[%s]" % (name, count.get(name, 0)))
                        count[name] = count.get(name, 0) + 1
                    got = [f.name for f in p if f.is_field_set and f.name != "header"]
                    if not expect(ctx, what + ": chunks", got, names):
                        continue
                    contiguous(ctx, what, p, len(data) * 8, 4)
                    expect(ctx, what + ": sizes before", [f.value for f in p.array("prev_size")], [0] + [len(b) + 11 for _, _, b in chunks])
                    for name, (t, time, b) in zip(names, chunks):
                        f = p[name]
                        fields(ctx, what, f, tag=t, size=len(b), timestamp=time)
                        if t == 8:
                            fields(ctx, what, f, codec=b[0] >> 4, sampling_rate=b[0] >> 2 & 3, is_16bit=bool(b[0] & 2), is_stereo=bool(b[0] & 1))
                            expect(ctx, what + ": rate", (f.getSampleRate(), f["codec"].display), (FLV_RATE[b[0] >> 2 & 3], FLV_AUDIO[b[0] >> 4]))
                        elif t == 9:
                            fields(ctx, what, f, frame_type=b[0] >> 4, codec=b[0] & 15)
                            expect(ctx, what + ": texts", (f["frame_type"].display, f["codec"].display), ({1: "keyframe", 2: "inter frame", 3: "disposable inter frame"}[b[0] >> 4], FLV_VIDEO[b[0] & 15]))
                    m = metadata(p)
                    check_meta(ctx, what, m, duration=datetime.timedelta(seconds=info["duration"]) if "duration" in info else None, width=int(info["width"]) if "width" in info else None, height=int(info["height"]) if "height" in info else None,
                               frame_rate=info.get("framerate"), sample_rate=info.get("audiosamplerate"), producer=info.get("creator") or info.get("metadatacreator"), creation_date=info.get("metadatadate"), bit_rate=len(data) * 8 / info["duration"] if "duration" in info else None,
                               format_version="Macromedia Flash video version 1")
                    audio = next((x for x in seq if x[0] == 8), None)
                    video = next((x for x in seq if x[0] == 9), None)
                    if expect(ctx, what + ": groups", sorted(groups(m)), (["audio"] if audio else []) + (["video"] if video else [])):
                        if audio:
                            _, codec, rate, bits, stereo = audio[1]
                            check_meta(ctx, what, m["audio"], compression=FLV_AUDIO[codec], sample_rate=FLV_RATE[rate], bits_per_sample=16 if bits else 8, nb_channel=2 if stereo else 1)
                        if video:
                            check_meta(ctx, what, m["video"], compression=FLV_VIDEO[video[1][2]])


def main():
    c = lib.Check("A08", "model_checking",
                  "all trees of boxes, headers of all versions, tables of all kinds and counts, entries, elements of all types and widths, blocks of all lacings and sizes, sequences of streams and chunks, written byte by byte: "
                  "every box at its place, every value, the data, and the metadata",
                  bounds={"boxes": "3 boxes (thorough 4) in a movie, 5 levels", "tables": "up to 3 (4) entries", "elements": sum(map(len, CONTENT.values())), "frames of a block": "up to 3 (4)", "streams": "up to 3 (4)", "chunks": "up to 3 (4)"})
    q = c.quick
    n = 3 if q else 4
    c.domain("boxes", [dict(n=n, i=i, of=32) for i in range(32)], box_trees)
    langs = [(0, "English"), (11, "Japanese"), (language("eng"), "eng"), (language("und"), "und"), (language("zaz"), "zaz")]
    c.domain("movie headers", [dict(version=v, lang=a, text=b) for v in (0, 1) for a, b in langs], movie_headers)
    c.domain("tables", [dict(n=n)], tables)
    c.domain("sample entries", [dict(i=i) for i in range(4)], sample_entries)
    c.domain("MP4 tags", [{}], mp4_tags)
    c.domain("Matroska elements", [dict(parent=k) for k in sorted(WAY)], mkv_values)
    c.domain("Matroska elements without data", [{}], mkv_empty)
    c.domain("Matroska blocks", [dict(n=n, i=i, of=16) for i in range(16)], mkv_blocks)
    c.domain("Matroska cues", [{}], mkv_cues)
    c.domain("Matroska metadata", [dict(n=n)], mkv_meta)
    c.domain("Matroska files", [{}], mkv_files)
    c.domain("Flash data", [dict(i=i, of=8) for i in range(8)], flv_amf)
    c.domain("Flash chunks", [dict(i=i, n=n) for i in range(16)], flv_chunks)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
