"""A19: ASF files (WMV, WMA) are shown as they were written: objects, streams, descriptions, and their metadata."""
import datetime, itertools, os, re, struct, sys, uuid
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct as opened, expect, get, groups, metadata, plain
from hachoir.parser.video import AsfFile


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


IDS = {"header": "75B22630-668E-11CF-A6D9-00AA0062CE6C", "file_prop": "8CABDCA1-A947-11CF-8EE4-00C00C205365", "header_ext": "5FBF03B5-A92E-11CF-8EE3-00C00C205365", "codec_list": "86D15240-311D-11D0-A3A4-00A0C90348F6",
       "simple_index": "33000890-E5B1-11CF-89F4-00A0C90349CB", "data": "75B22636-668E-11CF-A6D9-00AA0062CE6C", "stream_prop": "B7DC0791-A9B7-11CF-8EE6-00C00C205365", "bit_rates": "7BF875CE-468D-11D1-8D82-006097C9A2B2",
       "ext_desc": "D2D0A440-E307-11D2-97F0-00A0C95EA850", "metadata": "75B22633-668E-11CF-A6D9-00AA0062CE6C", "video": "BC19EFC0-5B4D-11CF-A8FD-00805F5C442B", "audio": "F8699E40-5B4D-11CF-A8FD-00805F5C442B",
       "mutex": "D6E229DC-35DA-11D1-9034-00A0C90349BE", "other": "01234567-89AB-4CDE-8123-456789ABCDEF", "none": "00000000-0000-0000-0000-000000000000"}
MUTEX = {"Language": "D6E22A00-35DA-11D1-9034-00A0C90349BE", "Bitrate": "D6E22A01-35DA-11D1-9034-00A0C90349BE", "Unknown": "D6E22A02-35DA-11D1-9034-00A0C90349BE"}


def guid(name):
    return uuid.UUID(IDS.get(name, name)).bytes_le


def obj(name, data=b""):
    return guid(name) + struct.pack("<Q", 24 + len(data)) + data


def header(objects):
    return obj("header", struct.pack("<IBB", len(objects), 1, 2) + b"".join(objects))


def win64(d):
    return int((d - datetime.datetime(1601, 1, 1)) / datetime.timedelta(microseconds=1)) * 10


FILE_ID = "11223344-5566-4778-899A-ABBCCDDEEFF0"


def file_prop(size=1000, date=datetime.datetime(2006, 8, 5, 1, 2, 3), packets=9, play=120_000_0000, send=110_000_0000, preroll=3000, flags=2, low=100, high=2000, rate=128000):
    return obj("file_prop", guid(FILE_ID) + struct.pack("<QQQQQQIIII", size, win64(date), packets, play, send, preroll, flags, low, high, rate))


def audio(codec=0x161, channels=2, rate=44100, bits=16, extra=b"", byte_rate=16000, align=5, number=1, offset=0, encrypted=False, correct=b""):
    d = struct.pack("<HHIIHHH", codec, channels, rate, byte_rate, align, bits, len(extra)) + extra
    return obj("stream_prop", guid("audio") + guid("none") + struct.pack("<QIIHI", offset, len(d), len(correct), number | encrypted << 15, 0) + d + correct)


def video(width=320, height=240, bpp=24, codec=b"WMV3", extra=b"", number=1, offset=0, encrypted=False, correct=b""):
    bmp = struct.pack("<IIIHH4sIIIII", 40 + len(extra), width, height, 1, bpp, codec, width * height * 3, 0, 0, 0, 0)
    d = struct.pack("<IIBH", width, height, 2, 40 + len(extra)) + bmp + extra
    return obj("stream_prop", guid("video") + guid("none") + struct.pack("<QIIHI", offset, len(d), len(correct), number | encrypted << 15, 0) + d + correct)


def desc(items):
    out = struct.pack("<H", len(items))
    for name, kind, data in items:
        n = name.encode("utf-16-le") + b"\0\0"
        out += struct.pack("<H", len(n)) + n + struct.pack("<HH", kind, len(data)) + data
    return obj("ext_desc", out)


def text(s):
    return s.encode("utf-16-le") + b"\0\0"


def contents(*texts):
    """Content description: five texts"""
    raw = [text(t) if t is not None else b"" for t in texts]
    return obj("metadata", b"".join(struct.pack("<H", len(r)) for r in raw) + b"".join(raw))


def data_object(raw=b"packets", count=3):
    return obj("data", guid(FILE_ID) + struct.pack("<QH", count, 0x0101) + raw)


def parse(ctx, what, objects, rest=(), depth=4):
    data = header(objects) + b"".join(rest)
    p = opened(ctx, data, AsfFile)
    contiguous(ctx, what, p, len(data) * 8, depth)
    fields(ctx, what, p, header__guid=IDS["header"], header__size=len(header(objects)), header__content__obj_count=len(objects))
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", 1 + len(objects) + len(rest))
    return p


def info(name):
    return {"stream_prop": "stream_prop[0]"}.get(name, name)


def files(case, ctx):
    """All values of the file properties"""
    dates = [datetime.datetime(1999, 12, 31, 23, 59, 59), datetime.datetime(2006, 8, 5, 1, 2, 3), datetime.datetime(2029, 1, 1)]
    for date, flags, (play, send, preroll), rate in itertools.product(dates, range(4), ((1200000000, 1100000000, 3000), (36000000000, 0, 0), (15000000, 15000000, 500), (30 * 864000000000, 10 ** 12 + 70, 1)), (0, 1, 128000, 10 ** 8)):
        for size, packets, low, high in ((1000, 9, 100, 2000), (1 << 33, 1 << 40, 1 << 20, 1 << 31), (0, 0, 0, 0)):
            what = "ASF file of %s bytes, %s, flags %s, times %s, bit rate %s" % (size, date, flags, (play, send, preroll), rate)
            p = parse(ctx, what, [file_prop(size, date, packets, play, send, preroll, flags, low, high, rate)], [data_object()])
            f = p["header/content/file_prop/content"]
            tick = datetime.timedelta(microseconds=1)
            fields(ctx, what, f, guid=FILE_ID, file_size=size, creation_date=date, pckt_count=packets, play_duration=tick * (play // 10), send_duration=tick * (send // 10), preroll=datetime.timedelta(milliseconds=preroll),
                   broadcast=bool(flags & 1), seekable=bool(flags & 2), min_pckt_size=low, max_pckt_size=high, max_bitrate=rate)
            expect(ctx, what + ": size", p.content_size, size * 8)
            m = metadata(p)
            check_meta(ctx, what, m, creation_date=date, duration=tick * (play // 10) - datetime.timedelta(milliseconds=preroll), comment="Is seekable" if flags & 2 else None)
            if rate:
                check_meta(ctx, what, m, bit_rate=rate)
            expect(ctx, what + ": type", (p.mime_type, p.filename_suffix, p.description), ("video/x-ms-asf", ".asf", "ASF container"))


AUDIO = {0x161: "Windows Media Audio V7 / V8 / V9", 0x162: "Windows Media Audio Professional V9", 1: "Microsoft Pulse Code Modulation (PCM)"}
VIDEO = {b"WMV3": "Windows Media Video V9", b"DX50": "DivX v5"}


def streams(case, ctx):
    """Sequences of streams of both kinds with any number, bit rates in any order"""
    kinds = [("audio", dict()), ("audio", dict(codec=0x162, channels=1, rate=8000, bits=8, extra=b"extra", encrypted=True)), ("video", dict()), ("video", dict(width=1280, height=720, bpp=32, codec=b"DX50", extra=b"codec", correct=b"cor", offset=5)),
             ("audio", dict(codec=1, channels=6, rate=96000, bits=24, offset=1 << 40, correct=b"c")), ("other", dict())]
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(kinds)), repeat=n):
            if seq[0] != case["first"]:
                continue
            for numbers, rates, front in itertools.product((list(range(1, n + 1)), list(range(127, 127 - n, -1))), (None, "same", "reverse", "missing"), (False, True)):
                objs, want = [], []
                for k, num in zip(seq, numbers):
                    kind, args = kinds[k]
                    if kind == "other":
                        objs.append(obj("stream_prop", guid("other") + guid("none") + struct.pack("<QIIHI", 0, 4, 0, num, 0) + b"data"))
                    else:
                        objs.append((audio if kind == "audio" else video)(number=num, **args))
                rate = {num: 1000 * (i + 1) + num for i, num in enumerate(numbers)}
                if rates == "missing":
                    del rate[numbers[0]]
                if rates:
                    order = sorted(rate, reverse=rates == "reverse") if numbers[0] == 1 else sorted(rate, reverse=rates != "reverse")
                    b = obj("bit_rates", struct.pack("<H", len(rate)) + b"".join(struct.pack("<HI", i, rate[i]) for i in order))
                else:
                    b = None
                what = "ASF streams %s with the numbers %s, bit rates %s, %s" % ([kinds[k] for k in seq], numbers, rates, "first" if front else "last")
                all_objs = [file_prop()] + ([b] if b and front else []) + objs + ([b] if b and not front else [])
                p = parse(ctx, what, all_objs, [data_object()])
                h = p["header/content"]
                if b:
                    fields(ctx, what, h["bit_rates/content"], count=len(rate), **{"bit_rate__%d__stream_index" % i: k for i, k in enumerate(order)}, **{"bit_rate__%d__avg_bitrate" % i: rate[k] for i, k in enumerate(order)})
                counts = {"audio": 0, "video": 0}
                m = metadata(p)
                for i, (k, num) in enumerate(zip(seq, numbers)):
                    kind, args = kinds[k]
                    s = h["stream_prop[%d]/content" % i]
                    w = "%s: stream %s" % (what, i)
                    fields(ctx, w, s, type=IDS[kind], error_correction=IDS["none"], time_offset=args.get("offset", 0), error_correct_len=len(args.get("correct", b"")), stream_index=num, encrypted=args.get("encrypted", False))
                    if "correct" in args:
                        fields(ctx, w, s, error_correct=args["correct"])
                    if kind == "other":
                        fields(ctx, w, s, data=b"data")
                        continue
                    counts[kind] += 1
                    name = "%s[%d]" % (kind, counts[kind])
                    g = m[name] if m is not None and name in m else None
                    if g is None:
                        ctx.report("%s: no group %s in the metadata" % (w, name))
                        continue
                    if kind == "audio":
                        codec, ch, hz, bits = args.get("codec", 0x161), args.get("channels", 2), args.get("rate", 44100), args.get("bits", 16)
                        x = args.get("extra", b"")
                        fields(ctx, w, s["audio_header"], twocc=codec, channels=ch, sample_rate=hz, bit_rate=16000, block_align=5, bits_per_sample=bits, codec_specific_size=len(x), **({"codec_specific": x} if x else {}))
                        check_meta(ctx, w, g, nb_channel=ch, sample_rate=hz, bits_per_sample=bits, compression=AUDIO[codec])
                    else:
                        wd, ht, bpp, codec, x = args.get("width", 320), args.get("height", 240), args.get("bpp", 24), args.get("codec", b"WMV3"), args.get("extra", b"")
                        fields(ctx, w, s["video_header"], width=wd, height=ht, format_data_size=40 + len(x), bmp_info__width=wd, bmp_info__height=ht, bmp_info__bpp=bpp, bmp_info__nb_planes=1, bmp_info__codec=codec.decode(),
                               bmp_info__size=wd * ht * 3, bmp_info__hdr_size=40 + len(x), **({"codec_specific": x} if x else {}))
                        check_meta(ctx, w, g, width=wd, height=ht, bits_per_pixel=bpp, compression=VIDEO[codec])
                    check_meta(ctx, w, g, bit_rate=rate.get(num) if rates else None)
                expect(ctx, what + ": groups", sorted(groups(m)) if m else [], sorted("%s[%d]" % (k, i + 1) for k in counts for i in range(counts[k])))
                kind = "video" if counts["video"] else "audio" if counts["audio"] else ""
                expect(ctx, what + ": type", (p.mime_type, p.filename_suffix), {"video": ("video/x-ms-wmv", ".wmv"), "audio": ("audio/x-ms-wma", ".wma"), "": ("video/x-ms-asf", ".asf")}[kind])


# (name, type, data, value of the field, metadata)
ITEMS = [("WM/ToolName", 0, text("Encoder"), "Encoder", "tool"), ("WM/ToolVersion", 0, text("9.1"), "9.1", "version"), ("WM/AlbumTitle", 0, text("An album \u00e9"), "An album \u00e9", ("album", "An album \u00e9")),
         ("WM/TrackNumber", 3, struct.pack("<I", 7), 7, ("track_number", 7)), ("WM/TrackNumber", 0, text("7"), "7", ("track_number", 7)), ("WM/TrackNumber", 4, struct.pack("<Q", 7), 7, ("track_number", 7)),
         ("WM/TrackNumber", 5, struct.pack("<H", 7), 7, ("track_number", 7)), ("WM/Year", 0, text("2003"), "2003", ("creation_date", datetime.date(2003, 1, 1))), ("WM/AlbumArtist", 0, text("Somebody"), "Somebody", ("author", "Somebody")),
         ("IsVBR", 2, struct.pack("<I", 1), 1, "vbr"), ("IsVBR", 2, struct.pack("<I", 0), 0, "cbr"), ("WMFSDKVersion", 0, text("11.0"), "11.0", None), ("WM/Picture", 1, b"\1picture", b"\1picture", None), ("Custom", 0, text("a value"), "a value", ("comment", "Custom=a value")),
         ("Custom", 3, struct.pack("<I", 1 << 31), 1 << 31, ("comment", "Custom=2147483648")), ("WM/Picture", 1, b"", "no field", None), ("Empty", 0, text(""), "", None), ("WM/Encoder", 0, text("Program"), "Program", ("producer", "Program"))]


def descriptions(case, ctx):
    for n in range(0, case["n"] + 1):
        for items in itertools.permutations(ITEMS, n):
            names = [i[0].split("/")[-1] for i in items]
            if len(set(names)) < n or (n > 2 and items[0] is not ITEMS[case["first"]]) or (n <= 2 and case["first"]):
                continue
            what = "ASF file with the descriptions %s" % ([i[:3] for i in items],)
            p = parse(ctx, what, [file_prop(flags=0), desc([i[:3] for i in items])], [data_object()])
            d = p["header/content/ext_desc/content"]
            expect(ctx, what + ": count", (d["count"].value, len([x for x in d if x.is_field_set])), (n, n))
            for k, i in enumerate(items):
                fields(ctx, what, d, **{"descriptor__%d__name" % k: i[0], "descriptor__%d__type" % k: i[1], "descriptor__%d__value_length" % k: len(i[2]), "descriptor__%d__value" % k: i[3]})
                expect(ctx, what + ": kind", d["descriptor[%d]/type" % k].display, ["Unicode", "Byte array", "BOOL (32 bits)", "DWORD (32 bits)", "QWORD (64 bits)", "WORD (16 bits)"][i[1]])
            m = metadata(p)
            want = {"album": [], "track_number": [], "track_total": [], "author": [], "comment": [], "producer": []}
            tags = [i[4] for i in items]
            for t in tags:
                if isinstance(t, tuple) and t[0] in want:
                    want[t[0]].append(t[1])
            if "tool" in tags:
                want["producer"].append("Encoder (version 9.1)" if "version" in tags else "Encoder")
            elif "version" in tags:
                want["comment"].append("ToolVersion=9.1")
            for key, v in want.items():
                expect(ctx, "%s: %s of the metadata" % (what, key), sorted(x for x in (m.getValues(key) if m else [])), sorted(v))
            expect(ctx, what + ": dates", sorted(map(str, m.getValues("creation_date"))), sorted(["2006-08-05 01:02:03"] + ["2003-01-01" for t in tags if isinstance(t, tuple) and t[0] == "creation_date"]))
            rate = m.getText("bit_rate")
            expect(ctx, what + ": bit rate", rate, "VBR (128.0 Kbit/sec max)" if "vbr" in tags else "128.0 Kbit/sec (CBR)" if "cbr" in tags else "128.0 Kbit/sec (max)")


def objects(case, ctx):
    """Content description, codecs, mutual exclusions, extensions, index, unknown objects in any place"""
    for texts in itertools.product((None, "", "x", "Some \u00e9 words"), repeat=5):
        if len([t for t in texts if t]) > 1 and texts[3] != texts[4]:
            continue
        what = "ASF file with the content description %s" % (texts,)
        p = parse(ctx, what, [contents(*texts)])
        f = p["header/content/metadata/content"]
        raw = [len(text(t)) if t is not None else 0 for t in texts]
        fields(ctx, what, f, **{"size__%d" % i: n for i, n in enumerate(raw)}, **{k: t if t is not None else "no field" for k, t in zip(("title", "author", "copyright"), texts)})
        expect(ctx, what + ": texts", [x.value for x in f if not x.name.startswith("size[")], [t for t in texts if t is not None])
        check_meta(ctx, what, metadata(p), **{k: t or None for k, t in zip(("title", "author", "copyright"), texts)})
    codecs = [(2, "Windows Media Audio", "64 kbps", b"\x61\1"), (1, "Video 9", "", b"WMV3"), (1, "", "desc", b""), (0xFFFF, "", "", b"info"), (2, "caf\u00e9", "d", b"")]
    for n in range(0, 4):
        for seq in itertools.product(codecs, repeat=n):
            what = "ASF codecs %s" % (seq,)
            raw = b"".join(struct.pack("<HH", t, len(a)) + a.encode("utf-16-le") + struct.pack("<H", len(b)) + b.encode("utf-16-le") + struct.pack("<H", len(x)) + x for t, a, b, x in seq)
            p = parse(ctx, what, [obj("codec_list", guid("other") + struct.pack("<I", n) + raw), file_prop()])
            f = p["header/content/codec_list/content"]
            fields(ctx, what, f, count=n)
            for k, (t, a, b, x) in enumerate(seq):
                fields(ctx, what, f["codec[%d]" % k], type=t, name_len=len(a), desc_len=len(b), info_len=len(x), name=a or "no field", desc=b or "no field", info=x or "no field")
                expect(ctx, what + ": kind", f["codec[%d]/type" % k].display, {1: "video", 2: "audio"}.get(t, "65535"))
    for kind, n in itertools.product(list(MUTEX) + ["other"], range(4)):
        what = "ASF mutual exclusion of %s streams, %s" % (n, kind)
        p = parse(ctx, what, [obj("mutex", guid(MUTEX.get(kind, kind)) + struct.pack("<H", n) + b"".join(struct.pack("<H", 9 - i) for i in range(n)))])
        f = p["header/content/bitrate_mutex/content"]
        fields(ctx, what, f, exclusion_type=MUTEX.get(kind, IDS.get(kind)), nb_stream=n, **{"stream__%d" % i: 9 - i for i in range(n)})
        expect(ctx, what + ": name", f["exclusion_type"].display if kind in MUTEX else f["exclusion_type"].value, kind if kind in MUTEX else IDS[kind])
    pool = {"file_prop": file_prop(), "header_ext": obj("header_ext", guid("other") + struct.pack("<HI", 6, 3) + b"ext"), "header_ext0": obj("header_ext", guid("other") + struct.pack("<HI", 6, 0)), "other": obj("other", b"something"), "empty": obj("other"),
            "ext_desc": desc([]), "bit_rates": obj("bit_rates", struct.pack("<H", 0)), "metadata": contents(None, None, "c", None, None)}
    after = {"data": data_object(), "data0": data_object(b"", 0), "index": None, "other": obj("other", b"xyz"), "empty": obj("other")}
    for n in range(0, 4):
        for seq in itertools.permutations(pool, n):
            if "header_ext" in seq and "header_ext0" in seq:
                continue
            for rest in ((), ("data",), ("data0", "index"), ("other", "data"), ("data", "empty", "index"), ("data", "index", "other")) if n < 3 else (("data", "index"),):
                idx = [(5, 1), (1 << 31, 65535), (0, 0)][:n]
                raw = guid(FILE_ID) + struct.pack("<QII", 10000000, 77, len(idx)) + b"".join(struct.pack("<IH", *i) for i in idx)
                what = "ASF objects %s then %s" % (seq, rest)
                p = parse(ctx, what, [pool[s] for s in seq], [after[r] or obj("simple_index", raw) for r in rest])
                at, count = 30, 0
                names = []
                for s in seq:
                    name = s.rstrip("0")
                    if name in ("other", "empty"):
                        name = "object[%d]" % count
                        count += 1
                    names.append((name, at, len(pool[s])))
                    at += len(pool[s])
                h = p["header/content"]
                expect(ctx, what + ": objects", [(x.name, x.absolute_address // 8, x.size // 8) for x in h if x.name not in ("obj_count", "reserved[0]")], names)
                for x, s in zip([x for x in h if x.is_field_set], seq):
                    fields(ctx, what, x, size=len(pool[s]))
                    if s in ("other", "empty"):
                        fields(ctx, what, x, guid=IDS["other"], content=b"something" if s == "other" else "no field")
                    if s.startswith("header_ext"):
                        fields(ctx, what, x["content"], size=0 if s[-1] == "0" else 3, data="no field" if s[-1] == "0" else b"ext")
                names = ["header"] + [{"data0": "data", "index": "simple_index"}.get(r, r) if r not in ("other", "empty") else "object[%d]" % sum(q in ("other", "empty") for q in rest[:i]) for i, r in enumerate(rest)]
                expect(ctx, what + ": next objects", [x.name for x in p], names)
                if "data" in p:
                    fields(ctx, what, p["data/content"], file_id=FILE_ID, packet_count=3 if "data" in rest else 0, data=b"packets" if "data" in rest else "no field")
                if "simple_index" in p:
                    fields(ctx, what, p["simple_index/content"], file_id=FILE_ID, entry_interval=datetime.timedelta(seconds=1), max_pckt_count=77, entry_count=len(idx), **{"entry__%d__pckt_number" % i: a for i, (a, b) in enumerate(idx)},
                           **{"entry__%d__pckt_count" % i: b for i, (a, b) in enumerate(idx)})


if __name__ == "__main__":
    c = lib.Check("A19", "model_checking",
                  "all values of the file properties; sequences of streams of all kinds with any number and order of the bit rates; sets of descriptions of all types; sequences of all objects: place and value of each field, and metadata",
                  bounds={"streams": "up to 3 (thorough: 4) of 6 kinds", "descriptions": "up to 3 of %s, in all orders" % len(ITEMS), "objects": "up to 3 in the header, 3 after"})
    q = c.quick
    c.domain("files", [{}], files)
    c.domain("streams", [{"n": 3 if q else 4, "first": k} for k in range(6)], streams, batch=1)
    c.domain("descriptions", [{"n": 3, "first": k} for k in range(len(ITEMS))], descriptions, batch=1)
    c.domain("objects", [{}], objects)
    c.main()
