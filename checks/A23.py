"""A23: RealMedia and RealAudio files are shown as they were written: chunks, streams, properties, texts, metadata."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, expect, get, metadata, opened
from hachoir.parser.audio.real_audio import RealAudioFile
from hachoir.parser.container.realmedia import RealMediaFile


def p8(s, charset="latin-1"):
    b = s.encode(charset)
    return bytes([len(b)]) + b


def p16(s):
    b = s.encode("latin-1")
    return struct.pack(">H", len(b)) + b


def chunk(tag, name, body=b"", version=0, **want):
    if not want and body:
        want["raw"] = body
    return tag + struct.pack(">IH", 10 + len(body), version) + body, name, dict(want, tag=tag.decode(), size=10 + len(body), version=version)


def head(n=5, version=0, filever=0):
    return chunk(b".RMF", "header", struct.pack(">II", filever, n), version, filever=filever, numheaders=n)


FILE = ("max_bit_rate", "avg_bit_rate", "max_pkt_size", "avg_pkt_size", "num_pkts", "duration", "preroll", "index_offset", "data_offset", "stream_count")


def prop(values=(32000, 31000, 600, 500, 10, 17066, 3000, 0x1234, 0x200, 2), flags=3):
    return chunk(b"PROP", "file_prop", struct.pack(">9IHH", *values, flags), 0, **dict(zip(FILE, values)), is_live=bool(flags & 4), is_perfect_play=bool(flags & 2), is_saveable=bool(flags & 1), reserved=flags >> 3)


def cont(*texts):
    return chunk(b"CONT", "content_desc", b"".join(p16(t) for t in texts), 0, **{k: t.strip(" \0") for k, t in zip(("title", "author", "copyright", "comment"), texts)})


MEDIA = ("stream_number", "max_bit_rate", "avg_bit_rate", "max_pkt_size", "avg_pkt_size", "stream_start", "preroll", "duration")


def mdpr(values=(0, 33000, 32148, 640, 600, 0, 2000, 17000), desc="Audio Stream", mime="audio/x-pn-realaudio", specific=b"specific", info=None):
    want = dict(zip(MEDIA, values), desc=desc, mime_type=mime, specific_size=len(specific))
    if info is not None:
        want.update({"file_info/" + k: v for k, v in info.items()})
        want["specific"] = "no field"
    else:
        want["specific"] = specific or "no field"
        want["file_info"] = "no field"
    return chunk(b"MDPR", "stream_prop", struct.pack(">H7I", *values) + p8(desc) + p8(mime) + struct.pack(">I", len(specific)) + specific, 0, **want)


def info(streams=(), rules=(), props=()):
    """streams: (number, offset); props: (name, value)"""
    want = {"obj_version": 0, "nb_physical_stream": len(streams), "nb_rule": len(rules), "nb_prop": len(props)}
    b = struct.pack(">HH", 0, len(streams)) + b"".join(struct.pack(">H", s) for s, _ in streams) + b"".join(struct.pack(">I", o) for _, o in streams)
    b += struct.pack(">H", len(rules)) + b"".join(struct.pack(">H", r) for r in rules) + struct.pack(">H", len(props))
    for i, (s, o) in enumerate(streams):
        want["physical_stream[%d]" % i] = s
        want["data_offset[%d]" % i] = o
    for i, r in enumerate(rules):
        want["rule[%d]" % i] = r
    for i, (n, v) in enumerate(props):
        x = struct.pack(">H", 0) + p8(n) + struct.pack(">I", 2) + p16(v)
        b += struct.pack(">I", len(x) + 4) + x
        want.update({"prop[%d]/" % i + k: y for k, y in (("size", len(x) + 4), ("obj_version", 0), ("name", n), ("type", 2), ("value", v.strip(" \0")))})
    want["size"] = len(b) + 4
    return mdpr((5, 0, 0, 0, 0, 0, 0, 0), "", "logical-fileinfo", struct.pack(">I", len(b) + 4) + b, want), {n.lower(): v for n, v in props}


DATA = chunk(b"DATA", "data", b"\0\0\0\1\0\0\0\0" + b"packet" * 5)
INDX = chunk(b"INDX", "file_index", b"\0\0\0\1\0\0\0\0\0\0" + b"index")
ODD = chunk(b"RMMD", "chunk", b"?")
VIDEO = mdpr((1, 99000, 90000, 1000, 900, 7, 1, 16000), "Video Stream", "video/x-pn-realvideo", b"VIDO")
KEYS = {"generated by": "producer", "description": "comment"}


def check(ctx, what, chunks):
    data = b"".join(c[0] for c in chunks)
    p = opened(ctx, data, RealMediaFile)
    contiguous(ctx, what, p, len(data) * 8, 3)
    at, want, count = 0, [], {}
    for raw, name, _ in chunks:
        k = count.get(name, 0)
        count[name] = k + 1
        want.append((name if name in ("header", "file_prop", "content_desc", "chunk") and not k else "%s[%d]" % (name, k), at, len(raw)))
        at += len(raw)
    if not expect(ctx, what + ": chunks", [(f.name, f.address // 8, f.size // 8) for f in p], want):
        return p
    for (name, _, _), (_, _, w) in zip(want, chunks):
        for k, v in w.items():
            if get(p, name + "/" + k) != v:
                ctx.report("%s: %s/%s is %r, expected %r" % (what, name, k, get(p, name + "/" + k), v))
    mimes = [c[2].get("mime_type") for c in chunks if c[1] == "stream_prop"]
    expect(ctx, what + ": type", p.mime_type, "video/x-pn-realvideo" if "video/x-pn-realvideo" in mimes else "audio/x-pn-realaudio")
    return p


def ms(n):
    return datetime.timedelta(milliseconds=n)


def check_streams(ctx, what, p, chunks, **want):
    m = metadata(p)
    props = [c[2] for c in chunks if c[1] == "file_prop"]
    if props:
        want.update(bit_rate=props[0]["avg_bit_rate"], duration=ms(props[0]["duration"]))
    check_meta(ctx, what + ": metadata", m, **want)
    streams = [c[2] for c in chunks if c[1] == "stream_prop"]
    for i, s in enumerate(streams):
        try:
            g = m["stream[%d]" % i]
        except (LookupError, TypeError):
            ctx.report("%s: no group of stream %s" % (what, i))
            continue
        logical = s["mime_type"] == "logical-fileinfo"
        check_meta(ctx, "%s: stream %s" % (what, i), g, comment="Start: %s" % s["stream_start"], title=s["desc"] or None, bit_rate=None if logical else s["avg_bit_rate"], duration=None if logical else ms(s["duration"]), mime_type=None if logical else s["mime_type"])


def headers(case, ctx):
    for version, filever, n in itertools.product((0, 1), (0, 1, 2**32 - 1), (0, 5, 2**32 - 1)):
        check(ctx, "RealMedia header %s" % ((version, filever, n),), [head(n, version, filever), prop(), DATA])
    for k, v in itertools.product(range(10), (0, 1, 255, 256, 65535, 2**31 - 1, 2**32 - 1)):
        values = [32000, 31000, 600, 500, 10, 17066, 3000, 0x1234, 0x200, 2]
        values[k] = v if k < 9 else v & 0xFFFF
        chunks = [head(), prop(tuple(values)), DATA]
        what = "RealMedia property %s of %s" % (FILE[k], values[k])
        p = check(ctx, what, chunks)
        if 0 < values[1] < 2**31 - 1 and 0 < values[5] < 2**24:
            check_streams(ctx, what, p, chunks)
    for flags in list(range(8)) + [1 << i for i in range(16)] + [0xFFFF]:
        check(ctx, "RealMedia flags %04x" % flags, [head(), prop(flags=flags)])
    for k, v in itertools.product(range(8), (0, 1, 255, 256, 65535, 2**30)):
        values = [0, 33000, 32148, 640, 600, 0, 2000, 17000]
        values[k] = v if k else v & 0xFFFF
        chunks = [head(), prop(), mdpr(tuple(values))]
        what = "RealMedia stream property %s of %s" % (MEDIA[k], values[k])
        p = check(ctx, what, chunks)
        if 0 < values[2] < 2**29 and 0 < values[7] < 2**24:
            check_streams(ctx, what, p, chunks)
    for desc, mime, specific in itertools.product(("", "a", "x" * 255, "\xe9t\xe9"), ("", "audio/x-pn-realaudio", "video/x-pn-realvideo", "text/" + "y" * 240), (b"", b"s", b"t" * 70000)):
        check(ctx, "RealMedia stream %s" % ((desc[:9], mime[:9], len(specific)),), [head(), mdpr(desc=desc, mime=mime, specific=specific), DATA])


TEXTS = ["", "Title", " spaces \0", "\xa92000 \xe9", "long" * 60]


def texts(case, ctx):
    for t in itertools.product(TEXTS, repeat=4):
        chunks = [head(), prop(), cont(*t), mdpr(), DATA]
        what = "RealMedia texts %s" % ([x[:9] for x in t],)
        p = check(ctx, what, chunks)
        s = [x.strip(" \0") or None for x in t]
        check_streams(ctx, what, p, chunks, title=s[0], author=s[1], copyright=s[2], comment=s[3])
    pool = [("Generated By", "Producer 6"), ("Description", "text"), ("Creation Date", "6/14/2000 10:03:18"), ("Modification Date", "6/14/2001 11:04:19"), ("Other", "value"), ("Audiences", "")]
    for n in range(0, case["n"] + 1):
        for ps in itertools.permutations(pool, n):
            i, d = info(props=ps)
            chunks = [head(), prop(), mdpr(), i, DATA]
            what = "RealMedia properties %s" % ([x[0] for x in ps],)
            p = check(ctx, what, chunks)
            check_streams(ctx, what, p, chunks, producer=d.get("generated by"), comment=d.get("description"), creation_date=datetime.datetime(2000, 6, 14, 10, 3, 18) if "creation date" in d else None,
                          last_modification=datetime.datetime(2001, 6, 14, 11, 4, 19) if "modification date" in d else None)
    for ns, nr, np in itertools.product(range(4), range(4), range(3)):
        i, d = info([(k + 1, 0x10000 * k + 7) for k in range(ns)], [k * 9 for k in range(nr)], pool[:np])
        chunks = [head(), prop(), i, mdpr(), DATA]
        p = check(ctx, "RealMedia logical stream %s" % ((ns, nr, np),), chunks)
        check_streams(ctx, "RealMedia logical stream %s" % ((ns, nr, np),), p, chunks, producer="Producer 6" if np else None)


def sequences(case, ctx):
    pool = [prop(), cont("T", "A", "C", "D"), mdpr(), VIDEO, info(props=[("Generated by", "P")])[0], DATA, INDX, mdpr(mime="text/x", specific=b"", desc="")]
    for n in range(0, case["n"] + 1):
        for seq in itertools.product(range(len(pool)), repeat=n):
            if n and seq[0] != case["first"] or not n and case["first"]:
                continue
            if seq.count(0) > 1 or seq.count(1) > 1:
                continue
            chunks = [head(n)] + [pool[i] for i in seq]
            what = "RealMedia chunks %s" % (seq,)
            p = check(ctx, what, chunks)
            check_streams(ctx, what, p, chunks, **dict(zip(("title", "author", "copyright", "comment"), ("T", "A", "C", "D"))) if 1 in seq else {})


RATES = {"28_8": 15200, "14_4": 8000, "lpcJ": 8000}


def audio(case, ctx):
    words = ["", "a", "\xe9\xe8", "w" * 255]
    for version, fourcc, n, t in itertools.product((3, 4), ("lpcJ", "28_8", "14_4", "dnet", ""), (0, 1, 3000), itertools.product(words, repeat=4)):
        if case["i"] != (len(t[0]) + len(t[1])) % 4:
            continue
        what = "RealAudio file of version %s %r, %s bytes, %s" % (version, fourcc, n, [x[:5] for x in t])
        meta = b"".join(p8(x) for x in t)
        sound = b"s" * n
        want = {"version": version, "audio_data": sound or "no field", "FourCC": fourcc}
        want.update(zip(("metadata/title", "metadata/author", "metadata/copyright", "metadata/comment"), t))
        if version == 3:
            rest = b"0123456789" + struct.pack(">I", n) + meta + b"\0" + p8(fourcc)
            data = b".ra\xfd" + struct.pack(">HH", 3, len(rest)) + rest
            want.update(header_size=len(rest), Unknown1=b"0123456789", data_size=n)
            rate, chans = 8000, 1
        else:
            rate, chans = (8000, 22050, 44100)[n % 3], 1 + n % 2
            rest = struct.pack(">HI", 2, 240) + b"ABCDEFGHIJKL" + struct.pack(">8H", 12, 228, 19, 0, rate, 7, 16, chans) + p8("Int4") + p8(fourcc) + b"\1\7\0" + meta
            data = b".ra\xfd" + struct.pack(">HH4sIHI", 4, 0, b".ra4", 0, 4, len(rest) + 6 + 0) 
            # the sizes are counted from the bytes 40 and 16
            total = len(data) + len(rest)
            data = b".ra\xfd" + struct.pack(">HH4sIHI", 4, 0, b".ra4", total + n - 40, 4, total - 16)
            data += rest
            want.update(reserved1=0, ra4sig=".ra4", filesize=total + n - 40, version2=4, headersize=total - 16, codec_flavor=2, coded_frame_size=240, unknown1=b"ABCDEFGHIJKL", subpacketh=12, frame_size=228, sub_packet_size=19, sample_rate=rate, sample_size=16, channels=chans)
            want.update({"Interleaving ID String": "Int4", "unknown4": b"\1\7\0"})
        p = opened(ctx, data + sound, RealAudioFile)
        contiguous(ctx, what, p, (len(data) + n) * 8, 2)
        for k, v in want.items():
            expect(ctx, what + ": " + k, get(p, k), v)
        human = {8000: "8.0 kHz", 22050: "22.1 kHz", 44100: "44.1 kHz"}[rate]
        expect(ctx, what + ": description", p.description, "RealAudio v3 file, '%s' codec" % fourcc if version == 3 else "RealAudio v4 file, '%s' codec, %s, %s channels" % (fourcc, human, chans))
        s = [x or None for x in t]
        r = RATES.get(fourcc)
        if len(set(s)) == 4:
            check_meta(ctx, what + ": metadata", metadata(p), title=s[0], author=s[1], copyright=s[2], comment=s[3], sample_rate=rate, nb_channel=chans, bits_per_sample=16, compression=fourcc or None, bit_rate=r,
                       format_version="Real audio version %s" % version, duration=datetime.timedelta(seconds=n * 8 / r) if r and n * 8000 >= r else None)      # (durations are at least 1 ms)


if __name__ == "__main__":
    c = lib.Check("A23", "model_checking",
                  "all values of the headers and streams, all texts and sets of properties, all sequences of chunks of RealMedia files; all texts, codecs and sizes of RealAudio files of both versions: place and value of each field, type and metadata of the file and of its streams",
                  bounds={"chunks": "up to 4 of 8 (thorough: 5)", "properties": "up to 3 of 6 (thorough: 5)"})
    q = c.quick
    c.domain("headers", [{}], headers)
    c.domain("texts", [{"n": 3 if q else 5}], texts)
    c.domain("sequences", [{"n": 4 if q else 5, "first": k} for k in range(8)], sequences, batch=1)
    c.domain("RealAudio", [{"i": i} for i in range(4)], audio, batch=1)
    c.main()
