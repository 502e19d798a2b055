"""A09: JPEG pictures (chunks, entropy coded data, quality), EXIF and IPTC data, and TIFF pictures are shown as they were written."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct, expect, fields, get, metadata, opened, plain
from hachoir.parser.image import CR2File, JpegFile, TiffFile

# --- JPEG ---

ZIGZAG = sorted(range(64), key=lambda n: (n // 8 + n % 8, (n // 8 if (n // 8 + n % 8) % 2 else n % 8)))


def chunk(kind, body):
    return bytes([255, kind]) + struct.pack(">H", len(body) + 2) + body


APP0 = chunk(0xE0, b"JFIF\0\1\2\1\0\x48\0\x60\0\0")


class Tree:
    """Huffman table of symbols, with codes of the given lengths (sorted)"""

    def __init__(self, kind, number, symbols, lengths):
        self.kind, self.number, self.symbols, self.lengths = kind, number, symbols, lengths
        self.codes, code, last = {}, 0, 0
        for s, n in zip(symbols, lengths):
            code <<= n - last
            last = n
            self.codes[s] = code, n
            code += 1
        assert code < 1 << last         # (the code of ones only is not used)

    def data(self):
        return bytes([self.kind << 4 | self.number]) + bytes(self.lengths.count(n) for n in range(1, 17)) + bytes(self.symbols)


def lengths(n, style):
    """Lengths of n codes: all equal, or one longer than the other"""
    if style == "equal":
        return [max(1, n.bit_length())] * n
    if style == "long":
        return [2 + n.bit_length()] * (n - 2) + [16, 16]
    return [min(k + 1, 15) for k in range(n)] if n < 15 else [k + 1 for k in range(10)] + [16] * (n - 10)


DCS = [0, 1, 2, 3, 5, 8, 11]
ACS = [0x00, 0xF0, 0x01, 0x02, 0x03, 0x08, 0x0A, 0x11, 0x71, 0xE8]


class Writer:

    def __init__(self):
        self.bits = ""

    def put(self, value, n):
        if n:
            self.bits += bin(value)[2:].rjust(n, "0")

    def done(self):
        self.bits += "1" * (-len(self.bits) % 8)
        raw = bytes(int(self.bits[k:k + 8], 2) for k in range(0, len(self.bits), 8))
        self.bits = ""
        return raw.replace(b"\xff", b"\xff\0")


def extra(v):
    n = abs(v).bit_length()
    return n, (v if v > 0 else v + (1 << n) - 1) if n else 0


def put_block(w, block, dc, ac):
    """Write (dc, [(run, value)…]); the expected fields: name, value, size without stuffing, what the description says"""
    out = []
    n, e = extra(block[0])
    code, size = dc.codes[n]
    w.put(code, size)
    out.append(("dc_data", code, "DC Code %i (Huffman Code %i)" % (n, code)))
    if n:
        w.put(e, n)
        out.append(("dc_data_extra", e, "Extra Bits: Corrected DC Value %i" % block[0]))
    count = 0
    for k, (run, v) in enumerate(list(block[1])):
        n, e = extra(v)
        code, size = ac.codes[run << 4 | n]
        w.put(code, size)
        out.append(("ac_data[%s]" % k, code, "AC Code %i, %i (Huffman Code %i)" % (run, n, code)))
        if n:
            w.put(e, n)
            out.append(("ac_data_extra[%s]" % k, e, "Extra Bits: Corrected AC Value %i" % v))
        count += run + 1
    if count < 63:
        code, size = ac.codes[0]
        w.put(code, size)
        out.append(("ac_data[%s]" % len(block[1]), code, "AC Code Block Terminator (0, 0) (Huffman Code %i)" % code))
    assert count <= 63
    return out


def picture(width, height, comps, scans, restart, blocks, style, ids, sof=0xC0, before=b"", tables=None):
    """comps: (h, v) of each component; scans: tuples of components; the data and the expected: per piece of image data, list of (name, fields)"""
    dc = [Tree(0, k, DCS, lengths(len(DCS), style)) for k in (0, 1)]
    ac = [Tree(1, k, ACS[::-1] if k else ACS, lengths(len(ACS), style)) for k in (0, 1)]
    out = b"\xff\xd8" + APP0 + before + chunk(0xDB, b"\0" + bytes(range(1, 65)))
    out += chunk(sof, struct.pack(">BHHB", 8, height, width, len(comps)) + b"".join(bytes([ids[k], h << 4 | v, 0]) for k, (h, v) in enumerate(comps)))
    out += b"".join(chunk(0xC4, t.data()) for t in dc + ac)
    if restart:
        out += chunk(0xDD, struct.pack(">H", restart))
    hmax, vmax = max(h for h, v in comps), max(v for h, v in comps)
    pieces = []
    k = 0
    for scan in scans:
        out += chunk(0xDA, bytes([len(scan)]) + b"".join(bytes([ids[c], (c % 2) * 17]) for c in scan) + b"\0\x3f\0")
        if len(scan) == 1:
            h, v = comps[scan[0]]
            w = -(-(-(-width * h // hmax)) // 8)
            hh = -(-(-(-height * v // vmax)) // 8)
            units = [(scan[0], 1)]
        else:
            w, hh = -(-width // (8 * hmax)), -(-height // (8 * vmax))
            units = [(c, comps[c][0] * comps[c][1]) for c in scan]
        bits, want = Writer(), []
        marker = 0
        for mcu in range(w * hh):
            if restart and mcu and mcu % restart == 0:
                raw = bits.done()
                pieces.append((len(out), raw, want))
                out += raw + bytes([255, 0xD0 + marker % 8])
                marker += 1
                want = []
            for c, n in units:
                for j in range(n):
                    name = "block[%s]component[%s][%s]" % (mcu, ids[c], j)
                    want.append((name, put_block(bits, blocks[k % len(blocks)], dc[c % 2], ac[c % 2])))
                    k += 1
        raw = bits.done()
        pieces.append((len(out), raw, want))
        out += raw
    return out + b"\xff\xd9", pieces


BLOCKS = [(0, ()), (1, ()), (-1, ((0, 1),)), (31, ((0, 255),)), (-31, ((1, -1), (7, 1))), (255, ((0, 255), (0, -255), (14, 255))), (2047, ((15, 0), (15, 0), (0, 1023))), (7, ((0, 1),) * 63), (-200, ((15, 0), (15, 0), (15, 0), (14, 255))), (5, ((0, -7), (1, 1), (0, 3)))]


def check_pieces(ctx, what, p, pieces):
    got = p.array("image_data")
    if not expect(ctx, what + ": pieces of image data", [(f.absolute_address, f.size) for f in got], [(at * 8, len(raw) * 8) for at, raw, _ in pieces]):
        return
    for f, (at, raw, want) in zip(got, pieces):
        blocks = [x for x in f if x.is_field_set]
        if not expect(ctx, "%s: blocks of %s" % (what, f.path), [x.name for x in blocks], [n for n, _ in want]):
            return
        contiguous(ctx, what, f, len(raw) * 8, 2)
        for x, (_, items) in zip(blocks, want):
            seen = [(y.name, y.value, y.description.split("[skipped")[0].strip()) for y in x]
            if not expect(ctx, "%s: codes of %s" % (what, x.path), seen, items):
                return


def entropy(case, ctx):
    """Sequences of blocks of all kinds at all bit positions"""
    style = case["style"]
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(BLOCKS)), repeat=n):
            if sum(seq) % case["of"] != case["i"]:
                continue
            blocks = [BLOCKS[k] for k in seq]
            data, pieces = picture(8 * n, 8, [(1, 1)], [(0,)], 0, blocks, style, [1])
            what = "JPEG blocks %s, %s codes" % (list(seq), style)
            p = direct(ctx, data, JpegFile)
            contiguous(ctx, what, p, len(data) * 8, 2)
            check_pieces(ctx, what, p, pieces)


def scans_of(n):
    if n == 1:
        return [[(0,)]]
    if n == 2:
        return [[(0, 1)], [(0,), (1,)]]
    return [[(0, 1, 2)], [(0,), (1,), (2,)], [(0,), (1, 2)], [(2,), (0, 1)]]


def layouts(case, ctx):
    """Components, sampling factors, scans, restart intervals, dimensions"""
    comps = case["comps"]
    for scans in scans_of(len(comps)):
        for width, height in itertools.product((1, 8, 9, 16, 17, 25), (8, 17)):
            for restart in (0, 1, 2, 3):
                for ids in ([1, 2, 3], [0, 1, 2], [82, 71, 66]):
                    if ids[0] != 1 and (width, restart) != (9, 2):
                        continue
                    for sof in (0xC0, 0xC1):
                        if sof == 0xC1 and width != 9:
                            continue
                        data, pieces = picture(width, height, comps, scans, restart, BLOCKS[:5], "staircase", ids, sof)
                        what = "JPEG %sx%s, components %s, scans %s, restart %s, numbers %s" % (width, height, comps, scans, restart, ids)
                        p = opened(ctx, data, JpegFile)
                        contiguous(ctx, what, p, len(data) * 8, 1)
                        check_pieces(ctx, what, p, pieces)
                        expect(ctx, what + ": description", (p.description, p.content_size), ("JPEG picture: %sx%s pixels" % (width, height), len(data) * 8))
                        f = p["start_frame/content"]
                        fields(ctx, what, f, precision=8, width=width, height=height, nr_components=len(comps))
                        for k, (h, v) in enumerate(comps):
                            fields(ctx, what, f["component[%s]" % k], component_id=ids[k], horiz_sample=h, vert_sample=v, quant_table=0)
                        for scan, s in zip(scans, p.array("start_scan")):
                            fields(ctx, what, s["content"], nr_components=len(scan), spectral_start=0, spectral_end=63)
                            for j, c in enumerate(scan):
                                fields(ctx, what, s["content/component[%s]" % j], component_id=ids[c], dc_coding_table=c % 2, ac_coding_table=c % 2)
                        m = metadata(p)
                        n = len(comps)
                        check_meta(ctx, what, m, width=width, height=height, bits_per_pixel=8 * n, pixel_format={1: "Grayscale", 3: "YCbCr"}.get(n), nb_colors=256 if n == 1 else None,
                                   compression="JPEG (Baseline)" if sof == 0xC0 else "JPEG (Extended sequential)", format_version="JFIF 1.02", width_dpi=72, height_dpi=96)
                        if (width, restart) == (9, 2):
                            more = opened(ctx, data + b"\xff\xd8 more", JpegFile, strict=False)
                            expect(ctx, what + ": size when data follow", more.content_size, len(data) * 8)


LUMA = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62, 18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99]
CHROMA = [17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99] + [99] * 32


def scaled(base, quality):
    factor = 5000 // quality if quality < 50 else 200 - quality * 2
    return [min(255, max(1, (v * factor + 50) // 100)) for v in base]


def zigzag(t):
    out, x, y, up = [], 0, 0, True
    for _ in range(64):
        out.append(t[y * 8 + x])
        if up:
            if x == 7:
                y, up = y + 1, False
            elif y == 0:
                x, up = x + 1, False
            else:
                x, y = x + 1, y - 1
        else:
            if y == 7:
                x, up = x + 1, True
            elif x == 0:
                y, up = y + 1, True
            else:
                x, y = x - 1, y + 1
    return out


def quality(case, ctx):
    """The tables of every quality of the usual program, in one or two chunks, on 8 or 16 bits"""
    for q in range(1, 101):
        for color, split, wide in itertools.product((False, True), repeat=3):
            tables = [scaled(LUMA, q)] + ([scaled(CHROMA, q)] if color else [])
            raw = [bytes([wide << 4 | k]) + (struct.pack(">64H", *zigzag(t)) if wide else bytes(zigzag(t))) for k, t in enumerate(tables)]
            data = b"\xff\xd8" + APP0 + (b"".join(chunk(0xDB, r) for r in raw) if split else chunk(0xDB, b"".join(raw)))
            data += chunk(0xC0, struct.pack(">BHHB", 8, 8, 8, 1) + b"\1\x11\0") + b"\xff\xd9"
            what = "quality %s, %s, %s bits%s" % (q, "color" if color else "gray", 16 if wide else 8, ", two chunks" if split else "")
            p = direct(ctx, data, JpegFile)
            contiguous(ctx, what, p, len(data) * 8, 3)
            got = [t for c in p.array("quantization") for t in c["content"].array("qt")]
            for k, (t, g) in enumerate(zip(tables, got)):
                fields(ctx, what, g, index=k, is_16bit=int(wide))
                expect(ctx, "%s: table %s" % (what, k), [g["coeff[%s]" % j].value for j in range(64)], t)
                expect(ctx, what + ": description", g.description, "Quantification table #%s" % k)
            expect(ctx, what + ": number of tables", len(got), len(tables))
            check_meta(ctx, what, metadata(p), comment="JPEG quality: %s%%" % q)


def chunks(case, ctx):
    """Sequences of chunks of all kinds"""
    every = [(0xFE, "comment", b"A comment"), (0xFE, "comment", b"second\0"), (0xE2, "icc", b"ICC_PROFILE\0\1\1data"), (0xEE, "adobe", b"Adobe\0\x65\0\0\0\0\1"), (0xEC, "app12", b"Ducky\0\1\0\4\0\0\0\x3c\0\0"), (0xE1, None, b"http://ns.adobe.com/xap/1.0/\0<x/>"),
             (0xDB, "quantization", b"\0" + b"\1" * 64), (0xEE, "adobe", b"other"), (0xFE, "comment", b""), (0xED, "photoshop", b"Photoshop 3.0\x008BIM\4\x0b\0\0\0\0\0\3url\0")]
    for n in range(case["n"] + 1):
        for seq in itertools.product(range(len(every)), repeat=n):
            if n and seq[0] % case["of"] != case["i"] or not n and case["i"]:
                continue
            if sum(every[k][1] in ("icc", "adobe", "app12", "photoshop") for k in seq) != len({every[k][1] for k in seq if every[k][1] in ("icc", "adobe", "app12", "photoshop")}):
                continue
            items = [every[k] for k in seq]
            for first in (chunk(0xE0, b"JFIF\0\1\1\0\0\3\0\4\0\0"), chunk(0xE0, b"JFIF\0\1\2\2\0\x64\0\x65\2\3" + bytes(range(18)))):
                raw = [first] + [chunk(k, b) for k, _, b in items]
                data = b"\xff\xd8" + b"".join(raw) + chunk(0xC0, struct.pack(">BHHB", 8, 16, 24, 1) + b"\1\x11\0") + b"\xff\xd9"
                what = "JPEG chunks %s%s" % ([(n, len(b)) for _, n, b in items], ", with a thumbnail" if len(first) > 22 else "")
                p = opened(ctx, data, JpegFile)
                contiguous(ctx, what, p, len(data) * 8, 2)
                kinds = [b"\xd8", b"\xe0"] + [bytes([k]) for k, _, _ in items] + [b"\xc0", b"\xd9"]
                if not expect(ctx, what + ": chunks", bytes(f["type"].value for f in p), b"".join(kinds)):
                    continue
                a = p["app0/content"]
                if len(first) > 22:
                    fields(ctx, what, a, ver_maj=1, ver_min=2, units=2, x_density=100, y_density=101, thumb_w=2, thumb_h=3)
                    expect(ctx, what + ": thumbnail", a["thumb_data"].value, bytes(range(18)))
                else:
                    fields(ctx, what, a, ver_maj=1, ver_min=1, units=0, aspect_x=3, aspect_y=4, thumb_w=0, thumb_h=0)
                comments = []
                for f, (k, name, b) in zip(list(p)[2:], items):
                    fields(ctx, what, f, header=255, type=k, size=len(b) + 2)
                    if name and not f.name.startswith(name) or not name and not f.name.startswith("chunk["):
                        ctx.report("%s: %s is the chunk of type %x" % (what, f.name, k))
                    if name == "comment" and b:
                        comments.append(b.decode().rstrip("\0"))
                        fields(ctx, what, f, content__comment=b.decode().rstrip("\0"))
                    elif name == "icc" or not name:
                        expect(ctx, what + ": data", f["data"].value, b)
                    elif b.startswith(b"Adobe"):
                        fields(ctx, what, f, content__version=101, content__color_transform=1)
                    elif b == b"other":
                        expect(ctx, what + ": data", f["content/raw"].value, b)
                    elif name == "app12":
                        fields(ctx, what, f["content"], ducky="Ducky")
                        expect(ctx, what + ": ducky", [(x["type"].value, get(x, "data")) for x in f["content"].array("item")], [(1, b"\0\0\0\x3c"), (0, "no field")])
                    elif name == "photoshop":
                        expect(ctx, what + ": url", f["content/url/content"].value, b"url")
                m = metadata(p)
                have = (plain(m, "comment") or [])
                have = [have] if isinstance(have, str) else have
                missing = [c for c in comments if c not in have]
                if missing:
                    ctx.report("%s: comments %s are not in the metadata %s" % (what, missing, have))
                dpi = (254, 257) if len(first) > 22 else (None, None)
                got = plain(m, "width_dpi"), plain(m, "height_dpi")
                if (None in dpi and got != dpi) or None not in dpi and (None in got or abs(got[0] - 254) > 0.5 or abs(got[1] - 256.54) > 0.6):
                    ctx.report("%s: resolution of the metadata %s, expected %s" % (what, got, dpi))


def progressive(case, ctx):
    """Pictures whose data are in many scans of few components"""
    def scan(comps, first, last, high, low, raw):
        return chunk(0xDA, bytes([len(comps)]) + b"".join(bytes([c, 0x11]) for c in comps) + bytes([first, last, high << 4 | low])), raw
    pool = [scan((1, 2, 3), 0, 0, 0, 1, b"dc of all"), scan((1,), 1, 5, 0, 2, b"\xff\0ac"), scan((2,), 1, 63, 0, 1, b"a"), scan((3,), 1, 63, 0, 1, b"\1\2\3\xff\0"), scan((1,), 6, 63, 2, 1, b"x" * 300)]
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(pool)), repeat=n):
            for kind in (0xC2, 0xCA):
                data = b"\xff\xd8" + APP0 + chunk(kind, struct.pack(">BHHB", 8, 16, 24, 3) + b"\1\x22\0\2\x11\1\3\x11\1")
                at, want = [], []
                for k in seq:
                    head, raw = pool[k]
                    if k == 1:
                        data += chunk(0xC4, b"\x10" + b"\1" + b"\0" * 15 + b"\7")
                    data += head
                    at.append((len(data) * 8, len(raw) * 8))
                    want.append(head)
                    data += raw
                data += b"\xff\xd9"
                what = "progressive JPEG, scans %s" % list(seq)
                p = opened(ctx, data, JpegFile)
                contiguous(ctx, what, p, len(data) * 8, 0)
                expect(ctx, what + ": data", [(f.absolute_address, f.size) for f in p.array("image_data")], at)
                for f, head in zip(p.array("start_scan"), want):
                    c = f["content"]
                    expect(ctx, what + ": scan", ([x["component_id"].value for x in c.array("component")], c["spectral_start"].value, c["spectral_end"].value, c["bit_pos_high"].value << 4 | c["bit_pos_low"].value),
                           (list(head[5:-3:2]), head[-3], head[-2], head[-1]))
                check_meta(ctx, what, metadata(p), width=24, height=16, compression="JPEG (Progressive)" if kind == 0xC2 else "JPEG (Progressive, arithmetic coding)")
                expect(ctx, what + ": size", p.content_size, len(data) * 8)


# --- EXIF ---

SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 2, 9: 4, 10: 8, 11: 4, 12: 8}
FORMAT = {1: "B", 3: "H", 4: "I", 6: "b", 8: "h", 9: "i", 11: "f", 12: "d"}


def values_data(e, kind, values):
    if kind in (2, 7):
        return values
    if kind in (5, 10):
        return b"".join(struct.pack(e + ("II" if kind == 5 else "ii"), *v) for v in values)
    return struct.pack(e + FORMAT[kind] * len(values), *values)


class Dir:
    """A directory: entries (tag, type, values or Dir), the next one; name is the expected one"""

    def __init__(self, entries, next=None, name="ifd[0]"):
        self.entries, self.next, self.name = entries, next, name


def layout(e, root, start, order, gap):
    """Bytes from offset start; the directory entries have their offsets; places: {id(dir): offset}"""
    out = bytearray()
    dirs = []

    def put(d):
        at = start + len(out)
        dirs.append((d, at))
        n = len(d.entries)
        out.extend(b"\0" * (2 + 12 * n + 4))
        rows = []
        later = []
        for k in (range(n) if order == "same" else range(n - 1, -1, -1)):
            tag, kind, values = d.entries[k]
            if isinstance(values, Dir):
                later.append(k)
                continue
            raw = values_data(e, kind, values)
            count = len(values)
            if len(raw) <= 4:
                place = raw + b"\0" * (4 - len(raw))
            else:
                if len(out) % 2:
                    out.append(0)
                out.extend(b"\0" * gap)
                place = struct.pack(e + "I", start + len(out))
                out.extend(raw)
            rows.append((k, struct.pack(e + "HHI", tag, kind, count) + place))
        if len(out) % 2:
            out.append(0)
        for k in later:
            tag, kind, sub = d.entries[k]
            rows.append((k, struct.pack(e + "HHII", tag, kind, 1, put(sub))))
            if len(out) % 2:
                out.append(0)
        nxt = put(d.next) if d.next else 0
        rows.sort()
        base = at - start
        out[base:base + 2 + 12 * n + 4] = struct.pack(e + "H", n) + b"".join(r for _, r in rows) + struct.pack(e + "I", nxt)
        return at
    put(root)
    return bytes(out), dirs


def tiff(e, root, order="same", gap=0, lead=b""):
    head = (b"II" if e == "<" else b"MM") + struct.pack(e + "HI", 42, 8 + len(lead)) + lead
    body, dirs = layout(e, root, len(head), order, gap)
    return head + body, dirs


def exif_jpeg(body):
    return b"\xff\xd8" + chunk(0xE1, b"Exif\0\0" + body) + chunk(0xC0, struct.pack(">BHHB", 8, 16, 24, 1) + b"\1\x11\0") + b"\xff\xd9"


def close(a, b):
    return a == b or isinstance(a, float) and isinstance(b, (int, float)) and abs(a - b) <= 1e-6 * max(1, abs(b))


def wanted(kind, values):
    if kind == 2:
        return [values.decode("latin-1").strip("\0 ")]
    if kind == 7:
        return [values]
    if kind in (5, 10):
        return [a / b for a, b in values]
    return list(values)


def check_dir(ctx, what, ifd, d):
    entries = ifd.array("entry")
    if not expect(ctx, "%s: entries of %s" % (what, ifd.path), (ifd["count"].value, len(entries)), (len(d.entries),) * 2):
        return
    for x, (tag, kind, values) in zip(entries, d.entries):
        n = 1 if isinstance(values, Dir) else len(values)
        fields(ctx, what, x, tag=tag, type=kind, count=n)
        got = ifd.getEntryValues(x)
        if isinstance(values, Dir):
            continue
        want = wanted(kind, values)
        have = None if got is None else [g.value for g in got]
        if have is None or len(have) != len(want) or not all(map(close, have, want)):
            ctx.report("%s: values of entry %x of type %s in %s: %s, expected %s" % (what, tag, kind, ifd.path, lib.short(have, 100), lib.short(want, 100)))


POOL = {
    1: [b"\1", b"\1\2", b"\xff\0\x80\1", b"12345"], 2: [b"a\0", b"abc\0", b"abcd\0", b"caf\xe9 and more\0"], 3: [[0], [65535, 1], [1, 2, 3]], 4: [[0], [2 ** 32 - 1, 7]],
    5: [[(1, 3)], [(0, 1), (2 ** 32 - 1, 2)]], 6: [[-1], [-128, 127, 0], [1, 2, 3, 4, -5]], 7: [b"\0", b"0220", b"\1\2\3\4\5"], 8: [[-1], [-32768, 32767], [1, -2, 3]], 9: [[-1], [-2 ** 31, 2 ** 31 - 1]],
    10: [[(-1, 3)], [(1, -4), (0, 1)]], 11: [[1.5], [-0.25, 1e10]], 12: [[1.5], [-1e100, 0.1]],
}


def exif_entries(case, ctx):
    """Directories with all sequences of entries of all types"""
    e = case["e"]
    few = [(k, v) for k, vs in sorted(POOL.items()) for v in vs]
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(few)), repeat=n):
            if n > 1 and sum(seq) % case["of"] != case["i"] or n == 1 and case["i"]:
                continue
            entries = [(0x9000 + k if case["sub"] else 0x10E + k, few[j][0], few[j][1] if few[j][0] in (2, 7) else list(few[j][1])) for k, j in enumerate(seq)]
            for order, gap in (("same", 0), ("back", 0), ("same", 6)):
                d = Dir(entries)
                if case["sub"]:
                    d = Dir([(0x8769, 4, Dir(entries, name="exif[0]"))])
                body, dirs = tiff(e, d, order, gap, b"" if gap else b"lead")
                data = exif_jpeg(body)
                what = "EXIF %s, values in %s order, gap %s%s" % ([(few[j][0], lib.short(few[j][1], 20)) for j in seq], order, gap, ", sub directory" if case["sub"] else "")
                p = direct(ctx, data, JpegFile)
                x = p["exif/content"]
                fields(ctx, what, x, header="Exif\0\0", endian="II" if e == "<" else "MM", version=42, img_dir_ofs=8 if gap else 12)
                for dd, at in dirs:
                    f = x[dd.name]
                    expect(ctx, what + ": place", f.absolute_address, (12 + at) * 8)
                    check_dir(ctx, what, f, dd)
                fields(ctx, what, p, start_frame__content__width=24)


def exif_trees(case, ctx):
    """Directories in directories and behind directories; the thumbnail"""
    e = case["e"]
    thumb = b"\xff\xd8thumbnail\xff\xd9"
    mk = lambda tag: [(tag, 3, [7]), (tag + 1, 2, b"a longer text\0")]
    for exif, gps, interop, second, third, place in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1), ("same", "back")):
        if third and not second or interop and not exif:
            continue
        sub = Dir(mk(0x9000) + ([(0xA005, 4, Dir([(1, 2, b"R98\0")], name="exif_interop[0]"))] if interop else []), name="exif[0]")
        entries = mk(0x10E) + ([(0x8769, 4, sub)] if exif else []) + ([(0x8825, 4, Dir([(0, 1, b"\2\2\0\0"), (5, 1, b"\0")], name="exif_gps[0]"))] if gps else [])
        nxt = None
        if second:
            more = Dir(mk(0x100), name="ifd[2]") if third else None
            nxt = Dir(mk(0x10E) + ([(0x201, 4, [0]), (0x202, 4, [len(thumb)])] if second == 2 else []), more, name="ifd[1]")
        d = Dir(entries, nxt)
        body, dirs = tiff(e, d, place)
        if second == 2:
            nxt.entries[2] = (0x201, 4, [len(body)])
            body, dirs = tiff(e, d, place)
        data = exif_jpeg(body + thumb)
        what = "EXIF of directories %s%s" % ([x.name for x, _ in dirs], ", thumbnail" if second == 2 else "")
        p = opened(ctx, data, JpegFile)
        x = p["exif/content"]
        expect(ctx, what + ": directories", sorted(f.name for f in x if f.is_field_set), sorted(q.name for q, _ in dirs))
        for q, at in dirs:
            expect(ctx, what + ": place", x[q.name].absolute_address, (12 + at) * 8)
            check_dir(ctx, what, x[q.name], q)
        if second == 2:
            t = x["thumbnail[0]"]
            expect(ctx, what + ": thumbnail", (t.absolute_address, t.size, p.stream.readBytes(t.absolute_address, len(thumb))), ((12 + len(body)) * 8, len(thumb) * 8, thumb))
            check_meta(ctx, what, metadata(p), thumbnail_size=len(thumb))


def exif_meta(case, ctx):
    """What the metadata say of every known entry"""
    e = case["e"]
    when = datetime.datetime(2006, 11, 4, 1, 2, 3)
    main = {"camera_manufacturer": ((0x10F, 2, b"Maker\0"), "Maker"), "camera_model": ((0x110, 2, b"Model X\0"), "Model X"), "title": ((0x10E, 2, b"A title\0"), "A title"), "producer": ((0x131, 2, b"Program 1.0\0"), "Program 1.0"),
            "creation_date": ((0x132, 2, b"2006:11:04 01:02:03\0"), when)}
    orient = {1: "Horizontal (normal)", 2: "Mirrored horizontal", 3: "Rotated 180", 4: "Mirrored vertical", 5: "Mirrored horizontal then rotated 90 counter-clock-wise", 6: "Rotated 90 clock-wise", 7: "Mirrored horizontal then rotated 90 clock-wise", 8: "Rotated 90 counter clock-wise"}
    sub = {"camera_exposure": ((0x829A, 5, [(1, 125)]), 1 / 125), "camera_focal": ((0x829D, 5, [(28, 10)]), 2.8), "iso_speed_ratings": ((0x8827, 3, [400]), 400), "exif_version": ((0x9000, 7, b"0220"), "0220"),
           "date_time_original": ((0x9003, 2, b"2006:11:04 01:02:03\0"), when), "date_time_digitized": ((0x9004, 2, b"2006:11:04 01:02:03\0"), when), "compressed_bits_per_pixel": ((0x9102, 5, [(5, 2)]), 2.5), "shutter_speed_value": ((0x9201, 10, [(-7, 2)]), -3.5),
           "aperture_value": ((0x9202, 5, [(7, 2)]), 3.5), "camera_brightness": ((0x9203, 10, [(-1, 4)]), -0.25), "exposure_bias_value": ((0x9204, 10, [(-2, 3)]), -2 / 3), "camera_aperture": ((0x9205, 5, [(3, 1)]), 3.0), "focal_length": ((0x920A, 5, [(50, 1)]), 50.0),
           "flashpix_version": ((0xA000, 7, b"0100"), "0100"), "focal_plane_x_resolution": ((0xA20E, 5, [(1000, 3)]), 1000 / 3), "focal_plane_y_resolution": ((0xA20F, 5, [(999, 3)]), 333.0), "focal_length_in_35mm_film": ((0xA405, 3, [75]), 75)}
    keys = sorted(main) + sorted(sub)
    sets = [()] + [(k,) for k in keys] + list(itertools.combinations(keys, 2)) + [tuple(keys)]
    for which in sets:
        a = sorted(main[k][0] for k in which if k in main)
        b = sorted(sub[k][0] for k in which if k in sub)
        d = Dir(a + [(0x128, 3, [2])] + ([(0x8769, 4, Dir(b, name="exif[0]"))] if b else []))
        p = direct(ctx, exif_jpeg(tiff(e, d)[0]), JpegFile)
        m = metadata(p)
        what = "EXIF of %s" % lib.short(list(which), 80)
        check_meta(ctx, what, m, width=24, height=16, **{k: (main.get(k) or sub.get(k))[1] if k in which else None for k in keys})
    for n, text in orient.items():
        p = direct(ctx, exif_jpeg(tiff(e, Dir([(0x112, 3, [n])]))[0]), JpegFile)
        check_meta(ctx, "orientation %s" % n, metadata(p), image_orientation=text)
    # the size of the frame is the right one; without a frame, the size of EXIF
    body = tiff(e, Dir([(0x8769, 4, Dir([(0xA002, 4, [640]), (0xA003, 3, [480])]))]))[0]
    for data, size in ((exif_jpeg(body), (24, 16)), (b"\xff\xd8" + chunk(0xE1, b"Exif\0\0" + body) + chunk(0xFE, b"a comment") + b"\xff\xd9", (640, 480))):
        m = metadata(direct(ctx, data, JpegFile))
        expect(ctx, "size of the picture and of EXIF", (plain(m, "width"), plain(m, "height")), size)
    # positions
    for (lat, a), (lon, b), (alt, c), stamp, order in itertools.product((("N", 1), ("S", -1), (None, 0)), (("E", 1), ("W", -1), (None, 0)), ((0, 1), (1, -1), (None, 1)), (None, "date", "both"), (1, -1)):
        for deg in ((48, 51, 24), (0, 0, 36), (179, 30, 0)):
            parts = [(deg[0], 1), (deg[1], 1), (deg[2] * 10, 10)]
            rows = ([(1, 2, lat.encode() + b"\0"), (2, 5, parts)] if lat else []) + ([(3, 2, lon.encode() + b"\0"), (4, 5, parts)] if lon else []) + ([(5, 1, bytes([alt]))] if alt is not None else []) + [(6, 5, [(1001, 10)])]
            rows += ([(7, 5, [(12, 1), (3, 1), (4, 1)])] if stamp == "both" else []) + ([(0x1D, 2, b"2006:11:04\0")] if stamp else [])
            d = Dir([(0x8825, 4, Dir(rows[::order], name="exif_gps[0]"))])
            m = metadata(direct(ctx, exif_jpeg(tiff(e, d)[0]), JpegFile))
            v = deg[0] + deg[1] / 60 + deg[2] / 3600
            check_meta(ctx, "position %s %s %s, altitude %s, time %s" % (deg, lat, lon, alt, stamp), m, latitude=a * v if lat else None, longitude=b * v if lon else None, altitude=c * 100.1,
                       creation_date={None: None, "date": datetime.date(2006, 11, 4), "both": datetime.datetime(2006, 11, 4, 12, 3, 4)}[stamp])


# --- IPTC ---

def iptc_item(record, tag, body):
    return bytes([0x1C, record, tag]) + struct.pack(">H", len(body)) + body


IPTC_TEXTS = {22: "fixture", 25: "keyword[0]", 30: "release_date", 35: "release_time", 40: "instruction", 65: "originating_prog", 70: "prog_ver", 85: "author_job", 95: "state", 100: "country_code", 103: "trans_ref", 105: "headline", 110: "credit", 115: "source", 122: "writer"}
IPTC_META = {80: ("author", "author"), 90: ("city", "city"), 101: ("country_name", "country"), 116: ("copyright", "copyright"), 120: ("caption", "title"), 231: ("history[0]", "comment")}


def iptc(case, ctx):
    """Sequences of items; the resources around; dates"""
    items = [(2, 0, b"\0\2", "record_version", 2), (2, 10, b"5", "urgency", 0x35), (2, 15, b"cat", "category[0]", b"cat"), (2, 5, b"name", "obj_name", b"name"), (1, 90, b"\x1b%G", "chunk[0]", b"\x1b%G"), (2, 200, b"unknown", "chunk[0]", b"unknown"), (2, 40, b"", "instruction", "no field")]
    items += [(2, k, ("text of %s" % n).encode(), n, "text of %s" % n) for k, n in sorted(IPTC_TEXTS.items()) if k != 40][:4] + [(2, k, ("value %s" % b).encode(), n, "value %s" % b) for k, (n, b) in sorted(IPTC_META.items())]
    every = [(2, k, ("text of %s" % n).encode(), n, "text of %s" % n) for k, n in sorted(IPTC_TEXTS.items())] + items
    for n in range(case["n"] + 1):
        for seq in itertools.permutations(range(len(items)) if n > 1 else range(len(every)), n):
            if n == 3 and sum(seq) % 5 != case["i"] or n != 3 and case["i"]:
                continue
            rows = [(items if n > 1 else every)[k] for k in seq]
            if len({r[3] for r in rows}) != len(rows):
                continue
            body = b"".join(iptc_item(a, b, c) for a, b, c, _, _ in rows)
            for name, around in itertools.product((b"", b"x", b"ab"), (False, True)):
                pascal = bytes([len(name)]) + name
                pascal += b"\0" * (len(pascal) % 2)
                res = lambda tag, raw, pas=b"\0\0": b"8BIM" + struct.pack(">H", tag) + pas + struct.pack(">I", len(raw)) + raw + b"\0" * (len(raw) % 2)
                raw = (res(0x40A, b"\1") + res(0x3ED, struct.pack(">HHHHHHHH", 300, 32768, 1, 1, 72, 0, 2, 2)) if around else b"") + res(0x404, body, pascal) + (res(0x40D, struct.pack(">I", 30)) if around else b"")
                data = b"\xff\xd8" + APP0 + chunk(0xED, b"Photoshop 3.0\0" + raw) + chunk(0xC0, struct.pack(">BHHB", 8, 16, 24, 1) + b"\1\x11\0") + b"\xff\xd9"
                what = "IPTC items %s, name %s%s" % ([r[:2] for r in rows], name, ", more resources" if around else "")
                p = opened(ctx, data, JpegFile)
                f = p["photoshop/content"]
                contiguous(ctx, what, f, None, 1)
                if around:
                    fields(ctx, what, f, copyright_flag__content=1, glob_angle__content=30, res_info__content__horiz_res=300.5, res_info__content__vert_res=72.0, res_info__content__vert_res_unit=2)
                if rows:
                    g = f["iptc/content"]
                    got = [x for x in g if x.is_field_set]
                    if expect(ctx, what + ": names", [x.name for x in got], [r[3].replace("[0]", "[%s]" % sum(q[3] == r[3] for q in rows[:k])) for k, r in enumerate(rows)]):
                        for x, (a, b, c, nm, v) in zip(got, rows):
                            fields(ctx, what, x, dataset_nb=a, tag=b, size=len(c))
                            expect(ctx, "%s: value of %s" % (what, nm), get(x, "content"), v)
                m = metadata(p)
                check_meta(ctx, what, m, **{meta: "value %s" % meta if any(r[1] == k and r[0] == 2 for r in rows) else None for k, (_, meta) in IPTC_META.items()})
    for day, hour in itertools.product((None, b"20061104"), (None, b"010203+0000", b"010203")):
        body = (iptc_item(2, 55, day) if day else b"") + (iptc_item(2, 60, hour) if hour else b"") + iptc_item(2, 90, b"city")
        raw = b"8BIM\4\4\0\0" + struct.pack(">I", len(body)) + body + b"\0" * (len(body) % 2)
        data = b"\xff\xd8" + APP0 + chunk(0xED, b"Photoshop 3.0\0" + raw) + chunk(0xC0, struct.pack(">BHHB", 8, 16, 24, 1) + b"\1\x11\0") + b"\xff\xd9"
        check_meta(ctx, "IPTC date %s %s" % (day, hour), metadata(opened(ctx, data, JpegFile)), city="city", creation_date=datetime.datetime(2006, 11, 4, 1, 2, 3) if day and hour else None)


# --- TIFF ---

def tiffs(case, ctx):
    """Pictures in strips or tiles, in one or several directories, with the data in front or behind"""
    e = case["e"]
    for npages, nstrips, tiles, front, kind, gap, between, back in itertools.product((1, 2, 3), (1, 2, 3), (False, True), (False, True), (3, 4), (0, 2), (0, 5), (False, True)):
        width, height = 20 * npages, 10 * nstrips
        strips = [[b"page %d strip %d" % (p, s) + b"." * s for s in range(nstrips)] for p in range(npages)]

        def build(offset):
            d = None
            for p in range(npages - 1, -1, -1):
                at = [offset + where[p, s] for s in range(nstrips)]
                entries = [(0x100, kind, [width]), (0x101, kind, [height]), (0x102, 3, [8, 8, 8]), (0x103, 3, [1]), (0x10D, 2, b"A document\0"), (0x10E, 2, b"A comment\0"), (0x144 if tiles else 0x111, kind, at), (0x115, 3, [3]),
                           (0x145 if tiles else 0x117, kind, [len(s) for s in strips[p]]), (0x11A, 5, [(300, 1)]), (0x11B, 5, [(1505, 10)]), (0x128, 3, [2 + (npages == 2)]), (0x131, 2, b"Program\0"), (0x132, 2, b"2006:11:04 01:02:03\0")]
                d = Dir(entries, d, name="ifd[%s]" % p)
            return d
        # the strips of a page may be written in any order, with other bytes between them
        where, flat = {}, b""
        for k, s in itertools.product(range(npages), range(nstrips)[::-1] if back else range(nstrips)):
            where[k, s] = len(flat)
            flat += strips[k][s] + b"#" * between
        if front:
            pad = b"\0" * (len(flat) % 2)
            data, dirs = tiff(e, build(8), gap=gap, lead=flat + pad)
        else:
            size = len(tiff(e, build(0), gap=gap)[0])
            data, dirs = tiff(e, build(size), gap=gap)
            data += flat
        what = "TIFF %s pages of %s %s, data in %s, numbers of type %s, gap %s, %s bytes between%s" % (npages, nstrips, "tiles" if tiles else "strips", "front" if front else "back", kind, gap, between, ", last one first" * back)
        p = opened(ctx, data, TiffFile)
        fields(ctx, what, p, endian="II" if e == "<" else "MM", version=42)
        for d, at in dirs:
            expect(ctx, what + ": place", p[d.name].absolute_address, at * 8)
            check_dir(ctx, what, p[d.name], d)
        for k in range(npages):
            got = p["image[%s]" % k].array("strip")
            expect(ctx, what + ": data", [x.value for x in got], strips[k])
        check_meta(ctx, what, metadata(p), width=width, height=height, bits_per_pixel=24, title="A document", comment="A comment", producer="Program", width_dpi=762 if npages == 2 else 300, height_dpi=382 if npages == 2 else 150, creation_date=datetime.datetime(2006, 11, 4, 1, 2, 3))
    # directories without strips, in every place of a chain
    for flags in itertools.product((0, 1), repeat=3):
        data0 = b"some data"
        d = None
        for k in (2, 1, 0):
            d = Dir([(0x100, 3, [5 + k]), (0x101, 3, [7])] + ([(0x111, 4, [8]), (0x117, 4, [len(data0)])] if flags[k] else []), d, name="ifd[%s]" % k)
        data, dirs = tiff(e, d, lead=data0 + b"\0")
        what = "TIFF of directories with strips %s" % (flags,)
        p = opened(ctx, data, TiffFile)
        images = [f for f in p if f.name.startswith("image[")]
        expect(ctx, what + ": images", [[x.value for x in f.array("strip")] for f in images if "strip[0]" in f], [[data0]] * sum(flags))
        for q, at in dirs:
            check_dir(ctx, what, p[q.name], q)
        check_meta(ctx, what, metadata(p), width=5, height=7)
    # sub directories
    for nsub in (1, 2):
        subs = [Dir([(0x100, 3, [k + 1]), (0x111, 4, [8]), (0x117, 4, [2 + k])], name="sub %s" % k) for k in range(nsub)]
        one, other = subs[0], subs[-1]
        top = Dir([(0x100, 3, [50]), (0x101, 3, [60]), (0x111, 4, [8]), (0x117, 4, [4]), (0x14A, 4, one if nsub == 1 else [0, 0])])
        data, dirs = tiff(e, top, lead=b"the data")
        if nsub == 2:
            first = len(data)
            b1, _ = layout(e, one, first, "same", 0)
            b2, _ = layout(e, other, first + len(b1), "same", 0)
            top.entries[-1] = (0x14A, 4, [first, first + len(b1)])
            data = tiff(e, top, lead=b"the data")[0] + b1 + b2
        what = "TIFF with %s sub directories" % nsub
        p = opened(ctx, data, TiffFile)
        got = [f for f in p if f.is_field_set and "count" in f]
        expect(ctx, what + ": directories", [f.getEntryValues(f["entry[0]"])[0].value for f in got], [50] + list(range(1, nsub + 1)))
        expect(ctx, what + ": data", [[x.value for x in f.array("strip")] for f in p if f.name.startswith("image[")], [[b"the "]] + [[b"the data"[:2 + k]] for k in range(nsub)])


def cr2(case, ctx):
    """Canon raw pictures: directories with or without data, camera and dates whatever the other entries"""
    e = case["e"]
    when = [datetime.datetime(2015, 11, 15, 13, 35, 29 + k) for k in range(3)]
    stamp = [t.strftime("%Y:%m:%d %H:%M:%S").encode() + b"\0" for t in when]
    # directories with or without data, the data in one or several strips, in any order
    for flags, nstrips, back in itertools.product([f for n in (1, 2, 3, 4) for f in itertools.product((0, 1), repeat=n)], (1, 2, 3), (False, True)):
        flat, where = b"", {}
        for k in range(len(flags)):
            for j in range(nstrips)[::-1] if back else range(nstrips):
                where[k, j] = (24 + len(flat), b"picture %d strip %d" % (k, j) + b"." * j)
                flat += where[k, j][1]
        d = None
        for k in range(len(flags) - 1, -1, -1):
            rows = [(0x100, 3, [5 + k]), (0x101, 3, [7])] + ([(0x111, 4, [where[k, j][0] for j in range(nstrips)]), (0x117, 4, [len(where[k, j][1]) for j in range(nstrips)])] if flags[k] else [])
            d = Dir(rows, d, name="ifd[%s]" % k)
        data, dirs = tiff(e, d, lead=b"CR\2\0" + struct.pack(e + "I", 0x1234) + b"\0" * 8 + flat + b"\0" * (len(flat) % 2))
        what = "CR2 of directories with data %s, %s strips%s" % (flags, nstrips, ", last one first" * back)
        p = direct(ctx, data, CR2File)
        fields(ctx, what, p, endian="II" if e == "<" else "MM", version=42, cr_identifier="CR", cr_major_version=2, cr_minor_version=0, cr_raw_ifd_offset=0x1234)
        for q, at in dirs:
            expect(ctx, what + ": place", p[q.name].absolute_address, at * 8)
            check_dir(ctx, what, p[q.name], q)
        expect(ctx, what + ": images", [[x.value for x in f.array("strip")] for f in p if f.name.startswith("image[")], [[where[k, j][1] for j in range(nstrips)] for k in range(len(flags)) if flags[k]])
        check_meta(ctx, what, metadata(p), width=5, height=7)
    # the metadata, with other entries before and between
    main = {"width": ((0x100, 4, [5184]), 5184), "height": ((0x101, 3, [3456]), 3456), "title": ((0x10D, 2, b"A document\0"), "A document"), "comment": ((0x10E, 2, b"A comment\0"), "A comment"), "camera_manufacturer": ((0x10F, 2, b"Canon\0"), "Canon"),
            "camera_model": ((0x110, 2, b"Canon EOS\0"), "Canon EOS"), "producer": ((0x131, 2, b"Program 1\0"), "Program 1"), "creation_date": ((0x132, 2, stamp[0]), when[0])}
    sub = {"date_time_original": ((0x9003, 2, stamp[1]), when[1]), "date_time_digitized": ((0x9004, 2, stamp[2]), when[2])}
    keys = sorted(main) + sorted(sub)
    sets = [c for n in (0, 1, 2, len(keys) - 1, len(keys)) for c in itertools.combinations(keys, n)]
    for which, other, exif in itertools.product(sets, (0, 1, 2), (0, 1)):
        a = [main[k][0] for k in which if k in main] + [(0x103, 3, [6]), (0x112, 3, [1]), (0x13B, 2, b"An artist, not the camera\0")][:other * 3 // 2]
        b = [sub[k][0] for k in which if k in sub]
        b += [(0x829A, 5, [(1, 60)]), (0x9000, 7, b"0230"), (0x9290, 2, b"00 longer than four\0")][:other * 3 // 2]
        if not exif and any(k in sub for k in which) or exif and not b or not a and not exif:
            continue  # a directory is never empty
        d = Dir(sorted(a) + ([(0x8769, 4, Dir(sorted(b), name="exif[0]"))] if exif else []))
        data, dirs = tiff(e, d, lead=b"CR\2\0\0\0\0\0")
        what = "CR2 with %s, %s other entries%s" % (lib.short(list(which), 80), other, ", exif" * exif)
        p = direct(ctx, data, CR2File)
        for q, at in dirs:
            check_dir(ctx, what, p[q.name], q)
        check_meta(ctx, what, metadata(p), **{k: (main.get(k) or sub.get(k))[1] if k in which else None for k in keys})
    for unit, x, y, bits in itertools.product((None, 2, 3), (None, (72, 1), (1505, 10)), (None, (300, 1), (100, 3)), (None, (8, 3), (14, 1))):
        rows = ([(0x102, 3, [bits[0]] * bits[1]), (0x115, 3, [bits[1]])] if bits else []) + ([(0x11A, 5, [x])] if x else []) + ([(0x11B, 5, [y])] if y else []) + ([(0x128, 3, [unit])] if unit else [])
        p = direct(ctx, tiff(e, Dir(rows + [(0x13B, 2, b"x\0")]), lead=b"CR\2\0\0\0\0\0")[0], CR2File)
        factor = 2.54 if unit == 3 else 1
        check_meta(ctx, "CR2 resolution %s %s, unit %s, bits %s" % (x, y, unit, bits), metadata(p), width_dpi=x and round(x[0] / x[1] * factor), height_dpi=y and round(y[0] / y[1] * factor), bits_per_pixel=bits and bits[0] * bits[1])


def main():
    c = lib.Check("A09", "model_checking",
                  "all sequences of blocks, of chunks and of scans, all layouts of components and restarts, all qualities, all sequences of entries of all types, all shapes of directories, positions, items of IPTC, strips and tiles: "
                  "every chunk, code and value, the data, and the metadata",
                  bounds={"blocks": "up to 3 (thorough 4) of 10", "chunks": "up to 3 (4)", "scans": "up to 4 (5)", "entries": "up to 2 (3) of 37", "IPTC items": "up to 3", "pages": 3})
    q = c.quick
    c.domain("blocks", [dict(n=3 if q else 4, style=s, i=i, of=4) for s in ("equal", "long", "staircase") for i in range(4)], entropy)
    comps = [[(1, 1)], [(2, 2)], [(1, 1)] * 2, [(1, 1)] * 3, [(2, 1), (1, 1), (1, 1)], [(2, 2), (1, 1), (1, 1)], [(1, 2), (1, 1), (1, 2)], [(1, 1), (2, 2), (1, 1)]]
    c.domain("components and scans", [dict(comps=x) for x in comps], layouts)
    c.domain("quality", [{}], quality)
    c.domain("chunks", [dict(n=3 if q else 4, i=i, of=10) for i in range(10)], chunks)
    c.domain("progressive", [dict(n=4 if q else 5)], progressive)
    c.domain("EXIF entries", [dict(n=2 if q else 3, e=e, sub=s, i=i, of=4) for e in "<>" for s in (0, 1) for i in range(4)], exif_entries)
    c.domain("EXIF directories", [dict(e=e) for e in "<>"], exif_trees)
    c.domain("EXIF metadata", [dict(e=e) for e in "<>"], exif_meta)
    c.domain("IPTC", [dict(n=3, i=i) for i in range(5)], iptc)
    c.domain("TIFF", [dict(e=e) for e in "<>"], tiffs)
    c.domain("CR2", [dict(e=e) for e in "<>"], cr2)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
