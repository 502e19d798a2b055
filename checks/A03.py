"""A03: simple pictures (BMP, PNG, GIF, TGA, PCX, ICO) are shown as they were written: headers, palettes, pixels or compressed data, chunks, sizes, metadata."""
import datetime, glob, itertools, os, re, struct, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config
from hachoir.metadata import extractMetadata
from hachoir.parser import guessParser
from hachoir.parser.image import BmpFile, GifFile, IcoFile, PcxFile, PngFile, TargaFile
from hachoir.stream import StringInputStream

config.quiet = True


def opened(ctx, what, data, cls):
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", data)
    p = guessParser(StringInputStream(data, source="file:x", tags=[]))
    if type(p) is not cls:
        p = cls(StringInputStream(data, source="file:x", tags=[]), validate=True)
    return p


def expect(ctx, what, got, want):
    if got != want:
        ctx.report("%s: %s, expected %s" % (what, lib.short(got, 150), lib.short(want, 150)))


def contiguous(ctx, what, p, size, depth=1):
    pos = 0
    for f in p:
        if f.address != pos:
            ctx.report("%s: %s is at %s, expected %s" % (what, f.path, f.address, pos))
            return
        pos += f.size
        if depth and f.is_field_set and f.size:
            contiguous(ctx, what, f, f.size, depth - 1)
    if size is not None and pos != size:
        ctx.report("%s: the fields of %s end at bit %s of %s" % (what, p.path, pos, size))


def meta(p):
    m = extractMetadata(p, 1.0)
    return m


def plain(m, key):
    if m is None or not m.has(key):
        return None
    v = m.getValues(key)
    return v[0] if len(v) == 1 else v


def check_meta(ctx, what, m, **want):
    for key, v in want.items():
        got = plain(m, key)
        if got != v:
            ctx.report("%s: %s of the metadata is %r, expected %r" % (what, key, got, v))


def rate(size, packed):
    """The rate of compression, when it is sensible"""
    r = size / packed if packed else 0
    return r if 0.001 <= r <= 1000 else None


def rgb(field):
    return tuple(field[n].value for n in ("red", "green", "blue"))


def colors(n, seed=0):
    return [((k * 37 + seed) & 255, (k * 11 + 5) & 255, (k * 101 + 80 + seed) & 255) for k in range(n)]


def pixels(w, h, top, seed=0):
    return [[(x * 7 + y * 13 + seed + x * y) % top for x in range(w)] for y in range(h)]


# ---- BMP --------------------------------------------------------------------------------------

def bmps(case, ctx):
    for w, h in itertools.product(range(1, case["w"] + 1), range(1, case["h"] + 1)):
        for down in (False, True):
            for used in (0, 3, 1 << min(case["bpp"], 8)):
                for gap in (0, 4):
                    for junk in (b"", b"BM after"):
                        bmp_one(ctx, w, h, down, case["bpp"], case["header"], used, gap, junk)


def bmp_one(ctx, w, h, down, bpp, header, used, gap, junk):
    if used and (bpp > 8 or used > 1 << bpp):
        return
    if header == 12 and (down or used):
        return
    what = "BMP of %sx%s%s, %s bits, header of %s, %s colors, gap of %s%s" % (w, h, " from the top" if down else "", bpp, header, used, gap, ", data behind" if junk else "")
    count = (used or 1 << bpp) if bpp <= 8 else 0
    pal = colors(count)
    pix = pixels(w, h, 1 << bpp if bpp <= 8 else 1 << bpp)
    raw = b""
    for y in (range(h) if down else range(h - 1, -1, -1)):
        line = 0
        if bpp < 8:
            for x in range(w):
                line = line << bpp | pix[y][x]
            n = (w * bpp + 7) // 8
            row = (line << (n * 8 - w * bpp)).to_bytes(n, "big")
        else:
            row = b"".join(v.to_bytes(bpp // 8, "little") for v in pix[y])
        raw += row + b"\0" * (-len(row) % 4)
    palette = b"".join(bytes((b, g, r)) + (b"" if header == 12 else b"\0") for r, g, b in pal)
    start = 14 + header + len(palette) + gap
    if header == 12:
        head = struct.pack("<IHHHH", 12, w, h, 1, bpp)
    else:
        head = struct.pack("<IiiHHIIiiII", header, w, -h if down else h, 1, bpp, 0, len(raw), 2835, 11811, used, 0)
    if header == 108:
        head += struct.pack("<IIIII9iIII", 0xff0000, 0xff00, 0xff, 0xff000000, 1, *(list(range(9)) + [10, 11, 12]))
    data = b"BM" + struct.pack("<IHHI", start + len(raw), 0, 0, start) + head + palette + b"\0" * gap + raw
    size = len(data)
    data += junk
    p = opened(ctx, what, data, BmpFile)
    expect(ctx, what + ": sizes", (p["file_size"].value, p["data_start"].value, p.content_size), (size, start, size * 8))
    hd = p["header"]
    expect(ctx, what + ": header", [hd[n].value for n in ("header_size", "width", "height", "nb_plan", "bpp")], [header, w, -h if down else h, 1, bpp])
    expect(ctx, what + ": place of the header", (hd.address, hd.size), (14 * 8, header * 8))
    if header >= 40:
        expect(ctx, what + ": more header", [hd[n].value for n in ("compression", "image_size", "horizontal_dpi", "vertical_dpi", "used_colors", "important_color")], [0, len(raw), 2835, 11811, used, 0])
    if header == 108:
        expect(ctx, what + ": masks", [hd[n].value for n in ("red_mask", "alpha_mask", "green_primary/y", "gamma_blue")], [0xff0000, 0xff000000, 4, 12])
    if count:
        expect(ctx, what + ": palette", [rgb(c) for c in p["palette"]], pal)
        expect(ctx, what + ": place of the palette", p["palette"].address, (14 + header) * 8)
    elif "palette" in p:
        ctx.report(what + ": has a palette")
    f = p["pixels"]
    expect(ctx, what + ": place of the pixels", (f.address, f.size), (start * 8, len(raw) * 8))
    if bpp in (4, 8, 24, 32):
        for y in range(h):
            got = [rgb(c) if bpp == 24 else c.value for c in f["line[%s]" % y].array("pixel")]
            want = [(v >> 16 & 255, v >> 8 & 255, v & 255) if bpp == 24 else v for v in pix[y]]
            expect(ctx, "%s: line %s" % (what, y), got, want)
    else:
        expect(ctx, what + ": pixels", f.value, raw)
    contiguous(ctx, what, p, len(data) * 8 if not junk else None, 2)
    m = meta(p)
    check_meta(ctx, what, m, width=w, height=h, bits_per_pixel=bpp)
    expect(ctx, what + ": version", plain(m, "format_version"), "Microsoft Bitmap version %s" % {12: 2, 40: 3, 108: 4}[header])
    if header >= 40:
        check_meta(ctx, what, m, width_dpi=72, height_dpi=300, compression="Uncompressed")
    check_meta(ctx, what, m, compr_rate=rate(w * h * bpp, len(raw) * 8))
    if used:
        check_meta(ctx, what, m, nb_colors=used)


# ---- PNG --------------------------------------------------------------------------------------

def chunk(tag, data):
    return struct.pack(">I", len(data)) + tag + data + struct.pack(">I", zlib.crc32(tag + data))


KINDS = [(0, d) for d in (1, 2, 4, 8, 16)] + [(2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]
CHUNKS = ["tIME", "pHYs", "pHYs unknown", "gAMA", "tEXt", "tEXt software", "tEXt empty", "tEXt other", "zTXt", "iTXt", "bKGD", "tRNS", "prVt", "prVt empty"]
SPLITS = {"one": [None], "two": [3, None], "bytes": [1, 1, 1, None], "empty first": [0, None], "empty last": [None, 0], "empty inside": [2, 0, None]}


def pngs(case, ctx):
    for kind in case["kinds"]:
        for seq in itertools.permutations(CHUNKS, case["n"]):
            if seq and seq[0] not in case["first"]:
                continue
            for split in (sorted(SPLITS) if case["n"] < 2 else ["two"]):
                for junk in (False, True) if case["n"] < 2 else (False,):
                    png_one(ctx, kind[0], kind[1], seq, split, junk)


def png_one(ctx, color, depth, seq, split, junk):
    w, h = 5, 3
    what = "PNG of color type %s, depth %s, chunks %s, data in %s%s" % (color, depth, list(seq), split, ", data behind" if junk else "")
    bits = depth * {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[color]
    lines = b"".join(bytes([y % 5]) + bytes((x * 5 + y) & 255 for x in range((w * bits + 7) // 8)) for y in range(h))
    packed = zlib.compress(lines)
    parts = [chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, color, 0, 0, 1))]
    want = [("header", None)]
    texts, values = [], {"width": w, "height": h, "bits_per_pixel": bits, "compression": "deflate"}
    if color == 3:
        pal = colors(1 << depth)
        parts.append(chunk(b"PLTE", b"".join(map(bytes, pal))))
        want.append(("palette", [rgb_ for rgb_ in pal]))
        values["nb_colors"] = len(pal)
        values["pixel_format"] = "Color index"
    elif color in (2, 6):
        values["pixel_format"] = "RGBA" if color == 6 else "RGB"
    numbers = {}

    def number(name):
        numbers[name] = numbers.get(name, -1) + 1
        return "%s[%s]" % (name, numbers[name])
    for c in seq:
        tag = c.split()[0].encode()
        if c == "tIME":
            body = struct.pack(">HBBBBB", 2006, 12, 31, 23, 58, 59)
            want.append(("time", datetime.datetime(2006, 12, 31, 23, 58, 59)))
            values["creation_date"] = datetime.datetime(2006, 12, 31, 23, 58, 59)
        elif c.startswith("pHYs"):
            if ("physical", (2835, 11811)) in want:
                return
            body = struct.pack(">IIB", 2835, 11811, 0 if "unknown" in c else 1)
            want.append(("physical", (2835, 11811)))
            if "unknown" not in c:
                values["width_dpi"], values["height_dpi"] = 72, 300
        elif c == "gAMA":
            body = struct.pack(">I", 45455)
            want.append(("gamma", 0.45455))
        elif c.startswith("tEXt"):
            key, text = {"tEXt": ("Comment", "caf\xe9"), "tEXt software": ("Software", "hand"), "tEXt empty": ("Title", ""), "tEXt other": ("Author", "me")}[c]
            body = (key + "\0" + text).encode("latin-1")
            want.append((number("text"), (key, text)))
            if text:
                texts.append((key, text))
        elif c == "zTXt":
            body = b"key\0\0" + zlib.compress(b"text")
            want.append((number("comp_text"), body))
        elif c == "iTXt":
            body = b"key\0\0\0en\0clef\0" + "texte \u20ac".encode()
            want.append((number("utf8_text"), body))
        elif c == "bKGD":
            body = b"\1" if color == 3 else b"\0\1" if color in (0, 4) else b"\0\xff\0\1\0\2"
            want.append(("background", body))
        elif c == "tRNS":
            if color in (4, 6):
                return
            body = b"\0\xff" if color == 3 else b"\0\1" if color == 0 else b"\0\1\0\2\0\3"
            want.append(("transparency", list(body)))
            if color == 3:
                values["pixel_format"] = "Color index with transparency"
                values.pop("nb_colors")
        else:
            body = b"" if "empty" in c else b"private data"
            want.append((number("chunk"), body))
        parts.append(chunk(tag, body))
    pos = 0
    for k, n in enumerate(SPLITS[split]):
        piece = packed[pos:] if n is None else packed[pos:pos + n]
        pos += len(piece)
        want.append(("data[%s]" % k, piece))
        parts.append(chunk(b"IDAT", piece))
    want.append(("end", None))
    parts.append(chunk(b"IEND", b""))
    data = b"\x89PNG\r\n\x1a\n" + b"".join(parts)
    size = len(data)
    if junk:
        data += b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", b"\0" * 13) + chunk(b"IEND", b"")
    p = opened(ctx, what, data, PngFile)
    expect(ctx, what + ": size", p.content_size, size * 8)
    names = [f.name for f in p][:len(want) + 1]
    expect(ctx, what + ": chunks", names, ["id"] + [n for n, v in want])
    if names != ["id"] + [n for n, v in want]:
        return
    contiguous(ctx, what, p, len(data) * 8 if not junk else None)
    hd = p["header"]
    expect(ctx, what + ": header", [hd[n].value for n in ("width", "height", "bit_depth", "has_palette", "color", "has_alpha", "compression", "filter", "interlace")],
           [w, h, depth, bool(color & 1), bool(color & 2), bool(color & 4), 0, 0, 1])
    for (name, v), raw in zip(want, parts):
        f = p[name]
        w2 = "%s: %s" % (what, name)
        expect(ctx, w2 + ": frame", (f.size, f["size"].value, f["tag"].value, f["crc32"].value), (len(raw) * 8, len(raw) - 12, raw[4:8].decode(), struct.unpack(">I", raw[-4:])[0]))
        if name == "palette":
            expect(ctx, w2, [rgb(c) for c in f.array("color")], v)
        elif name in ("time", "gamma"):
            expect(ctx, w2, f.value, v)
        elif name == "physical":
            expect(ctx, w2, (f["pixel_per_unit_x"].value, f["pixel_per_unit_y"].value), v)
        elif name.startswith("text"):
            expect(ctx, w2, (f["keyword"].value, f["text"].value if "text" in f else ""), v)
        elif name == "transparency":
            expect(ctx, w2, [c.value for c in f.array("alpha_value")], v)
        elif name.startswith(("chunk", "comp_text", "utf8_text")):
            expect(ctx, w2, f["content"].value if "content" in f else b"", v)
        elif name == "background" and color in (2, 6):
            expect(ctx, w2, (f["red"].value, f["green"].value, f["blue"].value), (255, 1, 2))
        elif name.startswith("data"):
            expect(ctx, w2, p.stream.readBytes(f["compressed_data"].absolute_address, len(raw) - 12) if len(v) else b"", v)
    first = next(n for n, v in want if n.startswith("data") and v)
    s = p[first]["compressed_data"].getSubIStream()
    got = s.readBytes(0, len(lines)) if s.sizeGe(len(lines) * 8) else b""
    if got != lines or s.sizeGe(len(lines) * 8 + 8):
        ctx.report("%s: decompressed data %r, expected %r" % (what, got, lines))
    m = meta(p)
    check_meta(ctx, what, m, **values)
    comments = [t if k == "Comment" else "%s=%s" % (k, t) for k, t in texts if k != "Software"]
    expect(ctx, what + ": comments", sorted(m.getValues("comment")) if m.has("comment") else [], sorted(comments))
    expect(ctx, what + ": producer", plain(m, "producer"), "hand" if ("Software", "hand") in texts else None)


# ---- GIF --------------------------------------------------------------------------------------

class Lzw:
    """Codes of the data, with the sizes of the GIF format"""
    def __init__(self, start, when="full", width=None):
        self.bits, self.start, self.when = [], start, when

    def put(self, code):
        self.codes.append((code, self.n))
        for k in range(self.n):
            self.bits.append(code >> k & 1)

    def encode(self, data, clears=()):
        self.codes = []
        clear = 1 << self.start
        self.n = self.start + 1
        self.put(clear)

        def reset():
            return {(k,): k for k in range(clear)}, clear + 2, self.start + 1
        table, free, self.n = reset()
        first = True
        word = ()
        chains = []
        for k, v in enumerate(data):
            if word + (v,) in table:
                word += (v,)
                continue
            self.put(table[word])
            chains.append(word)
            # the decoder adds its entry one code later: the size changes when its table is full
            if free >= 1 << self.n and self.n < 12:
                self.n += 1
            if free < 4096:
                table[word + (v,)] = free
                free += 1
            word = (v,)
            if k in clears or free == 4096 and self.when == "full":
                self.put(clear)
                table, free, self.n = reset()
        if word:
            self.put(table[word])
            chains.append(word)
            if free >= 1 << self.n and self.n < 12:
                self.n += 1
        self.put(clear + 1)
        bits = self.bits + [0] * (-len(self.bits) % 8)
        self.chains = chains
        return bytes(sum(b << k for k, b in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8))


def unlzw(start, data, limit=None):
    """A decoder, to check the encoder: [pixels], [(code, size)]"""
    clear = 1 << start
    pos, n, table, last, out, codes = 0, start + 1, {}, None, [], []
    value = int.from_bytes(data, "little")
    free = clear + 2
    while pos + n <= len(data) * 8:
        code = value >> pos & (1 << n) - 1
        codes.append((code, n))
        pos += n
        if code == clear:
            n, table, last, free = start + 1, {}, None, clear + 2
            continue
        if code == clear + 1:
            break
        if code < clear:
            word = (code,)
        elif code in table:
            word = table[code]
        else:
            word = last + last[:1]
        if last is not None and free < 4096:
            table[free] = last + word[:1]
            free += 1
            if free >= 1 << n and n < 12:
                n += 1
        last = word
        out.extend(word)
    return out, codes, pos


def gif_blocks(data, size):
    return b"".join(bytes([len(data[i:i + size])]) + data[i:i + size] for i in range(0, len(data), size)) + b"\0"


def check_lzw(ctx, what, image, start, packed, size, indexes):
    sizes = [f.value for f in image.array("image_block_size")]
    blocks = list(image.array("image_block"))
    want = [len(packed[i:i + size]) for i in range(0, len(packed), size)]
    expect(ctx, what + ": blocks", (sizes, [b.size // 8 for b in blocks]), (want, want))
    if not blocks:
        return
    out, codes, pos = unlzw(start, packed)
    if out != list(indexes):
        raise lib.HarnessError("%s: the encoder is wrong" % what)
    s = blocks[0].getSubIStream()
    expect(ctx, what + ": joined blocks", s.readBytes(0, len(packed)), packed)
    args = dict(s.tags) if False else None
    from hachoir.parser.image.gif import GifImageBlock
    g = guessParser(s)
    if type(g) is not GifImageBlock:
        ctx.report("%s: blocks parsed by %s" % (what, g))
        return
    got = [(f.value, f.size) for f in g if f.name.startswith("code")]
    expect(ctx, what + ": codes", got, codes)
    length = 0
    for f in g.array("code"):
        m = re.search(r"Current Decoded Length (\d+)$", f.description)
        if m:
            length = int(m.group(1))
    expect(ctx, what + ": length", length, len(indexes))
    if len(indexes) < 3000:
        got = []
        for f in g.array("code"):
            m = re.match(r"Literal Code (\d+);|Compression Code \d+ \((?:found in dictionary as|not found in dictionary; guessed to be) (.*)\);", f.description)
            if m:
                got += [int(m.group(1))] if m.group(1) else eval(m.group(2))
        expect(ctx, what + ": pixels", got, list(indexes))


def gif_extension(kind):
    """(data, name, {path: value}, description of metadata)"""
    if kind == "control":
        return b"!\xf9\4" + bytes([1 | 2 << 2]) + struct.pack("<HB", 25, 7) + b"\0", "graphic_ctl", {"size": 4, "has_transp": True, "user_input": False, "disposal_method": 2, "delay": 25, "transp": 7}
    if kind == "opaque":
        return b"!\xf9\4" + bytes([2 | 1 << 2]) + struct.pack("<HB", 0, 0) + b"\0", "graphic_ctl", {"has_transp": False, "user_input": True, "disposal_method": 1, "delay": 0}
    if kind == "comment":
        return b"!\xfe\5hello\6 world\0", "comments", {"comment[0]": "hello", "comment[1]": "world"}
    if kind == "loop":
        return b"!\xff\x0bNETSCAPE2.0\3\1" + struct.pack("<H", 1000) + b"\0", "app_ext", {"app_name": "NETSCAPE2.0", "netscape_code": 1, "loop_count": 1000}
    if kind == "application":
        return b"!\xff\x0bXMP DataXMP\4\0;\0;\3abc\0", "app_ext", {"app_name": "XMP DataXMP", "raw[0]": b"\0;\0;", "raw[1]": b"abc"}
    if kind == "text":
        return b"!\1\x0c" + struct.pack("<HHHHBBBB", 1, 2, 3, 4, 5, 6, 7, 8) + b"\2hi\0", "text_ext", {"block_size": 12, "left": 1, "height": 4, "cell_width": 5, "bg_color": 8, "comment[0]": "hi"}
    return b"!\x42\3xyz\1;\0", "extensions", {"size[0]": 3, "content[0]": b"xyz", "content[1]": b";"}


EXTENSIONS = ["control", "opaque", "comment", "loop", "application", "text", "unknown"]
IMAGES = [dict(w=2, h=2, local=0, start=2, size=255), dict(w=5, h=4, local=3, start=4, size=3), dict(w=1, h=1, local=1, start=2, size=1), dict(w=7, h=3, local=0, start=8, size=255, interlaced=True)]


def gifs(case, ctx):
    for seq in itertools.product(range(len(EXTENSIONS) + len(IMAGES)), repeat=case["n"]):
        if seq[0] != case["first"] or not any(k >= len(EXTENSIONS) for k in seq):
            continue
        for glob_ in (0, 1, 8):
            for version in ("87a", "89a"):
                for junk in (b"", b"trailing\0;") if case["n"] < 3 else (b"",):
                    gif_one(ctx, seq, glob_, version, junk)


def gif_one(ctx, seq, glob_, version, junk):
    what = "GIF%s with %s, global map of %s bits%s" % (version, [EXTENSIONS[k] if k < len(EXTENSIONS) else IMAGES[k - len(EXTENSIONS)] for k in seq], glob_, ", data behind" if junk else "")
    pal = colors(1 << glob_) if glob_ else []
    data = b"GIF" + version.encode() + struct.pack("<HHBBB", 60, 40, (0x80 | glob_ - 1 | 8 if glob_ else 0) | 5 << 4, 3, 49) + b"".join(map(bytes, pal))
    want, transparent, comments = [], None, []
    for k in seq:
        if k < len(EXTENSIONS):
            d, name, values = gif_extension(EXTENSIONS[k])
            want.append((name, len(data), len(d), values, None))
            data += d
            if name == "graphic_ctl" and transparent is None:
                transparent = values["has_transp"]
            if name == "comments":
                comments += ["hello", "world"]
        else:
            i = IMAGES[k - len(EXTENSIONS)]
            indexes = [v for row in pixels(i["w"], i["h"], 1 << i["start"]) for v in row]
            packed = Lzw(i["start"]).encode(indexes)
            local = colors(1 << i["local"], 9) if i["local"] else []
            d = b"," + struct.pack("<HHHHB", 3, 4, i["w"], i["h"], (0x80 | i["local"] - 1 if i["local"] else 0) | (0x40 if i.get("interlaced") else 0)) + b"".join(map(bytes, local)) \
                + bytes([i["start"]]) + gif_blocks(packed, i["size"])
            want.append(("image", len(data), len(d), i, (packed, indexes, local)))
            data += d
    data += b";"
    size = len(data)
    data += junk
    p = opened(ctx, what, data, GifFile)
    expect(ctx, what + ": size", p.content_size, size * 8)
    sc = p["screen"]
    expect(ctx, what + ": screen", [sc[n].value for n in ("width", "height", "size_global_map", "sort_flag", "color_res", "global_map", "background", "pixel_aspect_ratio")],
           [60, 40, max(glob_ - 1, 0), bool(glob_), 5, bool(glob_), 3, 49])
    expect(ctx, what + ": magic", p["magic"].value + p["version"].value, "GIF" + version)
    if glob_:
        expect(ctx, what + ": color map", [rgb(c) for c in p["color_map"]], pal)
    names = [f.name.split("[")[0] for f in p]
    head = ["magic", "version", "screen"] + (["color_map"] if glob_ else [])
    expect(ctx, what + ": fields", names[:len(head) + 2 * len(want) + 1], head + [n for w in want for n in ("separator", w[0])] + ["separator"])
    items = [f for f in p][len(head) + 1::2]
    contiguous(ctx, what, p, size * 8 if not junk else None)
    for f, (name, at, n, values, more) in zip(items, want):
        w2 = "%s: %s" % (what, f.name)
        expect(ctx, w2 + ": place", (f.address, f.size), (at * 8 + 8, n * 8 - 8))
        if name != "image":
            for key, v in values.items():
                expect(ctx, "%s: %s" % (w2, key), f[key].value if key in f else None, v)
            if name == "graphic_ctl":
                expect(ctx, w2 + ": delay", f["delay"].display, "250 ms" if values["delay"] else "0 ms")
            if not f.description:
                ctx.report(w2 + ": no description")
            continue
        packed, indexes, local = more
        expect(ctx, w2, [f[k].value for k in ("left", "top", "width", "height", "interlaced", "has_local_map", "lzw_min_code_size")],
               [3, 4, values["w"], values["h"], values.get("interlaced", False), bool(local), values["start"]])
        if local:
            expect(ctx, w2 + ": local map", [rgb(c) for c in f["local_map"]], local)
        check_lzw(ctx, w2, f, values["start"], packed, values["size"], indexes)
    m = meta(p)
    check_meta(ctx, what, m, width=60, height=40, compression="LZW", format_version="GIF version %s" % version, pixel_format="Color index with transparency" if transparent else "Color index")
    if glob_:
        check_meta(ctx, what, m, bits_per_pixel=glob_, nb_colors=1 << glob_)
    got = m.getValues("comment") if m.has("comment") else []
    expect(ctx, what + ": comments", sorted(set(got)), sorted(set(comments)))


def gif_lzw(case, ctx):
    """One picture; the data give all sequences of small length, or tables which become full"""
    start = case["start"]
    if case["mode"] == "short":
        todo = [(seq, c) for n in range(1, case["n"] + 1) for seq in itertools.product(range(case["letters"]), repeat=n) for c in [()] + [(k,) for k in range(1, n)]]
    else:
        x, seq = 7, []
        for k in range(case["n"]):
            x = (x * 1103515245 + 12345) & 0x7FFFFFFF
            seq.append((x >> 16) % case["letters"])
        todo = [(seq, c) for c in [(), tuple(range(0, case["n"], 500)), (case["n"] - 1,)]]
    for seq, clears in todo:
        enc = Lzw(start, case.get("when", "full"))
        packed = enc.encode(seq, clears)
        data = b"GIF89a" + struct.pack("<HHBBB", len(seq) % 6000 + 1, 1, 0, 0, 0) + b"," + struct.pack("<HHHHB", 0, 0, len(seq), 1, 0) + bytes([start]) + gif_blocks(packed, case["size"]) + b";"
        what = "GIF of %s pixels %s..., %s bits, reset at %s%s" % (len(seq), list(seq[:12]), start, list(clears)[:4], " and never when full" if case.get("when") == "never" else "")
        p = opened(ctx, what, data, GifFile)
        check_lzw(ctx, what, p["image[0]"], start, packed, case["size"], seq)


# ---- TGA --------------------------------------------------------------------------------------

def tgas(case, ctx):
    for w, h in ((1, 1), (3, 2), (2, 5)):
        for flip in (False, True):
            for ident in (b"", b"name of it"):
                for footer in (b"", b"\0" * 8 + b"TRUEVISION-XFILE.\0"):
                    tga_one(ctx, case["codec"], case["bpp"], case["colors"], w, h, flip, ident, footer)


def tga_one(ctx, codec, bpp, count, w, h, flip, ident, footer):
    what = "TGA of codec %s, %s bits, %s colors, %sx%s%s, identifier of %s bytes, %s" % (codec, bpp, count, w, h, " flipped" if flip else "", len(ident), "footer" if footer else "no footer")
    pal = colors(count)
    size = (bpp + 7) // 8
    pix = pixels(w, h, 1 << bpp, 200)
    if codec < 9:
        raw = b"".join(v.to_bytes(size, "little") for y in (range(h) if flip else range(h - 1, -1, -1)) for v in pix[y])
    else:
        raw = b"".join(bytes([0]) + v.to_bytes(size, "little") for row in pix for v in row)
    data = struct.pack("<BBBHHBHHHHBB", len(ident), 1 if count else 0, codec, 0, count, 24 if count else 0, 1, 2, w, h, bpp, (8 if bpp == 32 else 0) | (0x20 if flip else 0))
    data += ident + b"".join(bytes((b, g, r)) for r, g, b in pal)
    at = len(data)
    data += raw + footer
    p = opened(ctx, what, data, TargaFile)
    expect(ctx, what + ": header", [p[n].value for n in ("id_length", "palette_type", "codec", "nb_color", "color_map_size", "x_min", "y_min", "width", "height", "bpp", "alpha_depth", "x_flip", "y_flip")],
           [len(ident), 1 if count else 0, codec, count, 24 if count else 0, 1, 2, w, h, bpp, 8 if bpp == 32 else 0, False, flip])
    if ident:
        expect(ctx, what + ": identifier", p["image_id"].value, ident)
    if count:
        expect(ctx, what + ": palette", [rgb(c) for c in p["palette"]], pal)
    contiguous(ctx, what, p, len(data) * 8, 2)
    if codec in (1, 2, 3):
        f = p["pixels"]
        expect(ctx, what + ": place of the pixels", (f.address, f.size), (at * 8, len(raw) * 8))
        for y in range(h):
            expect(ctx, "%s: line %s" % (what, y), [c.value for c in f["line[%s]" % y].array("pixel")], pix[y])
    else:
        expect(ctx, what + ": data", p["raw_pixels"].value, raw + footer)
    m = meta(p)
    check_meta(ctx, what, m, width=w, height=h, bits_per_pixel=bpp, nb_colors=count or None,
               compression={1: "Palette uncompressed", 2: "True-color uncompressed", 3: "Grayscale uncompressed", 9: "Palette RLE", 10: "True-color RLE", 11: "Grayscale RLE"}[codec])


# ---- PCX --------------------------------------------------------------------------------------

def pcxs(case, ctx):
    for version in (0, 2, 3, 4, 5):
        for x0, y0, x1, y1 in ((0, 0, 0, 0), (0, 0, 319, 199), (10, 20, 10, 20), (5, 6, 104, 55)):
            for n in (1, 7, 50):
                pcx_one(ctx, case["bpp"], case["planes"], version, x0, y0, x1, y1, n)


def pcx_one(ctx, bpp, planes, version, x0, y0, x1, y1, n):
    what = "PCX of %s bits, %s planes, version %s, %s" % (bpp, planes, version, (x0, y0, x1, y1))
    w, h = x1 - x0 + 1, y1 - y0 + 1
    pal16 = colors(16)
    raw = bytes((k * 3) & 255 for k in range(n))
    pal = colors(256, 3) if bpp == 8 and planes == 1 else []
    per_line = (w * bpp + 15) // 16 * 2
    data = struct.pack("<BBBBHHHHHH", 10, version, 1, bpp, x0, y0, x1, y1, 72, 96) + b"".join(map(bytes, pal16)) + struct.pack("<BBHH", 0, planes, per_line, 1) + b"\0" * 58
    data += raw + b"".join(map(bytes, pal))
    p = opened(ctx, what, data, PcxFile)
    expect(ctx, what + ": header", [p[k].value for k in ("version", "compression", "bpp", "xmin", "ymin", "xmax", "ymax", "horiz_dpi", "vert_dpi", "nb_color_plan", "bytes_per_line", "color_mode")],
           [version, 1, bpp, x0, y0, x1, y1, 72, 96, planes, per_line, 1])
    expect(ctx, what + ": small palette", [rgb(c) for c in p["palette_4bits"]], pal16)
    contiguous(ctx, what, p, len(data) * 8)
    expect(ctx, what + ": data", (p["image_data"].address, p["image_data"].value), (128 * 8, raw))
    expect(ctx, what + ": palette", [rgb(c) for c in p["palette_8bits"]] if "palette_8bits" in p else [], pal)
    check_meta(ctx, what, meta(p), width=w, height=h, width_dpi=72, height_dpi=96, bits_per_pixel=bpp * planes, compression="Run-length encoding (RLE)",
               nb_colors=2 ** (bpp * planes) if bpp * planes <= 8 else None, compr_rate=rate(w * h * bpp * planes, len(raw) * 8))


# ---- ICO --------------------------------------------------------------------------------------

ICONS = [dict(w=16, colors=16, bpp=4), dict(w=32, colors=0, bpp=8), dict(w=48, colors=0, bpp=24), dict(w=32, colors=0, bpp=32), dict(w=0, colors=0, bpp=32), dict(w=16, colors=16, bpp=0, planes=0)]


def icos(case, ctx):
    for seq in itertools.product(ICONS, repeat=case["n"]):
        if seq[0] != ICONS[case["first"]]:
            continue
        for kind in (1, 2):
            for junk in (b"", b"more data"):
                ico_one(ctx, seq, kind, junk)


def ico_one(ctx, seq, kind, junk):
    what = "icon of kind %s with %s%s" % (kind, list(seq), ", data behind" if junk else "")
    head = struct.pack("<HHH", 0, kind, len(seq))
    at = 6 + 16 * len(seq)
    body, want = b"", []
    for k, i in enumerate(seq):
        count = i["colors"] or (256 if i["bpp"] == 8 else 0)
        pal = colors(count, k)
        pix = bytes((j + k) & 255 for j in range(40 + k))
        w = i["w"] or 256
        d = struct.pack("<IIIHHIIIIII", 40, w, 2 * w, 1, i["bpp"] or 4, 0, len(pix), 0, 0, 0, 0) + b"".join(bytes((b, g, r, 0)) for r, g, b in pal) + pix
        head += struct.pack("<BBBBHHII", i["w"], i["w"], i["colors"], 0, i.get("planes", 1), i["bpp"], len(d), at + len(body))
        want.append((at + len(body), d, pal, pix))
        body += d
    data = head + body + junk
    p = opened(ctx, what, data, IcoFile)
    expect(ctx, what + ": header", [p[n].value for n in ("signature", "type", "nb_items")], [0, kind, len(seq)])
    expect(ctx, what + ": size", p.content_size, len(head + body) * 8)
    if not junk:
        contiguous(ctx, what, p, len(data) * 8)
    m = meta(p)
    for k, (i, (off, d, pal, pix)) in enumerate(zip(seq, want)):
        w2 = "%s: icon %s" % (what, k)
        h, f = p["icon_header[%s]" % k], p["icon_data[%s]" % k]
        expect(ctx, w2, [h[n].value for n in ("width", "height", "nb_color", "planes", "bpp", "size", "offset")], [i["w"], i["w"], i["colors"], i.get("planes", 1), i["bpp"], len(d), off])
        expect(ctx, w2 + ": place", (f.absolute_address, f.size), (off * 8, len(d) * 8))
        expect(ctx, w2 + ": palette", [rgb(c) for c in f["palette"]] if "palette" in f else [], pal)
        expect(ctx, w2 + ": pixels", f["pixels"].value, pix)
        expect(ctx, w2 + ": picture", [f["header/" + n].value for n in ("hdr_size", "width", "height", "bpp")], [40, i["w"] or 256, 2 * (i["w"] or 256), i["bpp"] or 4])
        g = m["image[%s]" % k]
        check_meta(ctx, w2, g, width=i["w"] or 256, height=i["w"] or 256, bits_per_pixel=i["bpp"] or 4, nb_colors=i["colors"] or None, compression="Uncompressed (RGB)", compr_rate=rate((i["w"] or 256) ** 2 * (i["bpp"] or 4), len(pix) * 8))


def own(case, ctx):
    """The decoder of this check on real pictures"""
    data = open(case["file"], "rb").read()
    p = GifFile(StringInputStream(data, source="file:x", tags=[]))
    for image in p.array("image"):
        packed = b"".join(b.value for b in image.array("image_block"))
        out, codes, pos = unlzw(image["lzw_min_code_size"].value, packed)
        if len(out) != image["width"].value * image["height"].value:
            raise lib.HarnessError("%s: %s pixels" % (case["file"], len(out)))
        ctx.count("transitions")


def main():
    c = lib.Check("A03", "model_checking",
                  "all combinations of sizes, depths, headers, palettes, orders, chunks, extensions, splits and data behind, written byte by byte: every field, its place, the compressed or plain pixels, the "
                  "size of the picture and the metadata",
                  bounds={"PNG": "ordered subsets of 2 (thorough 3) of %s chunks x %s kinds" % (len(CHUNKS), len(KINDS)), "GIF": "sequences of 2 (3) of %s blocks; LZW of all sequences of 6 (8) pixels" % (len(EXTENSIONS) + len(IMAGES))})
    q = c.quick
    c.domain("BMP", [{"bpp": b, "header": h, "w": 5 if q else 9, "h": 2 if q else 4} for b in (1, 4, 8, 16, 24, 32) for h in (12, 40, 108)], bmps, batch=1, cpu_limit=600)
    for n in range(0, 3 if q else 4):
        c.domain("PNG %s" % n, [{"n": n, "kinds": [k], "first": [f]} for k in (KINDS if n < 2 or not q else KINDS[::3] + [(3, 8)]) for f in (CHUNKS if n else [""])], pngs, batch=2, cpu_limit=600)
    for n in range(1, 3 if q else 4):
        c.domain("GIF %s" % n, [{"n": n, "first": k} for k in range(len(EXTENSIONS) + len(IMAGES))], gifs, batch=1, cpu_limit=600)
    c.domain("LZW", [{"mode": "short", "start": s, "letters": l, "n": n, "size": 2} for s, l, n in ((2, 2, 7 if q else 10), (2, 4, 4 if q else 6), (4, 3, 4 if q else 6), (8, 2, 5 if q else 8))], gif_lzw, batch=1, cpu_limit=600)
    c.domain("LZW full", [{"mode": "long", "start": s, "letters": l, "n": n, "size": 255, "when": w} for s, l, n in ((2, 4, 12000), (8, 256, 9000), (7, 128, 4300), (8, 256, 3840)) for w in ("full", "never")], gif_lzw,
             batch=1, cpu_limit=600)
    c.domain("TGA", [{"codec": k, "bpp": b, "colors": n} for k, b, n in ((1, 8, 256), (1, 8, 7), (2, 16, 0), (2, 24, 0), (2, 32, 0), (3, 8, 0), (9, 8, 256), (9, 8, 16), (10, 24, 0), (10, 32, 0), (11, 8, 0))], tgas, batch=1)
    c.domain("PCX", [{"bpp": b, "planes": n} for b, n in ((1, 1), (1, 4), (2, 1), (4, 1), (8, 1), (8, 3), (8, 4))], pcxs, batch=1)
    c.domain("ICO", [{"n": n, "first": k} for n in range(1, 4 if q else 5) for k in range(len(ICONS))], icos, batch=1)
    c.domain("own", [{"file": f} for f in sorted(glob.glob(os.path.join(lib.REPO, "tests", "files", "*.gif")))], own)
    c.main()


if __name__ == "__main__":
    main()
