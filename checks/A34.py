"""A34: Blizzard pictures (BLP1, BLP2) are shown as they were written: mipmaps, palette indexes, alpha values, texture blocks with their colors."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, expect, get, opened
from hachoir.parser.game.blp import BLP1File, BLP2File

PALETTE = [((i * 7 + 3) % 256, (i * 13 + 1) % 256, (255 - i) % 256, (i * 5) % 256) for i in range(256)]  # blue, green, red, alpha
PAL = b"".join(bytes(c) for c in PALETTE)


def color_text(i):
    b, g, r, a = PALETTE[i]
    name = {(0, 0, 0): "Black", (255, 0, 0): "Red", (0, 255, 0): "Green", (0, 0, 255): "Blue", (255, 255, 255): "White"}.get((r, g, b), "#%02X%02X%02X" % (r, g, b))
    return "RGB color: %s (opacity: %s%%)" % (name, a * 100 // 255)


def levels(w, h, n):
    return [(max(w >> i, 1), max(h >> i, 1)) for i in range(n)]


def number(k, n):
    """Some values which differ everywhere"""
    return [(k * 37 + i * 11 + i // 7) % 256 for i in range(n)]


def file(head, blobs, first, gap, slots):
    """blobs are put behind the first bytes, gap bytes apart, for the given slots"""
    offsets, sizes, at, tail = [0] * 16, [0] * 16, first, b""
    for k, (slot, b) in enumerate(zip(slots, blobs)):
        tail += b"\xee" * gap
        offsets[slot], sizes[slot] = first + len(tail), len(b)
        tail += b
    return head + struct.pack("<16I", *offsets) + struct.pack("<16I", *sizes), tail, offsets, sizes


def check_head(ctx, what, p, want, offsets, sizes):
    for k, v in want.items():
        expect(ctx, "%s: %s" % (what, k), get(p, k), v)
    expect(ctx, what + ": offsets and sizes", ([f.value for f in p.array("mipmap_offset")], [f.value for f in p.array("mipmap_size")]), (offsets, sizes))


def check_palette(ctx, what, p):
    got = p["palette"]
    expect(ctx, what + ": palette", [tuple(c[k].value for k in ("blue", "green", "red", "alpha")) for c in got], PALETTE)
    expect(ctx, what + ": described colors", [c.description for c in got], [color_text(i) for i in range(256)])


def check_array(ctx, what, f, at, w, h, values, item, size=8, describe=None):
    rows = list(f.array("row"))
    expect(ctx, what + ": place, size, rows", (f.absolute_address, f.size, len(rows), len(f)), (at * 8, w * h * size, h, h))
    got = [[(g.value, g.absolute_address) for g in r.array(item)] for r in rows]
    expect(ctx, what + ": values", got, [[(values[y * w + x], at * 8 + (y * w + x) * size) for x in range(w)] for y in range(h)])
    if describe:
        expect(ctx, what + ": described values", [[g.description for g in r.array(item)] for r in rows], [[describe(values[y * w + x]) for x in range(w)] for y in range(h)])


def index_text(i):
    return "Palette index %s (%s)" % (i, color_text(i))


def blp1(ctx, what, w, h, n, kind, gap=0, slots=None, jpeg=None, flags=8, subtype=1):
    sizes = levels(w, h, n)
    slots = slots or list(range(n))
    parts = [(number(k, a * b), number(k + 99, a * b)) for k, (a, b) in enumerate(sizes)]
    if jpeg is None:
        blobs = [bytes(i) + (bytes(a) if kind in (3, 4) else b"") for i, a in parts]
        body, first = PAL, 28 + 128 + 1024
    else:
        blobs = [bytes(number(k, 5 + k * 3)) for k in range(n)]
        body, first = struct.pack("<I", len(jpeg)) + jpeg, 28 + 128 + 4 + len(jpeg)
    head = b"BLP1" + struct.pack("<6I", 0 if jpeg is not None else 1, flags, w, h, kind, subtype)
    table, tail, offsets, lengths = file(head, blobs, first, gap, slots)
    data = table + body + tail
    p = opened(ctx, data, BLP1File)
    contiguous(ctx, what, p, len(data) * 8, 3)
    check_head(ctx, what, p, dict(magic="BLP1", compression=0 if jpeg is not None else 1, flags=flags, width=w, height=h, type=kind, subtype=subtype), offsets, lengths)
    expect(ctx, what + ": compression", p["compression"].display, "Uncompressed" if jpeg is None else "JPEG Compression")
    if jpeg is None:
        check_palette(ctx, what, p)
    else:
        expect(ctx, what + ": JPEG header", get(p, "jpeg_header"), jpeg)
    for k, ((a, b), slot) in enumerate(zip(sizes, slots)):
        m = "%s: mipmap %s" % (what, slot)
        if jpeg is not None:
            expect(ctx, m, (get(p, "mipmap[%s]" % slot), p["mipmap[%s]" % slot].absolute_address), (blobs[k], offsets[slot] * 8))
            continue
        check_array(ctx, m, p["mipmap_indexes[%s]" % slot], offsets[slot], a, b, parts[k][0], "index", describe=index_text)
        expect(ctx, m + ": has alpha values", ("mipmap_alphas[%s]" % slot) in p, kind in (3, 4))
        if kind in (3, 4):
            check_array(ctx, m + " alpha", p["mipmap_alphas[%s]" % slot], offsets[slot] + a * b, a, b, parts[k][1], "alpha")


# Texture blocks
def color_hex(c):
    return "#%02X%02X%02X" % (c[0] << 3, c[1] << 2, c[2] << 3)


def dxt1(a, b, pixels):
    """a, b: (red, green, blue) of 5, 6 and 5 bits; 16 numbers of 2 bits"""
    n = sum(p << 2 * i for i, p in enumerate(pixels))
    return struct.pack("<HHI", a[0] << 11 | a[1] << 5 | a[2], b[0] << 11 | b[1] << 5 | b[2], n)


def check_dxt1(ctx, what, f, at, a, b, pixels, four):
    expect(ctx, what + ": place, size", (f.absolute_address, f.size), (at * 8, 64))
    expect(ctx, what + ": colors", [tuple(f["%s[%s]" % (k, i)].value for k in ("red", "green", "blue")) for i in (0, 1)], [a, b])
    if four or a > b:
        mix = [tuple((x * (3 - i) + y * i) // 3 for x, y in zip(a, b)) for i in (1, 2)]
    else:
        mix = [tuple((x + y) // 2 for x, y in zip(a, b)), None]
    table = [a, b] + mix
    expect(ctx, what + ": pixels", [(f["pixel[%s][%s]" % divmod(i, 4)].value, f["pixel[%s][%s]" % divmod(i, 4)].absolute_address) for i in range(16)], [(p, at * 8 + 32 + 2 * i) for i, p in enumerate(pixels)])
    expect(ctx, what + ": described pixels", [f["pixel[%s][%s]" % divmod(i, 4)].description for i in range(16)],
           ["Transparent" if table[p] is None else "RGB color: " + color_hex(table[p]) for p in pixels])


def dxt3(alphas, *rest):
    return struct.pack("<Q", sum(v << 4 * i for i, v in enumerate(alphas))) + dxt1(*rest)


def dxt5(x, y, alphas, *rest):
    return bytes([x, y]) + sum(v << 3 * i for i, v in enumerate(alphas)).to_bytes(6, "little") + dxt1(*rest)


def check_block(ctx, what, f, at, kind, block):
    if kind == 1:
        return check_dxt1(ctx, what, f, at, *block, False)
    expect(ctx, what + ": place, size", (f.absolute_address, f.size), (at * 8, 128))
    if kind == 3:
        expect(ctx, what + ": alpha", [(f["alpha/alpha[%s][%s]" % divmod(i, 4)].value, f["alpha/alpha[%s][%s]" % divmod(i, 4)].absolute_address) for i in range(16)], [(v, at * 8 + 4 * i) for i, v in enumerate(block[0])])
        return check_dxt1(ctx, what, f["color"], at + 8, *block[1:], True)
    x, y, alphas = block[:3]
    table = [x, y] + ([(x * (7 - i) + y * i) // 7 for i in range(1, 7)] if x > y else [(x * (5 - i) + y * i) // 5 for i in range(1, 5)] + [0, 255])
    expect(ctx, what + ": alpha values", (get(f, "alpha/alpha_val[0]"), get(f, "alpha/alpha_val[1]")), (x, y))
    got = [f["alpha/alpha[%s][%s]" % divmod(i, 4)] for i in range(16)]
    expect(ctx, what + ": alpha", [(g.value, g.absolute_address, g.description) for g in got], [(v, at * 8 + 16 + 3 * i, "Alpha value: %s" % table[v]) for i, v in enumerate(alphas)])
    check_dxt1(ctx, what, f["color"], at + 8, *block[3:], True)


COLORS = [(0, 0, 0), (31, 63, 31), (31, 0, 0), (1, 62, 17), (17, 3, 30)]
PIXELS = [[(i * 7 + i // 4) % 4 for i in range(16)], [i % 4 for i in range(16)], [3] * 16, [2, 0, 1, 3] * 4]
ALPHAS8 = [(0, 0), (255, 0), (0, 255), (200, 13), (13, 200), (7, 7)]


def blocks(kind):
    for k, (a, b) in enumerate(itertools.product(COLORS, repeat=2)):
        px = PIXELS[k % 4]
        if kind == 1:
            yield a, b, px
        elif kind == 3:
            yield [(i * (k + 1) + k) % 16 for i in range(16)], a, b, px
        else:
            x, y = ALPHAS8[k % 6]
            yield x, y, [(i * (k | 1) + k) % 8 for i in range(16)], a, b, px


WRITE = {1: dxt1, 3: dxt3, 5: dxt5}


def blp2(ctx, what, w, h, n, encoding, depth, alpha=0, gap=0, slots=None, jpeg=None, shift=0):
    sizes = levels(w, h, n)
    slots = slots or list(range(n))
    kind = {0: 1, 1: 3, 7: 5}[alpha]
    every = list(blocks(kind))
    parts, blobs, first = [], [], 20 + 128 + 1024
    for k, (a, b) in enumerate(sizes):
        if jpeg is not None:
            parts.append(bytes(number(k, 4 + k)))
            blobs.append(parts[-1])
        elif encoding == 1:
            idx, alphas = number(k, a * b), number(k + 50, a * b)
            raw = bytes(idx)
            if depth == 1:
                alphas = [v >> 3 & 1 for v in alphas]
                raw += sum(v << i for i, v in enumerate(alphas)).to_bytes((a * b + 7) // 8, "little")
            elif depth == 8:
                raw += bytes(alphas)
            parts.append((idx, alphas))
            blobs.append(raw)
        else:
            count = ((a + 3) // 4) * ((b + 3) // 4)
            parts.append([every[(shift + k * 3 + i) % len(every)] for i in range(count)])
            blobs.append(b"".join(WRITE[kind](*x) for x in parts[-1]))
    extra = b""
    if jpeg is not None:
        extra = struct.pack("<I", len(jpeg)) + jpeg
        first += len(extra)
    head = b"BLP2" + struct.pack("<I4BII", 0 if jpeg is not None else 1, encoding, depth, alpha, int(n > 1), w, h)
    table, tail, offsets, lengths = file(head, blobs, first, gap, slots)
    data = table + PAL + extra + tail
    p = opened(ctx, data, BLP2File)
    contiguous(ctx, what, p, len(data) * 8, 3)
    check_head(ctx, what, p, dict(magic="BLP2", compression=0 if jpeg is not None else 1, encoding=encoding, alpha_depth=depth, alpha_encoding=alpha, has_mips=int(n > 1), width=w, height=h), offsets, lengths)
    check_palette(ctx, what, p)
    if jpeg is not None:
        expect(ctx, what + ": JPEG header", get(p, "jpeg_header"), jpeg)
    for k, ((a, b), slot) in enumerate(zip(sizes, slots)):
        m, at = "%s: mipmap %s" % (what, slot), offsets[slot]
        if jpeg is not None:
            expect(ctx, m, (get(p, "mipmap[%s]" % slot), p["mipmap[%s]" % slot].absolute_address), (parts[k], at * 8))
        elif encoding == 1:
            check_array(ctx, m, p["mipmap_indexes[%s]" % slot], at, a, b, parts[k][0], "index", describe=index_text)
            expect(ctx, m + ": has alpha values", ("mipmap_alphas[%s]" % slot) in p, depth > 0)
            if depth == 1:
                check_array(ctx, m + " alpha", p["mipmap_alphas[%s]" % slot], at + a * b, a, b, parts[k][1], "is_opaque", 1)
            elif depth == 8:
                check_array(ctx, m + " alpha", p["mipmap_alphas[%s]" % slot], at + a * b, a, b, parts[k][1], "alpha")
        else:
            rows = list(p["mipmap[%s]" % slot].array("row"))
            bw, bh = (a + 3) // 4, (b + 3) // 4
            expect(ctx, m + ": rows of blocks", (len(rows), {len(r.array("block")) for r in rows}), (bh, {bw}))
            for y, r in enumerate(rows):
                for x, f in enumerate(list(r.array("block"))):
                    i = y * bw + x
                    if i < len(parts[k]):
                        check_block(ctx, "%s: block %s %s" % (m, x, y), f, at + i * (8 if kind == 1 else 16), kind, parts[k][i])


def one(case, ctx):
    for w in range(1 + case["i"], case["max"] + 1, 8):
        for h in range(1, case["max"] + 1):
            for n in sorted({1, 2, max(w, h).bit_length(), max(w, h).bit_length() + 1}):
                for kind in (3, 4, 5):
                    blp1(ctx, "BLP1 of %s x %s, type %s, %s mipmaps" % (w, h, kind, n), w, h, n, kind, gap=(w + h) % 3)
    for n in range(case["i"], 17, 8):
        for header in (b"\xff\xd8", b"\xff\xd8" + bytes(range(256)) * 2):
            if n:
                blp1(ctx, "BLP1 with %s JPEG mipmaps" % n, 512, 256, n, 4, gap=n % 3, jpeg=header)
                blp2(ctx, "BLP2 with %s JPEG mipmaps" % n, 512, 256, n, 1, 0, gap=n % 3, jpeg=header)
    for v in ((0, 0), (8, 1), (2 ** 32 - 1, 2 ** 31)):
        blp1(ctx, "BLP1 with flags %s" % (v,), 3, 2, 2, 5, flags=v[0], subtype=v[1])


def two(case, ctx):
    for w in range(1 + case["i"], case["max"] + 1, 8):
        for h in range(1, case["max"] + 1):
            for n in sorted({1, 2, max(w, h).bit_length(), max(w, h).bit_length() + 1}):
                for depth in (0, 1, 8):
                    blp2(ctx, "BLP2 of %s x %s, alpha of %s bits, %s mipmaps" % (w, h, depth, n), w, h, n, 1, depth, gap=(w + h) % 3)
                for depth, alpha in ((0, 0), (1, 0), (8, 1), (8, 7)):
                    blp2(ctx, "BLP2 of %s x %s, textures %s %s, %s mipmaps" % (w, h, depth, alpha, n), w, h, n, 2, depth, alpha, gap=(w + h) % 3, shift=w * 5 + h)


def textures(case, ctx):
    """All pairs of colors, all pairs of alpha values, all numbers of one pixel at each place"""
    for shift in range(case["i"], 25, 8):
        for depth, alpha in ((0, 0), (8, 1), (8, 7)):
            blp2(ctx, "texture %s of kind %s" % (shift, alpha), 20, 20, 1, 2, depth, alpha, shift=shift)


if __name__ == "__main__":
    c = lib.Check("A34", "model_checking", "all widths and heights up to a limit, with each kind of picture, numbers of mipmaps and gaps between them; texture blocks of all pairs of colors and alpha values: place and value of each item",
                  bounds={"width, height": "1-8 (thorough: 1-20)", "mipmaps": "up to 16", "texture blocks": "25 of each kind"})
    q = c.quick
    c.domain("BLP1", [{"i": i, "max": 8 if q else 20} for i in range(8)], one, batch=1)
    c.domain("BLP2", [{"i": i, "max": 8 if q else 20} for i in range(8)], two, batch=1)
    c.domain("textures", [{"i": i} for i in range(8)], textures, batch=1)
    c.main()
