"""C01: numbers, bytes and binary texts are converted as documented, and conversions are inverses."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import bits
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN

EDGES = sorted({(1 << k) + d for k in range(0, 131) for d in (-2, -1, 0, 1, 2)} | {(1 << k) * 0x5A + 0x37 for k in range(0, 70)})
EDGES = [v for v in EDGES if v >= 0]


def swapped(data):
    out = b""
    for k in range(0, len(data), 2):
        out += data[k + 1:k + 2] + data[k:k + 1]
    return out


def number(v, ctx):
    ctx.count("transitions")
    ctx.count("traces")

    def same(what, got, want):
        if got != want:
            ctx.report("%s: %r, expected %r" % (what, got, want))

    same("countBits(%s)" % v, bits.countBits(v), max(v.bit_length(), 1))
    n = (v.bit_length() + 7) // 8
    for endian, order in ((BIG_ENDIAN, "big"), (LITTLE_ENDIAN, "little")):
        if v:
            raw = bits.long2raw(v, endian)
            same("long2raw(%s, %s)" % (v, endian), raw, v.to_bytes(n, order))
            same("str2long(%r, %s)" % (raw, endian), bits.str2long(raw, endian), v)
        for size in {max(n, 1), n + 1, n + 3, 17}:
            if size < n:
                continue
            raw = bits.long2raw(v, endian, size)
            same("long2raw(%s, %s, %s)" % (v, endian, size), raw, v.to_bytes(size, order))
            same("str2long(%r, %s)" % (raw, endian), bits.str2long(raw, endian), v)
    size = max(n, 1) + n % 2 if n else 2
    raw = v.to_bytes(size, "big")
    same("str2long(%r, middle)" % swapped(raw), bits.str2long(swapped(raw), MIDDLE_ENDIAN), v)
    same("strswapmid(%r)" % raw, bits.strswapmid(raw), swapped(raw))
    same("str2hex(%r)" % raw, bits.str2hex(raw), raw.hex().upper())
    same("str2hex(%r, 0x, :)" % raw, bits.str2hex(raw, prefix="0x", glue=":", format="%02x"), "0x:" + ":".join("%02x" % b for b in raw))
    width = v.bit_length()
    for size in {max(width, 1), width + 1, (width + 7) // 8 * 8 or 8, 20, 64}:
        # the least significant bit first; the bits which do not fit are cut
        text = "".join("1" if v >> k & 1 else "0" for k in range(size))
        for endian, whole in ((BIG_ENDIAN, text), (LITTLE_ENDIAN, text[::-1])):
            packs = [whole[k:k + 8] for k in range(0, size, 8)]
            got = bits.long2bin(size, v, endian)
            same("long2bin(%s, %s, %s)" % (size, v, endian), got, " ".join(packs))
            same("long2bin(%s, %s, %s, True)" % (size, v, endian), bits.long2bin(size, v, endian, True), " ".join(p[::-1] for p in packs))
            # bin2long() names the order of the bits the other way round
            other = LITTLE_ENDIAN if endian is BIG_ENDIAN else BIG_ENDIAN
            same("bin2long(%r, %s)" % (got, other), bits.bin2long(got, other), v & ((1 << size) - 1))
    if v < 1 << 16:
        same("swap16(%#x)" % v, bits.swap16(v), struct.unpack("<H", struct.pack(">H", v))[0])
    if v < 1 << 32:
        same("swap32(%#x)" % v, bits.swap32(v), struct.unpack("<I", struct.pack(">I", v))[0])
        same("swap32(swap32(%#x))" % v, bits.swap32(bits.swap32(v)), v)


def numbers(case, ctx):
    for v in range(case["lo"], case["hi"]):
        number(v, ctx)
    ctx.seen("states", case["lo"])


def edges(case, ctx):
    for v in EDGES[case["part"]::case["parts"]]:
        number(v, ctx)
        ctx.seen("states", v)


def texts(case, ctx):
    """bin2long() on all texts; the bits of all bytes."""
    for seq in itertools.product("01 x", repeat=case["n"]):
        text = "".join(seq)
        ctx.count("transitions")
        ctx.seen("states", text)
        digits = [c for c in text if c in "01"]
        if not digits:
            continue
        ctx.count("traces")
        for endian, order in ((BIG_ENDIAN, digits), (LITTLE_ENDIAN, digits[::-1])):
            if bits.bin2long(text, endian) != int("".join(order), 2):
                ctx.report("bin2long(%r, %s): %r, expected %r" % (text, endian, bits.bin2long(text, endian), int("".join(order), 2)))


def octets(case, ctx):
    for k in range(256):
        ctx.count("transitions")
        text = "".join("1" if k >> b & 1 else "0" for b in range(7, -1, -1))
        for classic, want in ((True, text), (False, text[::-1])):
            if bits.byte2bin(k, classic) != want:
                ctx.report("byte2bin(%s, %s): %r, expected %r" % (k, classic, bits.byte2bin(k, classic), want))
        for j in (0, 1, 0x80, 0xFF, k):
            want = " ".join("".join("1" if v >> b & 1 else "0" for b in range(7, -1, -1)) for v in (k, j))
            for value in (chr(k) + chr(j), ):
                if bits.str2bin(value) != want:
                    ctx.report("str2bin(%r): %r, expected %r" % (value, bits.str2bin(value), want))
                if bits.str2bin(value, False) != " ".join(w[::-1] for w in want.split()):
                    ctx.report("str2bin(%r, False): %r" % (value, bits.str2bin(value, False)))
        ctx.count("traces")


def arrays(case, ctx):
    """str2long() on all byte strings over the bytes."""
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(case["alphabet"], repeat=n):
            data = bytes(seq)
            ctx.count("transitions")
            value = 0
            for b in data:
                value = value * 256 + b
            little = 0
            for b in reversed(data):
                little = little * 256 + b
            if bits.str2long(data, BIG_ENDIAN) != value:
                ctx.report("str2long(%r, big): %r, expected %r" % (data, bits.str2long(data, BIG_ENDIAN), value))
            if bits.str2long(data, LITTLE_ENDIAN) != little:
                ctx.report("str2long(%r, little): %r, expected %r" % (data, bits.str2long(data, LITTLE_ENDIAN), little))
            if n % 2 == 0:
                middle = int.from_bytes(swapped(data), "big")
                if bits.str2long(data, MIDDLE_ENDIAN) != middle:
                    ctx.report("str2long(%r, middle): %r, expected %r" % (data, bits.str2long(data, MIDDLE_ENDIAN), middle))
                if bits.strswapmid(bits.strswapmid(data)) != data:
                    ctx.report("strswapmid() twice changes %r" % data)
    ctx.count("traces")


def main():
    c = lib.Check("C01", "model_checking",
                  "all numbers up to the limit and around all powers of two x sizes, byte orders, modes; all texts of digits; all byte strings over the alphabets, against Python's own integers",
                  bounds={"numbers": "2^15 (thorough 2^19), 2^k +- 2 for k <= 130", "texts": "length 7 (9)", "bytes": "all of 2 bytes, 5 values up to length 6 (8)"})
    q = c.quick
    top = 1 << (15 if q else 19)
    c.domain("numbers", [{"lo": k, "hi": k + 1024} for k in range(0, top, 1024)], numbers, batch=2)
    c.domain("edges", [{"part": k, "parts": 8} for k in range(8)], edges, batch=1)
    for n in range(1, 8 if q else 10):
        c.domain("texts %s" % n, [{"n": n}], texts, batch=1, cpu_limit=300)
    c.domain("bytes", [{}], octets, batch=1)
    c.domain("pairs", [{"n": 2, "alphabet": list(range(256))}], arrays, batch=1)
    c.domain("strings", [{"n": 6 if q else 8, "alphabet": [0, 1, 127, 128, 255]}], arrays, batch=1, cpu_limit=300)
    c.main()


if __name__ == "__main__":
    main()
