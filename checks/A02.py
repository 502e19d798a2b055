"""A02: the pure Python decoders of zlib/deflate and bzip2 data show exactly the data which was compressed, for every kind of block."""
import bz2, itertools, os, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from hachoir.core import config
from hachoir.core.endian import LITTLE_ENDIAN
from hachoir.parser.archive.bzip2_parser import Bzip2Parser
from hachoir.parser.archive import zlib as zlib_module
from hachoir.parser.archive.zlib import ZlibData, build_tree, extend_data, zlib_inflate
from hachoir.stream import StringInputStream

config.quiet = True


# ---- deflate: an encoder of all kinds of blocks ------------------------------------------------

class Bits:
    def __init__(self):
        self.bits = []

    def add(self, value, n):
        for k in range(n):
            self.bits.append(value >> k & 1)

    def code(self, code):
        self.bits.extend(int(c) for c in code)

    def align(self):
        while len(self.bits) % 8:
            self.bits.append(0)

    def data(self):
        bits = self.bits + [0] * (-len(self.bits) % 8)
        return bytes(sum(b << k for k, b in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8))


LENGTHS = [(257 + k, 3 + k, 0) for k in range(8)]
base = 11
for extra in range(1, 6):
    for k in range(4):
        LENGTHS.append((LENGTHS[-1][0] + 1, base, extra))
        base += 1 << extra
LENGTHS[-1] = (284, 227, 5)
LENGTHS.append((285, 258, 0))
DISTANCES = [(k, k + 1, 0) for k in range(4)]
base = 5
for extra in range(1, 14):
    for k in range(2):
        DISTANCES.append((DISTANCES[-1][0] + 1, base, extra))
        base += 1 << extra


def symbol(table, value):
    """(symbol, extra value, number of extra bits)"""
    last = None
    for s, first, n in table:
        if first <= value:
            if value - first < 1 << n:
                last = (s, value - first, n)
    return last


def canonical(lengths):
    """{symbol: code as text}, by the rule of RFC 1951: by length, then by symbol"""
    out, code, last = {}, 0, 0
    for n, s in sorted((n, s) for s, n in enumerate(lengths) if n):
        code <<= n - last
        out[s] = format(code, "0%sb" % n)
        code += 1
        last = n
    return out


FIXED = canonical([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
FIXED_DIST = canonical([5] * 32)
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


def balanced(symbols, size):
    """Code lengths of a complete code over the symbols"""
    lengths = [0] * size
    symbols = sorted(symbols)
    if len(symbols) == 1:
        lengths[symbols[0]] = 1
        return lengths
    n = (len(symbols) - 1).bit_length()
    short = (1 << n) - len(symbols)
    for k, s in enumerate(symbols):
        lengths[s] = n - 1 if k < short else n
    return lengths


def skewed(symbols, size):
    lengths = [0] * size
    symbols = sorted(symbols)
    if len(symbols) == 1:
        lengths[symbols[0]] = 1
        return lengths
    for k, s in enumerate(symbols[:14]):
        lengths[s] = k + 1
    rest = symbols[14:]
    if not rest:
        lengths[symbols[-1]] = len(symbols) - 1
        return lengths
    return balanced(symbols, size)


def runs(lengths, how):
    """The code lengths as (symbol, extra bits, value). how: plain, runs (per table), joined (a run may go from one table to the other)"""
    out, k = [], 0
    while k < len(lengths):
        n = 1
        while k + n < len(lengths) and lengths[k + n] == lengths[k]:
            n += 1
        v = lengths[k]
        if how == "plain":
            out.append((v, 0, 0))
            k += 1
        elif v == 0 and n >= 11:
            n = min(n, 138)
            out.append((18, 7, n - 11))
            k += n
        elif v == 0 and n >= 4 and how == "copies":
            # zeros by a repetition of the previous length, which is itself a run of zeros or a zero
            out.append((17, 3, 0))
            n = min(n - 3, 6)
            if n >= 3:
                out.append((16, 2, n - 3))
                k += n + 3
            else:
                k += 3
        elif v == 0 and n >= 3:
            n = min(n, 10)
            out.append((17, 3, n - 3))
            k += n
        elif k and lengths[k - 1] == v and n >= 3:
            n = min(n, 6)
            out.append((16, 2, n - 3))
            k += n
        else:
            out.append((v, 0, 0))
            k += 1
    return out


def block(bits, spec, final, history):
    """spec: (kind, tokens, variant). A token is a byte or (length, distance)."""
    kind, tokens, how = spec
    bits.add(1 if final else 0, 1)
    bits.add({"stored": 0, "fixed": 1, "dynamic": 2}[kind], 2)
    if kind == "stored":
        bits.align()
        bits.add(len(tokens), 16)
        bits.add(~len(tokens) & 0xFFFF, 16)
        for t in tokens:
            bits.add(t, 8)
            history.append(t)
        return
    coded = []
    for t in tokens:
        if isinstance(t, int):
            coded.append((t, 0, 0, None))
            history.append(t)
        else:
            s, e, n = symbol(LENGTHS, t[0])
            coded.append((s, e, n, symbol(DISTANCES, t[1])))
            for k in range(t[0]):
                history.append(history[-t[1]])
    coded.append((256, 0, 0, None))
    lit, dist = FIXED, FIXED_DIST
    if kind == "dynamic":
        shape = skewed if how.endswith("skewed") else balanced
        literals = {c[0] for c in coded}
        if how.startswith("runs") or how.startswith("joined"):
            literals |= {97, 98, 99, 100, 101, 102, 103}
        if len(literals) == 1:
            literals.add(0)
        distances = {c[3][0] for c in coded if c[3]} or {0}
        if how.startswith("joined same"):
            # eight codes of three bits each: a run goes from one table to the other
            literals = {256, 257, 258, 259, 260, 261} | {c[0] for c in coded if c[0] > 255} | {97, 98}
            distances = set(range(8))
        ll = shape(literals, max(max(literals) + 1, 257))
        dl = shape(distances, max(distances) + 1)
        if how.startswith("joined zeros"):
            ll += [0] * (286 - len(ll))
        name = how.split()[0]
        symbols = runs(ll + dl, "runs") if name == "joined" else runs(ll, name) + runs(dl, name)
        cl = balanced({s[0] for s in symbols} | {0, 1}, 19)
        if max(cl) > 7:
            raise lib.HarnessError("code length %s" % cl)
        codes = canonical(cl)
        count = max(k for k in range(19) if cl[ORDER[k]]) + 1
        count = max(count, 4)
        bits.add(len(ll) - 257, 5)
        bits.add(len(dl) - 1, 5)
        bits.add(count - 4, 4)
        for k in range(count):
            bits.add(cl[ORDER[k]], 3)
        for s, n, v in symbols:
            bits.code(codes[s])
            bits.add(v, n)
        lit, dist = canonical(ll), canonical(dl)
    for s, e, n, d in coded:
        bits.code(lit[s])
        bits.add(e, n)
        if d:
            bits.code(dist[d[0]])
            bits.add(d[1], d[2])


def deflate(specs):
    bits, history = Bits(), []
    for k, s in enumerate(specs):
        block(bits, s, k == len(specs) - 1, history)
    return bits.data(), bytes(history)


def compare(ctx, what, raw, want):
    """raw: deflate data; want: what it means"""
    ctx.count("transitions")
    ctx.seen("states", raw)
    try:
        plain = zlib.decompress(raw, -15)
    except zlib.error as e:
        raise lib.HarnessError("%s: zlib says %s" % (what, e))
    if plain != want:
        raise lib.HarnessError("%s: zlib gives %r, expected %r" % (what, plain[:40], want[:40]))
    wrapped = b"\x78\x9c" + raw + zlib.adler32(want).to_bytes(4, "big")
    ctx.count("traces")
    try:
        got = bytes(zlib_inflate(StringInputStream(wrapped)))
    except Exception as e:
        ctx.report("%s: %s: %s" % (what, type(e).__name__, e))
        return
    if got != want:
        ctx.report("%s: %s, expected %s" % (what, lib.short(got, 100), lib.short(want, 100)))
    try:
        got = bytes(zlib_inflate(StringInputStream(raw), -15))
    except Exception as e:
        ctx.report("%s, without header: %s: %s" % (what, type(e).__name__, e))
    else:
        if got != want:
            ctx.report("%s, without header: %s, expected %s" % (what, lib.short(got, 100), lib.short(want, 100)))
    formats.listen(ctx, "ZlibData", True)
    p = ZlibData(StringInputStream(wrapped), validate=True)
    names = [f.name for f in p]
    if names != ["compression_method", "compression_info", "flag_check_bits", "flag_dictionary_present", "flag_compression_level", "data", "data_checksum"]:
        ctx.report("%s: fields %s" % (what, names))
    elif p["data"].size != len(raw) * 8 or p["data_checksum"].absolute_address != (len(wrapped) - 4) * 8 or p.size != len(wrapped) * 8:
        ctx.report("%s: data of %s bits at %s, expected %s" % (what, p["data"].size, p["data"].absolute_address, len(raw) * 8))
    pos = 0
    for b in p["data"].array("compressed_block"):
        pos = b.address
        for f in b:
            if f.address + b.address != pos:
                ctx.report("%s: %s is at %s, expected %s" % (what, f.path, f.address, pos))
                break
            pos += f.size


A, B, C = 97, 98, 99
BLOCKS = [
    ("stored", [], ""), ("stored", [A], ""), ("stored", [A, B, 0, 255], ""),
    ("fixed", [], ""), ("fixed", [A, 200, 143, 144, 255], ""), ("fixed", [A, (3, 1)], ""), ("fixed", [(4, 2)], "history"), ("fixed", [A, B, (10, 2), C, (5, 3)], ""),
    ("dynamic", [], "plain"), ("dynamic", [A, B, A], "plain"), ("dynamic", [A, B, C, 250, (7, 2), (4, 1)], "runs"), ("dynamic", [A, B, C, (3, 3)], "runs skewed"),
    ("dynamic", [A, A, (5, 1), B, (6, 2)], "joined same"), ("dynamic", [A, A, B, B, C, (5, 4), (6, 5)], "joined zeros"), ("dynamic", [(3, 4), A], "copies history"), ("dynamic", [A, B, 1, 2, 3, (258, 5)], "plain skewed"),
]


def needs(spec):
    """How much must be there before the block"""
    need, have = 0, 0
    for t in spec[1]:
        if isinstance(t, int):
            have += 1
        else:
            need = max(need, t[1] - have)
            have += t[0]
    return need


def blocks(case, ctx):
    for seq in itertools.product(BLOCKS, repeat=case["n"]):
        if seq[0] != BLOCKS[case["first"]]:
            continue
        have, ok = 0, True
        for s in seq:
            ok = ok and needs(s) <= have
            have += sum(1 if isinstance(t, int) else t[0] for t in s[1])
        if not ok:
            continue
        raw, want = deflate(seq)
        compare(ctx, "blocks %s" % (seq,), raw, want)


def matches(case, ctx):
    """All lengths and distances at the borders of their symbols, in fixed and dynamic blocks"""
    stuff = [(k * 7 + k // 251) & 255 for k in range(case["history"])]
    for length in case["lengths"]:
        for distance in case["distances"]:
            for kind, how in (("fixed", ""), ("dynamic", "runs"))[:case["kinds"]]:
                raw, want = deflate([("stored", stuff, ""), (kind, [(length, distance), 33], how)])
                compare(ctx, "%s block, length %s, distance %s" % (kind, length, distance), raw, want)


def contents(case, ctx):
    """All small contents, compressed by zlib with all levels and strategies"""
    for seq in itertools.product(case["alphabet"], repeat=case["n"]):
        data = "".join(seq).encode("latin-1")
        for level in case["levels"]:
            for strategy in (zlib.Z_DEFAULT_STRATEGY, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED)[:case["strategies"]]:
                z = zlib.compressobj(level, zlib.DEFLATED, -15, 8, strategy)
                raw = z.compress(data) + z.flush()
                compare(ctx, "%r compressed, level %s, strategy %s" % (data[:60], level, strategy), raw, data)


def trees(case, ctx):
    """build_tree() against the canonical code, for all code lengths; extend_data() against a copy byte by byte"""
    for lengths in itertools.product(range(case["top"] + 1), repeat=case["n"]):
        if sum(2.0 ** -k for k in lengths if k) > 1 or not any(lengths):
            continue
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", lengths)
        want = {(len(c), int(c, 2)): s for s, c in canonical(lengths).items()}
        if build_tree(list(lengths)) != want:
            ctx.report("build_tree(%s): %s, expected %s" % (lengths, build_tree(list(lengths)), want))
    for n in range(1, 12):
        for offset in range(1, n + 1):
            for length in range(1, 30):
                ctx.count("transitions")
                got = bytearray(range(n))
                extend_data(got, length, offset)
                want = list(range(n))
                for k in range(length):
                    want.append(want[-offset])
                if got != bytes(want):
                    ctx.report("extend_data(%s bytes, %s, %s): %r" % (n, length, offset, got))


# ---- bzip2 ------------------------------------------------------------------------------------

def unbwt(last, pointer):
    table = sorted(range(len(last)), key=lambda k: last[k])
    out = []
    for k in range(len(last)):
        pointer = table[pointer]
        out.append(last[pointer])
    return out


def unrle(data):
    out, k = bytearray(), 0
    while k < len(data):
        if k + 4 < len(data) + 0 and data[k] == data[k + 1] == data[k + 2] == data[k + 3]:
            out += bytes([data[k]]) * (4 + data[k + 4])
            k += 5
        else:
            out.append(data[k])
            k += 1
    return bytes(out)


TABLE = []
for i in range(256):
    v = i << 24
    for _ in range(8):
        v = (v << 1 ^ 0x04C11DB7) & 0xFFFFFFFF if v >> 31 else v << 1
    TABLE.append(v)


def crc(data):
    v = 0xFFFFFFFF
    for b in data:
        v = (v << 8 & 0xFFFFFFFF) ^ TABLE[v >> 24 ^ b]
    return v ^ 0xFFFFFFFF


def bzips(case, ctx):
    for seq in itertools.product(case["alphabet"], repeat=case["n"]):
        if case.get("first") is not None and seq[0] != case["alphabet"][case["first"]]:
            continue
        plain = "".join(seq).encode("latin-1")
        level = case["level"]
        data = bz2.compress(plain, level)
        what = "bzip2 of %r, level %s" % (plain[:60], level)
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", data)
        name, shown = (("a.txt.bz2", ["a.txt"]), ("a.txt", []), ("", []), (".bz2", []))[len(plain) % 4]
        formats.listen(ctx, "Bzip2Parser", True)
        p = Bzip2Parser(StringInputStream(data, source="file:x", tags=[("filename", name)] if name else []), validate=True)
        if plain and len(seq) < 3:
            names = [v for k, v in p["file"].getSubIStream().tags if k == "filename"]
            if names != shown:
                ctx.report("%s in %r: name of the content %s" % (what, name, names))
        if p["blocksize"].value != str(level):
            ctx.report("%s: block size %r" % (what, p["blocksize"].value))
        got, total = b"", 0
        fields = list(p["file"])
        for b in p["file"].array("block"):
            used = []
            for k, f in enumerate(b["huffman_used_map"]):
                if f.value:
                    used += [16 * k + j for j, g in enumerate(b["huffman_used_bitmap[%s]" % k]) if g.value]
            trees = len(list(b.array("huffman_lengths")))
            if trees != b["huffman_groups"].value:
                ctx.report("%s: %s tables for %s groups" % (what, trees, b["huffman_groups"].value))
            last, run, power = [], 0, 1
            symbols = list(b.array("huffman_code"))
            for f in symbols:
                v = f.realvalue
                if v in (0, 1):
                    run += (v + 1) * power
                    power *= 2
                    continue
                last += [used[0]] * run
                run, power = 0, 1
                if v == len(used) + 1:
                    break
                used.insert(0, used.pop(v - 1))
                last.append(used[0])
            if f is not symbols[-1]:
                ctx.report("%s: codes behind the end of the block" % what)
            block = unrle(unbwt(last, b["orig_bwt_pointer"].value))
            got += block
            if b["crc32"].value != crc(block):
                ctx.report("%s: CRC32 of the block is %#x, expected %#x" % (what, b["crc32"].value, crc(block)))
            total = (total << 1 & 0xFFFFFFFF | total >> 31) ^ crc(block)
        if got != plain:
            ctx.report("%s: the codes give %s" % (what, lib.short(got)))
        if "crc32" not in p["file"] or p["file/crc32"].value != total:
            ctx.report("%s: CRC32 of the stream" % what)
        pos = 0
        for f in fields:
            if f.address != pos:
                ctx.report("%s: %s is at %s, expected %s" % (what, f.name, f.address, pos))
            pos += f.size
        if pos != (len(data) - 4) * 8:
            ctx.report("%s: fields end at %s of %s" % (what, pos, (len(data) - 4) * 8))
        sub = p["file"].getSubIStream()
        sub_data = sub.readBytes(0, len(plain)) if plain else b""
        if sub_data != plain or plain and sub.sizeGe(len(plain) * 8 + 8):
            ctx.report("%s: uncompressed stream is %s" % (what, lib.short(sub_data)))


def main():
    c = lib.Check("A02", "model_checking",
                  "all sequences of blocks of all kinds up to the length, all match lengths and distances at the borders of their symbols, all small contents x levels x strategies, all code "
                  "lengths; all small bzip2 contents, decoded from the fields, against zlib, bz2 and RFC 1951",
                  bounds={"blocks": "%s kinds, sequences of 2 (thorough 3)" % len(BLOCKS), "contents": "length 5 over 3 letters (7)", "bzip2": "length 3 over 5 pieces (4)"})
    q = c.quick
    for n in range(1, 3 if q else 4):
        c.domain("blocks %s" % n, [{"n": n, "first": k} for k in range(len(BLOCKS))], blocks, batch=1, cpu_limit=600)
    edges = sorted({v for s, f, n in LENGTHS for v in (f, f + (1 << n) - 1) if 3 <= v <= 258} - {258}) + [258]
    far = sorted({v for s, f, n in DISTANCES for v in (f, f + (1 << n) - 1)})
    c.domain("lengths", [{"history": 20, "lengths": [v], "distances": [1, 2, 3, 8, 20], "kinds": 2} for v in (edges if q else range(3, 259))], matches, batch=2)
    near = [v for v in far if v <= (1024 if q else 4096)]
    c.domain("distances", [{"history": v, "lengths": [3, 64], "distances": [v], "kinds": 2} for v in near], matches, batch=1)
    c.domain("far distances", [{"history": 32768, "lengths": [5], "distances": [v], "kinds": 1} for v in far if v not in near], matches, batch=1)
    c.domain("contents", [{"n": n, "alphabet": ["a", "b", "\0"], "levels": [0, 1, 6, 9], "strategies": 4} for n in range(0, 6 if q else 8)], contents, batch=1, cpu_limit=600)
    pieces = ["abc" * 30, "\xff" * 300, "".join(map(chr, range(256))), "the quick brown fox", ""]
    c.domain("pieces", [{"n": n, "alphabet": pieces, "levels": [v], "strategies": 4} for n in range(1, 3 if q else 4) for v in (0, 1, 6, 9)], contents, batch=1, cpu_limit=600)
    for n in range(1, 6 if q else 7):
        c.domain("trees %s" % n, [{"n": n, "top": 5 if q else 6}], trees, batch=1, cpu_limit=600)
    parts = ["a", "b", "\0" * 4, "aaaaa", "\xff" * 260]
    for n in range(1, 4 if q else 5):
        c.domain("bzip2 %s" % n, [{"n": n, "alphabet": parts, "level": v, "first": k} for v in (1, 9) for k in range(len(parts))], bzips, batch=1, cpu_limit=600)
    c.domain("bzip2 long", [{"n": n, "alphabet": ["".join(map(chr, range(256))), "hello world " * 20, "ab" * 200], "level": 1} for n in (1, 2)] + [{"n": 1, "alphabet": ["".join("%d," % (k * k % 1009) for k in range(900))], "level": 1}], bzips, batch=1)
    c.main()


if __name__ == "__main__":
    main()
