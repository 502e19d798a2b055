"""A26: Git packs are shown as they were written: objects, sizes, bases, contents, instructions of deltas."""
import hashlib, itertools, os, struct, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get, listen
from hachoir.parser import guessParser
from hachoir.parser.misc.git_pack import GitPackFile, ObjCommitParser, ObjOfsDeltaParser

NAMES = {1: "OBJ_COMMIT", 2: "OBJ_TREE", 3: "OBJ_BLOB", 4: "OBJ_TAG", 6: "OBJ_OFS_DELTA", 7: "OBJ_REF_DELTA"}


def varint(n):
    out = b""
    while True:
        out += bytes([n & 127 | (128 if n > 127 else 0)])
        n >>= 7
        if not n:
            return out


def head(kind, n):
    first = kind << 4 | n & 15
    n >>= 4
    return bytes([first | 128]) + varint(n) if n else bytes([first])


def distance(n):
    out = bytes([n & 127])
    n >>= 7
    while n:
        n -= 1
        out = bytes([128 | n & 127]) + out
        n >>= 7
    return out


class Obj:
    def __init__(self, kind, data, base=None, level=6):
        self.kind, self.data, self.base, self.level = kind, data, base, level
        self.packed = zlib.compress(data, level)
        self.intro = head(kind, len(data)) + (distance(base) if kind == 6 else base if kind == 7 else b"")
        self.bytes = self.intro + self.packed


def pack(objs, version=2):
    b = b"PACK" + struct.pack(">II", version, len(objs)) + b"".join(o.bytes for o in objs)
    return b + hashlib.sha1(b).digest()


def commit(text=b"author A <a@b> 0 +0000\ncommitter A <a@b> 0 +0000\n\nx\n", tree=b"0123456789abcdef" * 2 + b"01234567"):
    return Obj(1, b"tree " + tree + b"\n" + text)


def copy(mask, values):
    """Instruction of a delta: bits 0-3 of the mask for the bytes of the offset, 4-6 for those of the size"""
    b = bytes([128 | mask]) + bytes(values[i] for i in range(7) if mask >> i & 1)
    off = sum(values[i] << 8 * i for i in range(4) if mask >> i & 1)
    size = sum(values[i] << 8 * (i - 4) for i in range(4, 7) if mask >> i & 1) or 0x10000
    return b, "copy %s B from offset %s" % (size, off), None


def add(data):
    return bytes([len(data)]) + data, "add %s B" % len(data), data


def delta(source, target, ops, kind=6, base=None, level=6):
    o = Obj(kind, varint(source) + varint(target) + b"".join(x[0] for x in ops), base if base is not None else 300 if kind == 6 else bytes(range(20)), level)
    o.source, o.target, o.ops = source, target, ops
    return o


def check(ctx, what, objs, version=2):
    data = pack(objs, version)
    p = direct(ctx, data, GitPackFile)     # (without tags, an MPEG audio file may be found in 0xFF bytes)
    contiguous(ctx, what, p, len(data) * 8, 2)
    expect(ctx, what + ": header", (get(p, "magic"), get(p, "version"), get(p, "num_objects")), ("PACK", version, len(objs)))
    expect(ctx, what + ": checksum", (get(p, "checksum"), p["checksum"].display), (int.from_bytes(data[-20:], "big"), "0x" + data[-20:].hex()))
    got = list(p.array("object"))
    expect(ctx, what + ": objects", len(got), len(objs))
    pos = 12
    for i, (f, o) in enumerate(zip(got, objs)):
        w = "%s: object %s (%s, %s bytes)" % (what, i, NAMES[o.kind], len(o.data))
        expect(ctx, w + ": place", (f.address // 8, f.size // 8), (pos, len(o.bytes)))
        pos += len(o.bytes)
        expect(ctx, w + ": description", f.description, "type=%s, decompressed size=%s" % (NAMES[o.kind], len(o.data)))
        expect(ctx, w + ": kind", (f["type_and_size/typ"].value, f["type_and_size/typ"].display), (o.kind, NAMES[o.kind]))
        if o.kind == 6:
            expect(ctx, w + ": distance of the base", f["offset"].description, "value=%s" % o.base)
        elif "offset" in f:
            ctx.report(w + ": it has a distance")
        if o.kind == 7:
            x = [x.value for x in f if x.name not in ("type_and_size", "compressed_data")]
            expect(ctx, w + ": name of the base", x, [o.base])
        c = f["compressed_data"]
        expect(ctx, w + ": place of its content", (c.absolute_address // 8, c.size // 8), (pos - len(o.packed), len(o.packed)))
        s = c.getSubIStream()
        if o.data:
            expect(ctx, w + ": its content", s.readBytes(0, len(o.data)), o.data)
        if o.kind in (6, 7):
            q = guessParser(c.getSubIStream())
            listen(ctx, "ObjOfsDeltaParser", True)
            if type(q) is not ObjOfsDeltaParser:
                ctx.report("%s: its content is opened by %s" % (w, type(q).__name__))
                continue
            expect(ctx, w + ": sizes", (q["source_length"].description, q["target_length"].description), ("value=%s" % o.source, "value=%s" % o.target))
            ops = list(q.array("instruction"))
            expect(ctx, w + ": number of instructions", len(ops), len(o.ops))
            for g, op in zip(ops, o.ops):
                expect(ctx, w + ": instruction %s" % op[0][:9].hex(), (g.description, g.size // 8, g["copy_or_add"].display, get(g, "data")), (op[1], len(op[0]), "ADD" if op[2] else "COPY", op[2] or "no field"))
            end = q["target_length"].address + q["target_length"].size
            expect(ctx, w + ": end of the instructions", ops[-1].address + ops[-1].size if ops else end, len(o.data) * 8)
        elif o.kind == 1:
            q = guessParser(c.getSubIStream())
            listen(ctx, "ObjCommitParser", True)
            if type(q) is not ObjCommitParser:
                ctx.report("%s: its content is opened by %s" % (w, type(q).__name__))
                continue
            expect(ctx, w + ": fields", [x.value for x in q], ["tree ", o.data[5:45].decode(), "\n", o.data[46:].decode()])


def sizes(case, ctx):
    a = b"a"
    for n in case["sizes"]:
        data = (b"0123456789" * (n // 10 + 1))[:n]
        for kind in (2, 3, 4):
            for level in (0, 6, 9):
                o = Obj(kind, data, level=level)
                check(ctx, "%s bytes, level %s" % (n, level), [o])
                check(ctx, "%s bytes, level %s, then another" % (n, level), [o, Obj(3, a)])
    for n in case["distances"]:
        check(ctx, "base %s bytes before" % n, [delta(5, 3, [add(b"abc")], base=n), Obj(3, b"")])


def noise(n):
    """Bytes without repetition"""
    return b"".join(hashlib.sha1(struct.pack(">I", i)).digest() for i in range(n // 20 + 1))[:n]


def incompressible(case, ctx):
    for n in case["sizes"]:
        check(ctx, "%s bytes which can't be compressed" % n, [Obj(3, noise(n)), Obj(3, noise(n + 1)[::-1]), commit()])


def sequences(case, ctx):
    pool = [commit(), commit(b"parent " + b"f" * 40 + b"\nauthor " + b"x" * 500 + b"\n"), Obj(2, b"100644 name\0" + bytes(range(20))), Obj(3, b""), Obj(3, b"blob"), Obj(4, b"object " + b"a" * 40 + b"\ntype commit\n"), delta(100, 20, [copy(17, [3] * 7), add(b"0123456789")]),
            delta(5000, 70000, [copy(0, [0] * 7), copy(0x7f, [1, 2, 3, 4, 5, 6, 7])], 7)]
    for n in range(0, case["n"] + 1):
        for seq in itertools.product(range(len(pool)), repeat=n):
            if (seq[0] if seq else 0) != case["first"]:
                continue
            for version in (2, 3):
                check(ctx, "version %s objects %s" % (version, seq), [pool[i] for i in seq], version)


def deltas(case, ctx):
    for mask in range(128):
        if mask % 8 != case["i"]:
            continue
        for values in ([1, 2, 3, 4, 5, 6, 7], [255] * 7, [0x80, 0, 0, 0, 0x80, 0, 0], [0, 0x81, 0x82, 0x83, 0, 0x84, 0x85], [0] * 7):
            one = copy(mask, values)
            for kind in (6, 7):
                check(ctx, "copy %#x %s" % (mask, values), [delta(1000, 2000, [one], kind)])
            for other in (add(b"x"), copy(0x13, [9] * 7), copy(0, [0] * 7)):
                check(ctx, "copy %#x %s and another" % (mask, values), [delta(1000, 2000, [one, other]), delta(1000, 2000, [other, one], 7)])
                if case["deep"]:
                    for third in (add(b"yz" * 60), copy(0x7f, [7, 6, 5, 4, 3, 2, 1]), copy(0x22, [8] * 7)):
                        for seq in itertools.permutations((one, other, third)):
                            check(ctx, "copy %#x %s and others" % (mask, values), [delta(1000, 2000, seq)])
    for n in range(1 + case["i"], 128, 8):
        check(ctx, "add %s" % n, [delta(n, n, [add(bytes(range(n)))]), delta(n, n, [add(b"\xff" * n), add(b"\x80"), copy(1, [n] * 7)], 7)])
    edges = [x for k in range(5) for x in (2 ** (7 * k) - 1, 2 ** (7 * k), 2 ** (7 * k) + 1)] + [2 ** 32 - 1]
    for s, t in itertools.product(edges, repeat=2):
        if (s + t) % 8 == case["i"]:
            check(ctx, "sizes of the delta %s %s" % (s, t), [delta(s, t, [add(b"q")])])


if __name__ == "__main__":
    c = lib.Check("A26", "model_checking",
                  "all sequences of objects of each kind, all lengths at the limits of their encoding, all distances of bases, all forms of the instructions of deltas and their sequences in Git packs: place, kind, size, base and content of each object, meaning of each instruction",
                  bounds={"objects": "up to 3 of 8 (thorough: 5)", "instructions": "up to 2 (thorough: 3) of all 128 forms"})
    q = c.quick
    small = list(range(0, 40)) + [x for k in (11, 18) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1)] + [998, 999, 1000, 1001, 4095, 4096, 100000] + ([] if q else list(range(40, 2100)) + [2 ** 25 - 1, 2 ** 25])
    far = list(range(1, 400)) + [x for k in (2, 3, 4) for b in (sum(128 ** i for i in range(1, k)),) for x in (b + 128 ** k - 1, b + 128 ** k, b - 1, b, b + 1)] + ([] if q else list(range(400, 17000, 7)))
    c.domain("sizes", [{"sizes": small[i::8], "distances": far[i::8]} for i in range(8)], sizes, batch=1)
    near = [n + d for n in (1000, 2000, 3000) for d in range(-40, 1)] + [1] + ([] if q else list(range(40, 5000)))
    c.domain("contents around the size of the blocks which are read", [{"sizes": near[i::8]} for i in range(8)], incompressible, batch=1)
    c.domain("sequences", [{"first": i, "n": 3 if q else 5} for i in range(8)], sequences, batch=1)
    c.domain("deltas", [{"i": i, "deep": not q} for i in range(8)], deltas, batch=1)
    c.main()
