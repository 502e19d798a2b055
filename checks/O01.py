"""O01: what is written bit by bit, by integers and by bytes is exactly what is read back."""
import os, sys, io, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians, ref_bits

lib.quiet()
from hachoir.stream import OutputStream, StringInputStream, StringOutputStream, FileOutputStream
E = endians()


def pack(fields, en):
    """Reference: the fields (count, value) laid out one after the other, zero padded to bytes."""
    bits = []
    for count, value in fields:
        if en == "BIG":
            bits += [(value >> (count - 1 - i)) & 1 for i in range(count)]
        else:
            bits += [(value >> i) & 1 for i in range(count)]
    while len(bits) % 8:
        bits.append(0)
    out = bytearray(len(bits) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << ((7 - i % 8) if en == "BIG" else i % 8)
    return bytes(out)


def write(fields, en, mode):
    """mode: 'bits' groups with writeBits; 'bit' = one by one with writeBit; 'mixed' = 1-bit groups with writeBit"""
    buf = io.BytesIO()
    o = OutputStream(buf)
    total = 0
    for count, value in fields:
        if mode == "bit" or (mode == "mixed" and count == 1):
            seq = range(count - 1, -1, -1) if en == "BIG" else range(count)
            for i in seq:
                o.writeBit(bool((value >> i) & 1), E[en])
        else:
            o.writeBits(count, value, E[en])
        total += count
    if total % 8:
        o.writeBits(8 - total % 8, 0, E[en])
    return buf.getvalue()


def values(count):
    full = (1 << count) - 1
    return sorted({0, full, 1 << (count - 1), 1, 0x5555555555555555 & full, full & ~1, 0xb2d4c6a7b2d4c6a7 & full})


def compositions(total, maxparts):
    if total == 0:
        yield ()
        return
    if maxparts == 0:
        return
    for first in range(1, total + 1):
        for rest in compositions(total - first, maxparts - 1):
            yield (first,) + rest


def groups(case, ctx):
    widths = case["widths"]
    vals = [values(w) for w in widths]
    if len(widths) > 3:
        vals = [sorted({v[0], v[-1], v[len(v) // 2]}) for v in vals]
    for en in ("BIG", "LITTLE"):
        for vs in itertools.product(*vals):
            fields = list(zip(widths, vs))
            want = pack(fields, en)
            for mode in ("bits", "mixed", "bit"):
                got = write(fields, en, mode)
                ctx.count("transitions", len(fields))
                if got != want:
                    raise lib.Violation("%s endian, %r written with %s: %s instead of %s" % (en, fields, mode, got.hex(), want.hex()), fields=fields)
            s = StringInputStream(want)
            a = 0
            for count, value in fields:
                r = s.readBits(a, count, E[en])
                if r != value:
                    raise lib.Violation("%s endian: %r read back as %r at %d" % (en, (count, value), r, a), fields=fields)
                a += count
            ctx.count("traces")
            ctx.seen("states", (en, tuple(fields)))
    ctx.sample({"widths": widths})


def integers(case, ctx):
    size, signed, lo, hi = case["size"], case["signed"], case["lo"], case["hi"]
    bits = 8 * size
    mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if hi is None:
        vs = set()
        for b in (mn, mx, 0, 1 << (bits // 2), -(1 << (bits // 2)), mn // 2, mx // 3):
            vs |= set(range(b - 3, b + 4))
        for k in range(bits + 1):
            vs |= {1 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1, -(1 << k) + 1}
        vs = sorted(vs)
    else:
        vs = range(lo, hi)
    for en in ("BIG", "LITTLE"):
        for v in vs:
            buf = io.BytesIO()
            o = OutputStream(buf)
            ok = mn <= v <= mx
            try:
                o.writeInteger(v, signed, size, E[en])
            except Exception:
                ctx.count("transitions")
                if ok:
                    raise lib.Violation("writeInteger(%d, signed=%s, %d bytes, %s) is refused" % (v, signed, size, en))
                if buf.getvalue():
                    raise lib.Violation("refused writeInteger(%d) wrote something" % v)
                continue
            ctx.count("transitions")
            got = buf.getvalue()
            if not ok:
                raise lib.Violation("writeInteger(%d, signed=%s, %d bytes, %s) out of range writes %s" % (v, signed, size, en, got.hex()))
            want = v.to_bytes(size, "big" if en == "BIG" else "little", signed=signed)
            back = StringInputStream(want).readInteger(0, signed, bits, E[en])
            if got != want or back != v:
                raise lib.Violation("writeInteger(%d, signed=%s, %d bytes, %s) writes %s, read back as %r" % (v, signed, size, en, got.hex(), back))
            ctx.count("traces")
            ctx.seen("states", ("int", size, signed, v))


def mixed(case, ctx):
    """Sequences mixing groups of bits, integers, bytes and copies at aligned positions."""
    src = StringInputStream(bytes.fromhex("0f1e2d3c4b5a69788796"))
    pieces = [("i", 1, True, -2), ("i", 2, False, 0x1234), ("i", 3, True, -70000), ("b", b"\x01\xff\x80"), ("b", b""), ("g", ((3, 5), (5, 9))),
              ("g", ((1, 1), (7, 0x2a), (8, 0xc3))), ("g", ((16, 0xbeef),)), ("c", 8, 16), ("c", 3, 8), ("c", 4, 24), ("i", 4, False, 0xfffefdfc)]
    for en in ("BIG", "LITTLE"):
        for seq in itertools.product(pieces, repeat=case["depth"] - 1):
            seq = (pieces[case["first"]],) + seq
            want = b""
            buf = io.BytesIO()
            outs = [("bytesio", OutputStream(buf)), ("string", StringOutputStream())]
            for p in seq:
                for _, o in outs:
                    if p[0] == "i":
                        o.writeInteger(p[3], p[2], p[1], E[en])
                    elif p[0] == "b":
                        o.writeBytes(p[1])
                    elif p[0] == "g":
                        for c, v in p[1]:
                            o.writeBits(c, v, E[en])
                    else:
                        o.copyBitsFrom(src, p[1], p[2], E[en])
                ctx.count("transitions")
                order = "big" if en == "BIG" else "little"
                if p[0] == "i":
                    want += p[3].to_bytes(p[1], order, signed=p[2])
                elif p[0] == "b":
                    want += p[1]
                elif p[0] == "g":
                    want += pack(p[1], en)
                else:
                    want += pack([(p[2], ref_bits(src.data, p[1], p[2], en))], en)
            got = buf.getvalue()
            if got != want:
                raise lib.Violation("%s endian: %r writes %s instead of %s" % (en, seq, got.hex(), want.hex()))
            if want:
                o = outs[1][1]
                r = o.readBytes(0, len(want))
                if r != want:
                    raise lib.Violation("%s endian: in-memory output of %r holds %r instead of %r" % (en, seq, r, want))
                for k in range(len(want)):
                    if o.readBytes(8 * k, 1) != want[k:k + 1]:
                        raise lib.Violation("in-memory output: byte %d read back is wrong" % k)
                o.writeBytes(b"\x99")        # reading does not move the end of the output
                if o.readBytes(0, len(want) + 1) != want + b"\x99":
                    raise lib.Violation("in-memory output: writing after reading is misplaced")
            ctx.count("traces")
            ctx.seen("states", (en, seq))


def main():
    c = lib.Check("O01", "model_checking",
                  "every way to cut N bits into groups, boundary and alternating values in each group, both byte orders, written "
                  "by groups, by single bits and mixed; all values of 1 and 2 byte integers and boundary values of larger ones; "
                  "all sequences of pieces up to the depth; a state is a distinct sequence of writes",
                  assumptions=["one byte order is used within a byte", "integers and bytes are written at byte-aligned positions"],
                  bounds={"bits": 10, "sequence_depth": 3})
    q = c.quick
    cs = [{"widths": w} for n in range(1, 11 if q else 13) for w in compositions(n, 4 if q else 5)]
    cs += [{"widths": w} for a in range(1, 18) for b in range(1, 18) for w in [(a, b)]]
    cs += [{"widths": (a, b, c_)} for a in (1, 3, 7, 8) for b in (8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65) for c_ in (1, 5, 7, 8, 9, 16)]
    c.domain("groups", cs, groups)
    ints = []
    for signed in (False, True):
        ints.append({"size": 1, "signed": signed, "lo": -400, "hi": 400})
        for lo in range(-33000, 66000, 9000):
            ints.append({"size": 2, "signed": signed, "lo": lo, "hi": lo + 9000})
        for size in (3, 4, 5, 6, 7, 8, 9, 16):
            ints.append({"size": size, "signed": signed, "lo": 0, "hi": None})
    c.domain("integers", ints, integers, batch=1)
    c.domain("sequences", [{"first": i, "depth": 3 if q else 4} for i in range(12)], mixed, batch=1)
    c.main()


if __name__ == "__main__":
    main()
