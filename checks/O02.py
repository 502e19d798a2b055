"""O02: copying bits or bytes of a stream reproduces exactly the source range."""
import os, sys, io, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians, ref_bits, make, KINDS
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from O01 import pack

lib.quiet()
from hachoir.stream import OutputStream, StringInputStream, FileOutputStream, InputIOStream, StreamError
E = endians()
SRC = bytes((i * 151 + 43 + (i >> 4)) & 0xff for i in range(80))


def bits(case, ctx):
    """Every source address, length and destination bit position."""
    addr, pos = case["addr"], case["pos"]
    s = StringInputStream(SRC)
    for en in ("BIG", "LITTLE"):
        for n in case["sizes"]:
            if addr + n > 8 * len(SRC):
                continue
            buf = io.BytesIO()
            o = OutputStream(buf)
            head = 0x5b & ((1 << pos) - 1)
            fields = []
            if pos:
                o.writeBits(pos, head, E[en])
                fields.append((pos, head))
            if n:
                fields.append((n, ref_bits(SRC, addr, n, en)))
            if n % 8 == 0 and addr % 8 == 0 and pos == 0 and n:
                # whole bytes: the bytes themselves
                want = SRC[addr // 8:(addr + n) // 8]
            o.copyBitsFrom(s, addr, n, E[en])
            tail = -(pos + n) % 8
            if tail:
                o.writeBits(tail, 0, E[en])
            ctx.count("transitions")
            if n or pos:
                want = pack(fields, en)
            else:
                want = b""
            if buf.getvalue() != want:
                raise lib.Violation("copy of %d bits at %d after %d bits, %s endian: %s instead of %s" % (n, addr, pos, en, buf.getvalue().hex(), want.hex()))
            ctx.count("traces")
            ctx.seen("states", (addr, pos, n, en))
        # in two parts
        for n in (9, 16, 24):
            for m in (7, 8, 16):
                if addr + n + m > 8 * len(SRC):
                    continue
                buf = io.BytesIO()
                o = OutputStream(buf)
                o.copyBitsFrom(s, addr, n, E[en])
                o.copyBitsFrom(s, addr + n, m, E[en])
                if (n + m) % 8:
                    o.writeBits(8 - (n + m) % 8, 0, E[en])
                want = pack([(n, ref_bits(SRC, addr, n, en)), (m, ref_bits(SRC, addr + n, m, en))], en)
                ctx.count("transitions", 2)
                if buf.getvalue() != want:
                    raise lib.Violation("copy in two parts (%d, %d) at %d, %s endian is wrong" % (n, m, addr, en))
    ctx.sample(case)


def whole(case, ctx):
    """Byte copies around the copy buffer size, from every kind of stream, to memory and to a file."""
    n, kind = case["n"], case["kind"]
    data = bytes((i * 89 + (i >> 8) * 3 + (i >> 12)) & 0xff for i in range(n + 5))
    s, keep = make(kind, data)
    for start in (0, 1, 5):
        for fn in ("bytes", "bits"):
            buf = io.BytesIO()
            o = OutputStream(buf)
            if fn == "bytes":
                o.copyBytesFrom(s, 8 * start, n)
            else:
                o.copyBitsFrom(s, 8 * start, 8 * n, E["BIG"])
            o.writeBytes(b"END")
            ctx.count("transitions")
            if buf.getvalue() != data[start:start + n] + b"END":
                raise lib.Violation("copy (%s) of %d bytes at %d from a %s stream is wrong" % (fn, n, start, kind))
    ctx.count("traces")
    ctx.seen("states", ("whole", n, kind))
    # past the end: refused
    for start, k in ((0, n + 6), (n, 6), (n + 5, 1)):
        buf = io.BytesIO()
        try:
            OutputStream(buf).copyBytesFrom(s, 8 * start, k)
        except StreamError:
            continue
        raise lib.Violation("copy of %d bytes at %d from a %s stream of %d bytes is not refused" % (k, start, kind, n + 5))


def tofile(case, ctx):
    n = case["n"]
    data = bytes((i * 89 + (i >> 8) * 3) & 0xff for i in range(n))
    d = tempfile.mkdtemp(prefix="mcout")
    try:
        name = os.path.join(d, "out.bin")
        with FileOutputStream(name) as o:
            if o.filename != name:
                raise lib.Violation("file name of an output stream")
            o.copyBytesFrom(StringInputStream(data), 0, n)
            o.writeInteger(-2, True, 2, E["BIG"])
        with open(name, "rb") as fp:
            got = fp.read()
        ctx.count("transitions")
        ctx.count("traces")
        if got != data + b"\xff\xfe":
            raise lib.Violation("file output of %d bytes" % n)
    finally:
        shutil.rmtree(d)


def main():
    c = lib.Check("O02", "model_checking",
                  "every source bit address, size and destination bit position up to the bound, both byte orders; byte copies of every size "
                  "around the buffer size from every kind of stream; a state is a distinct (address, position, size, order)",
                  assumptions=["unaligned copies are limited to 256 bits by the library (documented limit)"],
                  bounds={"addresses": 17, "bits": 80})
    sizes = list(range(0, 81)) + [95, 96, 97, 127, 128, 129, 255, 256]
    c.domain("bits", [{"addr": a, "pos": p, "sizes": sizes} for a in list(range(0, 33)) + [100, 203] for p in range(8)], bits)
    ns = [0, 1, 2, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12287, 12288, 12289]
    if not c.quick:
        ns += list(range(4080, 4112)) + [65535, 65536, 65537, 200000]
    c.domain("bytes", [{"n": n, "kind": k} for n in ns for k in KINDS], whole)
    c.domain("file", [{"n": n} for n in ns if n], tofile)
    c.main()


if __name__ == "__main__":
    main()
