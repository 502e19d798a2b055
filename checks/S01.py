"""S01: bits, integers and bytes read from a stream are the ones at the given address, in all byte orders."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians, make

lib.quiet()
from hachoir.stream import InputStreamError

CONTENTS = [bytes.fromhex("0180c37f55aa13fe00ff9624"), bytes(12), b"\xff" * 12,
            bytes.fromhex("8000000000000000000000017f"), b"\x80", b"\x01\xfe", b"\x12\x34\x56"]
LONG = bytes((i * 167 + (i >> 3) * 29 + 5) & 0xff for i in range(80))
E = endians()


def check_one(s, content, addr, n, ctx):
    for en, endian in E.items():
        want = ref_bits(content, addr, n, en)
        for signed in (None, False, True):
            if signed is not None and n == 0:
                continue
            try:
                if signed is None:
                    got = s.readBits(addr, n, endian)
                else:
                    got = s.readInteger(addr, signed, n, endian)
            except InputStreamError:
                got = None
            w = want
            if w is not None and signed and w >> (n - 1):
                w -= 1 << n
            ctx.count("transitions")
            if got != w or (got is not None and type(got) is not int):
                raise lib.Violation("read of %d bits at %d, %s endian, signed=%s gives %r instead of %r" % (
                    n, addr, en, signed, got, w), content=content, address=addr, nbits=n, endian=en)
            ctx.seen("states", (n, en, signed, w))
    if addr % 8 == 0 and n % 8 == 0:
        try:
            got = s.readBytes(addr, n // 8)
        except InputStreamError:
            got = None
        want = content[addr // 8:(addr + n) // 8] if addr + n <= 8 * len(content) else None
        ctx.count("transitions")
        if got != want:
            raise lib.Violation("readBytes(%d, %d) gives %r instead of %r" % (addr, n // 8, got, want), content=content)


def grid(case, ctx):
    content = bytes.fromhex(case["content"])
    s, keep = make(case["kind"], content)
    addr = case["address"]
    for n in range(case["lo"], case["hi"]):
        check_one(s, content, addr, n, ctx)
    ctx.count("traces")
    ctx.sample({"kind": case["kind"], "content": case["content"], "address": addr})


def cases(quick):
    for content in CONTENTS:
        total = 8 * len(content)
        for kind in ("string", "bytesio"):
            for addr in range(0, total + 9):
                yield {"kind": kind, "content": content.hex(), "address": addr, "lo": 0 if addr <= total else 1, "hi": total - min(addr, total) + 18}
    step = 1
    for addr in range(0, 8 * len(LONG), 1 if not quick else 1):
        if quick and addr % 16 not in (0, 1, 5, 8, 15) and addr > 80:
            continue
        yield {"kind": "string", "content": LONG.hex(), "address": addr, "lo": 1, "hi": 8 * len(LONG) - addr + 9 if not quick else min(8 * len(LONG) - addr + 9, 150)}


# struct-like access at every chunk boundary size of the file layer
def far(case, ctx):
    n = case["len"]
    content = bytes((i * 131 + (i >> 8) * 17 + (i >> 16)) & 0xff for i in range(n))
    s, keep = make(case["kind"], content)
    for around in case["around"]:
        for a in range(8 * around - 20, 8 * around + 21):
            for nb in (1, 7, 8, 9, 16, 31, 32, 64, 65):
                if a < 0:
                    continue
                for en, endian in E.items():
                    want = ref_bits(content, a, nb, en)
                    try:
                        got = s.readBits(a, nb, endian)
                    except InputStreamError:
                        got = None
                    ctx.count("transitions")
                    if got != want:
                        raise lib.Violation("readBits(%d, %d, %s) on %d bytes of kind %s: %r instead of %r" % (
                            a, nb, en, n, case["kind"], got, want))
    for size in (0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, n):
        for pos in (0, 1, 4095, 4096, 65535, 65536, n - size, n - size + 1):
            if pos < 0 or pos > n:
                continue
            want = content[pos:pos + size] if pos + size <= n else None
            try:
                got = s.readBytes(8 * pos, size)
            except InputStreamError:
                got = None
            ctx.count("transitions")
            if got != want:
                raise lib.Violation("readBytes(%d, %d) on %d bytes of kind %s gives %s bytes" % (
                    8 * pos, size, n, case["kind"], got is not None and len(got)))
    ctx.count("traces")


def main():
    c = lib.Check("S01", "model_checking",
                  "every (address, size, byte order, signedness) of each content, on the real stream, compared with "
                  "a bit-by-bit reference; a state is a distinct (size, order, signedness, value), a transition one read",
                  assumptions=["contents: 7 small ones (1 to 13 bytes) chosen to make every bit position observable, one "
                               "of 80 bytes; addresses and sizes are exhaustive on those",
                               "middle endian reads whose last 16-bit word is incomplete must be refused"],
                  bounds={"contents": len(CONTENTS) + 1, "max_bits": 8 * len(LONG)})
    c.domain("grid", cases(c.quick), grid)
    big = [{"kind": k, "len": n, "around": [0, 4096, 8192, 65536, n // 2, n]}
           for k in ("string", "bytesio", "file", "pipe") for n in (4096, 8191, 70001, 131072)]
    c.domain("boundaries", big, far, batch=1)
    c.main()


if __name__ == "__main__":
    main()
