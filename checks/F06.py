"""F06: a field of each basic type has the size of its type and the value of exactly its bits."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir import field as F
from hachoir.core.text_handler import textHandler, displayHandler, hexadecimal, filesizeHandler
from hachoir.core import config
from hachoir.core.tools import humanFilesize, makePrintable
E = endians()

INTS = [(n, s, z) for z in (8, 16, 24, 32, 64) for n, s in (("UInt%d" % z, False), ("Int%d" % z, True))]


def patterns(bits):
    """Bit contents: all of them up to 16 bits, else walking bits, runs and byte patterns."""
    if bits <= 10:
        return list(range(1 << bits))
    full = (1 << bits) - 1
    out = {0, full, 1, full - 1, full >> 1, (full >> 1) + 1}
    for i in range(bits):
        out |= {1 << i, full ^ (1 << i), (1 << i) - 1, full ^ ((1 << i) - 1)}
    out.add(int.from_bytes(bytes(range(1, 1 + (bits + 7) // 8)), "big") & full)
    out.add(int.from_bytes(bytes(0xf1 - 13 * i & 0xff for i in range((bits + 7) // 8)), "big") & full)
    return sorted(out)


def stream_of(value, size, align):
    """Bytes holding `value` in `size` bits at bit `align` (as the first bits in big endian order), noise around."""
    total = align + size + 9
    total += -total % 8
    v = (0b1011011 & ((1 << align) - 1))
    v = (v << size) | value
    rest = total - align - size
    v = (v << rest) | (0b101101101101101101101 & ((1 << rest) - 1))
    return v.to_bytes(total // 8, "big")


def parse(data, en, align, make):
    """The field made by make(parser) behind `align` bits."""
    class P(F.Parser):
        endian = E[en]

        def createFields(self):
            if align:
                yield F.Bits(self, "skip", align)
            yield make(self)
            yield F.RawBits(self, "after[]", 1)
    p = P(StringInputStream(data))
    return p, p.getField(1 if align else 0, const=False)


def expect(ctx, f, size, value, what, kind=None, display=None, raw=None):
    ctx.count("transitions")
    if f.size != size:
        raise lib.Violation("%s: size %r instead of %d" % (what, f.size, size))
    v = f.value
    if v != value or (kind is not None and type(v) is not kind):
        raise lib.Violation("%s: value %r instead of %r" % (what, v, value))
    if f.value is not v and f.value != v:
        raise lib.Violation("%s: value changes" % what)
    if not f.hasValue():
        raise lib.Violation("%s: no value" % what)
    if display is not None and f.display != display:
        raise lib.Violation("%s: display %r instead of %r" % (what, f.display, display))
    if raw is not None and f.raw_display != raw:
        raise lib.Violation("%s: raw display %r instead of %r" % (what, f.raw_display, raw))


def signed(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


def integers(case, ctx):
    name, sg, size = case["type"]
    cls = getattr(F, name)
    if cls.static_size != size:
        raise lib.Violation("%s: static size %r" % (name, cls.static_size))
    for en in case["endians"]:
        for pat in patterns(size):
            data = stream_of(pat, size, case["align"])
            if en == "MIDDLE" and (size % 16 or case["align"]):
                continue
            p, f = parse(data, en, case["align"], lambda s: cls(s, "f"))
            want = ref_bits(data, case["align"], size, en)
            if sg:
                want = signed(want, size)
            expect(ctx, f, size, want, "%s at bit %d of %s, %s endian" % (name, case["align"], data.hex(), en), int, str(want), str(want))
            after = p.getField(2 if case["align"] else 1, const=False)
            if after.address != case["align"] + size:
                raise lib.Violation("%s: the next field is at %d" % (name, after.address))
            h = textHandler(parse(data, en, case["align"], lambda s: cls(s, "f"))[1], hexadecimal)
            if not sg:
                hx = "0x%0*x" % ((size + 3) // 4, want)
                if h.display != hx or h.value != want:
                    raise lib.Violation("%s: hexadecimal display %r instead of %r" % (name, h.display, hx))
        ctx.count("traces")
        ctx.seen("states", (name, en, case["align"]))
    ctx.sample(case)


def bits(case, ctx):
    n, align = case["n"], case["align"]
    for en in ("BIG", "LITTLE"):
        for cls in ("Bits", "RawBits", "PaddingBits", "NullBits"):
            for pat in patterns(n):
                data = stream_of(pat, n, align)
                want = ref_bits(data, align, n, en)
                p, f = parse(data, en, align, lambda s: getattr(F, cls)(s, "f", n))
                what = "%s(%d) at bit %d of %s, %s endian" % (cls, n, align, data.hex(), en)
                disp = None
                if cls in ("Bits", "RawBits", "PaddingBits") and n < 256:
                    disp = str(want)
                if cls == "NullBits":
                    if n <= 128 and (f.display == "<null>") != (want == 0):
                        raise lib.Violation("%s: display %r" % (what, f.display))
                expect(ctx, f, n, want, what, int, disp)
            if cls == "Bits" and n < 12:
                enum = {0: "zero", 1: "one", (1 << n) - 1: "all"}
                for pat in patterns(n):
                    data = stream_of(pat, n, align)
                    want = ref_bits(data, align, n, en)
                    p, f = parse(data, en, align, lambda s: F.Enum(F.Bits(s, "f", n), enum))
                    expect(ctx, f, n, want, "Enum of %d bits" % n, int, enum.get(want, str(want)))
                    if f.getEnum() is not enum:
                        raise lib.Violation("getEnum()")
                    p, f = parse(data, en, align, lambda s: F.Enum(F.Bits(s, "f", n), enum, lambda k: k >> 1))
                    expect(ctx, f, n, want, "Enum with a key function", int, enum.get(want >> 1, str(want)))
                    p, f = parse(data, en, align, lambda s: displayHandler(F.Bits(s, "f", n), lambda v: "<%d>" % v))
                    expect(ctx, f, n, want, "displayHandler", int, "<%d>" % want)
                    p, f = parse(data, en, align, lambda s: filesizeHandler(F.Bits(s, "f", n)))
                    expect(ctx, f, n, want, "filesizeHandler", int, humanFilesize(want))
        ctx.count("traces")
        ctx.seen("states", ("bits", n, align, en))
    if n == 1:
        for en in ("BIG", "LITTLE"):
            for pat in (0, 1):
                data = stream_of(pat, 1, align)
                want = ref_bits(data, align, 1, en) == 1
                p, f = parse(data, en, align, lambda s: F.Bit(s, "f"))
                expect(ctx, f, 1, want, "Bit at %d, %s endian" % (align, en), bool, str(want), str(int(want)))
    if n == 8:
        for en in ("BIG", "LITTLE"):
            for pat in range(256):
                data = stream_of(pat, 8, align)
                want = ref_bits(data, align, 8, en)
                p, f = parse(data, en, align, lambda s: F.Character(s, "f"))
                expect(ctx, f, 8, chr(want), "Character %d at %d" % (want, align), str, None, str(want))
    ctx.sample(case)


def rawbytes(case, ctx):
    """Byte fields: every length, every content of 2 bytes repeated, paddings with patterns."""
    n = case["n"]
    for at in (0, 1, 3):
        for content in contents(n):
            data = b"\xa5" * at + content + b"\x5a\x3c"
            for cls in ("RawBytes", "Bytes", "PaddingBytes", "NullBytes"):
                def make(s):
                    return getattr(F, cls)(s, "f", n)

                class P(F.Parser):
                    endian = E["BIG"]

                    def createFields(self):
                        if at:
                            yield F.Bytes(self, "skip", at)
                        yield make(self)
                p = P(StringInputStream(data))
                f = p["f"]
                expect(ctx, f, 8 * n, content, "%s(%d) at byte %d of %s" % (cls, n, at, data[:40].hex()), bytes)
                if cls == "NullBytes" and n <= 4096 and (f.display == "<null>") != (content == bytes(n)):
                    raise lib.Violation("NullBytes of %s: display %r" % (content[:20].hex(), f.display))
            for pattern in (b"\xff", b"\1\2", b"abc"):
                class P(F.Parser):
                    endian = E["BIG"]

                    def createFields(self):
                        if at:
                            yield F.Bytes(self, "skip", at)
                        yield F.PaddingBytes(self, "f", n, pattern=pattern)
                f = P(StringInputStream(data))["f"]
                if n % len(pattern) == 0 and n <= 4096:
                    ok = content == pattern * (n // len(pattern))
                    if f.display.startswith("<padding pattern=") != ok:
                        raise lib.Violation("PaddingBytes of %s, pattern %r: display %r" % (content[:20].hex(), pattern, f.display))
                expect(ctx, f, 8 * n, content, "PaddingBytes(%d, %r)" % (n, pattern), bytes)
        ctx.count("traces")
        ctx.seen("states", ("bytes", n, at))


def displays(case, ctx):
    """The display of raw bytes shows the first ones, and tells when there are more; it never fails."""
    n = case["n"]
    old = config.max_byte_length
    try:
        for limit in (1, 4, 20):
            config.max_byte_length = limit
            for content in contents(n):
                ctx.count("transitions")
                for cls in ("RawBytes", "Bytes"):
                    class P(F.Parser):
                        endian = E["BIG"]

                        def createFields(self):
                            yield getattr(F, cls)(self, "f", n)
                    shown = makePrintable(content[:limit], "ASCII") + ("(...)" if n > limit else "")
                    for order in ("raw", "value", "display"):
                        f = P(StringInputStream(content))["f"]
                        if order == "value":
                            f.value
                        if order == "display":
                            f.display
                        if f.raw_display != '"%s"' % shown:
                            ctx.report("%s(%s) of %s..., %s bytes shown: raw display %s, expected %s" % (cls, n, content[:8].hex(), limit, lib.short(f.raw_display), lib.short(shown)))
                        if f.display.endswith('(...)"') != (n > limit) or f.display[:1] != '"':
                            ctx.report("%s(%s) of %s..., %s bytes shown: display %s" % (cls, n, content[:8].hex(), limit, lib.short(f.display)))
                        if f.value != content:
                            ctx.report("%s(%s) of %s...: value %s" % (cls, n, content[:8].hex(), lib.short(f.value)))
    finally:
        config.max_byte_length = old
    ctx.count("traces")
    ctx.seen("states", ("display", n))


class Oops(Exception):
    pass


def failures(case, ctx):
    """A value, display, raw display or description which can't be made is None or a text, and told once"""
    kinds = ("createValue", "createDisplay", "createRawDisplay", "createDescription")
    reads = ("value", "display", "raw_display", "description")
    for bad in [k for r in range(5) for k in itertools.combinations(kinds, r)]:
        for base in ("UInt8", "Bits", "String", "FieldSet"):
            for order in itertools.permutations(reads):
                def fail(self):
                    raise Oops("no")
                C = type("C", (getattr(F, base),), {k: fail for k in bad})
                if base == "FieldSet":
                    C.static_size = 8
                    C.createFields = lambda self: iter([F.UInt8(self, "x")])

                class P(F.Parser):
                    endian = E["BIG"]

                    def createFields(self):
                        yield C(self, "f", *({"UInt8": (), "Bits": (8,), "String": (1,), "FieldSet": ()}[base]), **({} if base == "FieldSet" or "createDescription" in bad else {"description": "given"}))
                p = P(StringInputStream(b"A"))
                f = p["f"]
                got = {}
                for twice in (0, 1):
                    for r in order:
                        try:
                            v = getattr(f, r)
                        except Exception as e:
                            ctx.report("%s of a %s where %s fail: raises %s" % (r, base, bad, type(e).__name__))
                            return
                        if got.setdefault(r, v) != v:
                            ctx.report("%s of a %s where %s fail: %r, then %r" % (r, base, bad, got[r], v))
                what = "%s where %s fail, %s asked" % (base, bad, order)
                value = {"UInt8": 65, "Bits": 65, "String": "A", "FieldSet": None}[base]
                if got["value"] != (None if "createValue" in bad else value):
                    ctx.report("%s: value %r" % (what, got["value"]))
                if "createDisplay" in bad and got["display"] != "" and base != "FieldSet":
                    ctx.report("%s: display %r" % (what, got["display"]))
                if "createDisplay" not in bad and "createValue" not in bad and base != "FieldSet" and got["display"] not in ("65", '"A"'):
                    ctx.report("%s: display %r" % (what, got["display"]))
                if "createRawDisplay" in bad and got["raw_display"] != "" and base != "FieldSet":
                    ctx.report("%s: raw display %r" % (what, got["raw_display"]))
                if "createDescription" not in bad and base != "FieldSet" and got["description"] != "given" or not isinstance(got["description"], str):
                    ctx.report("%s: description %r" % (what, got["description"]))
                if f.size != 8 or f.address != 0:
                    ctx.report("%s: %s bits at %s" % (what, f.size, f.address))
                ctx.count("transitions")
                ctx.count("traces")
    ctx.seen("states", "failures")


def contents(n):
    yield bytes(n)
    yield b"\xff" * n
    yield (b"\1\2" * n)[:n]
    yield (b"abc" * n)[:n]
    yield bytes((i * 37 + 1) & 0xff for i in range(n))
    if n <= 300:
        for i in range(min(n, 24)):
            yield bytes(i) + b"\1" + bytes(n - i - 1)
            yield b"\xff" * i + b"\xfe" + b"\xff" * (n - i - 1)
    yield bytes(n - 1) + b"\1"


def wide(case, ctx):
    """GenericInteger of 8 to 16384 bits: value and size; other sizes are refused."""
    for n in case["sizes"]:
        for en in ("BIG", "LITTLE"):
            for sg in (False, True):
                for pat in (1, (1 << n) - 1 if n > 0 else 0, 1 << max(n - 1, 0), 0x5a35 << max(n - 16, 0) | 3):
                    ctx.count("transitions")
                    pat &= (1 << max(n, 1)) - 1
                    what = "GenericInteger(signed=%s) of %s bits, %s endian" % (sg, n, en)
                    data = stream_of(pat, max(n, 1), 0)
                    try:
                        p, f = parse(data, en, 0, lambda s: F.GenericInteger(s, "f", sg, n))
                    except Exception as e:
                        if 8 <= n <= 16384:
                            raise lib.Violation("%s: %s: %s" % (what, type(e).__name__, e))
                        continue
                    if not 8 <= n <= 16384:
                        if isinstance(f, F.GenericInteger):
                            raise lib.Violation("%s is accepted" % what)
                        continue
                    want = ref_bits(data, 0, n, en)
                    expect(ctx, f, n, signed(want, n) if sg else want, what, int)
        ctx.count("traces")


def helpers(case, ctx):
    """createRawField, createPaddingField, createNullField, createOrphanField, seekBit, seekByte: type, place, size and value."""
    n, align = case["n"], case["align"]
    data = bytes((i * 59 + 7) & 0xff for i in range(16))
    for en in ("BIG", "LITTLE"):
        for fn, tb, ts in (("createRawField", "RawBytes", "RawBits"), ("createPaddingField", "PaddingBytes", "PaddingBits"), ("createNullField", "NullBytes", "NullBits")):
            def make(s):
                return getattr(F, fn)(s, n, "f")
            p, f = parse(data, en, align, make)
            whole = n % 8 == 0 and align % 8 == 0
            if type(f).__name__ != (tb if whole else ts) or f.size != n or f.address != align:
                raise lib.Violation("%s(%d) at %d: %r" % (fn, n, align, f))
            want = ref_bits(data, align, n, en)
            if whole:
                expect(ctx, f, n, data[align // 8:(align + n) // 8], fn)
            else:
                expect(ctx, f, n, want, fn)
        # seeks
        for target in range(align, 40):
            for null in (False, True):
                for rel in (True, False):
                    class P(F.Parser):
                        endian = E[en]

                        def createFields(self):
                            yield F.Bits(self, "h", 3)
                            yield Sub(self, "s")

                    class Sub(F.FieldSet):
                        def createFields(self):
                            if align:
                                yield F.Bits(self, "skip", align)
                            r = self.seekBit(target + (0 if rel else 3), "pad", "to there", relative=rel, null=null)
                            if r is not None:
                                yield r
                            yield F.Bits(self, "f", n)
                    p = P(StringInputStream(data))
                    f = p["s/f"]
                    ctx.count("transitions")
                    if f.address != target or f.absolute_address != 3 + target or f.value != ref_bits(data, 3 + target, n, en):
                        raise lib.Violation("seek to %d from %d: %r" % (target, align, f))
                    if ("s/pad" in p) != (target > align):
                        raise lib.Violation("seek to %d from %d: padding %r" % (target, align, "s/pad" in p))
                    if target > align and (p["s/pad"].size != target - align or ("Null" in type(p["s/pad"]).__name__) != null or p["s/pad"].description != "to there"):
                        raise lib.Violation("seek to %d from %d: %r" % (target, align, p["s/pad"]))
        for addr in range(0, 40, 3):
            p, f = parse(data, en, align, lambda s: F.Bits(s, "f", 4))
            before = [(x.name, x.address, x.size) for x in p]
            o = F.createOrphanField(p, addr, F.Bits, "orphan", n)
            if o.address != addr or o.size != n or o.value != ref_bits(data, addr, n, en):
                raise lib.Violation("orphan field at %d: %r" % (addr, o))
            if [(x.name, x.address, x.size) for x in p] != before or "orphan" in p:
                raise lib.Violation("an orphan field changes the set")
        # in the middle of the parsing
        p, f = parse(data, en, align, lambda s: F.Bits(s, "f", 4))
        o = F.createOrphanField(p, 17, F.Bits, "orphan", n)
        if o.value != ref_bits(data, 17, n, en) or [x.address for x in p][:2] != ([0, align] if align else [0, 4]):
            raise lib.Violation("orphan field during the parsing")
        ctx.count("traces")
        ctx.seen("states", ("helpers", n, align, en))


def main():
    c = lib.Check("F06", "model_checking",
                  "every class, byte order and bit alignment with every content up to 10 bits and boundary contents beyond; a state is a "
                  "distinct (class, size, alignment, order)", bounds={"bits": 40, "bytes": 40, "alignments": 8})
    c.domain("integers", [{"type": t, "align": a, "endians": ["BIG", "LITTLE", "MIDDLE"]} for t in INTS for a in range(8)], integers)
    sizes = list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 127, 128]
    if not c.quick:
        sizes = list(range(1, 72)) + [127, 128]
    c.domain("bits", [{"n": n, "align": a} for n in sizes for a in range(8)], bits)
    ns = list(range(1, 14)) + [31, 32, 33, 255, 256, 257, 4095, 4096, 4097]
    c.domain("wide", [{"sizes": [n]} for n in (-8, 0, 1, 7, 8, 9, 16, 24, 31, 32, 40, 63, 64, 65, 72, 128, 1000, 1024, 8192, 16383, 16384, 16385, 16392)], wide)
    c.domain("displays", [{"n": n} for n in (1, 2, 3, 4, 5, 8, 19, 20, 21, 22, 81)], displays)
    c.domain("failures", [{}], failures)
    c.domain("bytes", [{"n": n} for n in ns], rawbytes)
    c.domain("helpers", [{"n": n, "align": a} for n in (1, 3, 7, 8, 9, 12, 16, 24, 25) for a in (0, 1, 5, 8, 13)], helpers)
    c.main()


if __name__ == "__main__":
    main()
