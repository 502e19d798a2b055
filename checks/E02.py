"""E02: a value set in an editor is the value read from the saved file; a value which does not fit is refused without effect."""
import os, struct, sys
from datetime import datetime, timedelta
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream, StringOutputStream
from hachoir import field as F
from hachoir.editor import createEditor, EditableInteger, EditableBits, EditableBytes, EditableString
from hachoir.editor.typed_field import EditableCharacter, EditableTimestampMac32
E = endians()
REFUSED = (ValueError, TypeError, AssertionError, OverflowError, struct.error)
MAC0 = datetime(1904, 1, 1)


def ints(size, signed, full):
    lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if signed else (0, (1 << size) - 1)
    if full and size <= 8:
        good = list(range(lo, hi + 1))
    elif full and size <= 16:
        good = list(range(lo, lo + 300)) + list(range(-300 if signed else 0, 300)) + list(range(hi - 300, hi + 1)) + list(range(lo, hi, 97))
    else:
        good = sorted({lo, lo + 1, hi, hi - 1, 0, 1, hi // 2, hi // 3} | ({-1, -2} if signed else set()) | {1 << k for k in range(size - 1)})
    good = [v for v in good if lo <= v <= hi]
    return good, [lo - 1, hi + 1, hi + 2, lo - 256, 1 << (size + 3)]


STRINGS = {"plain": [b"", b"a", b"hello", b"\xe9t\xe9", b"x" * 254, b"x" * 255], "big": [b"y" * 256, b"y" * 300]}
FIELDS = {}


def add(name, make, good, bad, new=None, unaligned=False, content=None, read=lambda f: f.value, shown=None):
    FIELDS[name] = dict(make=make, good=good, bad=bad, new=new, unaligned=unaligned, content=content, read=read, shown=shown)


def table(full):
    FIELDS.clear()
    for size in (8, 16, 24, 32, 64):
        for signed in (False, True):
            cls = getattr(F, ("Int" if signed else "UInt") + str(size))
            good, bad = ints(size, signed, full)
            add(cls.__name__, lambda p, n, cls=cls: cls(p, n), good, bad, new=lambda e, n, v, a=(signed, size): EditableInteger(e, n, a[0], a[1], v),
                unaligned=True, content=bytes(size // 8))
    for size in (1, 2, 5, 7, 8, 9, 13, 24) + ((3, 4, 6, 10, 11, 12, 15, 16, 17, 31, 33, 63) if full else ()):
        good, bad = ints(size, False, full)
        pad = -size % 8
        add("Bits%d" % size, lambda p, n, s=size: F.Bits(p, n, s), good, bad, new=lambda e, n, v, s=size: EditableBits(e, n, s, v), unaligned=True, content=size)
        add("RawBits%d" % size, lambda p, n, s=size: F.RawBits(p, n, s), good, bad, unaligned=True, content=size)
    add("Bit", lambda p, n: F.Bit(p, n), [0, 1, True, False], [2, -1, 3], unaligned=True, content=1)
    chars = [chr(c) for c in range(256)] if full else [chr(c) for c in (0, 1, 10, 65, 127, 128, 233, 255)]
    add("Character", lambda p, n: F.Character(p, n), chars, ["", "ab", "\u0100", "\u20ac", 5, b"a", None], unaligned=True,
        new=lambda e, n, v: EditableCharacter(e, n, v), content=b"q")
    macs = [MAC0 + timedelta(seconds=s) for s in (0, 1, 59, 86400, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 3029529600)]
    add("Mac32", lambda p, n: F.TimestampMac32(p, n), macs, [MAC0 - timedelta(seconds=1), MAC0 + timedelta(seconds=2 ** 32), datetime(1, 1, 1), 5],
        new=lambda e, n, v: EditableTimestampMac32(e, n, v), unaligned=True, content=bytes(4))
    for cls in (F.RawBytes, F.Bytes, F.PaddingBytes):
        add(cls.__name__, lambda p, n, cls=cls: cls(p, n, p.length), [b"\0", b"ab", b"\xff" * 3, b"z" * 70000, bytes(range(256))], [b""],
            new=(lambda e, n, v: EditableBytes(e, n, v)) if cls is F.RawBytes else None, content=b"old")
    texts = STRINGS["plain"] + STRINGS["big"]
    enc = lambda x: x
    for cls, fmt, limit in ((F.CString, "C", None), (F.UnixLine, "UnixLine", None), (F.PascalString8, "Pascal8", 255), (F.PascalString16, "Pascal16", 65535),
                            (F.PascalString32, "Pascal32", None), (F.String, "fixed", None)):
        for cs in (None, "ISO-8859-1", "UTF-8", "UTF-16-LE", "UTF-16-BE", "UTF-16", "UTF-32LE", "UTF-32"):
            if fmt == "fixed":
                make = lambda p, n, cs=cs: F.String(p, n, p.length, charset=cs)
            else:
                make = lambda p, n, cls=cls, cs=cs: cls(p, n, charset=cs)
            py = {None: "latin-1", "UTF-16": "utf-16-le", "UTF-32": "utf-32-le"}.get(cs, cs)
            bom = {"UTF-16": b"\xff\xfe", "UTF-32": b"\xff\xfe\0\0"}.get(cs, b"")
            tt = [t.decode("latin-1") for t in texts]
            # guessed charset: only ASCII is sure to come back as it is
            if cs is None:
                tt = [t for t in tt if t.isascii()]
            if fmt == "fixed" and not bom:
                tt = [t for t in tt if t]
            if cs in ("UTF-16", "UTF-32"):
                pass
            vals = [t.encode(py) for t in tt]
            good = [v for v in vals if limit is None or len(v) + len(bom) <= limit]
            bad = [v for v in vals if limit is not None and len(v) + len(bom) > limit]
            if limit == 65535:
                good.append(("w" * ((limit - len(bom)) // len("w".encode(py)))).encode(py))
                bad.append(("w" * (limit // len("w".encode(py)) + 1)).encode(py))
            bad.append(5)
            if cs is None:
                bad.append("text")
            size = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}.get(fmt, 0)
            old = bom + "old".encode(py)
            content = lambda big, size=size, old=old, fmt=fmt, py=py: (len(old).to_bytes(size, "big" if big else "little") if size else b"") + old + (
                {"C": "\0", "UnixLine": "\n"}.get(fmt, "").encode(py))
            new = None
            if not bom:
                new = lambda e, n, v, fmt=fmt, cs=cs: EditableString(e, n, fmt, v, charset=cs)
            add("%s/%s" % (fmt, cs), make, good, bad, new=new, content=content, shown=lambda v, py=py: v.decode(py))
    fl = [0.0, 1.0, -1.0, 0.5, 1e10, 3.14, -2.5e-7, 65504.0, float("inf"), float("-inf"), 2.0 ** -149, 3.4028234663852886e38, -0.0, 7]
    f32 = [1e39, -1e300, "x", None, 3.5e38]
    add("Float32", lambda p, n: F.Float32(p, n), fl, f32, unaligned=False, content=struct.pack(">f", 2.5), shown=lambda v: struct.unpack("f", struct.pack("f", v))[0])
    add("Float64", lambda p, n: F.Float64(p, n), fl + [1e300, 5e-324, 1.7976931348623157e308], ["x", None, 10 ** 400], content=struct.pack(">d", 2.5))


def parser_of(fdef, lead, length, en):
    class P(F.Parser):
        endian = E[en]

        def createFields(self):
            self.length = length
            if lead:
                yield F.Bits(self, "lead", lead)
            yield F.UInt8(self, "before")
            yield fdef["make"](self, "f")
            yield F.UInt8(self, "after")
            if self.current_size % 8:
                yield F.Bits(self, "pad", 8 - self.current_size % 8)
            yield F.UInt16(self, "end")
    return P


def pack(bits, big):
    bits = bits + [0] * (-len(bits) % 8)
    out = bytearray()
    for i in range(0, len(bits), 8):
        out.append(sum(b << (7 - k if big else k) for k, b in enumerate(bits[i:i + 8])))
    return bytes(out)


def vbits(v, n, big):
    b = [(v >> i) & 1 for i in range(n)]
    return b[::-1] if big else b


def bytebits(data, big):
    return [x for c in data for x in vbits(c, 8, big)]


def base(fdef, lead, en):
    big = en == "BIG"
    c = fdef["content"]
    if callable(c):
        c = c(big)
    body = vbits(0, c, big) if isinstance(c, int) else bytebits(c, big)
    bits = vbits((1 << lead) - 2 if lead > 1 else 1, lead, big) if lead else []
    bits = bits + vbits(0xA5, 8, big) + body + vbits(0x5A, 8, big)
    bits += [1] * (-len(bits) % 8) + vbits(0xBEEF, 16, big)
    return pack(bits, big), (len(c) if not isinstance(c, int) else 0)


def save(ed):
    out = StringOutputStream()
    ed.writeInto(out)
    # the last bits of an unaligned file
    if out._bit_pos:
        out.writeBits(8 - out._bit_pos, 0, E["BIG"])
    out._output.seek(0)
    return out._output.read()


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack(">d", a) == struct.pack(">d", b)
    return type(a) == type(b) and a == b or (a == b and isinstance(a, (int, bool, float)) and isinstance(b, (int, bool, float)))


def check_saved(fdef, case, ed, value, what, lead, length, en):
    data = save(ed)
    shown = fdef["shown"](value) if fdef["shown"] else value
    p = parser_of(fdef, lead, length, en)(StringInputStream(data))
    got = p["f"].value
    if not same(got, shown):
        raise lib.Violation("%s: saved file has %s, instead of %s" % (what, lib.short(repr(got), 80), lib.short(repr(shown), 80)), data=data)
    if p["before"].value != 0xA5 or p["after"].value != 0x5A or p["end"].value != 0xBEEF:
        raise lib.Violation("%s: fields around it are damaged" % what, data=data)
    if lead and p["lead"].value != ((1 << lead) - 2 if lead > 1 else 1):
        raise lib.Violation("%s: field before it is damaged" % what, data=data)
    # the editor gives the places and sizes of the saved file
    want = [(f.address, f.size) for f in p]
    got = [(f.address, f.size) for f in ed]
    if got != want or ed.size != sum(s for _, s in want):
        raise lib.Violation("%s: the editor has its fields at %r, the saved file at %r" % (what, got, want), data=data)
    if len(p) != (4 if not lead else 5) + ("pad" in p):
        raise lib.Violation("%s: fields %r" % (what, [f.name for f in p]), data=data)


def values(case, ctx):
    fdef = FIELDS[case["field"]]
    lead, en = case["lead"], case["endian"]
    data, length = base(fdef, lead, en)
    fixed = not isinstance(fdef["content"], int)

    def editor(length=length):
        return createEditor(parser_of(fdef, lead, length, en)(StringInputStream(data)))

    def newlen(v):
        return len(v) if isinstance(v, bytes) else 0
    name = "%s, %s endian, %d bits before" % (case["field"], en, lead)

    def bits_len(e):
        return sum(f.size for f in e)

    def setv(e, v, what):
        f = e["f"]
        f.value = v
        got = f.value
        if fdef["shown"] and isinstance(v, bytes):
            ok = got == v
        else:
            ok = same(got, fdef["shown"](v) if fdef["shown"] else v)
        if not ok:
            raise lib.Violation("%s: value is then %s" % (what, lib.short(repr(got), 60)))
        if not f.is_altered or not e.is_altered:
            raise lib.Violation("%s: not altered" % what)

    def refuse(fn, what):
        try:
            fn()
        except REFUSED:
            return
        raise lib.Violation("%s: accepted" % what)
    bom = 2 if case["field"].endswith("UTF-16") else 4 if case["field"].endswith("UTF-32") else 0
    for v in fdef["good"]:
        what = "%s: set to %s" % (name, lib.short(repr(v), 60))
        e = editor()
        setv(e, v, what)
        check_saved(fdef, case, e, v, what, lead, newlen(v) + bom, en)
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", (case["field"], en, lead, repr(v)))
        # set again, and a refused value changes nothing
        w = fdef["good"][0]
        setv(e, w, what + " then %s" % lib.short(repr(w), 40))
        setv(e, v, what + " again")
        for b in fdef["bad"]:
            def bad():
                e["f"].value = b
            refuse(bad, "%s then %s" % (what, lib.short(repr(b), 40)))
            ctx.count("transitions")
        check_saved(fdef, case, e, v, what + ", then others refused", lead, newlen(v) + bom, en)
    for b in fdef["bad"]:
        e = editor()

        def bad():
            e["f"].value = b
        what = "%s: set to %s" % (name, lib.short(repr(b), 60))
        refuse(bad, what)
        if e.is_altered or e["f"].is_altered or save(e) != data:
            raise lib.Violation("%s is refused, with an effect" % what)
    if fdef["new"]:
        for how in ("before", "after", "replace"):
            for v in fdef["good"]:
                what = "%s: new field %s, %s" % (name, lib.short(repr(v), 60), how)
                e = editor()
                if how != "replace":
                    # the old field makes room for the new one
                    f = fdef["new"](e, "g", v)
                    (e.insertBefore if how == "before" else e.insertAfter)("f", f)
                    del e["f"]
                else:
                    f = fdef["new"](e, "f", v)
                    del e["f"]
                    e.insertAfter("before", f)
                if f.value != v or not f.is_altered:
                    raise lib.Violation("%s: value %r" % (what, lib.short(repr(f.value))))
                check_saved(fdef, case, e, v, what, lead, newlen(v) + bom, en)
                ctx.count("transitions")
                ctx.count("traces")
        for b in fdef["bad"]:
            e = editor()
            refuse(lambda: fdef["new"](e, "g", b), "%s: new field %s" % (name, lib.short(repr(b), 60)))


def floats(case, ctx):
    """The sign of a float is edited alone."""
    for cls, fmt in ((F.Float32, "f"), (F.Float64, "d")):
        for x in (0.0, 1.0, -2.5, 3.0e-5, float("inf")):
            for order in ("sign", "value then sign", "sign then value"):
                class P(F.Parser):
                    endian = E[case["endian"]]

                    def createFields(self):
                        yield F.UInt8(self, "a")
                        yield cls(self, "f")
                        yield F.UInt8(self, "b")
                raw = struct.pack((">" if case["endian"] == "BIG" else "<") + fmt, x)
                e = createEditor(P(StringInputStream(b"\1" + raw + b"\2")))
                want = -x
                if order == "sign then value":
                    e["f/negative"].value = 1 if not str(x).startswith("-") else 0
                    e["f"].value = want = 8.5
                elif order == "sign":
                    e["f/negative"].value = 1 if not str(x).startswith("-") else 0
                else:
                    continue
                if not same(e["f"].value, want) if cls is F.Float64 else struct.pack(">f", e["f"].value) != struct.pack(">f", want):
                    raise lib.Violation("%s %r, %s edited: value %r" % (cls.__name__, x, order, e["f"].value))
                data = save(e)
                if data != b"\1" + struct.pack((">" if case["endian"] == "BIG" else "<") + fmt, want) + b"\2":
                    raise lib.Violation("%s %r, %s edited: saved %s" % (cls.__name__, x, order, data.hex()))
                ctx.count("transitions")
                ctx.count("traces")


def main():
    c = lib.Check("E02", "model_checking",
                  "every boundary value of every editable type, set in an existing field or given to a new one, at every bit position where it can be written; "
                  "a state is a (type, byte order, bit position, value)",
                  assumptions=["strings and bytes are set at byte addresses", "the end mark is not part of the text", "strings are set as encoded bytes, without their byte order mark"],
                  bounds={"values": "all bounds and powers of two; thorough: all 8-bit values and most 16-bit ones"})
    table(not c.quick)
    cases = []
    for name, f in FIELDS.items():
        for en in ("BIG", "LITTLE"):
            for lead in (range(8) if f["unaligned"] else (0,)):
                cases.append({"field": name, "endian": en, "lead": lead})
    c.domain("values", cases, values, batch=1, cpu_limit=600)
    c.domain("floats", [{"endian": en} for en in ("BIG", "LITTLE")], floats)
    c.main()


if __name__ == "__main__":
    main()
