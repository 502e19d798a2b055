"""F07: string fields end where their format says, and give the text of their bytes."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir import field as F
E = endians()

UNIT = {"UTF-16-LE": (2, "little"), "UTF-16-BE": (2, "big"), "UTF-32LE": (4, "little"), "UTF-32BE": (4, "big"),
        "UTF-16": (2, None), "UTF-32": (4, None)}
BOM = {("UTF-16", "little"): b"\xff\xfe", ("UTF-16", "big"): b"\xfe\xff",
       ("UTF-32", "little"): b"\xff\xfe\0\0", ("UTF-32", "big"): b"\0\0\xfe\xff"}
PY = {("UTF-16", "little"): "UTF-16-LE", ("UTF-16", "big"): "UTF-16-BE", ("UTF-32", "little"): "UTF-32LE", ("UTF-32", "big"): "UTF-32BE"}
ALPHA = {1: [0x00, 0x0a, 0x61, 0x20, 0xe9], 2: [0x0000, 0x000a, 0x0061, 0x0100, 0x0a00, 0x0020, 0xd83d, 0xde00],
         4: [0x0, 0xa, 0x61, 0x100, 0x10000, 0x0a000000, 0x20]}
OPTS = [{}, {"strip": True}, {"strip": "a"}, {"truncate": "\0"}, {"truncate": "a"}, {"strip": " ", "truncate": "\n"}]


def decode(content, charset):
    try:
        return content.decode(charset)
    except UnicodeDecodeError:
        pass
    if charset == "UTF-16-LE" and len(content) % 2:
        # a last byte without its half
        try:
            return (content + b"\0").decode(charset)
        except UnicodeDecodeError:
            pass
    return content.decode("ISO-8859-1")


def finish(text, opts):
    t = opts.get("truncate")
    if t and t in text:
        text = text[:text.index(t)]
    s = opts.get("strip")
    if s:
        text = text.strip(s) if isinstance(s, str) else text.strip()
    return text


def end_of(content, width, order, stop):
    """Index of the first unit equal to `stop`, on a unit boundary."""
    for i in range(0, len(content) - width + 1, width):
        if int.from_bytes(content[i:i + width], order) == stop:
            return i
    return None


def reference(fmt, charset, endian, data, nbytes):
    """(size in bytes, content offset, content, python charset), or None when there is no such string."""
    width, order = UNIT.get(charset, (1, "big"))
    off, real = 0, charset
    pas = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}.get(fmt)
    if pas:
        off = pas
        if len(data) < pas:
            return None
        count = int.from_bytes(data[:pas], endian)
    bom = 0
    if charset in ("UTF-16", "UTF-32"):
        for o in ("little", "big"):
            if data[off:off + width] == BOM[charset, o]:
                order, bom = o, width
                real = PY[charset, o]
        if not bom:
            return None
    if bom > (count if pas else nbytes if fmt == "fixed" else bom):
        return None
    if pas:
        size = off + count
        content = data[off + bom:off + count]
    elif fmt == "fixed":
        size = nbytes
        content = data[bom:nbytes]
    else:
        stop = 0 if fmt == "C" else 10
        at = end_of(data, width, order, stop)
        if at is None:
            return None
        size = at + width
        content = data[bom:at]
    if size > len(data) or size == 0:
        return None
    return size, off + bom, content, real


def one(ctx, fmt, charset, endian, data, nbytes, opts, at):
    want = reference(fmt, charset, endian, data, nbytes)
    full = bytes([0xc3] * at) + data
    if not full:
        return

    class P(F.Parser):
        def createFields(self):
            if at:
                yield F.Bytes(self, "head", at)
            if fmt == "fixed":
                yield F.String(self, "f", nbytes, charset=charset, **opts)
            else:
                cls = {"C": "CString", "UnixLine": "UnixLine", "Pascal8": "PascalString8", "Pascal16": "PascalString16", "Pascal32": "PascalString32"}[fmt]
                yield getattr(F, cls)(self, "f", charset=charset, **opts)
            yield F.Bits(self, "after", 4)
    P.endian = E["BIG" if endian == "big" else "LITTLE"]
    p = P(StringInputStream(full))
    what = "%s string, charset %s, %s endian, %r in %s at %d" % (fmt, charset, endian, opts, data.hex(), at)
    ctx.count("transitions")
    if want is None:
        if at:      # the bytes are then raw
            rest = [8 * len(data)] if data else []
            if "f" in p or [x.size for x in p] != [8 * at] + rest:
                raise lib.Violation("%s: fields %r" % (what, [(f.name, f.size) for f in p]))
        else:
            try:
                if "f" in p:
                    raise lib.Violation("%s: there is a string of %d bits" % (what, p["f"].size))
            except F.FieldError:
                pass
        return
    size, off, content, real = want
    if "f" not in p:
        raise lib.Violation("%s: no string" % what)
    f = p["f"]
    if f.size != 8 * size:
        raise lib.Violation("%s: size %r instead of %d bytes" % (what, f.size, size))
    if f.content_size != len(content) or f.content_offset != off:
        raise lib.Violation("%s: content at %r + %r instead of %d + %d" % (what, f.content_offset, f.content_size, off, len(content)))
    text = finish(decode(content, real), opts)
    if f.value != text or type(f.value) is not str:
        raise lib.Violation("%s: value %r instead of %r" % (what, f.value, text))
    if not opts and decode(content, real) == text and f.length != len(text) and real != "UTF-8":
        raise lib.Violation("%s: length %r instead of %d" % (what, f.length, len(text)))
    if f.charset != real:
        raise lib.Violation("%s: charset %r instead of %s" % (what, f.charset, real))
    if len(full) * 8 >= at * 8 + f.size + 4:
        a = p["after"]
        if a.address != 8 * (at + size):
            raise lib.Violation("%s: the next field is at %d" % (what, a.address))
    ctx.count("traces")
    ctx.seen("states", (fmt, charset, endian, size, text))


def units(width, order, seq):
    return b"".join(u.to_bytes(width, order) for u in seq)


def strings(case, ctx):
    charset, fmt = case["charset"], case["format"]
    width = UNIT.get(charset, (1,))[0]
    alpha = ALPHA[width]
    orders = [UNIT[charset][1]] if charset in UNIT and UNIT[charset][1] else ["little", "big"]
    for endian in ("big", "little"):
        for order in orders:
            for k in range(case["max"] + 1):
                if k and case["first"] is None or not k and case["first"] is not None:
                    continue
                for rest in itertools.product(alpha, repeat=max(0, k - 1)):
                    seq = ((case["first"],) if k else ()) + rest
                    body = units(width, order, seq)
                    boms = [b""]
                    if charset in ("UTF-16", "UTF-32"):
                        boms = [BOM[charset, order]] + ([b""] if k < 3 else [])
                    for bom in boms:
                        data = bom + body
                        optlist = OPTS if k <= 3 else OPTS[:1]
                        for opts in optlist:
                            if fmt.startswith("Pascal"):
                                n = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}[fmt]
                                for cut in ((0,) if opts else (0, 1, -1)):
                                    count = len(data) - cut
                                    if count < 0:
                                        continue
                                    one(ctx, fmt, charset, endian, count.to_bytes(n, endian) + data, None, opts, case["at"])
                            elif fmt == "fixed":
                                for n in ((len(data),) if opts else (len(data), len(data) - 1, len(data) - width, len(data) + 1)):
                                    if n >= max(1, len(bom)):
                                        one(ctx, fmt, charset, endian, data, n, opts, case["at"])
                            else:
                                one(ctx, fmt, charset, endian, data, None, opts, case["at"])
                                if not opts:
                                    # an odd byte behind the text
                                    one(ctx, fmt, charset, endian, data + b"\0", None, opts, case["at"])
    ctx.sample(case)


def long_strings(case, ctx):
    """The end mark around the internal search blocks, and long prefixes."""
    n, charset = case["n"], case["charset"]
    width, order = UNIT.get(charset, (1, "big"))
    body = units(width, order, [0x41 + i % 26 for i in range(n)])
    for fmt in ("C", "UnixLine"):
        stop = units(width, order, [0 if fmt == "C" else 10])
        for endian in ("big", "little"):
            one(ctx, fmt, charset, endian, body + stop + b"abc", None, {}, case["at"])
    for fmt, k in (("Pascal8", 1), ("Pascal16", 2), ("Pascal32", 4)):
        if len(body) < 1 << (8 * k):
            for endian in ("big", "little"):
                one(ctx, fmt, charset, endian, len(body).to_bytes(k, endian) + body + b"xyz", None, {}, case["at"])
    if 0 < len(body) <= 0xffff:
        one(ctx, "fixed", charset, "big", body + b"q", len(body), {}, case["at"])


def guessed(case, ctx):
    """Without a charset, plain ASCII text is given as it is."""
    n = case["n"]
    for seq in itertools.product(b"aZ 9~", repeat=n):
        text = bytes(seq)
        for fmt, data in (("C", text + b"\0x"), ("UnixLine", text + b"\nx"), ("Pascal8", bytes([n]) + text + b"x"), ("fixed", text + b"x")):
            if fmt == "fixed" and not n:
                continue

            class P(F.Parser):
                endian = E["BIG"]

                def createFields(self):
                    if fmt == "fixed":
                        yield F.String(self, "f", n)
                    else:
                        yield getattr(F, {"C": "CString", "UnixLine": "UnixLine", "Pascal8": "PascalString8"}[fmt])(self, "f")
                    yield F.UInt8(self, "x")
            p = P(StringInputStream(data))
            ctx.count("transitions")
            if p["f"].value != text.decode() or p["x"].value != 120 or p["f"].length != n:
                raise lib.Violation("%s string %r without charset: %r, length %r" % (fmt, data, p["f"].value, p["f"].length))
            ctx.count("traces")
            ctx.seen("states", (fmt, text))


def main():
    c = lib.Check("F07", "model_checking",
                  "every sequence of code units of the alphabet up to the bound, in every format, charset, byte order and option, at several "
                  "addresses; a state is a distinct (format, charset, order, size, text)",
                  assumptions=["text which its charset cannot decode is read as Latin-1 (documented fallback)"],
                  bounds={"units": 4, "alphabets": {str(k): len(v) for k, v in ALPHA.items()}})
    cases = []
    for cs in ("ASCII", "ISO-8859-1", "UTF-8", "WINDOWS-1252") + tuple(UNIT):
        width = UNIT.get(cs, (1,))[0]
        for fmt in ("C", "UnixLine", "fixed", "Pascal8", "Pascal16", "Pascal32"):
            for at in (0, 1, 3):
                for first in [None] + ALPHA[width]:
                    m = {1: 4, 2: 3, 4: 3}[width] if c.quick else {1: 6, 2: 5, 4: 4}[width]
                    if at == 3:
                        m -= 1
                    cases.append({"charset": cs, "format": fmt, "at": at, "first": first, "max": m})
    c.domain("strings", cases, strings)
    ns = [0, 1, 127, 128, 255, 256, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385, 32766, 32767, 32768]
    c.domain("long strings", [{"n": n, "charset": cs, "at": at} for n in ns for at in (0, 1) for cs in ("ASCII", "UTF-8", "UTF-16-LE", "UTF-16-BE", "UTF-32LE", "UTF-32BE")], long_strings)
    c.domain("no charset", [{"n": n} for n in range(0, 5)], guessed)
    c.main()


if __name__ == "__main__":
    main()
