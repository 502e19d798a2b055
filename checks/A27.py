"""A27: FIT files (Garmin) are shown as they were written: definitions, messages in both byte orders, arrays, times, developer fields, checksums."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get
from hachoir.parser.misc.fit import FITFile

# base type -> code of struct (None: text, b: bytes)
TYPES = {0: "B", 1: "b", 2: "B", 0x83: "h", 0x84: "H", 0x85: "i", 0x86: "I", 7: None, 0x88: "f", 0x89: "d", 10: "B", 0x8b: "H", 0x8c: "I", 13: "bytes", 0x8e: "q", 0x8f: "Q", 0x90: "Q"}


def extremes(code):
    n = struct.calcsize(code) * 8
    if code in "fd":
        return [0.0, 1.5, -2.25, 1024.0]
    if code.islower():
        return [0, 1, -1, 2 ** (n - 1) - 1, -2 ** (n - 1), 0x12345678abcdef01 % 2 ** (n - 1)]
    return [0, 1, 2 ** n - 1, 2 ** (n - 1), 0x123456789abcdef1 % 2 ** n]


class Field:
    """One field of a definition; count: number of elements (or of bytes, for texts and bytes)"""

    def __init__(self, number, typ, count=1):
        self.number, self.typ, self.count, self.code = number, typ, count, TYPES[typ]
        self.size = count * (1 if self.code in (None, "bytes") else struct.calcsize(self.code))

    def values(self, k):
        if self.code is None:
            return ("text%s" % k + "abcdefgh" * 40)[:self.count - 1] + "\0"
        if self.code == "bytes":
            return bytes((k + i) % 256 for i in range(self.count))
        v = extremes(self.code)
        return [v[(k + i) % len(v)] for i in range(self.count)]

    def pack(self, e, v):
        if self.code is None:
            return v.encode()
        if self.code == "bytes":
            return v
        return struct.pack(e + "%s%s" % (self.count, self.code), *v)


class Def:
    def __init__(self, local, number, fields, big=0, dev=()):
        self.local, self.number, self.fields, self.big, self.dev = local, number, fields, big, dev
        self.e = ">" if big else "<"

    def bytes(self):
        b = bytes([0x40 | (0x20 if self.dev else 0) | self.local, 0, self.big]) + struct.pack(self.e + "H", self.number) + bytes([len(self.fields)])
        b += b"".join(bytes([f.number, f.size, f.typ]) for f in self.fields)
        if self.dev:
            b += bytes([len(self.dev)]) + b"".join(bytes(d) for d in self.dev)
        return b

    def name(self):
        return "definition"

    def check(self, ctx, w, f):
        expect(ctx, w + ": header", [f["RecordHeader/" + k].value for k in ("normal", "type", "typespecific", "reserved", "msgType")], [False, True, bool(self.dev), False, self.local])
        expect(ctx, w + ": values", [f[k].value for k in ("reserved", "architecture", "msgNumber", "nbFields")], [0, self.big, self.number, len(self.fields)])
        expect(ctx, w + ": description", f.description, "Definition Message. Contains %s fields" % len(self.fields))
        got = [(x["number"].value, x["size"].value, x["type"].value, x.description) for x in f.array("fieldDefinition")]
        expect(ctx, w + ": fields", got, [(x.number, x.size, x.typ, "Field Definition. Number %s, Size %s" % (x.number, x.size)) for x in self.fields])


class Data:
    """time: None or the offset of a header with a compressed time"""

    def __init__(self, d, k=0, time=None):
        self.d, self.time = d, time
        self.vals = [f.values(k + i) for i, f in enumerate(d.fields)]
        self.dev = [bytes((k + i + j) % 256 for j in range(x[1])) for i, x in enumerate(d.dev)]

    def bytes(self):
        h = self.d.local if self.time is None else 0x80 | self.d.local << 5 | self.time
        return bytes([h]) + b"".join(f.pack(self.d.e, v) for f, v in zip(self.d.fields, self.vals)) + b"".join(self.dev)

    def name(self):
        return "data" if self.time is None else "timestamp"

    def check(self, ctx, w, f):
        if self.time is None:
            expect(ctx, w + ": header", [f["RecordHeader/" + k].value for k in ("normal", "type", "typespecific", "reserved", "msgType")], [False, False, False, False, self.d.local])
            expect(ctx, w + ": description of the header", f["RecordHeader"].description, "Record header, this is a data message")
        else:
            expect(ctx, w + ": header", [f["RecordHeader/" + k].value for k in ("timestamp", "msgType", "time")], [True, self.d.local, self.time])
        for i, (x, v) in enumerate(zip(self.d.fields, self.vals)):
            if not isinstance(v, list):
                got = get(f, "field%s" % i)
                expect(ctx, "%s: field %s (type %#x)" % (w, i, x.typ), got.rstrip("\0") if isinstance(got, str) else got, v.rstrip("\0") if isinstance(v, str) else v)
            elif len(v) == 1:
                expect(ctx, "%s: field %s (type %#x)" % (w, i, x.typ), get(f, "field%s" % i), v[0])
            else:
                expect(ctx, "%s: field %s (type %#x)" % (w, i, x.typ), [get(f, "field%s[%s]" % (i, j)) for j in range(len(v) + 1)], v + ["no field"])
        rest = [x.value for x in f][-len(self.dev):] if self.dev else []
        expect(ctx, w + ": developer fields", rest, self.dev)
        for x in f:
            if not isinstance(x.description, str):
                ctx.report("%s: the description of %s is %r" % (w, x.name, x.description))


def run(ctx, what, messages, long=True, crc=0x1234, profile=0x0814, proto=0x20):
    body = b"".join(m.bytes() for m in messages)
    head = bytes([14 if long else 12, proto]) + struct.pack("<HI", profile, len(body)) + b".FIT" + (struct.pack("<H", 0xabcd) if long else b"")
    data = head + body + struct.pack("<H", crc)
    p = direct(ctx, data, FITFile)
    contiguous(ctx, what, p, len(data) * 8, 3)
    h = p["header"]
    expect(ctx, what + ": header", [get(h, k) for k in ("size", "protocol", "profile", "datasize", "datatype", "crc")], [len(head), proto, profile, len(body), b".FIT", 0xabcd if long else "no field"])
    expect(ctx, what + ": description of the header", h.description, "Header of fit file. Data size is %s" % len(body))
    expect(ctx, what + ": checksum", get(p, "crc/crc"), crc)
    got = [f for f in p if f.name not in ("header", "crc")]
    expect(ctx, what + ": messages", [f.name.split("[")[0] for f in got], [m.name() for m in messages])
    pos = len(head)
    for i, (f, m) in enumerate(zip(got, messages)):
        w = "%s: message %s (%s)" % (what, i, m.name())
        n = len(m.bytes())
        if expect(ctx, w + ": place", (f.address // 8, f.size // 8), (pos, n)):
            m.check(ctx, w, f)
        pos += n


def types(case, ctx):
    """Each base type in both orders, as a number, as an array, next to another one"""
    for a in TYPES:
        if list(TYPES).index(a) % 4 != case["i"]:
            continue
        for n, big in itertools.product(case["counts"], (0, 1)):
            f = Field(253, a, n)
            if f.size > 255:
                continue
            d = Def(0, 20, [f], big)
            run(ctx, "type %#x, %s elements, order %s" % (a, n, big), [d] + [Data(d, k) for k in range(6)])
        for b, m, n, big in itertools.product(TYPES, (1, 2), (1, 2), (0, 1)):
            d = Def(3, 0xfffe, [Field(1, a, m), Field(2, b, n), Field(3, 0x84)], big)
            run(ctx, "types %#x and %#x, %s and %s elements, order %s" % (a, b, m, n, big), [d, Data(d), Data(d, 1)])


def headers(case, ctx):
    f = [Field(1, 0x84), Field(253, 0x86)]
    for local, big, long in itertools.product(range(16), (0, 1), (True, False)):
        d = Def(local, 0x100 + local, f, big)
        run(ctx, "local type %s" % local, [d, Data(d), Data(d, 1)], long)
        if local < 4:
            for t in range(32):
                run(ctx, "local type %s, time %s" % (local, t), [d, Data(d), Data(d, 1, t), Data(d, 2)], long)
    for number in [0, 1, 20, 0x100, 0x1234, 0xff00, 0xffff]:
        for big in (0, 1):
            run(ctx, "message number %s" % number, [Def(0, number, f, big)])
    for v in (0, 1, 0x80, 0x1234, 0xff00, 0xffff):
        d = Def(0, 1, f)
        run(ctx, "checksum %s" % v, [d, Data(d)], crc=v)
        run(ctx, "profile %s" % v, [d, Data(d)], profile=v, proto=v & 255)
    for n in list(range(0, 20)) + [100, 255]:
        d = Def(0, 1, [Field(i % 256, list(TYPES)[i % len(TYPES)], 1 + i % 2) for i in range(n)])
        run(ctx, "%s fields" % n, [d, Data(d), Data(d, 1)])
    for n in range(0, 4):
        for sizes in itertools.product((1, 2, 5), repeat=n):
            for m in (0, 1, 3):
                d = Def(2, 7, [Field(i, 0x84) for i in range(m)], n % 2, [(i, s, 3 + i) for i, s in enumerate(sizes)])
                run(ctx, "%s fields and developer fields of %s" % (m, sizes), [d, Data(d), Data(d, 5), Data(d, 1, 17)])


def sequences(case, ctx):
    """All histories of definitions (two local types, two orders) and messages: a message follows the last definition of its type"""
    defs = [Def(0, 20, [Field(1, 0x84)]), Def(0, 21, [Field(1, 2), Field(2, 0x86, 2)], 1), Def(1, 22, [Field(9, 7, 5)], 1), Def(1, 23, [Field(9, 0x8e)], 0, [(0, 3, 0)]), Def(2, 24, [])]
    events = [("def", d) for d in defs] + [("data", i) for i in range(3)] + [("time", i) for i in range(2)]
    for n in range(0, case["n"] + 1):
        for seq in itertools.product(range(len(events)), repeat=n):
            if (seq[0] if seq else 0) != case["first"]:
                continue
            now, out = {}, []
            for k, i in enumerate(seq):
                kind, x = events[i]
                if kind == "def":
                    now[x.local] = x
                    out.append(x)
                elif x not in now:
                    out = None
                    break
                else:
                    out.append(Data(now[x], k, (k * 7 + 3) % 32 if kind == "time" else None))
            if out is not None:
                run(ctx, "messages %s" % (seq,), out, n % 2 == 0)


if __name__ == "__main__":
    c = lib.Check("A27", "model_checking",
                  "all base types as numbers and arrays in both byte orders and pairs of them, all local types and compressed times, all numbers of fields and developer fields, all histories of definitions and messages of FIT files: place, kind and values of each message, header and checksum",
                  bounds={"messages": "histories of up to 5 (thorough: 7) of 10", "elements": "up to 20 (thorough: 255)"})
    q = c.quick
    c.domain("types", [{"i": i, "counts": list(range(1, 21)) if q else list(range(1, 256))} for i in range(4)], types, batch=1)
    c.domain("headers", [{}], headers, batch=1)
    c.domain("sequences", [{"first": i, "n": 5 if q else 7} for i in range(10)], sequences, batch=1)
    c.main()
