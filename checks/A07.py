"""A07: torrents, ASN.1, binary property lists and compiled Python programs are shown as the values which were written."""
import datetime, itertools, marshal, os, plistlib, struct, sys, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, expect, get, metadata, direct, opened
from hachoir.core.tools import humanFilesize
from hachoir.parser.container import ASN1File
from hachoir.parser.misc import BPList, TorrentFile
from hachoir.parser.program import PythonCompiledFile


def trees(leaves, few, kinds, width=2):
    """All the values: leaves, containers of at most 'width' leaves, containers of at most 'width' (few leaves and their containers)"""
    def over(items):
        for kind in kinds:
            for n in range(width + 1):
                for seq in itertools.product(items, repeat=n):
                    v = kind(seq)
                    if v is not None:
                        yield v
    yield from leaves
    yield from over(leaves)
    yield from over(list(few) + list(over(few)))


# --- torrents ---

def bencode(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, list):
        return b"l" + b"".join(map(bencode, v)) + b"e"
    return b"d" + b"".join(bencode(k) + bencode(v[k]) for k in v) + b"e"


KEYS = [b"a", b"two words", b"k" * 12, b"\xe9", b"9"]


def bdict(seq):
    return dict(zip(KEYS, seq))


BLEAVES = [0, 1, -1, 1234567890, 2 ** 64 - 1, -2 ** 63, b"", b"x", b"0123456789", b"5:i1e", b"y" * 511, b"z" * 512, b"\xff\x00" * 600]


def benc_value(ctx, what, f, v):
    data = bencode(v)
    if f.size != len(data) * 8:
        ctx.report("%s: %s has %s bits instead of %s" % (what, f.path, f.size, len(data) * 8))
        return
    contiguous(ctx, what, f, len(data) * 8, 0)
    if isinstance(v, int):
        expect(ctx, "%s: %s" % (what, f.path), (f.value, f["value"].value), (v, str(v)))
    elif isinstance(v, bytes):
        if len(v) < 512:
            want = v.decode("latin-1") if v else None
            expect(ctx, "%s: %s" % (what, f.path), (f.value, get(f, "value"), get(f, "length")), (want, want if v else "no field", str(len(v))))
        else:
            expect(ctx, "%s: %s" % (what, f.path), (get(f, "length"), f.stream.readBytes(f["value"].absolute_address, len(v)), f["value"].size), (str(len(v)), v, len(v) * 8))
    elif isinstance(v, list):
        items = f.array("item") if "item[0]" in f else []
        if expect(ctx, "%s: items of %s" % (what, f.path), (len(items), len(f)), (len(v), len(v) + 2)):
            for item, x in zip(items, v):
                benc_value(ctx, what, item, x)
    else:
        names = [k.decode("latin-1").replace(" ", "_") for k in v]
        got = [x.name for x in f]
        if expect(ctx, "%s: keys of %s" % (what, f.path), got, ["start"] + names + ["end"]):
            for name, k in zip(names, v):
                item = f[name]
                expect(ctx, "%s: key %s" % (what, item.path), item["key"].value, k.decode("latin-1"))
                benc_value(ctx, what, item["value"], v[k])
                x = v[k]
                if k != b"creation date" and isinstance(x, int) or isinstance(x, bytes) and 0 < len(x) < 512:
                    expect(ctx, "%s: value of %s" % (what, item.path), item.value, x if isinstance(x, int) else x.decode("latin-1"))


def torrent_trees(case, ctx):
    for n, v in enumerate(trees(BLEAVES, [1, b"x"], [list, bdict], case["width"])):
        if n % case["of"] != case["n"]:
            continue
        for root in ({b"announce": b"http://tracker/a-long-name-of-a-file", b"tree": v, b"last": 5}, {b"announce": v, b"z": b"q" * 60}):
            torrent(ctx, "torrent %s" % lib.short(v, 80), root)


def torrent(ctx, what, root):
    data = bencode(root)
    p = opened(ctx, data, TorrentFile)
    expect(ctx, what + ": fields", [(f.name, f.size) for f in p], [("root", len(data) * 8)])
    benc_value(ctx, what, p["root"], root)
    return p


def torrent_meta(case, ctx):
    """Names and numbers of a torrent in the metadata, whatever the other items"""
    single = {b"length": 1234567, b"name": b"a file", b"piece length": 262144, b"pieces": b"\x01\x02" * 300}
    several = {b"files": [{b"length": 5, b"path": [b"dir", b"file"]}, {b"length": 7, b"path": [b"other"]}], b"name": b"a dir", b"piece length": 1 << 14, b"pieces": b"p" * 20}
    extra = [(b"comment", b"some words"), (b"creation date", 1137000000), (b"created by", b"program"), (b"encoding", b"UTF-8"), (b"nodes", [[b"host", 80]])]
    for info in (single, several):
        for n in range(len(extra) + 1):
            for seq in itertools.combinations(extra, n):
                for at in range(n + 1):
                    root = {b"announce": b"http://tracker:6969/announce"}
                    root.update(seq[:at])
                    root[b"info"] = info
                    root.update(seq[at:])
                    what = "torrent of %s, %s" % (info[b"name"], [k for k in root])
                    p = torrent(ctx, what, root)
                    expect(ctx, what + ": size on display", p["root/info/value/piece_length"].display, humanFilesize(info[b"piece length"]))
                    if b"creation date" in root:
                        expect(ctx, what + ": date", p["root/creation_date"].value, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=1137000000))
                    check_meta(ctx, what, metadata(p), url="http://tracker:6969/announce", creation_date=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=1137000000) if b"creation date" in root else None,
                               comment=(lambda v: v[0] if len(v) == 1 else v)((["some words"] if b"comment" in root and list(root).index(b"comment") < list(root).index(b"info") else [])
                               + ["Piece length: " + humanFilesize(info[b"piece length"])] + (["some words"] if b"comment" in root and list(root).index(b"comment") > list(root).index(b"info") else [])),
                               file_size=info.get(b"length"), filename=info[b"name"].decode())


# --- ASN.1 ---

class Seq(list):
    pass


class Set(list):
    pass


class Tagged(list):
    cls = 2


def base128(n):
    out = [n & 127]
    while n > 127:
        n >>= 7
        out.insert(0, 128 | n & 127)
    return bytes(out)


def oid(*numbers):
    return base128(numbers[0] * 40 + numbers[1]) + b"".join(map(base128, numbers[2:]))


# (tag, content, name of the field, value, description)
ALEAVES = [(2, b"\0", "integer", 0), (2, b"\x7f", "integer", 127), (2, b"\xff", "integer", -1), (2, b"\0\x80", "integer", 128), (2, b"\x80\0\0\0\0\0\0\0", "integer", -2 ** 63), (2, b"\x01" + b"\0" * 300, "integer", 1 << 2400),
           (10, b"\5", "enum", 5), (1, b"\xff", "boolean", 255), (1, b"\0", "boolean", 0), (5, b"", "null", None), (3, b"\x04\xf0", "bit_str", b"\xf0"), (3, b"\0", "bit_str", None),
           (4, b"", "octet_str", None), (4, b"\0\xff", "octet_str", b"\0\xff"), (4, b"o" * 127, "octet_str", b"o" * 127), (4, b"o" * 128, "octet_str", b"o" * 128), (4, b"o" * 255, "octet_str", b"o" * 255), (4, b"o" * 256, "octet_str", b"o" * 256),
           (12, "caf\xe9 \u20ac".encode(), "utf8_str", "caf\xe9 \u20ac"), (19, b"Printable", "print_str", "Printable"), (22, b"a@b.c", "ia5_str", "a@b.c"), (18, b"0123", "num_str", "0123"), (26, b"visible", "visible_str", "visible"),
           (30, "caf\xe9 \u20ac".encode("utf-16-be"), "bmp_str", "caf\xe9 \u20ac"), (23, b"491231235959Z", "utc_time", "491231235959Z"), (23, b"500101000000Z", "utc_time", "500101000000Z"), (24, b"20501231235959Z", "general_time", "20501231235959Z"),
           (20, b"teletex", "teletex_str", "teletex"), (21, b"videotex", "videotex_str", "videotex"), (25, b"graphic", "graphic_str", "graphic"), (27, b"general", "general_str", "general"),
           (19, b"", "print_str", None), (12, b"", "utf8_str", None), (0x80, b"raw", "raw", "raw"), (0x41, b"application", "raw", "application"), (0xC3, b"private", "raw", "private")]
OIDS = [(0, 0), (1, 2, 840, 113549), (2, 5, 4, 3), (2, 39), (2, 40), (2, 47, 1), (2, 48, 1), (2, 100, 3), (2, 999, 3), (1, 3, 6, 1, 4, 1, 2 ** 31), (0, 39, 127, 128, 16383, 16384), (1, 39, 2 ** 55)]
ALEAVES += [(6, oid(*o), "obj_id", o) for o in OIDS]


def length(n, more=0):
    if n < 128 and not more:
        return bytes([n])
    raw = n.to_bytes(max(1, (n.bit_length() + 7) // 8) + max(0, more - 1), "big")
    return bytes([128 | len(raw)]) + raw


def der(v, more=0):
    if isinstance(v, tuple):
        return bytes([v[0]]) + length(len(v[1]), more) + v[1]
    body = b"".join(der(x) for x in v)
    return bytes([{Seq: 0x30, Set: 0x31}.get(type(v), 0xA3)]) + length(len(body), more) + body


def asn1_name(v):
    return v[2] if isinstance(v, tuple) else {Seq: "seq", Set: "set"}.get(type(v), "seq")


def asn1_value(ctx, what, f, v, data, pos):
    tag = data[0]
    if f.size != len(data) * 8 or f.absolute_address != pos * 8:
        ctx.report("%s: %s has %s bits at %s instead of %s at %s" % (what, f.path, f.size, f.absolute_address, len(data) * 8, pos * 8))
        return
    contiguous(ctx, what, f, len(data) * 8, 0)
    head = f["size"].address // 8 + f["size"].size // 8
    expect(ctx, "%s: head of %s" % (what, f.path), (f["class"].value, f["form"].value, f["type"].value, f["size"].value, f["class"].display, f["form"].display),
           (tag >> 6, bool(tag & 32), tag & 31, len(data) - head, ("universal", "application", "context", "private")[tag >> 6], "constructed" if tag & 32 else "primitive"))
    if isinstance(v, tuple):
        _, content, name, want = v
        if name == "obj_id":
            text = ".".join(map(str, want))
            expect(ctx, "%s: identifier" % what, f.description, "Object identifier: " + text)
            return
        expect(ctx, "%s: %s" % (what, f.path), get(f, "value"), "no field" if want is None else want)
        if name == "boolean":
            expect(ctx, "%s: boolean" % what, f["value"].display, str(bool(want)))
        if name == "bit_str":
            expect(ctx, "%s: unused bits" % what, f["padding_size"].value, content[0])
        if name == "utc_time":
            year = int(want[:2])
            expect(ctx, "%s: date" % what, f.description, "UTC time: %s-%s-%s %s:%s:%s" % (year + (2000 if year < 50 else 1900), want[2:4], want[4:6], want[6:8], want[8:10], want[10:12]))
        elif name in ("print_str", "ia5_str") and want:
            expect(ctx, "%s: description" % what, f.description.split(": ", 1)[1], '"%s"' % want)
        return
    numbers, names = {}, []
    for x in v:
        n = asn1_name(x)
        numbers[n] = numbers.get(n, -1) + 1
        names.append("%s[%s]" % (n, numbers[n]))
    got = [x.name for x in f][4:]
    if expect(ctx, "%s: items of %s" % (what, f.path), got, names):
        pos += head
        for n, x in zip(names, v):
            d = der(x)
            asn1_value(ctx, what, f[n], x, d, pos)
            pos += len(d)


def asn1_trees(case, ctx):
    for n, v in enumerate(trees(ALEAVES, [ALEAVES[1], ALEAVES[18]], [Seq, Set, Tagged], case["width"])):
        if n % case["of"] != case["n"]:
            continue
        for more in (0, 1, 2, 7) if n // case["of"] % 4 == 0 else (0,):
            data = der(v, more)
            what = "ASN.1 %s, length on %s bytes" % (lib.short(v, 100), more or "few")
            p = direct(ctx, data, ASN1File)
            expect(ctx, what + ": fields", [f.name for f in p], [asn1_name(v) + "[0]"])
            asn1_value(ctx, what, p[0], v, data, 0)


# --- property lists ---

UTC2001 = datetime.datetime(2001, 1, 1)
PLEAVES = [0, 1, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -1, -2 ** 63, 1.5, -2.0 ** 60, True, False, UTC2001, datetime.datetime(2006, 7, 8, 9, 10, 11), b"", b"\0\xff", b"d" * 15, b"d" * 300,
           "", "a", "14 characters.", "fifteen letters", "x" * 300, "caf\xe9", "\u20ac" * 20, "<&>", "\U0001F600", plistlib.UID(1), plistlib.UID(300)]
PKEYS = ["a", "key <&>", "caf\xe9"]


def pdict(seq):
    return dict(zip(PKEYS, seq))


class Bits:
    """A writer of property lists: objects in the order of 'layout', references and offsets of 'refsize' and 'offsize' bytes"""

    def __init__(self, value, refsize, offsize, layout, top_last, gap):
        self.objects = []
        self.value = value
        top = self.add(value)
        if top_last:                # the objects are numbered backwards
            n = len(self.objects)
            self.number = lambda k: n - 1 - k
        else:
            self.number = lambda k: k
        raw = [None] * len(self.objects)
        for k, o in enumerate(self.objects):
            raw[self.number(k)] = self.encode(o, refsize)
        order = list(range(len(raw)))
        if layout == "backwards":
            order.reverse()
        elif layout == "even first":
            order = order[::2] + order[1::2]
        out = b"bplist00"
        offsets = [0] * len(raw)
        table_first = layout == "table first"
        if table_first:
            out += b"\0" * (offsize * len(raw))
        for k in order:
            out += gap
            offsets[k] = len(out)
            out += raw[k]
        table = b"".join(o.to_bytes(offsize, "big") for o in offsets)
        place = 8
        if table_first:
            out = out[:8] + table + out[8 + len(table):]
        else:
            place = len(out)
            out += table
        self.data = out + b"\0" * 6 + struct.pack(">BBQQQ", offsize, refsize, len(raw), self.number(top), place)
        self.offsets, self.raw, self.top, self.place = offsets, raw, self.number(top), place

    def add(self, v):
        k = len(self.objects)
        self.objects.append(None)
        if isinstance(v, list):
            self.objects[k] = ("list", [self.add(x) for x in v])
        elif isinstance(v, dict):
            keys = [self.add(x) for x in v]
            self.objects[k] = ("dict", keys + [self.add(x) for x in v.values()])
        else:
            self.objects[k] = ("leaf", v)
        return k

    def encode(self, o, refsize):
        kind, v = o
        def count(mark, n):
            return bytes([mark << 4 | n]) if n < 15 else bytes([mark << 4 | 15]) + (b"\x10" + bytes([n]) if n < 256 else b"\x11" + struct.pack(">H", n))
        if kind == "list":
            return count(10, len(v)) + b"".join(self.number(x).to_bytes(refsize, "big") for x in v)
        if kind == "dict":
            return count(13, len(v) // 2) + b"".join(self.number(x).to_bytes(refsize, "big") for x in v)
        if v is True or v is False:
            return b"\x09" if v else b"\x08"
        if isinstance(v, plistlib.UID):
            n = (v.data.bit_length() + 7) // 8
            return bytes([0x80 | n - 1]) + v.data.to_bytes(n, "big")
        if isinstance(v, int):
            for k, n in enumerate((8, 16, 32)):
                if 0 <= v < 1 << n:
                    return bytes([0x10 | k]) + v.to_bytes(n // 8, "big")
            return b"\x13" + v.to_bytes(8, "big", signed=True)
        if isinstance(v, float):
            return b"\x23" + struct.pack(">d", v)
        if isinstance(v, datetime.datetime):
            return b"\x33" + struct.pack(">d", (v - UTC2001).total_seconds())
        if isinstance(v, bytes):
            return count(4, len(v)) + v
        try:
            return count(5, len(v)) + v.encode("ascii")
        except UnicodeError:
            raw = v.encode("utf-16-be")
            return count(6, len(raw) // 2) + raw


def plist_leaf(v):
    if isinstance(v, datetime.datetime):
        return (v - UTC2001).total_seconds()
    if isinstance(v, plistlib.UID):
        return v.data
    if v is True or v is False:
        return 9 if v else 8
    return v


def plist_value(ctx, what, f, w, k):
    kind, v = w.objects[k]
    n = w.number(k)
    if (f.name, f.absolute_address, f.size) != ("object[%s]" % n, w.offsets[n] * 8, len(w.raw[n]) * 8):
        ctx.report("%s: %s is at %s (%s bits) instead of %s (%s bits)" % (what, f.path, f.absolute_address, f.size, w.offsets[n] * 8, len(w.raw[n]) * 8))
        return
    contiguous(ctx, what, f, f.size, 0)
    if kind == "list":
        want = [w.number(x) for x in v]
        got = [x.value for x in f["value"].array("ref")] if v else []
    elif kind == "dict":
        h = len(v) // 2
        want = [[w.number(x) for x in v[:h]], [w.number(x) for x in v[h:]]]
        got = [[x.value for x in f["value"].array("keyref")], [x.value for x in f["value"].array("valref")]] if v else [[], []]
    else:
        got, want = f.value, plist_leaf(v)
        if want == b"":
            want = ""
    expect(ctx, "%s: %s" % (what, f.path), got, want)


LAYOUTS = ["in order", "backwards", "even first", "table first"]


def plist_trees(case, ctx):
    for n, v in enumerate(trees(PLEAVES, [1, "a"], [list, pdict], case["width"])):
        if n % case["of"] != case["n"]:
            continue
        every = list(itertools.product((1, 2, 4), (1, 2, 3, 4, 8), LAYOUTS, (False, True), (b"", b"\0\0\0")))
        every = every if n // case["of"] % 16 == 0 else [every[(n * 7) % len(every)], every[(n * 7 + 61) % len(every)]]
        for refsize, offsize, layout, top_last, gap in every:
            try:
                w = Bits(v, refsize, offsize, layout, top_last, gap)
            except OverflowError:       # (too large for offsets of this size)
                continue
            what = "property list %s, references of %s bytes, offsets of %s, %s%s%s" % (lib.short(v, 100), refsize, offsize, layout, ", numbered backwards" if top_last else "", ", gaps" if gap else "")
            if plistlib.loads(w.data) != v:
                raise lib.HarnessError("the writer of property lists: " + what)
            p = direct(ctx, w.data, BPList)         # (some of them look like MPEG frames)
            if True:
                t = p["trailer"]
                expect(ctx, what + ": trailer", (t.address, t["offsetIntSize"].value, t["objectRefSize"].value, t["numObjects"].value, t["topObject"].value, t["offsetTableOffset"].value),
                       ((len(w.data) - 32) * 8, offsize, refsize, len(w.raw), w.top, w.place))
                expect(ctx, what + ": offsets", [x.value for x in p["offset_table"].array("offset")], w.offsets)
                expect(ctx, what + ": place of the offsets", p["offset_table"].address, w.place * 8)
                for k in range(len(w.objects)):
                    plist_value(ctx, what, p["object[%s]" % w.number(k)], w, k)
                if has_uid(v):
                    continue
                try:
                    back = plistlib.loads(p.createXML().encode("utf-8"))
                except Exception as e:
                    back = "%s: %s" % (type(e).__name__, e)
                expect(ctx, what + ": as XML", back, v)


def has_uid(v):
    """(there is no XML for them)"""
    return isinstance(v, plistlib.UID) or isinstance(v, list) and any(map(has_uid, v)) or isinstance(v, dict) and any(map(has_uid, v.values()))


# --- compiled Python ---

MLEAVES = [None, True, False, ..., 0, 1, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 40, 2 ** 100 + 12345, -(2 ** 100), 1.5, -0.0, 1e300, 2j, 1.5 - 3j, b"", b"bytes\0\xff", "", "ascii", "caf\xe9 \u20ac", "x" * 300, "name"]


def pyc_trees(case, ctx):
    kinds = [tuple, list, lambda s: dict(zip((1, "k"), s)), lambda s: frozenset(s) if all(isinstance(x, (int, str, tuple)) for x in s) and len(s) < 2 else None]
    for n, v in enumerate(trees(MLEAVES, [1, "a"], kinds, case["width"])):
        if n % case["of"] != case["n"]:
            continue
        code = CODE.replace(co_consts=(v, "end"))
        for version in (0, 1, 2, 3, 4):
            body = marshal.dumps(code, version)
            data = MAGIC + b"\0\0\0\0" + struct.pack("<II", 1137000000, 4321) + body
            what = "compiled Python, constant %s, marshal format %s" % (lib.short(v, 100), version)
            p = pyc(ctx, what, data)
            expect(ctx, what + ": head", [p[x].value for x in ("magic_number", "use_hash", "checked", "timestamp", "filesize")], [struct.unpack("<H", MAGIC[:2])[0], False, False, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=1137000000), 4321])
            check_code(ctx, what, p["content"], code)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, frozenset):
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return repr(a) == repr(b)


MAGIC = __import__("importlib.util").util.MAGIC_NUMBER


def source(a, *b, c=1):
    return [a, b, c]


CODE = source.__code__


def pyc(ctx, what, data):
    p = direct(ctx, data, PythonCompiledFile)
    contiguous(ctx, what, p, len(data) * 8, 20)
    return p


def check_code(ctx, what, f, code):
    names = ["arg_count", "posonlyargcount", "kwonlyargcount", "stack_size", "flags", "firstlineno"]
    expect(ctx, what + ": numbers", [get(f, n) for n in names], [code.co_argcount, code.co_posonlyargcount, code.co_kwonlyargcount, code.co_stacksize, code.co_flags, code.co_firstlineno])
    for n, v in (("compiled_code", code.co_code), ("names", code.co_names), ("filename", code.co_filename), ("name", code.co_name), ("qualname", code.co_qualname), ("linetable", code.co_linetable), ("exceptiontable", code.co_exceptiontable)):
        got = get(f, n)
        if n == "compiled_code":
            got, v = len(got), len(v)     # (specialized instructions)
        if not same(got, v):
            ctx.report("%s: %s is %s, expected %s" % (what, n, lib.short(got, 120), lib.short(v, 120)))
    got = f["consts"].value
    if not same(got, code.co_consts):
        ctx.report("%s: constants %s, expected %s" % (what, lib.short(got, 120), lib.short(code.co_consts, 120)))


def main():
    c = lib.Check("A07", "model_checking",
                  "all trees of values up to a depth and width over leaves of all kinds and lengths, written in each format (own writers; plistlib and marshal as oracles): every field at its place, every value, the metadata",
                  bounds={"trees": "leaves; containers of 2 leaves; containers of 2 containers of 2 (thorough: 3)", "torrent leaves": len(BLEAVES), "ASN.1 leaves": len(ALEAVES), "property list leaves": len(PLEAVES), "Python leaves": len(MLEAVES)})
    width, of = (2, 32) if c.quick else (3, 1024)
    cases = [dict(n=n, of=of, width=width) for n in range(of)]
    c.domain("torrents", cases, torrent_trees)
    c.domain("torrent metadata", [dict()], torrent_meta)
    c.domain("ASN.1", cases, asn1_trees)
    c.domain("property lists", cases, plist_trees)
    c.domain("compiled Python", cases, pyc_trees)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
