"""A21: 7-zip archives are shown as they were written: folders, coders, sizes, digests, files with their names, dates and attributes."""
import itertools, os, struct, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
import datetime
from mc.formats import contiguous, expect, get, listen, opened
from hachoir.parser.archive.sevenzip import NextHeaderParser, SevenZipParser
from hachoir.parser import guessParser


def num(n):
    """Number of 1 to 9 bytes"""
    for k in range(9):
        if n < 1 << 7 * (k + 1) or k == 8:
            break
    if k == 8:
        return b"\xff" + struct.pack("<Q", n)
    head = (0xFF00 >> k & 0xFF) | n >> 8 * k
    return bytes([head]) + struct.pack("<Q", n)[:k]


def bits(flags):
    b = bytearray((len(flags) + 7) // 8)
    for i, f in enumerate(flags):
        if f:
            b[i // 8] |= 0x80 >> i % 8
    return bytes(b)


def defined(flags, force=False):
    return b"\1" if all(flags) and not force else b"\0" + bits(flags)


class Tree:
    """Bytes with the values of the fields which show them"""

    def __init__(self):
        self.data, self.want = b"", {}

    def raw(self, b, **want):
        self.data += b
        self.want.update(want)
        return self

    def named(self, b, name, value):
        self.data += b
        self.want[name] = value
        return self

    def add(self, name, t):
        self.data += t.data
        self.want.update({name + "/" + k: v for k, v in t.want.items()})
        return self


def digests(flags, crcs, force=False):
    t = Tree().raw(b"\x0a", id=0x0A).raw(defined(flags, force))
    t.want["defined"] = [i for i, f in enumerate(flags) if f]
    k = 0
    for f, c in zip(flags, crcs):
        if f:
            t.named(struct.pack("<I", c), "digest[%d]" % k, c)
            k += 1
    t.want["digest[%d]" % k] = "no field"
    return t


NAMES = {b"\0": "Copy", b"\3\1\1": "7z-LZMA", b"\x21": "LZMA2", b"\3\3\1\3": "7z-Branch-x86-BCJ", b"\3\3\1\x1b": "7z-Branch-x86-BCJ2", b"\4\2\2": "BZip2", b"\6\xf1\7\1": "Crypto-7z", b"\3\4\1": "7z-PPMD", b"\4\1\x08": "Zip-Deflate", b"\3": "Delta"}
# coders: (method, properties, streams in, streams out); bind pairs; packed streams
COPY = (b"\0", None, 1, 1)
LZMA = (b"\3\1\1", b"\x5d\0\0\1\0", 1, 1)
FOLDERS = [
    ([COPY], [], [0]),
    ([LZMA], [], [0]),
    ([(b"\3\3\1\3", None, 1, 1), LZMA], [(0, 1)], [1]),
    ([(b"\3\3\1\x1b", None, 4, 1), LZMA, LZMA, (b"\x21", b"\x18", 1, 1)], [(0, 1), (1, 2), (2, 3)], [3, 4, 5, 6]),
    ([(b"\6\xf1\7\1", b"p" * 200, 1, 1), (b"\3", b"", 1, 1)], [(1, 0)], [0]),
]


def folder(f):
    coders, pairs, packed = f
    t = Tree().raw(num(len(coders)), num_coders=len(coders))
    for i, (method, props, n_in, n_out) in enumerate(coders):
        hard = n_in != 1 or n_out != 1
        c = Tree().raw(bytes([len(method) | 0x10 * hard | 0x20 * (props is not None)]), id_size=len(method), is_not_simple=hard, has_attribs=props is not None, is_not_last_method=False)
        c.raw(method, id=method)
        if hard:
            c.raw(num(n_in), num_stream_in=n_in).raw(num(n_out), num_stream_out=n_out)
        if props is not None:
            c.raw(num(len(props)), properties_size=len(props)).raw(props, properties=props or "no field")
        t.add("coders[%d]/coder[0]" % i, c)
    for i, (a, b) in enumerate(pairs):
        t.add("bind_pair[%d]" % i, Tree().raw(num(a), in_index=a).raw(num(b), out_index=b))
    if len(packed) > 1:
        for i, a in enumerate(packed):
            t.named(num(a), "pack_stream[%d]" % i, a)
    t.want["bind_pair[%d]" % len(pairs)] = "no field"
    return t


def streams(folders, crcs, counts=None, sub=None, pos=0, pack_crc=None, sizes=1000, ident=4, sub_crc=None, force=False, alt=0):
    """folders: indexes of FOLDERS; crcs: None or which folders have a digest; counts: number of files of each folder;
    sub_crc: which of the digests of files are defined"""
    t = Tree().raw(bytes([ident]), id=ident)
    n = sum(len(FOLDERS[k][2]) for k in folders)
    p = Tree().raw(b"\6", id=6).raw(num(pos), pack_pos=pos).raw(num(n), num_pack_streams=n)
    if n:
        p.raw(b"\x09", size_marker=9)
        for i in range(n):
            v = (sizes * (i + 1)) % (1 << 64)
            p.named(num(v), "pack_size[%d]" % i, v)
    if pack_crc is not None:
        p.add("digests", digests([pack_crc >> i & 1 for i in range(n)], [i * 0x1010101 for i in range(n)], force))
    t.add("pack_info", p.raw(b"\0", end_marker=0))
    if folders:
        u = Tree().raw(b"\7", id=7).raw(b"\x0b", folder_marker=0x0B).raw(num(len(folders)), num_folders=len(folders)).raw(b"\0", is_external=0)
        for i, k in enumerate(folders):
            u.add("folder[%d]" % i, folder(FOLDERS[k]))
        u.raw(b"\x0c", unpacksize_marker=0x0C)
        for i, k in enumerate(folders):
            for j in range(len(FOLDERS[k][0])):
                v = sizes * 3 + 10 * i + j
                u.named(num(v), "unpack_size[%d][%d]" % (i, j), v)
        if crcs is not None:
            u.add("digests", digests([crcs >> i & 1 for i in range(len(folders))], [i * 0x2020202 + 1 for i in range(len(folders))], force))
        else:
            u.want["digests"] = "no field"
        t.add("unpack_info", u.raw(b"\0", end_marker=0))
        if counts is not None:
            s = Tree().raw(b"\x08", id=8)
            if any(c != 1 for c in counts):
                s.raw(b"\x0d", num_unpackstream_marker=0x0D)
                for i, c in enumerate(counts):
                    s.named(num(c), "num_unpackstreams[%d]" % i, c)
            if any(c > 1 for c in counts):
                s.raw(b"\x09", size_marker=9)
                for i, c in enumerate(counts):
                    for j in range(c - 1):
                        v = 100 * i + 7 * j + sizes % 50
                        s.named(num(v), "unpack_size[%d][%d]" % (i, j), v)
            if sub_crc is not None:
                owners = ["folder %d, stream %d" % (i, j) for i, c in enumerate(counts) for j in range(c) if c != 1 or not (crcs or 0) >> i & 1]
                flags = [sub_crc >> i & 1 for i in range(len(owners))]
                if owners:
                    s.add("digests", digests(flags, [i * 0x3030303 + 2 for i in range(len(owners))], force))
                    t.want["DIGESTS"] = ["Digest for " + o for o, f in zip(owners, flags) if f]
            t.add("substreams_info", s.raw(b"\0", end_marker=0))
    return t.raw(b"\0", end=0)


EPOCH = datetime.datetime(1601, 1, 1)


def prop(ident, body):
    t = Tree().raw(bytes([ident]), id=ident).raw(num(len(body.data)), size=len(body.data))
    t.data += body.data
    t.want.update(body.want)
    return t


def times(flags, force):
    b = Tree().raw(defined(flags, force)).raw(b"\0", is_external=0)
    b.want["defined"] = [i for i, f in enumerate(flags) if f]
    for i, f in enumerate(flags):
        d = datetime.datetime(2020, 1, 2, 3, 4, 5 + i, 500000)
        n = int((d - EPOCH).total_seconds()) * 10**7 + 5000000
        b.named(struct.pack("<Q", n) if f else b"", "timestamp[%d]" % i, d if f else "no field")
    return b


ATTRS = ["read_only", "hidden", "system", None, "directory", "archive", "device", "normal", "temporary", "sparse_file", "reparse_file", "compressed", "offline", "dont_index_content", "encrypted"]


def attributes(flags, values, force):
    b = Tree().raw(defined(flags, force)).raw(b"\0", is_external=0)
    b.want["defined"] = [i for i, f in enumerate(flags) if f]
    for i, (f, v) in enumerate(zip(flags, values)):
        if f:
            b.add("attributes[%d]" % i, Tree().raw(struct.pack("<I", v), **{n: bool(v >> k & 1) for k, n in enumerate(ATTRS) if n}))
        else:
            b.want["attributes[%d]" % i] = "no field"
    return b


def files(names, parts, dummy=0):
    """parts: list of (name, tree)"""
    t = Tree().raw(b"\5", id=5).raw(num(len(names)), num_files=len(names))
    k = 0
    for name, part in parts:
        if dummy:
            t.add("dummy[%d]" % k, prop(0x19, Tree().raw(b"\0" * (dummy - 1), data=b"\0" * (dummy - 1) or "no field")))
            k += 1
        t.add(name, part)
    return t.raw(b"\0", end_marker=0)


def part_names(names):
    b = Tree().raw(b"\0", is_external=0)
    for i, n in enumerate(names):
        b.named((n + "\0").encode("utf-16-le"), "name[%d]" % i, n)
    return prop(0x11, b)


def archive(ctx, what, header, body, version=4, root="header", ident=1, tail=0):
    data = b"7z\xbc\xaf\x27\x1c\0" + bytes([version])
    start = struct.pack("<QQI", len(body), len(header.data), zlib.crc32(header.data))
    data += struct.pack("<I", zlib.crc32(start)) + start + body + header.data
    p = opened(ctx, data + b"\0" * tail, SevenZipParser)
    if not tail:
        contiguous(ctx, what, p, len(data) * 8, 8)
    want = {"signature/major_ver": 0, "signature/minor_ver": version, "signature/start_hdr_crc": zlib.crc32(start), "signature/start_hdr/next_hdr_offset": len(body), "signature/start_hdr/next_hdr_size": len(header.data),
            "signature/start_hdr/next_hdr_crc": zlib.crc32(header.data)}
    for k, v in want.items():
        if get(p, k) != v:
            ctx.report("%s: %s is %r, expected %r" % (what, k, get(p, k), v))
    expect(ctx, what + ": size of the archive", p.content_size, len(data) * 8)
    if header.data:
        values(ctx, what, p["next_hdr"], root, header)
    ctx.seen("states", what)
    return p


def values(ctx, what, p, root, t):
    for k, v in t.want.items():
        if k.endswith("DIGESTS"):
            path = root + "/" + k[:-7] + "substreams_info/digests"
            got = [f.description for f in p[path].array("digest")] if path in p else None
            expect(ctx, "%s: %s" % (what, path), got, v)
            continue
        got = get(p, root + "/" + k)
        if got != v:
            ctx.report("%s: %s is %s, expected %s" % (what, k, lib.short(got, 80), lib.short(v, 80)))
            return


def header(*parts):
    t = Tree().raw(b"\1", id=1)
    for name, part in parts:
        t.add(name, part)
    return t.raw(b"\0", end=0)


NUMBERS = sorted({0, 1} | {max(0, (1 << 7 * k) + d) for k in range(1, 10) for d in (-1, 0, 1) if (1 << 7 * k) + d < 1 << 64} | {(1 << 8 * k) - 1 for k in range(1, 9)} | {0x123456789ABCDEF0, 1 << 63})


def numbers(case, ctx):
    for n, m in itertools.product(NUMBERS, NUMBERS[::5]):
        h = header(("main_streams", streams([0, 1], 3, [1, 1], pos=n, sizes=m % (1 << 60))))
        archive(ctx, "7-zip archive with the position %s and the sizes %s" % (n, m), h, b"body")
    for v, tail, size in itertools.product((0, 2, 3, 4, 9), (0, 1, 40), (0, 1, 300)):
        archive(ctx, "7-zip archive of version %s, %s bytes, tail of %s" % (v, size, tail), header(("main_streams", streams([0], 1))), b"d" * size, version=v, tail=tail)
    for items in itertools.product((None, b"", b"x", b"y" * 130), repeat=case["n"]):
        props = Tree().raw(b"\2", id=2)
        k = 0
        for i, it in enumerate(items):
            if it is not None:
                props.add("prop[%d]" % k, prop(0x30 + i, Tree().raw(it, data=it or "no field")))
                k += 1
        props.raw(b"\0", end_marker=0)
        h = header(("props", props), ("additional_streams", streams([0], None, ident=3)), ("main_streams", streams([1], 1)))
        archive(ctx, "7-zip archive with the properties %s" % (items,), h, b"")


def folders(case, ctx):
    for n in range(1, case["n"] + 1):
        for ks in itertools.product(range(len(FOLDERS)), repeat=n):
            if ks[0] != case["first"]:
                continue
            for crcs, force, pack in itertools.product([None] + list(range(1 << n)), (False, True), (None, 0, 5)):
                h = header(("main_streams", streams(ks, crcs, None, pack_crc=pack, force=force)))
                p = archive(ctx, "7-zip folders %s, digests %s %s %s" % (ks, crcs, force, pack), h, b"body")
                if crcs is None and pack is None and not force:
                    for i, k in enumerate(ks):
                        for j, c in enumerate(FOLDERS[k][0]):
                            expect(ctx, "7-zip method %s" % (c,), p["next_hdr/header/main_streams/unpack_info/folder[%d]/coders[%d]/coder[0]/id" % (i, j)].display, NAMES[c[0]])


def substreams(case, ctx):
    n = case["n"]
    for counts in itertools.product(range(4), repeat=n):
        for crcs in [None] + list(range(1 << n)):
            total = sum(c for i, c in enumerate(counts) if c != 1 or not (crcs or 0) >> i & 1)
            for sub in [None] + sorted({0, 1, (1 << total) - 1, 0x155 & (1 << total) - 1, (1 << total) >> 1}):
                h = header(("main_streams", streams([(i * 2) % 5 for i in range(n)], crcs, counts, sub_crc=sub)))
                archive(ctx, "7-zip folders of %s files, digests %s, %s" % (counts, crcs, sub), h, b"body")


TEXTS = ["a.txt", "dir/b", "", "\u20ac\U0001f600", "x" * 70]


def filelists(case, ctx):
    n = case["n"]
    for empty in range(1 << n):
        for second, kind in itertools.product(range(1 << bin(empty).count("1")), ("empty_files", "anti_files")):
            names = [TEXTS[(i + empty) % 5] for i in range(n)]
            flags = [empty >> i & 1 for i in range(n)]
            which = [i for i in range(n) if flags[i]]
            parts = []
            if empty:
                t = prop(0x0E, Tree().raw(bits(flags), vec=which))
                t.want[""[:0] + "vec"] = which
                parts.append(("empty_streams", t))
                f2 = [second >> i & 1 for i in range(len(which))]
                if second:
                    t = prop(0x0F if kind == "empty_files" else 0x10, Tree().raw(bits(f2), vec=[i for i, f in enumerate(f2) if f]))
                    parts.append((kind, t))
            parts.append(("filenames", part_names(names)))
            h = header(("main_streams", streams([1], 1)), ("files_info", files(names, parts)))
            what = "7-zip files %s, %s %s" % (flags, kind, second)
            p = archive(ctx, what, h, b"body")
            if empty:
                expect(ctx, what + ": empty streams", get(p, "next_hdr/header/files_info/empty_streams"), which)
                if second:
                    expect(ctx, what + ": " + kind, get(p, "next_hdr/header/files_info/" + kind), [w for w, f in zip(which, f2) if f])


def fileprops(case, ctx):
    """Sets of properties of the files, in any order"""
    n = case["n"]
    kinds = {"creation_time": 0x12, "access_time": 0x13, "modified_time": 0x14}
    for order in itertools.permutations(["filenames", "creation_time", "access_time", "modified_time", "attributes"], case["k"]):
        for mask, force, dummy in itertools.product(range(1 << n) if n <= 3 else (0, 1, (1 << n) - 1, 0x155 & (1 << n) - 1), (False, True), (0, 1, 3)):
            parts = []
            for i, name in enumerate(order):
                flags = [(mask >> (j + i) % n) & 1 for j in range(n)]
                if name == "filenames":
                    parts.append((name, part_names([TEXTS[j % 5] for j in range(n)])))
                elif name == "attributes":
                    parts.append((name, prop(0x15, attributes(flags, [0x20 + j for j in range(n)], force))))
                else:
                    parts.append((name, prop(kinds[name], times(flags, force))))
            archive(ctx, "7-zip properties %s of %s files, %s %s %s" % (order, n, mask, force, dummy), header(("main_streams", streams([0], 1)), ("files_info", files([0] * n, parts, dummy))), b"body")


def attribs(case, ctx):
    for v in [1 << i for i in range(32)] + list(range(0x40)) + [0x81ED8020, 0xFFFFFFFF, 0x41ED8010]:
        p = archive(ctx, "7-zip attributes %08x" % v, header(("files_info", files([0, 0], [("attributes", prop(0x15, attributes([1, 1], [v, v ^ 0xFFFFFFFF], False)))]))), b"")
        order = ["directory", "read_only", "compressed", "hidden", "system", "normal", "device", "temporary", "archive"]
        names = [x for x in order if v >> ATTRS.index(x) & 1]
        text = ", ".join(names[:4] + ["..."] * (len(names) > 4)) or "(none)"
        expect(ctx, "7-zip attributes %08x: text" % v, get(p, "next_hdr/header/files_info/attributes/attributes[0]"), text)


def encoded(case, ctx):
    """Archives with a packed header"""
    inner = header(("main_streams", streams([1], 1)), ("files_info", files([0, 0], [("filenames", part_names(["a", "b"]))])))
    for pos, extra, method in itertools.product((0, 1, 100), (0, 1, 60), (b"\0", b"\3\1\1", b"\x21", b"\4\2\2", b"\x7e\x7e")):
        FOLDERS.append(([(method, b"\x5d\0\0\1\0" if method == b"\3\1\1" else None, 1, 1)], [], [0]))
        t = streams([len(FOLDERS) - 1], 1, None, pos=pos, sizes=len(inner.data), ident=0x17)
        FOLDERS.pop()
        what = "7-zip archive whose header is packed by %s after %s bytes, %s bytes behind" % (method, pos, extra)
        p = archive(ctx, what, t, b"d" * pos + inner.data + b"u" * extra, root="encoded_hdr")
        body = p["body_data"]
        expect(ctx, what + ": body", [(f.name, f.address // 8, f.size // 8) for f in body], [x for x in [("compressed_data", 0, pos), ("compressed_file_info", pos, len(inner.data)), ("unknown_data", pos + len(inner.data), extra)] if x[2]])
        expect(ctx, what + ": packed header", get(body, "compressed_file_info"), inner.data)
        if method == b"\0":
            s = guessParser(body["compressed_file_info"].getSubIStream())
            if expect(ctx, what + ": parser of the header", type(s), NextHeaderParser):
                values(ctx, what + ": packed header", s, "header", inner)
                contiguous(ctx, what, s, len(inner.data) * 8, 8)
    archive(ctx, "empty 7-zip archive", Tree(), b"")


if __name__ == "__main__":
    c = lib.Check("A21", "model_checking",
                  "all lengths of numbers, archive properties; sequences of folders of five shapes with all sets of digests; all numbers of files in the folders with sets of digests; all sets of empty streams, empty files and deletions; "
                  "ordered sets of properties of the files with all sets of defined dates and attributes, with fill; packed headers: place and value of each field, names and descriptions",
                  bounds={"folders": "up to 2 of 5 shapes (thorough: 3)", "files": "up to 5 (thorough: 9)", "files of a folder": "up to 3"})
    q = c.quick
    c.domain("numbers", [{"n": 2 if q else 4}], numbers)
    c.domain("folders", [{"n": 2 if q else 3, "first": k} for k in range(5)], folders, batch=1)
    c.domain("substreams", [{"n": n} for n in ((1, 2, 3) if q else (1, 2, 3, 4))], substreams, batch=1)
    c.domain("files", [{"n": n} for n in ((1, 2, 3, 4, 5) if q else range(1, 10))], filelists, batch=1)
    c.domain("properties", [{"n": n, "k": k} for n in ((1, 2, 3, 9) if q else (1, 2, 3, 7, 8, 9, 17)) for k in ((1, 2, 3) if q else (1, 2, 3, 4, 5))], fileprops, batch=1)
    c.domain("attributes", [{}], attribs)
    c.domain("packed headers", [{}], encoded)
    c.main()
