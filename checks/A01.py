"""A01: archives written by the standard library (zip, tar, gzip) and by hand (ar) show their members: places, names, sizes, checksums, dates, contents and metadata."""
import datetime, gzip, io, itertools, os, struct, sys, tarfile, time, zipfile, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from hachoir.core import config
from hachoir.metadata import extractMetadata
from hachoir.parser import guessParser
from hachoir.parser.archive import ArchiveFile, GzipParser, TarFile, ZipFile
from hachoir.stream import StringInputStream
from hachoir.stream.input import NullStreamError

config.quiet = True
# Dates of 32 bits have a documented end in 2038
formats.ALLOW.append(("gzip", "mtime", "timestampUNIX|isoformat"))


def opened(data, cls=None, tags=()):
    s = StringInputStream(data, source="file:x", tags=list(tags))
    # (parsers which don't know the file may complain)
    on, formats.STRICT["on"] = formats.STRICT["on"], False
    try:
        return guessParser(s) if cls is None else cls(s, validate=True)
    finally:
        formats.STRICT["on"] = on


def content(field):
    out = b""
    try:
        s = field.getSubIStream()
        while s.sizeGe(len(out) * 8 + 8):
            n = 1
            while s.sizeGe((len(out) + n * 2) * 8):
                n *= 2
            out += s.readBytes(len(out) * 8, n)
    except NullStreamError:
        pass
    return out


def contiguous(ctx, what, p, size):
    pos = 0
    for f in p:
        if f.address != pos:
            ctx.report("%s: %s is at %s, expected %s" % (what, f.name, f.address, pos))
            return
        pos += f.size
    if pos != size * 8:
        ctx.report("%s: the fields end at bit %s of %s" % (what, pos, size * 8))


def expect(ctx, what, got, want):
    if got != want:
        ctx.report("%s: %s, expected %s" % (what, lib.short(got, 150), lib.short(want, 150)))


def plain(meta, key):
    return meta.get(key) if meta.has(key) else None


def known(date):
    """The metadata have no dates after 2030"""
    return date if date.year <= 2030 else None


# ---- zip --------------------------------------------------------------------------------------

class Pipe(io.RawIOBase):
    """An output which cannot seek"""
    def __init__(self):
        self.data = bytearray()

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        self.data += b
        return len(b)


def nested():
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr(zipfile.ZipInfo("in", (2001, 2, 3, 4, 5, 6)), b"inside")
    return b.getvalue()


def nested_pipe():
    b = Pipe()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr(zipfile.ZipInfo("in", (2001, 2, 3, 4, 5, 6)), b"inside")
    return bytes(b.data)


CONTENTS = {"empty": b"", "one": b"a", "text": b"hello world\n" * 30, "binary": bytes(range(256)), "header": b"PK\3\4", "desc": b"xPK\7\x08y" * 2, "nested": nested(), "nested pipe": nested_pipe(),
            "central": b"PK\1\2" + b"\0" * 50}
METHODS = {"stored": zipfile.ZIP_STORED, "deflated": zipfile.ZIP_DEFLATED, "bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA}
NAMES = {0: "Stored", 8: "Deflate"}
ENTRIES = [(c, m) for c in sorted(CONTENTS) for m in ("stored", "deflated")] + [(c, m) for c in ("text", "empty") for m in ("bzip2", "lzma")]
DATES = [(1980, 1, 1, 0, 0, 0), (2024, 2, 29, 23, 59, 58), (2107, 12, 31, 12, 34, 56), (1999, 12, 31, 1, 2, 4)]


def zips(case, ctx):
    formats.listen(ctx, 'zip', not case.get("junk"))
    firsts = [ENTRIES[case["first"]]] if case["n"] else []
    for rest in itertools.product(ENTRIES, repeat=max(0, case["n"] - 1)):
        zip_one(ctx, [dict(content=c, method=m, name="f%s" % k, date=DATES[k % 4]) for k, (c, m) in enumerate(firsts + list(rest))], case["pipe"], case.get("comment", ""), case.get("junk", 0))


def names(case, ctx):
    """Names, dates, comments, extra fields"""
    for k, e in enumerate(case["entries"]):
        zip_one(ctx, [e, dict(content="one", method="stored", name="last", date=DATES[1])], case["pipe"], e.get("archive", ""), 0)


def zip_one(ctx, entries, pipe, comment, junk):
    what = "zip%s of %s" % (" written to a pipe" if pipe else "", entries)
    if comment:
        what += " with comment %r" % comment
    out = Pipe() if pipe else io.BytesIO()
    infos = []
    with zipfile.ZipFile(out, "w") as z:
        for e in entries:
            i = zipfile.ZipInfo(e["name"], tuple(e["date"]))
            i.compress_type = METHODS[e["method"]]
            i.comment = e.get("comment", "").encode()
            i.extra = e.get("extra", "").encode("latin-1")
            i.external_attr = 0o644 << 16
            z.writestr(i, CONTENTS[e["content"]])
            infos.append(i)
        z.comment = comment.encode("latin-1")
        start = z.start_dir
    data = bytes(out.data) if pipe else out.getvalue()
    total = len(data)
    data += b"junk PK\5\6 and so on" * junk
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", data)
    p = opened(data, ZipFile)
    fields = [f.name for f in p]
    want = []
    for k in range(len(entries)):
        want += ["header[]", "file[%s]" % k]
    for k in range(len(entries)):
        want += ["header[]", "central_directory[%s]" % k]
    want += ["header[]", "end_central_directory"]
    want = [n.replace("[]", "[%s]" % (k // 2)) for k, n in enumerate(want)]
    if fields[:len(want)] != want or not junk and len(fields) > len(want):
        ctx.report("%s: fields %s, expected %s" % (what, fields, want))
        return
    if not junk:
        contiguous(ctx, what, p, total)
    expect(ctx, what + ": content size", p.content_size, total * 8)
    at = start
    for k, (e, i) in enumerate(zip(entries, infos)):
        plain_data = CONTENTS[e["content"]]
        w = "%s: file %s" % (what, k)
        f, c = p["file[%s]" % k], p["central_directory[%s]" % k]
        expect(ctx, w + " is at", f.absolute_address, (i.header_offset + 4) * 8)
        expect(ctx, w + ", entry of the directory is at", c.absolute_address, (at + 4) * 8)
        at += 46 + len(e["name"].encode()) + len(i.comment) + len(i.extra)
        for g in (f, c):
            expect(ctx, "%s: name in %s" % (w, g.name), g["filename"].value, e["name"])
            expect(ctx, "%s: date in %s" % (w, g.name), g["last_mod"].value, datetime.datetime(*e["date"]))
            expect(ctx, "%s: method in %s" % (w, g.name), g["compression"].value, i.compress_type)
            expect(ctx, "%s: extra in %s" % (w, g.name), "".join(x["field_data"].value.decode("latin-1") if "field_data" in x else "" for x in g["extra"].array("extra")) if "extra" in g else "",
                   e.get("extra", "")[4:])
            if e.get("extra"):
                kind = struct.unpack("<H", e["extra"][:2].encode("latin-1"))[0]
                if kind in EXTRA_KINDS:
                    expect(ctx, "%s: kind of the extra field in %s" % (w, g.name), g["extra"]["extra[0]/field_id"].display, EXTRA_KINDS[kind])
        expect(ctx, w + ": comment", c["comment"].value if "comment" in c else "", e.get("comment", ""))
        if at < total and k + 1 < len(entries) and p["central_directory[%s]" % (k + 1)].absolute_address != (at + 4) * 8:
            ctx.report(w + ": the next entry is elsewhere")
        for key, v in (("crc32", zlib.crc32(plain_data)), ("compressed_size", i.compress_size), ("uncompressed_size", len(plain_data)), ("offset_header", i.header_offset)):
            expect(ctx, "%s: %s" % (w, key), c[key].value, v)
        if pipe:
            d = f["data_desc"]
            sizes = d["file_crc32"].value, d["file_compressed_size"].value, d["file_uncompressed_size"].value
        else:
            sizes = f["crc32"].value, f["compressed_size"].value, f["uncompressed_size"].value
        expect(ctx, w + ": CRC and sizes", sizes, (zlib.crc32(plain_data), i.compress_size, len(plain_data)))
        name = "data" if e["method"] == "stored" else "compressed_data"
        raw = data[i.header_offset + 30 + len(e["name"].encode()) + len(i.extra):][:i.compress_size]
        if i.compress_size:
            expect(ctx, w + ": compressed data", (f[name].size, f[name].value), (len(raw) * 8, raw))
            expect(ctx, w + ": content", content(f[name]), plain_data if e["method"] in ("stored", "deflated") else raw)
        elif name in f:
            ctx.report("%s: has data" % w)
    end = p["end_central_directory"]
    expect(ctx, what + ": end", (end["total_number_disk"].value, end["total_number_disk2"].value, end["offset"].value, end["comment"].value), (len(entries), len(entries), start, comment))
    m = extractMetadata(p, 1.0)
    expect(ctx, what + ": comment in the metadata", plain(m, "comment"), comment or None)
    groups = [g for g in m.iterGroups()]
    expect(ctx, what + ": files in the metadata", [(plain(g, "filename"), plain(g, "file_size"), plain(g, "compr_size"), plain(g, "creation_date")) for g in groups],
           [(e["name"], len(CONTENTS[e["content"]]), i.compress_size or None, known(datetime.datetime(*e["date"]))) for e, i in zip(entries, infos)])


# ---- tar --------------------------------------------------------------------------------------

SIZES = [0, 1, 511, 512, 513, 1500]
KINDS = [(tarfile.REGTYPE, "Normal disk file"), (tarfile.AREGTYPE, "Normal disk file (old format)"), (tarfile.LNKTYPE, "Link to previously dumped file"), (tarfile.SYMTYPE, "Symbolic link"),
         (tarfile.CHRTYPE, "Character special file"), (tarfile.BLKTYPE, "Block special file"), (tarfile.DIRTYPE, "Directory"), (tarfile.FIFOTYPE, "FIFO special file"), (tarfile.CONTTYPE, "Contiguous file")]
FORMATS = {"ustar": tarfile.USTAR_FORMAT, "gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}


def members():
    out = [dict(kind=0, size=s) for s in SIZES]
    out += [dict(kind=k, size=0 if k not in (1, 8) else 7) for k in range(1, len(KINDS))]
    out += [dict(kind=0, size=3, name="n" * 99), dict(kind=0, size=3, name="n" * 100), dict(kind=0, size=5, mode=0o4755, uid=1000, gid=65534, uname="haypo", gname="wheel", mtime=1234567890),
            dict(kind=0, size=2, name="dir with blanks/e t c", uid=0o7777777, gid=0o7777777, mtime=0o17777777777), dict(kind=0, size=1, mtime=0), dict(kind=3, size=0, lname="l" * 100)]
    return out


def attributes(mode):
    """as ls shows them"""
    out = []
    for k in range(3):
        bits = mode >> (6 - 3 * k)
        x = "x" if bits & 1 else "-"
        special = mode >> (11 - k) & 1
        if special:
            x = ("s", "s", "t")[k] if bits & 1 else ("S", "S", "T")[k]
        out.append(("r" if bits & 4 else "-") + ("w" if bits & 2 else "-") + x)
    return "".join(out)


def tars(case, ctx):
    formats.listen(ctx, 'tar', not case.get("junk"))
    all_members = members()
    for rest in itertools.product(all_members, repeat=case["n"] - 1):
        for fmt in case["formats"]:
            tar_one(ctx, fmt, [all_members[case["first"]]] + list(rest), case.get("junk", 0))


def tar_one(ctx, fmt, entries, junk):
    what = "%s archive of %s" % (fmt, entries)
    b = io.BytesIO()
    t = tarfile.open(fileobj=b, mode="w", format=FORMATS[fmt])
    infos, places = [], []
    for k, e in enumerate(entries):
        i = tarfile.TarInfo(e.get("name", "f%s" % k))
        i.type = KINDS[e["kind"]][0]
        i.size = e["size"]
        i.mode = e.get("mode", 0o644)
        i.uid, i.gid, i.uname, i.gname, i.mtime = e.get("uid", 0), e.get("gid", 0), e.get("uname", ""), e.get("gname", ""), e.get("mtime", 1000 + k)
        if i.type in (tarfile.LNKTYPE, tarfile.SYMTYPE):
            i.linkname = e.get("lname", "target")
        if i.type in (tarfile.CHRTYPE, tarfile.BLKTYPE):
            i.devmajor, i.devminor = 8, 300
        at = t.offset
        t.addfile(i, io.BytesIO(bytes((k + j) & 255 for j in range(e["size"]))))
        places.append((at, t.offset))
        infos.append(i)
    last = t.offset
    t.close()
    data = b.getvalue() + b"junk" * junk
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", (fmt, str(entries)))
    p = opened(data)
    if not isinstance(p, TarFile):
        ctx.report("%s: parsed by %s" % (what, p))
        return
    fields = [f.name for f in p]
    expect(ctx, what + ": fields", fields, ["file[%s]" % k for k in range(len(entries))] + ["terminator", "end"])
    contiguous(ctx, what, p, len(data))
    expect(ctx, what + ": content size", p.content_size, (last + 512) * 8)
    meta = extractMetadata(p, 1.0)
    groups = list(meta.iterGroups())
    expect(ctx, what + ": files in the metadata", len(groups), len(entries))
    for k, (i, (at, end), e, g) in enumerate(zip(infos, places, entries, groups)):
        w = "%s: file %s" % (what, k)
        f = p["file[%s]" % k]
        kind = KINDS[e["kind"]][1]
        name = i.name + "/" if i.type == tarfile.DIRTYPE else i.name
        expect(ctx, w + ": place", (f.absolute_address, f.size), (at * 8, (end - at) * 8))
        expect(ctx, w + ": name", f["name"].value, name)
        expect(ctx, w + ": numbers", [f.getOctal(n) for n in ("mode", "uid", "gid", "size", "mtime")], [i.mode, i.uid, i.gid, i.size, i.mtime])
        expect(ctx, w + ": texts", [f[n].value for n in ("lname", "uname", "gname")], [i.linkname, i.uname, i.gname])
        expect(ctx, w + ": type", f["type"].display, kind)
        head = data[at:at + 512]
        expect(ctx, w + ": check sum", f.getOctal("check_sum"), sum(head[:148]) + 8 * 32 + sum(head[156:]))
        expect(ctx, w + ": device", (f.getOctal("devmajor"), f.getOctal("devminor")), (i.devmajor, i.devminor))
        if e["size"]:
            expect(ctx, w + ": content", content(f["content"]), bytes((k + j) & 255 for j in range(e["size"])))
        elif "content" in f:
            ctx.report("%s: has a content" % w)
        want = (name, attributes(i.mode) + " (%o)" % i.mode, i.size, kind, known(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=i.mtime)) if i.mtime else None)
        got = tuple(plain(g, n) for n in ("filename", "file_attr", "file_size", "file_type", "last_modification"))
        if got[1] and got[1].startswith("-") and len(got[1].split()[0]) == 10:
            got = got[:1] + (got[1][1:],) + got[2:]
        expect(ctx, w + ": metadata", got, want)


# ---- gzip -------------------------------------------------------------------------------------

def zip_flags(case, ctx):
    """All flags (but those of encryption and descriptors) with all methods"""
    names = ["enhanced_deflate", "is_patched", "strong_encrypt", None, "uses_unicode", "incomplete", "encrypted_central_dir", None]
    for method in list(range(15)) + [18, 19, 98]:
        for bits in range(1 << 8):
            flags = (bits & 3) << 1 | (bits >> 2 & 7) << 4 | (bits >> 5) << 11
            body = b"0123456789"
            part = struct.pack("<HHHHHIIIHH", 20, flags, method, 0x6083, 0x3A21, 77, len(body), 50, 4, 0)
            data = b"PK\3\4" + part + b"name" + body
            start = len(data)
            data += b"PK\1\2" + struct.pack("<BB", 20, 3) + part[:-4] + struct.pack("<HHHHHII", 4, 0, 0, 0, 0, 0, 0) + b"name"
            data += b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, 1, 1, len(data) - start, start, 0)
            p = opened(data)
            ctx.count("transitions")
            if not isinstance(p, ZipFile):
                ctx.report("zip of method %s, flags %x: parsed by %s" % (method, flags, p))
                return
            for g in (p["file[0]"], p["central_directory[0]"]):
                what = "zip of method %s, flags %x: %s" % (method, flags, g.name)
                f = g["flags"]
                expect(ctx, what, (g["compression"].value, f.size, f["is_encrypted"].value, f["has_descriptor"].value), (method, 16, False, False))
                if method == 6:
                    got = f["use_8k_sliding"].value + 2 * f["use_3shannon"].value
                elif method in (8, 9):
                    got = f["method"].value
                    expect(ctx, what + ": level", f["method"].display, ["Normal", "Maximum", "Fast", "Super Fast"][got] + " compression")
                elif method == 14:
                    got = f["lzma_eos"].value + 2 * (flags >> 2 & 1)
                else:
                    got = f["compression_info"].value
                expect(ctx, what + ": flags of the method", got, flags >> 1 & 3)
                for k, n in enumerate(names):
                    at = (4, 5, 6, 0, 11, 12, 13, 0)[k]
                    if n:
                        expect(ctx, "%s: %s" % (what, n), f[n].value, bool(flags >> at & 1))
        ctx.count("traces")
        ctx.seen("states", method)


ZIP_SYSTEMS = ["FAT file system (DOS, OS/2, NT)", "Amiga", "VMS (VAX or Alpha AXP)", "Unix", "VM/CMS", "Atari", "HPFS file system (OS/2, NT 3.x)", "Macintosh", "Z-System", "CP/M", "TOPS-20", "NTFS file system (NT)", "SMS/QDOS",
           "Acorn RISC OS", "VFAT file system (Win95, NT)", "MVS", "BeOS (BeBox or PowerMac)", "Tandem"]


def zip_versions(case, ctx):
    """All versions and systems, at each place"""
    formats.listen(ctx, "zip", True)
    for version in range(256):
        for system in range(20):
            for where in range(3):
                pair = [struct.pack("<BB", version, system) if where == k else struct.pack("<BB", 10, 0) for k in range(3)]
                part = struct.pack("<HHHHIIIHH", 0, 0, 0x6083, 0x3A21, 77, 4, 4, 1, 0)
                data = b"PK\3\4" + pair[0] + part + b"nBODY"
                start = len(data)
                data += b"PK\1\2" + pair[1] + pair[2] + part + struct.pack("<HHHII", 0, 0, 0, 0, 0) + b"n"
                data += b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, 1, 1, len(data) - start, start, 0)
                p = opened(data, ZipFile)
                ctx.count("transitions")
                for k, path in enumerate(("file[0]/version_needed", "central_directory[0]/version_made_by", "central_directory[0]/version_needed")):
                    f = p[path]
                    v, s = (version, system) if k == where else (10, 0)
                    expect(ctx, "zip of version %s, system %s in place %s: %s" % (version, system, where, path), (f["zip_version"].value, f["zip_version"].display, f["host_os"].value, f["host_os"].display, f.size),
                           (v, "%s.%s" % divmod(v, 10), s, ZIP_SYSTEMS[s] if s < 18 else str(s), 16))
    ctx.count("traces")


def gzips(case, ctx):
    formats.listen(ctx, 'gzip', not case.get("junk"))
    for flags in range(32):
        for name in ("empty", "one", "text", "binary"):
            for level in (0, 1, 6, 9):
                for tag in (None, "file.txt.gz", "other"):
                    gzip_one(ctx, flags, name, level, tag, case["os"], case["mtime"])


EXTRA_KINDS = {0x0007: "AV Info", 0x0009: "OS/2 extended attributes (also Info-ZIP)", 0x000a: "PKWARE Win95/WinNT FileTimes", 0x000c: "PKWARE VAX/VMS (also Info-ZIP)", 0x000d: "PKWARE Unix", 0x000f: "Patch Descriptor",
               0x4453: "Windows NT security descriptor (binary ACL)", 0x4704: "VM/CMS", 0x470f: "MVS", 0x4c41: "OS/2 access control list (text ACL)", 0x4d49: "Info-ZIP VMS (VAX or Alpha)", 0x5356: "AOS/VS (binary ACL)",
               0x5455: "extended timestamp", 0x5855: "Info-ZIP Unix (original; also OS/2, NT, etc.)", 0x6542: "BeOS (BeBox, PowerMac, etc.)", 0x756e: "ASi Unix", 0x7855: "Info-ZIP Unix (new)", 0xfb4a: "SMS/QDOS"}
SYSTEMS = {0: "FAT filesystem", 1: "Amiga", 2: "VMS (or OpenVMS)", 3: "Unix", 4: "VM/CMS", 5: "Atari TOS", 6: "HPFS filesystem (OS/2, NT)", 7: "Macintosh", 8: "Z-System", 9: "CP/M", 10: "TOPS-20", 11: "NTFS filesystem (NT)",
           12: "QDOS", 13: "Acorn RISCOS"}


def gzip_one(ctx, flags, name, level, tag, system, mtime):
    what = "gzip of %s, level %s, flags %s, system %s, time %s, file %s" % (name, level, flags, system, mtime, tag)
    plain_data = CONTENTS[name]
    z = zlib.compressobj(level, zlib.DEFLATED, -15)
    raw = z.compress(plain_data) + z.flush()
    head = struct.pack("<BBBBIBB", 0x1f, 0x8b, 8, flags, mtime, {9: 2, 1: 4}.get(level, 0), system)
    if flags & 4:
        head += struct.pack("<H", 9) + b"ab\5\0extra"
    if flags & 8:
        head += "na\xefve.txt".encode("latin-1") + b"\0"
    if flags & 16:
        head += b"some comment\0"
    if flags & 2:
        head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
    data = head + raw + struct.pack("<II", zlib.crc32(plain_data), len(plain_data))
    if gzip.decompress(data) != plain_data:
        raise lib.HarnessError(what)
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", data)
    p = opened(data, tags=[("filename", tag)] if tag else [])
    if not isinstance(p, GzipParser):
        ctx.report("%s: parsed by %s" % (what, p))
        return
    contiguous(ctx, what, p, len(data))
    expect(ctx, what + ": flags", [p[n].value for n in ("is_text", "has_crc16", "has_extra", "has_filename", "has_comment", "slowest", "fastest")],
           [bool(flags >> k & 1) for k in range(5)] + [level == 9, level == 1])
    expect(ctx, what + ": fields", [p[n].value if n in p else None for n in ("extra", "filename", "comment", "hdr_crc16")],
           [b"ab\5\0extra" if flags & 4 else None, "na\xefve.txt" if flags & 8 else None, "some comment" if flags & 16 else None,
            struct.unpack("<H", head[-2:])[0] if flags & 2 else None])
    expect(ctx, what + ": footer", (p["crc32"].value, p["size"].value), (zlib.crc32(plain_data), len(plain_data)))
    if system in SYSTEMS:
        expect(ctx, what + ": system", p["os"].display, SYSTEMS[system])
    d = p.description
    for shown, there in (("na\xefve.txt", flags & 8), (p["size"].display, True), (p["mtime"].display, True)):
        if (shown in d) != bool(there):
            ctx.report("%s: description %s" % (what, d))
    f = p["file"]
    expect(ctx, what + ": data", (f.address, f.value), (len(head) * 8, raw))
    expect(ctx, what + ": content", content(f), plain_data)
    names = [v for k, v in f.getSubIStream().tags if k == "filename"] if plain_data else ["na\xefve.txt"] if flags & 8 else ["file.txt"] if tag == "file.txt.gz" else []
    expect(ctx, what + ": name of the content", names, ["na\xefve.txt"] if flags & 8 else ["file.txt"] if tag == "file.txt.gz" else [])
    m = extractMetadata(p, 1.0)
    expect(ctx, what + ": metadata", [plain(m, n) for n in ("filename", "comment", "compr_size", "file_size")],
           ["na\xefve.txt" if flags & 8 else None, "some comment" if flags & 16 else None, len(raw), len(plain_data)])
    if mtime:
        expect(ctx, what + ": date", plain(m, "last_modification"), known(datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=mtime)))


# ---- ar ---------------------------------------------------------------------------------------

def ars(case, ctx):
    formats.listen(ctx, 'ar', not case.get("junk"))
    kinds = [("a.o/", b""), ("b.o/", b"x"), ("/", b"\0\0\0\0"), ("//", b"long name.o/\n"), ("/0", b"\n\nab"), ("debian-binary", b"2.0\n"), ("c/", bytes(range(101)))]
    for seq in itertools.product(kinds, repeat=case["n"]):
        data, want, pos = b"!<arch>\n", [("id", 0, b"!<arch>\n")], 8
        for name, body in seq:
            head = ("%-16s%-12s%-6s%-6s%-8s%-10s`\n" % (name, 1234567890, 0, 1000, 100644, len(body))).encode()
            want.append(("file", pos, body))
            pos += 60 + len(body)
            data += head + body
            if pos % 2:
                want.append(("empty_line", pos, b"\n"))
                data += b"\n"
                pos += 1
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", data)
        what = "ar archive of %s" % (seq,)
        p = opened(data, ArchiveFile)
        contiguous(ctx, what, p, len(data))
        got = []
        for f in p:
            if f.name.startswith("file"):
                got.append(("file", f.address // 8, f["content"].value if "content" in f else b""))
            else:
                got.append((f.name.split("[")[0], f.address // 8, f.value if f.name != "id" else f.value.encode()))
        expect(ctx, what, got, want)


def main():
    c = lib.Check("A01", "model_checking",
                  "all sequences of members (contents x methods; kinds, names and sizes of tar members; all gzip flags x levels; ar members), written by zipfile, tarfile, zlib: fields and their places, contents, "
                  "metadata",
                  bounds={"zip": "%s members, sequences of 2 (thorough 3), to a file and to a pipe" % len(ENTRIES), "tar": "%s members, sequences of 2, 3 formats" % len(members())})
    q = c.quick
    c.domain("zip", [{"n": n, "first": k, "pipe": p, "comment": m, "junk": j} for n in range(1, 3 if q else 4) for k in range(len(ENTRIES)) for p in (False, True) for m in ("", "hello") for j in (0, 1)
                     if n < 3 or (m == "" and j == 0) or (m, j) == ("hello", 1)], zips, batch=1, cpu_limit=600)
    extras = ["", "\x01\x00\x03\x00abc", "UT\x05\x00\x03abcd", "\x02\x00\x00\x00"]
    texts = ["a", "mimetype.txt", "d/e/f.txt", "\u00e9t\u00e9", "\u4e2d\u6587.txt", "n" * 200, "x y"]
    c.domain("zip names", [{"pipe": p, "entries": [dict(content=t, method=m, name=n, date=d, comment=k, extra=x, archive=a)]} for p in (False, True) for t, m in (("text", "deflated"), ("empty", "stored")) for n in texts
                           for d in DATES for k in ("", "note") for x in extras for a in ("", "archive comment")], names)
    count = len(members())
    c.domain("tar", [{"n": n, "first": k, "formats": sorted(FORMATS), "junk": j} for n in range(1, 3 if q else 4) for k in range(count) for j in (0, 1) if n < 3 or not j], tars, batch=1, cpu_limit=600)
    c.domain("zip flags", [{}], zip_flags)
    c.domain("zip versions", [{}], zip_versions)
    c.domain("zip extra fields", [{"pipe": p, "entries": [dict(content="text", method="stored", name="a.txt", date=(2001, 2, 3, 4, 5, 6), comment="", extra=struct.pack("<HH", k, 2).decode("latin-1") + "ab", archive="")]} for p in (False, True) for k in EXTRA_KINDS], names)
    c.domain("gzip", [{"os": s, "mtime": 5} for s in range(14)] + [{"os": s, "mtime": t} for s in (0, 3, 13, 255) for t in (0, 1, 10, 0x0A0A0A0A, 0x7FFFFFFF, 0xFFFFFFFF)], gzips, batch=1)
    c.domain("ar", [{"n": n} for n in range(1, 4 if q else 5)], ars, batch=1, cpu_limit=600)
    c.main()


if __name__ == "__main__":
    main()
