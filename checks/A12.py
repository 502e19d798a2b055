"""A12: archives (Cabinet, RPM, RAR, ARJ, Microsoft and Mozilla MAR, PAK, BOM) are shown as written: headers, members and their bytes, in whatever order."""
import bz2, datetime, gzip, itertools, os, struct, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import check_meta, contiguous, direct, expect, fields, get, groups, metadata, opened
from hachoir.parser import guessParser
from hachoir.parser.archive.arj import ArjParser
from hachoir.parser.archive.bomstore import BomFile
from hachoir.parser.archive.cab import CabFile
from hachoir.parser.archive.mar import MarFile
from hachoir.parser.archive.mozilla_ar import MozillaArchive
from hachoir.parser.archive.prs_pak import PRSPakFile
from hachoir.parser.archive.rar import RarFile
from hachoir.parser.archive.rpm import RpmFile
formats.ALLOW.append(("CabFile", "/folder_data", "add padding"))      # (the gap behind the last block)
formats.ALLOW.append(("MarFile", "^/$", "add padding"))      # (the gap before an empty member)


def content(n, seed):
    return bytes((seed * 37 + i * 7 + (i >> 8) * 13 + (i >> 6) * (i & 3)) & 255 for i in range(n))


DATES = [datetime.datetime(2006, 11, 4, 13, 14, 16), datetime.datetime(1980, 1, 1, 0, 0, 0), datetime.datetime(2029, 12, 31, 23, 59, 58)]


def dos(d):
    """(date, time) of MS-DOS"""
    return (d.year - 1980) << 9 | d.month << 5 | d.day, d.hour << 11 | d.minute << 5 | d.second // 2


# --- Cabinet ---

def mszip(data, history, style):
    """One block of MSZIP"""
    if style == 0:
        z = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_DEFAULT_STRATEGY, *((history[-32768:],) if history else ()))
        return b"CK" + z.compress(data) + z.flush()
    if style == 1:      # a block as it is, then a block of fixed codes
        z = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_FIXED)
        n = len(data) // 2
        return b"CK" + b"\0" + struct.pack("<HH", n, n ^ 0xFFFF) + data[:n] + z.compress(data[n:]) + z.flush()
    z = zlib.compressobj(6, zlib.DEFLATED, -15)
    out = b""
    for k in range(0, len(data), 50):
        out += z.compress(data[k:k + 50]) + z.flush(zlib.Z_FULL_FLUSH)
    return b"CK" + out + z.flush()


def cab(folders, fl=0, reserved=(0, 0, 0), gap=0, order=None, block=32768, junk=0):
    """folders: [(method, style, [(name, bytes, date, attributes)])]"""
    extra = b""
    if fl & 4:
        extra += struct.pack("<HBB", *reserved) + bytes(range(reserved[0]))
    if fl & 1:
        extra += b"before.cab\0disk 1\0"
    if fl & 2:
        extra += b"after.cab\0disk 3\0"
    fres = reserved[1] if fl & 4 else 0
    dres = reserved[2] if fl & 4 else 0
    files = b""
    raws, infos, all_files = [], [], []
    for k, (method, style, members) in enumerate(folders):
        plain = b""
        for name, data, date, attr in members:
            utf = any(ord(c) > 127 for c in name)
            files += struct.pack("<IIHHHH", len(data), len(plain), k, *dos(date), attr | (128 if utf else 0)) + name.encode("utf-8") + b"\0"
            all_files.append((name, data, date, attr, k, len(plain)))
            plain += data
        raw, n, blocks = b"", 0, []
        for at in range(0, len(plain), block):
            part = plain[at:at + block]
            packed = part if method == 0 else mszip(part, plain[:at], style) if method == 1 else content(len(part) // 2 + 1, at)
            blocks.append((packed, len(part)))
            raw += struct.pack("<IHH", 0x1234 + n, len(packed), len(part)) + b"R" * dres + packed
            n += 1
        raws.append(raw)
        infos.append(dict(method=method, plain=plain, blocks=blocks))
    head = 36 + len(extra)
    at = head + sum(8 + fres for f in folders) + len(files)
    places = {}
    tail = b""
    for k in order or range(len(folders)):
        tail += b"\0" * gap
        places[k] = at + len(tail)
        tail += raws[k]
    table = b""
    for k, (method, style, members) in enumerate(folders):
        table += struct.pack("<IHH", places[k], len(infos[k]["blocks"]), method if method < 2 else method | (18 - k) << 8) + b"F" * fres
        infos[k]["place"], infos[k]["size"] = places[k], len(raws[k])
    total = at + len(tail)
    h = b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, total, 0, head + len(table), 0, 3, 1, len(folders), len(all_files), fl, 77, 1 if fl & 1 else 0)
    return h + extra + table + files + tail, infos, all_files


ATTRS = ["readonly", "hidden", "system", None, None, "archive", "exec", "name_is_utf"]


def cab_one(ctx, what, folders, **kw):
    data, infos, files = cab(folders, **kw)
    fl, reserved = kw.get("fl", 0), kw.get("reserved", (0, 0, 0))
    p = opened(ctx, data, CabFile)
    p._feedAll()
    contiguous(ctx, what, p, len(data) * 8)
    fields(ctx, what, p, filesize=len(data), nb_folder=len(folders), nb_files=len(files), setid=77, minor_version=3, major_version=1, flags__has_previous=bool(fl & 1), flags__has_next=bool(fl & 2), flags__has_reserved=bool(fl & 4))
    expect(ctx, what + ": content size", p.content_size, len(data) * 8)
    if fl & 4:
        fields(ctx, what, p, reserved_header_size=reserved[0], reserved_folder_size=reserved[1], reserved_data_size=reserved[2], reserved_header=bytes(range(reserved[0])) if reserved[0] else "no field")
    for bit, n, texts in ((1, "previous", ("before.cab", "disk 1")), (2, "next", ("after.cab", "disk 3"))):
        expect(ctx, what + ": " + n, (get(p, n + "_cabinet"), get(p, n + "_disk")), texts if fl & bit else ("no field",) * 2)
    for k, i in enumerate(infos):
        f = p["folder[%s]" % k]
        fields(ctx, what, f, offset=i["place"], data_blocks=len(i["blocks"]), compr_method=i["method"], compr_level=18 - k if i["method"] > 1 else "no field", reserved_folder=b"F" * reserved[1] if fl & 4 and reserved[1] else "no field")
        name = "folder_data[%s]" % k
        if not i["blocks"]:
            continue
        d = p[name]
        expect(ctx, "%s: place of %s" % (what, name), d.address, i["place"] * 8)
        got = d.array("block")
        if not expect(ctx, what + ": blocks", len(got), len(i["blocks"])):
            continue
        for x, (packed, size) in zip(got, i["blocks"]):
            fields(ctx, what, x, size=len(packed), uncompressed_size=size, reserved_data=b"R" * reserved[2] if fl & 4 and reserved[2] else "no field")
            expect(ctx, what + ": size of a block", x.size, (8 + len(packed) + (reserved[2] if fl & 4 else 0)) * 8)
            key = {0: "data", 1: "mszip_signature", 2: "compr_data"}[i["method"]]
            expect(ctx, what + ": data of a block", get(x, key), packed if i["method"] != 1 else "CK")
        if i["method"] < 2 and i["plain"]:
            mine = [f for f in files if f[4] == k]
            sub = d.getSubIStream()
            expect(ctx, what + ": content of folder %s" % k, sub.readBytes(0, len(i["plain"])) if sub.size else b"", i["plain"])
            q = guessParser(sub)
            if q is None:
                ctx.report("%s: no parser of folder %s" % (what, k))
                continue
            here = [x for x in mine if x[1]]
            got = [f for f in q if f.name.startswith("file[")]
            expect(ctx, what + ": files of folder %s" % k, [(f.address // 8, f.value) for f in got if f.size], [(x[5], x[1]) for x in here])
    g = p.array("file")
    m = metadata(p)
    names = {"File \"%s\"" % x[0] for x in files}
    if expect(ctx, what + ": files", len(g), len(files)):
        for f, (name, d, date, attr, k, at) in zip(g, files):
            fields(ctx, what, f, filename=name, filesize=len(d), folder_offset=at, folder_index=k, timestamp=date)
            for b, n in enumerate(ATTRS):
                if n:
                    expect(ctx, "%s: %s of %s" % (what, n, name), f["attributes"][n].value, bool((attr | (128 if any(ord(c) > 127 for c in name) else 0)) >> b & 1))
            x = m["file[%s]" % f.name[5:-1]]
            check_meta(ctx, what + ": " + name, x, filename=name, file_size=len(d), creation_date=date)
    method = infos[0]["method"]
    check_meta(ctx, what, m, format_version="Microsoft Cabinet version 1.3", comment="%s folders, %s files" % (len(folders), len(files)),
               compression={0: "Uncompressed", 1: "Deflate", 2: "Quantum (level 18)"}[method])


def cabs(case, ctx):
    texts = [("a.txt", b"", DATES[0], 0), ("one", b"x", DATES[1], 32), ("dir\\b.bin", content(700, 1), DATES[2], 1), ("\xe9t\xe9.txt", content(300, 2) * 3, DATES[0], 2 | 4 | 64), ("zeros", bytes(1000), DATES[0], 0x27)]
    method, style = case["method"], case["style"]
    for k in range(1, case["n"] + 1):
        for seq in itertools.product(texts, repeat=k):
            for block in (32768, 400):
                cab_one(ctx, "cabinet of method %s.%s, files %s, blocks of %s" % (method, style, [t[0] for t in seq], block), [(method, style, seq)], block=block)
    # folders: all methods in every order, data in every order
    some = [(0, 0, [texts[2], texts[1]]), (1, 0, [texts[3], texts[0], texts[2]]), (2, 0, [texts[4]]), (1, 1, [texts[4], texts[3]])]
    for n in range(1, 4):
        for seq in itertools.product(some, repeat=n):
            if seq[0][:2] != (method, style):
                continue
            for order in itertools.permutations(range(n)):
                for gap in (0, 5):
                    cab_one(ctx, "cabinet of folders %s, data in order %s, gap %s" % ([s[:2] for s in seq], order, gap), list(seq), order=order, gap=gap)
    for fl in range(8):
        for reserved in itertools.product((0, 3), (0, 2), (0, 5)):
            if not fl & 4 and any(reserved):
                continue
            cab_one(ctx, "cabinet with flags %s, reserved %s" % (fl, reserved), [(method, style, texts[2:4]), (0, 0, texts[4:])], fl=fl, reserved=reserved)
    for attr in range(256):
        if attr & 0x98:
            continue
        cab_one(ctx, "cabinet, attributes %s" % attr, [(method, style, [("name", b"abc", DATES[attr % 3], attr)])])
    if method == 1:
        big = content(50000, 3) + content(41000, 3)
        cab_one(ctx, "cabinet with a large file, style %s" % style, [(1, style, [("big", big, DATES[0], 0), texts[3]])])


# --- RPM ---

RPM_TYPES = {1: ("C", 1), 2: ("B", 1), 3: (">H", 2), 4: (">I", 4), 5: (">Q", 8)}


def rpm_header(items, shuffle=False, region=False, reserve=0):
    """items: [(tag, type, values)]; bytes, [(tag, type, offset, count, values)]"""
    store = b""
    table = []
    seq = list(enumerate(items))
    if shuffle:
        seq = seq[::-1]
    for k, (tag, kind, values) in seq:
        if kind in RPM_TYPES:
            fmt, n = RPM_TYPES[kind]
            store += bytes(-len(store) % n)
            raw = b"".join(bytes([v]) if n == 1 else struct.pack(fmt, v) for v in values)
            count = len(values)
        elif kind == 7:
            raw, count = values, len(values)
        else:
            raw, count = b"".join(v.encode() + b"\0" for v in values), len(values)
        table.append((k, tag, kind, len(store), count, values))
        store += raw
    table.sort()
    if region:
        trailer = struct.pack(">IIiI", 63, 7, -16 * (len(items) + 1), 16)
        table.insert(0, (-1, 63, 7, len(store), 16, trailer))
        store += trailer
    store += bytes(reserve)
    out = b"\x8e\xad\xe8\1" + bytes(4) + struct.pack(">II", len(table), len(store)) + b"".join(struct.pack(">IIII", *t[1:5]) for t in table) + store
    return out, [t[1:] for t in table]


def rpm_check(ctx, what, f, raw, table, size):
    expect(ctx, what + ": size", f.size, len(raw) * 8)
    fields(ctx, what, f, signature=b"\x8e\xad\xe8", version=1, count=len(table), size=size)
    contiguous(ctx, what, f, f.size)
    base = 16 + 16 * len(table)
    for k, (tag, kind, offset, count, values) in enumerate(table):
        fields(ctx, what, f["item[%s]" % k], tag=tag, type=kind, offset=offset, count=count)
        c = f["content_item[%s]" % k]
        expect(ctx, "%s: place of item %s" % (what, k), c.address, (base + offset) * 8)
        got = c["value"].value if count == 1 or kind == 7 else [x.value for x in c.array("value")]
        want = values[0] if count == 1 and kind != 7 else values if kind == 7 else list(values)
        if kind == 1:
            want = chr(want) if count == 1 else [chr(v) for v in want]
        expect(ctx, "%s: values of item %s" % (what, k), got, want)


def rpms(case, ctx):
    choices = [(1000, 6, ["pkgname"]), (1003, 4, [7]), (1028, 4, [1, 2, 0xFFFFFFFF]), (1030, 3, [0o100644, 0o40755]), (1000, 2, [200]), (1000, 1, [65, 66, 67]), (1004, 9, ["Some summary"]), (1027, 8, ["/bin/a", "", "/etc/b"]), (1012, 7, b"GIF89a\0"), (1009, 5, [1 << 40]),
               (1001, 8, ["single"]), (1043, 7, b"z")]
    payload = {"gz": gzip.compress(b"cpio data", mtime=5), "bz2": bz2.compress(b"cpio data"), "": b""}
    n = 0
    for k in range(1, case["n"] + 1):
        for seq in itertools.permutations(range(len(choices)), k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            items = [choices[x] for x in seq]
            for shuffle, region, reserve in ((0, 1, 0), (0, 0, 0), (1, 0, 3), (1, 1, 16)):
                raw, table = rpm_header(items, shuffle, region, reserve)
                sraw, stable = rpm_header([(1000, 4, [len(raw)]), (1004, 7, content(16 + len(seq), 3))][:1 + (n + shuffle) % 2], False, region)
                pad = bytes(-len(sraw) % 8)
                kind = ("gz", "bz2", "")[(n + shuffle) % 3]
                name = "pkg-%s-1" % n
                lead = b"\xed\xab\xee\xdb" + struct.pack(">BBHH66sHH16x", 3, n & 1, n & 1, 1 + (n & 3), name.encode(), 1, 5)
                data = lead + sraw + pad + raw + payload[kind]
                what = "RPM of %s, %s" % ([(c[0], c[1], len(c[2])) for c in items], (shuffle, region, reserve))
                p = opened(ctx, data, RpmFile)
                p._feedAll()
                contiguous(ctx, what, p, len(data) * 8)
                fields(ctx, what, p, major_ver=3, minor_ver=n & 1, type=n & 1, architecture=1 + (n & 3), name=name, os=1, signature_type=5)
                expect(ctx, what + ": type", p["type"].display, ("Binary", "Source")[n & 1])
                rpm_check(ctx, what + ": signature", p["checksum"], sraw, stable, len(sraw) - 16 - 16 * len(stable))
                rpm_check(ctx, what + ": header", p["header"], raw, table, len(raw) - 16 - 16 * len(table))
                expect(ctx, what + ": place of the header", p["header"].address, (96 + len(sraw) + len(pad)) * 8)
                if kind:
                    f = p["content"]
                    expect(ctx, what + ": content", (f.size, f.value), (len(payload[kind]) * 8, payload[kind]))
                    q = guessParser(f.getSubIStream())
                    expect(ctx, what + ": parser of the content", type(q).__name__, {"gz": "GzipParser", "bz2": "Bzip2Parser"}[kind])
                else:
                    expect(ctx, what + ": content", "content" in p, False)


# --- RAR ---

FILE_BITS = ["continued_from", "continued_in", "is_encrypted", "has_comment", "is_solid", None, None, None, "is_large", "is_unicode", "has_salt", "uses_file_version", "has_ext_time", "has_ext_flags", "is_ignorable", "has_added_size"]


def rar_file(name, data, flags=0, os_=2, method=0x33, version=29, date=DATES[0], kind=0x74, high=0, ext=None, attr=0x20, plain=1000):
    d, t = dos(date)
    raw = name.encode("utf-8" if flags & 0x200 else "iso8859-15")
    h = struct.pack("<IIBIHHBBHI", len(data), plain, os_, 0xCAFE0000 + len(data), t, d, version, method, len(raw), attr)
    if flags & 0x100:
        h += struct.pack("<II", 0, high)
    h += raw
    if flags & 0x400:
        h += b"SALTsalt"
    if flags & 0x1000:
        h += ext[1]
    return struct.pack("<HBHH", 0x4444, kind, flags | 0x8000, 7 + len(h)) + h + data


def ext_time(modes):
    """The extended times: 4 modes (present, count of bytes)"""
    v = 0
    body = b""
    parts = []
    for k, (here, n) in enumerate(modes):
        v |= ((8 if here else 0) | n) << (12 - 4 * k)
        if here:
            if k:
                body += struct.pack("<HH", *dos(DATES[k % 3])[::-1])
                parts.append(DATES[k % 3])
            if n:
                body += bytes(range(k + 1, k + 1 + n))
                parts.append(bytes(range(k + 1, k + 1 + n)))
    return parts, struct.pack("<H", v) + body, v


MARK = b"Rar!\x1A\x07\x00"


def rar_start(flags=0):
    return struct.pack("<HBHH6x", 0x90CF, 0x73, flags, 13)


def rar_end(flags=0x4000):
    return b"\xC4\x3D" + struct.pack("<BHH", 0x7B, flags, 7)


def check_rar_file(ctx, what, f, name, data, flags=0, os_=2, method=0x33, version=29, date=DATES[0], kind=0x74, high=0, ext=None, attr=0x20, plain=1000):
    fields(ctx, what, f, block_type=kind, compressed_size=len(data), uncompressed_size=plain, host_os=os_, crc32=0xCAFE0000 + len(data), ftime=date, version=version, method=method, filename=name, compressed_data=data or "no field")
    for b, n in enumerate(FILE_BITS):
        if n:
            expect(ctx, "%s: %s" % (what, n), f["flags"][n].value, bool((flags | 0x8000) >> b & 1))
    expect(ctx, what + ": dictionary", f["flags/dictionary_size"].value, flags >> 5 & 7)
    if kind == 0x74 and flags & 0x400:
        expect(ctx, what + ": salt", f["salt"].value, b"SALTsalt")
    if kind == 0x74 and flags & 0x1000:
        x = f["extra_time"]
        expect(ctx, what + ": times", (x["time_flags"].value, [y.value for y in x if y.name != "time_flags"]), (ext[2], ext[0]))
    expect(ctx, what + ": texts", (f["host_os"].display, f["version"].display, f["method"].display), ({0: "MS DOS", 1: "OS/2", 2: "Win32", 3: "Unix"}[os_], "%s.%s" % divmod(version, 10),
           {0x30: "Storing", 0x31: "Fastest compression", 0x32: "Fast compression", 0x33: "Normal compression", 0x34: "Good compression", 0x35: "Best compression"}[method]))
    if os_ in (0, 2):
        names = ["read_only", "hidden", "system", None, "directory", "archive"]
        expect(ctx, what + ": attributes", [f["file_attr"][n].value for n in names if n], [bool(attr >> b & 1) for b in range(6) if names[b]])
    else:
        expect(ctx, what + ": attributes", f["file_attr"].value, attr)


def rars(case, ctx):
    def run(what, blocks, start=0, end=0x4000):
        data = MARK + rar_start(start) + b"".join(b[0] for b in blocks) + (rar_end(end) if end is not None else b"")
        p = opened(ctx, data, RarFile)
        p._feedAll()
        contiguous(ctx, what, p, len(data) * 8, 1)
        names = ["vol", "has_comment", "is_locked", "is_solid", "new_numbering", "has_authenticity_information", "is_protected", "is_passworded", "is_first_vol", "is_encrypted"]
        s = p["archive_start"]
        expect(ctx, what + ": flags of the archive", [s["flags"][n].value for n in names], [bool(start >> k & 1) for k in range(10)])
        at = len(MARK) + 13
        count = {}
        for raw, check in blocks:
            kind = raw[2]
            base = {0x74: "file", 0x7A: "new_sub_block"}.get(kind, "block")
            k = count[base] = count.get(base, -1) + 1
            f = p["%s[%s]" % (base, k)]
            expect(ctx, "%s: place of %s" % (what, f.name), (f.address, f.size), (at * 8, len(raw) * 8))
            check(ctx, "%s: %s" % (what, f.name), f)
            at += len(raw)
        if end is not None:
            e = p["archive_end"]
            expect(ctx, what + ": end", [e["flags"][n].value for n in ("has_next_vol", "has_data_crc", "rev_space", "has_vol_number", "has_added_size", "is_ignorable")], [bool(end >> k & 1) for k in (0, 1, 2, 3, 15, 14)])
            if end == 0x4000:
                expect(ctx, what + ": content size", p.content_size, len(data) * 8)
        return p

    def member(*a, **k):
        return rar_file(*a, **k), lambda ctx, what, f: check_rar_file(ctx, what, f, *a, **k)

    def other(kind, head, body=None):
        raw = struct.pack("<HBHH", 0x1111, kind, 0x8000 if body is not None else 0, 7 + (4 if body is not None else 0) + len(head)) + (struct.pack("<I", len(body)) if body is not None else b"") + head + (body or b"")

        def check(ctx, what, f):
            fields(ctx, what, f, block_type=kind, added_size=len(body) if body is not None else "no field", unknown=head or "no field", body=body or "no field")
        return raw, check
    some = [member("a.txt", content(50, 1)), member("\xe9.bin", b"", os_=3, method=0x30, attr=0o100644), member("\u65e5", content(9, 2), flags=0x200, date=DATES[1]), member("RR", b"sub", kind=0x7A, method=0x31), member("d", b"", flags=0xE0, attr=0x10),
            other(0x60, b"what"), other(0x61, b"", b"bodies"), other(0x62, b"h", b"")]
    for k in range(0, case["n"] + 1):
        for seq in itertools.product(range(len(some)), repeat=k):
            if k and seq[0] % 4 != case["i"] or not k and case["i"]:
                continue
            run("RAR of %s" % (seq,), [some[x] for x in seq])
    for flags in range(1 << 10):
        if flags % 4 != case["i"]:
            continue
        run("RAR with flags %x" % flags, [some[0]], start=flags)
    ext = ext_time(((1, 2), (1, 0), (0, 0), (1, 3)))
    for flags in range(1 << 15):
        if flags >> 5 & 7 not in (0, 1, 4, 7) or flags % 4 != case["i"] or (flags & 0x300 and flags & 0x15) or (not case["full"] and bin(flags & 0x7F1F).count("1") > 4):
            continue
        run("RAR, file with flags %x" % flags, [member("n\xe4me", content(20, 3), flags=flags, ext=ext), some[0]])
    for modes in itertools.product(*[[(0, 0)] + [(1, n) for n in range(4)]] * 4):
        run("RAR, file with times %s" % (modes,), [member("name", content(20, 3), flags=0x1000, ext=ext_time(modes)), some[0]])
    for os_, method, version, attr, date in itertools.product(range(4), range(0x30, 0x36), (15, 20, 29, 36), (0, 1, 2, 4, 16, 32, 0x37), DATES):
        run("RAR, file of %s" % ((os_, method, version, attr),), [member("name", content(5, 3), os_=os_, method=method, version=version, attr=attr, date=date)])
    for high in (0, 1, 3):
        run("RAR, file of %s x 4 GB" % high, [member("name", content(70, 3), flags=0x100, high=high), some[0]])
    for end in (0, 1, 2, 4, 8, 0x4000, 0x400F, 0x8000, None):
        run("RAR, end %s" % end, [some[0], some[2]], end=end if end is None or not end & 0x8000 else 0)


# --- ARJ ---

def arj_header(kind, name, comment, first=30, extended=None, body=b"", **kw):
    v = dict(archiver=11, minimum=1, host=2, flags=0x10, method=1, ftype=0, chapter=5)
    v.update(kw)
    if kind == "main":
        h = struct.pack("<BBBBBBBBIIIIHHBB", first, v["archiver"], v["minimum"], v["host"], v["flags"], 9, v["ftype"], 0, 0x11223344, 0x22334455, 1000, 3, 4, 5, 6, v["chapter"])
    else:
        h = struct.pack("<BBBBBBBBIIIIHHBB", first, v["archiver"], v["minimum"], v["host"], v["flags"], v["method"], v["ftype"], 0, 0x33445566, len(body), 2000 + len(body), 0xDEADBEEF, 0, 0x20, 1, v["chapter"])
    h += b"r" * (first - len(h))
    h += name.encode() + b"\0" + comment.encode() + b"\0"
    out = b"\x60\xEA" + struct.pack("<H", len(h)) + h + struct.pack("<I", zlib.crc32(h))
    if extended is not None:
        out += struct.pack("<H", len(extended)) + extended + struct.pack("<I", zlib.crc32(extended))
    return out + struct.pack("<H", 0) + body, v, len(h)


def arjs(case, ctx):
    members = [dict(name="a.txt", comment="", body=content(30, 1)), dict(name="dir", comment="some words", ftype=3, host=11), dict(name="b.bin", comment="", body=content(300, 2), method=0, first=46, host=0), dict(name="c", comment="x", body=b"z", extended=b"ext data", method=4, ftype=1, chapter=200)]
    starts = [dict(name="archive.arj", comment=""), dict(name="archive.arj", comment="a comment", first=34, host=10, flags=0), dict(name="x.arj", comment="", extended=b"more", first=47, ftype=2)]
    hosts = ["MSDOS", "PRIMOS", "UNIX", "AMIGA", "MACDOS", "OS/2", "APPLE GS", "ATARI ST", "NEXT", "VAX VMS", "WIN95", "WIN32"]
    kinds = ["BINARY", "TEXT", "COMMENT", "DIRECTORY", "VOLUME", "CHAPTER"]

    def one(start, seq, tail=b""):
        raw, v, n = arj_header("main", **start)
        data = raw
        wanted = [(0, len(raw), start, v, n)]
        for m in seq:
            raw, v, n = arj_header("file", **m)
            wanted.append((len(data), len(raw), m, v, n))
            data += raw
        data += b"\x60\xEA\0\0"
        total = len(data)
        data += tail
        what = "ARJ of %s" % [m["name"] for m in [start] + list(seq)]
        p = opened(ctx, data, ArjParser) if not tail else direct(ctx, data, ArjParser)
        p._feedAll()
        if not tail:
            contiguous(ctx, what, p, len(data) * 8, 1)
        got = [p["header"]] + list(p.array("file_header"))
        if not expect(ctx, what + ": headers", len(got), len(wanted) + 1):
            return
        expect(ctx, what + ": end", (got[-1].address, got[-1].size, got[-1].isEmpty, got[-1].description), ((total - 4) * 8, 32, True, "Empty file header"))
        for f, (at, size, m, v, n) in zip(got, wanted):
            w = "%s: %s" % (what, f.name)
            expect(ctx, w + ": place", (f.address, f.size), (at * 8, size * 8))
            first = m.get("first", 30)
            fields(ctx, w, f, basic_header_size=n, first_hdr_size=first, archiver_version=11, min_archiver_version=1, host_os=v["host"], arj_flags=v["flags"], file_type=v["ftype"], last_chapter=v["chapter"], filename=m["name"], comment=m["comment"],
                   reserved2=b"r" * (first - 30) if first > 30 else "no field", extended_header_data=m.get("extended", "no field"))
            expect(ctx, w + ": texts", (f["host_os"].display, f["file_type"].display), (hosts[v["host"]], kinds[v["ftype"]]))
            expect(ctx, w + ": description", f.description, ("Main header of '%s'" if f.name == "header" else "File header of '%s'") % m["name"])
            if f.name == "header":
                fields(ctx, w, f, date_time_created=0x11223344, date_time_modified=0x22334455, archive_size=1000, security_envelope_file_position=3, filespec_position=4, security_envelope_data_len=5, encryption_version=6, security_version=9)
            else:
                b = m.get("body", b"")
                fields(ctx, w, f, method=v["method"], date_time_modified=0x33445566, compressed_size=len(b), original_size=2000 + len(b), original_file_crc=0xDEADBEEF, file_access_mode=0x20, first_chapter=1, compressed_data=b or "no field")
    for start in starts:
        for k in range(0, case["n"] + 1):
            for seq in itertools.product(members, repeat=k):
                one(start, seq)
    for host in range(12):
        for kind in range(6):
            one(dict(starts[0], host=host, ftype=kind), [dict(members[0], host=host, ftype=kind)])


# --- MAR of Microsoft and Mozilla, PAK, BOM ---

def simple(case, ctx):
    members = [("a.txt", content(30, 1)), ("empty", b""), ("dir/b.bin", content(300, 2)), ("c" * 40, b"z")]
    for k in range(1, case["n"] + 1):
        for seq in itertools.product(members, repeat=k):
            for order in itertools.permutations(range(k)):
                for gap in (0, 4):
                    what = "archive of %s, order %s, gap %s" % ([m[0] for m in seq], order, gap)
                    # Microsoft
                    at = 12 + 68 * k
                    places, body = {}, b""
                    for x in order:
                        body += bytes(gap)
                        places[x] = at + len(body)
                        body += seq[x][1]
                    data = b"MARC" + struct.pack("<II", 3, k) + b"".join(n.encode().ljust(56, b"\0") + struct.pack("<III", len(d), 0xABCD, places[x]) for x, (n, d) in enumerate(seq)) + body
                    p = opened(ctx, data, MarFile)
                    p._feedAll()
                    w = "Microsoft " + what
                    contiguous(ctx, w, p, len(data) * 8 if seq[order[-1]][1] else None, 1)
                    fields(ctx, w, p, version=3, nb_file=k)
                    m = metadata(p)
                    for x, (n, d) in enumerate(seq):
                        fields(ctx, w, p["file[%s]" % x], filename=n, filesize=len(d), crc32=0xABCD, offset=places[x])
                        check_meta(ctx, w, m["file[%s]" % x], filename=n, file_size=len(d), compression="None")
                    check_meta(ctx, w, m, comment="Contains %s files" % k, format_version="Microsoft Archive version 3")
                    got = [f for f in p if f.name.startswith("data[")]
                    expect(ctx, w + ": data", [(f.address // 8, f.value) for f in got], sorted([(places[x], d) for x, (n, d) in enumerate(seq) if d]))
                    for f in got:
                        expect(ctx, w + ": name of the data", [v for t, v in f.getSubIStream().tags if t == "filename"], [[n for x, (n, d) in enumerate(seq) if d and places[x] == f.address // 8][0]])
                    # Mozilla
                    at, places, body = 8, {}, b""
                    for x in order:
                        body += bytes(gap)
                        places[x] = at + len(body)
                        body += seq[x][1]
                    index = b"".join(struct.pack(">III", places[x], len(d), (0o644, 0o755)[x % 2]) + n.encode() + b"\0" for x, (n, d) in enumerate(seq))
                    data = b"MAR1" + struct.pack(">I", 8 + len(body)) + body + struct.pack(">I", len(index)) + index
                    p = opened(ctx, data, MozillaArchive)
                    p._feedAll()
                    w = "Mozilla " + what
                    fields(ctx, w, p, index_offset=8 + len(body), index_size=len(index))
                    at = 8 + len(body) + 4
                    for x, (n, d) in enumerate(seq):
                        f = p["index_entry[%s]" % x]
                        fields(ctx, w, f, offset=places[x], length=len(d), name=n, flags=(0o644, 0o755)[x % 2])
                        expect(ctx, w + ": place of an entry", f.address, at * 8)
                        at += 13 + len(n)
                        expect(ctx, w + ": mode", f["flags"].display, ("-rw-r--r-- (644)", "-rwxr-xr-x (755)")[x % 2])
                    got = [f for f in p if f.name.startswith("file[")]
                    expect(ctx, w + ": data", [(f.address // 8, f.value) for f in got if f.size], [(places[x], d) for x, (n, d) in enumerate(seq) if d])
                    if gap == 0 and order == tuple(range(k)):
                        # Starfighter
                        w = "PAK of %s" % [m[0] for m in seq]
                        data = b"PACK" + b"".join(n.encode().ljust(56, b"\0") + struct.pack("<I", len(d)) + d for n, d in seq)
                        p = opened(ctx, data, PRSPakFile)
                        contiguous(ctx, w, p, len(data) * 8, 2)
                        expect(ctx, w, [(f["filename"].value, f["size"].value, f["data"].value if "data" in f and f["data"].size else b"") for f in p.array("file")], [(n, len(d), d) for n, d in seq])
                    # BOM
                    spaces = k + 1 + len(order) % 3
                    at, places, body = 512, {}, b""
                    for x in order:
                        places[x] = at + len(body)
                        body += seq[x][1] + bytes(gap)
                    toff = 512 + len(body)
                    trailer = struct.pack(">I", spaces) + bytes(8) + b"".join(struct.pack(">II", places[x], len(d)) for x, (n, d) in enumerate(seq)) + bytes(8 * (spaces - k - 1)) + struct.pack(">I", 1) + struct.pack(">II", toff + 200, 3)
                    hoff = toff + len(trailer)
                    data = b"BOMStore" + struct.pack(">IIIIII", 1, k, toff, len(trailer), hoff, 9) + bytes(480) + body + trailer + b"header!!!"
                    data = data.ljust(toff + 203, b"T")
                    p = opened(ctx, data, BomFile)
                    p._feedAll()
                    w = "BOM " + what
                    fields(ctx, w, p, num_objects=k, trailer_offset=toff, header_offset=hoff, header=b"header!!!")
                    fields(ctx, w, p["trailer"], num_spaces=spaces, num_trail=1)
                    expect(ctx, w + ": entries", [(f["offset"].value, f["size"].value) for f in p["trailer"].array("entry")], [(0, 0)] + [(places[x], len(d)) for x, (n, d) in enumerate(seq)])
                    got = [f for f in p if f.name.startswith("object[")][1:]
                    expect(ctx, w + ": objects", [(f.address // 8, f.value) for f in got], [(places[x], d) for x, (n, d) in enumerate(seq) if d])
                    expect(ctx, w + ": trail", [(f.address // 8, f.value) for f in p if f.name.startswith("trail[")], [(toff + 200, b"TTT")])


def main():
    c = lib.Check("A12", "model_checking",
                  "all sequences of members of cabinets, folders of every method in every order, flags and reserved areas; sequences of typed entries of RPM headers; sequences of blocks, all flags and times of RAR; sequences of ARJ, MAR, PAK and BOM members: "
                  "every field, place, the bytes of members and the metadata",
                  bounds={"files of a cabinet": "up to 2 (thorough 3) of 5", "folders": "up to 3 of 4", "entries of RPM headers": "up to 2 (3) of 12", "RAR blocks": "up to 3 (4) of 8", "RAR flags": "all with at most 4 (all) set", "members of other archives": "up to 2 (3) of 4"})
    q = c.quick
    c.domain("cabinets", [dict(method=m, style=s, n=2 if q else 3) for m, s in ((0, 0), (1, 0), (1, 1), (1, 2), (2, 0))], cabs)
    c.domain("RPM", [dict(n=2 if q else 3, i=i, of=4) for i in range(4)], rpms)
    c.domain("RAR", [dict(n=3 if q else 4, i=i, full=not q) for i in range(4)], rars)
    c.domain("ARJ", [dict(n=3 if q else 4)], arjs)
    c.domain("MAR, PAK, BOM", [dict(n=2 if q else 3)], simple)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
