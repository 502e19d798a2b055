"""A24: NTFS volumes are shown as they were written: boot sector, records, attributes, runs, names."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, expect, get, opened
from hachoir.parser.file_system.ntfs import NTFS

EPOCH = datetime.datetime(1601, 1, 1)
DATE = datetime.datetime(2021, 3, 4, 5, 6, 7, 250000)


def stamp(k):
    d = DATE + datetime.timedelta(days=k)
    x = d - EPOCH
    return struct.pack("<Q", (x.days * 86400 + x.seconds) * 10**7 + x.microseconds * 10), d


def pad8(b, fill=b"\0"):
    return b + fill * (-len(b) % 8)


NAMES = {0x10: "standard_info", 0x20: "attr_list", 0x30: "filename[]", 0x40: "vol_ver", 0x50: "security", 0x60: "vol_name", 0x70: "vol_info", 0x80: "data", 0x90: "index_root", 0xA0: "index_alloc", 0xB0: "bitmap", 0xC0: "reparse", 0xD0: "ea_info", 0xE0: "ea", 0xF0: "prop_set",
         0x100: "log_util"}
TITLES = {0x10: "STANDARD_INFORMATION ", 0x20: "ATTRIBUTE_LIST ", 0x30: "FILE_NAME ", 0x40: "VOLUME_VERSION", 0x50: "SECURITY_DESCRIPTOR ", 0x60: "VOLUME_NAME ", 0x70: "VOLUME_INFORMATION ", 0x80: "DATA ", 0x90: "INDEX_ROOT ", 0xA0: "INDEX_ALLOCATION ", 0xB0: "BITMAP ",
          0xC0: "REPARSE_POINT ", 0xD0: "EA_INFORMATION ", 0xE0: "EA ", 0xF0: "PROPERTY_SET", 0x100: "LOGGED_UTILITY_STREAM"}
FLAGS = ["read_only", "hidden", "system", None, "directory", "archive", "device", "normal", "temporary", "sparse_file", "reparse_file", "compressed", "offline", "dont_index_content", "encrypted"]


def attribute(kind, content, want, name="", ident=1, flags=0, indexed=0, fill=b"\0"):
    n = name.encode("utf-16-le")
    at = 24 + len(n)
    at += -at % 8
    b = n + b"\0" * (at - 24 - len(n)) + content
    total = 24 + len(b)
    total += -total % 8
    raw = struct.pack("<IIBBHHHIHBB", kind, total, 0, len(name), 24, flags, ident, len(content), at, indexed, 0) + b
    raw += (fill * 8)[:total - len(raw)]
    w = dict(type=kind, size=total, non_resident=0, name_length=len(name), name_offset=24, flags=flags, attribute_id=ident, length_attr=len(content), offset_attr=at, indexed_flag=indexed, name=name or "no field")
    w.update(want)
    return raw, kind, w


def simple(kind, data, name="", **kw):
    if kind == 0xB0:
        want = {"bit[%d]" % i: bool(data[i // 8] >> i % 8 & 1) for i in range(8 * len(data))}
        want["bit[%d]" % (8 * len(data))] = "no field"
    else:
        want = {"data": data or "no field"}
    return attribute(kind, data, want, name, **kw)


def standard(flags=0x20, long=True, k=0, **kw):
    ts = [stamp(k + i) for i in range(4)]
    b = b"".join(t[0] for t in ts) + struct.pack("<IIII", flags, 5, 6, 7)
    want = dict(zip(("ctime", "atime", "mtime", "rtime"), (t[1] for t in ts)), max_version=5, version=6, class_id=7)
    want.update({"file_attr/" + n: bool(flags >> i & 1) for i, n in enumerate(FLAGS) if n})
    if long:
        b += struct.pack("<IIQQ", 8, 9, 10, 11 << 40)
        want.update(owner_id=8, security_id=9, quota_charged=10, usn=11 << 40)
    else:
        want["owner_id"] = "no field"
    return attribute(0x10, b, want, **kw)


def filename(name, space=3, size=1000, k=0, ref=0x5000000000005, **kw):
    ts = [stamp(k + 10 + i) for i in range(4)]
    b = struct.pack("<Q", ref) + b"".join(t[0] for t in ts) + struct.pack("<QQIIBB", size + 24, size, 0x20, 3, len(name.encode("utf-16-le")) // 2, space) + name.encode("utf-16-le")
    want = dict(zip(("ctime", "atime", "mtime", "rtime"), (t[1] for t in ts)), ref=ref, alloc_size=size + 24, real_size=size, file_flags=0x20, file_flags2=3, filename_length=len(name.encode("utf-16-le")) // 2, filename_namespace=space, filename=name or "no field")
    return attribute(0x30, b, want, indexed=1, **kw)


def run(length, delta, nl=None, no=None):
    def size(v, signed):
        n = 1
        while not (-(1 << 8 * n - 1) <= v < 1 << 8 * n - 1 if signed else v < 1 << 8 * n):
            n += 1
        return n
    nl = nl or size(length, False)
    if delta is None:
        return bytes([nl]) + length.to_bytes(nl, "little")
    no = no or size(delta, True)
    return bytes([no << 4 | nl]) + length.to_bytes(nl, "little") + delta.to_bytes(no, "little", signed=True)


def outside(kind, runs, actual, name="", ident=2, cluster=512, compression=0, sizes=(None, None), start=0, flags=0):
    """runs: list of (length, place or None)"""
    n = name.encode("utf-16-le")
    head = 64 + 8 * bool(compression)
    at = head + len(n)
    at += -at % 8
    body, place = b"", 0
    for length, p in runs:
        body += run(length, None if p is None else p - place, *sizes)
        if p is not None:
            place = p
    body += b"\0"
    total = at + len(body)
    total += -total % 8
    count = sum(r[0] for r in runs)
    raw = struct.pack("<IIBBHHHQQHHIQQQ", kind, total, 1, len(name), head, flags, ident, start, start + count - 1 & (1 << 64) - 1, at, compression, 0, count * cluster & (1 << 64) - 1, actual, actual)
    raw += b"\0" * (head - 64) + n
    raw += b"\0" * (at - len(raw)) + body
    raw += b"\0" * (total - len(raw))
    w = dict(type=kind, size=total, non_resident=1, name_length=len(name), name_offset=head, flags=flags, attribute_id=ident, runlist_start=start, runlist_stop=start + count - 1 & (1 << 64) - 1, runlist_offset=at, compression_unit=compression, size_allocated=count * cluster & (1 << 64) - 1,
             size_actual=actual, size_initialized=actual, name=name or "no field", runlist=list(runs))
    return raw, kind, w


def record(number, attrs, flags=1, size=1024, old=False, seq=1, links=1, usa=None, extra=b""):
    usa = usa or (0x2A if old else 0x30)
    count = 1 + size // 512
    at = usa + 2 * count
    at += -at % 8
    body = b"".join(a[0] for a in attrs) + b"\xff\xff\xff\xff\0\0\0\0"
    used = at + len(body) + len(extra)
    assert used <= size, used
    raw = b"FILE" + struct.pack("<HHQHHHHIIQH", usa, count, 0x123456789A + number, seq, links, at, flags, used, size, 0, len(attrs) + 1)
    want = dict(usa_offset=usa, usa_count=count, lsn=0x123456789A + number, sequence_number=seq, link_count=links, attrs_offset=at, bytes_in_use=used, bytes_allocated=size, base_mft_record=0, next_attr_instance=len(attrs) + 1, usa_number=0x77)
    want["flags/in_use"], want["flags/is_directory"] = bool(flags & 1), bool(flags & 2)
    if not old:
        raw += struct.pack("<HI", 0, number)
        want["mft_record_number"] = number
    else:
        want["mft_record_number"] = "no field"
    raw += b"\0" * (usa - len(raw)) + struct.pack("<H", 0x77)
    for i in range(count - 1):
        raw += struct.pack("<H", 0x100 + i)
        want["usa_value[%d]" % i] = 0x100 + i
    want["usa_value[%d]" % (count - 1)] = "no field"
    raw += b"\0" * (at - len(raw)) + body + extra
    want["end_rawdata"] = extra or "no field"
    return raw + b"\0" * (size - len(raw)), attrs, want


def files(ctx, what, f, rec):
    """The record is shown by the field f"""
    raw, attrs, want = rec
    for k, v in want.items():
        if get(f, k) != v:
            ctx.report("%s: %s is %s, expected %s" % (what, k, lib.short(get(f, k), 80), lib.short(v, 80)))
    at, count, seen, places = want["attrs_offset"], {}, set(), []
    for raw, kind, w in attrs:
        name = NAMES.get(kind, "attr[]")
        if name in seen:
            name += "[]"
        if name.endswith("[]"):
            k = count.get(name, 0)
            count[name] = k + 1
            name = name[:-2] + "[%d]" % k
        seen.add(name)
        places.append((name, at, len(raw)))
        at += len(raw)
    got = [(x.name, x.address // 8, x.size // 8) for x in f if x.is_field_set and x.name != "flags"]
    if not expect(ctx, what + ": attributes", got, places):
        return
    for (name, _, _), (_, kind, w) in zip(places, attrs):
        for k, v in w.items():
            if get(f, name + "/" + k) != v:
                ctx.report("%s: %s/%s is %s, expected %s" % (what, name, k, lib.short(get(f, name + "/" + k), 80), lib.short(v, 80)))
        expect(ctx, "%s: description of %s" % (what, name), f[name].description, "Attribute " + TITLES.get(kind, "0x%08x" % kind))


def volume(ctx, what, recs, cluster=(512, 1), mft=4, unused=(), tail=4, more=0, names=True):
    """recs: the records after the one of the table; unused: (index, first bytes) of records which are not files"""
    bps, spc = cluster
    csize = bps * spc
    size = len(recs[0][0]) if recs else 1024
    total = len(recs) + 1 + len(unused)
    n = -(-total * size // csize)
    first = record(0, [standard(6), filename("$MFT", size=total * size), outside(0x80, [(n + more, mft)], total * size, cluster=csize)], size=size)
    start = max(mft * csize, 512)
    sectors = (start + n * csize) // bps + tail
    boot = b"\xebR\x90NTFS    " + struct.pack("<HBHBHHBHHHII", bps, spc, 0, 0, 0, 0, 0xF8, 0, 63, 255, 2048, 0) + struct.pack("<BBBBQQQBBBBBBBBQI", 0x80, 0, 0x80, 0, sectors, mft, 2, 0xF6, 0, 0, 0, 1, 0, 0, 0, 0x1122334455667788, 0x99) + b"\x90" * 426 + b"\x55\xaa"
    assert len(boot) == 512
    slots, r = [first], list(recs)
    spare = dict(unused)
    for i in range(1, total):
        slots.append(spare[i] if i in spare else r.pop(0))
    data = boot + b"\0" * (mft * csize - 512)
    place = len(data)
    for s in slots:
        data += s[0] if isinstance(s, tuple) else s + b"\0" * (size - len(s))
    data += b"e" * (tail * bps)
    p = opened(ctx, data, NTFS)
    contiguous(ctx, what, p, len(data) * 8, 4)
    want = {"bios/bytes_per_sector": bps, "bios/sectors_per_cluster": spc, "bios/media_type": 0xF8, "bios/sectors_per_track": 63, "bios/heads": 255, "bios/hidden_sectors": 2048, "physical_drive": 0x80, "ext_boot_sig": 0x80, "nb_sectors": sectors, "mft_cluster": mft, "mftmirr_cluster": 2,
            "cluster_per_mft": 0xF6, "cluster_per_index": 1, "serial_number": 0x1122334455667788, "checksum": 0x99, "boot_code": b"\x90" * 426, "mbr_magic": b"\x55\xaa", "jump": b"\xebR\x90", "name": "NTFS    "}
    for k, v in want.items():
        expect(ctx, what + ": " + k, get(p, "mbr/" + k), v)
    got = [(x.name, x.address // 8, x.size // 8) for x in p if x.name.startswith(("file", "unused"))]
    names, a, b = [], 0, 0
    for i, s in enumerate(slots):
        if isinstance(s, tuple):
            names.append(("file[%d]" % a, place + i * size, size))
            a += 1
        else:
            names.append(("unused[%d]" % b, place + i * size, size))
            b += 1
    if expect(ctx, what + ": records", got, names):
        for (name, _, _), s in zip(names, slots):
            if isinstance(s, tuple):
                files(ctx, what + ", " + name, p[name], s)
    expect(ctx, what + ": end", get(p, "end"), b"e" * (tail * bps) if tail else "no field")
    return p


def volumes(case, ctx):
    for cluster, mft, n, tail in itertools.product(((512, 1), (512, 8), (1024, 2), (4096, 1)), (4, 5, 16), (0, 1, 2, 5), (0, 1, 4)):
        recs = [record(i + 1, [standard(), filename("file%d" % i), simple(0x80, b"data%d" % i)]) for i in range(n)]
        volume(ctx, "NTFS volume of clusters %s, table at %s, %s files, %s sectors behind" % (cluster, mft, n, tail), recs, cluster, mft, (), tail)
    for n in range(1, 5):
        for spare in itertools.product((None, b"", b"BAAD"), repeat=n):
            recs = [record(i, [standard(), filename("f%d" % i)]) for i, s in enumerate(spare, 1) if s is None]
            if not recs:
                continue
            volume(ctx, "NTFS volume of unused records %s" % (spare,), recs, unused=[(i, s) for i, s in enumerate(spare, 1) if s is not None], more=n % 2 * 8)
    for size, usa, flags, seq, links, extra in itertools.product((1024, 512, 2048, 4096), (None, 0x30, 0x38, 0x2A), range(4), (1, 0xFFFF), (0, 3), (b"", b"extradat")):
        old = usa == 0x2A
        volume(ctx, "NTFS records of %s bytes, fix-up at %s, flags %s, %s %s" % (size, usa, flags, seq, extra), [record(1, [standard(), simple(0x80, b"")], flags, size, old, seq, links, usa, extra)])


LIST = [standard(), standard(2, False), filename("a"), filename("LONGNA~1.TXT", 2), filename("long name.txt", 1, 5), simple(0x80, b"content"), simple(0x80, b"stream", "named"), simple(0x90, b"index root", "$I30"), outside(0xA0, [(8, 100)], 4096, "$I30"), simple(0xB0, b"\5", "$I30"),
        simple(0x50, b"security"), simple(0x1000, b"own"), outside(0x80, [(3, 50), (2, None), (4, 40)], 4000), simple(0x100, b"x" * 40, "$EFS")]


def attributes(case, ctx):
    n = case["n"]
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(LIST)), repeat=k):
            if seq[0] != case["first"]:
                continue
            if seq.count(0) + seq.count(1) > 1:
                continue
            recs = [record(1, [LIST[i] for i in seq], size=2048)]
            p = volume(ctx, "NTFS attributes %s" % (seq,), recs)
            # The name of the file
            text = "File"
            names = [i for i in seq if i in (2, 3, 4)]
            best = next((i for i in names if i in (2, 4)), names[-1] if names else None)
            if best is not None:
                text += ' "%s" (%s)' % (LIST[best][2]["filename"], "1000 bytes" if best != 4 else "5 bytes")
            if 0 in seq or 1 in seq:
                text += ", " + ("archive" if 0 in seq else "hidden")
            expect(ctx, "NTFS attributes %s: description" % (seq,), p["file[1]"].description, text)


def contents(case, ctx):
    for kind in list(NAMES) + [0x1000, 0x12345]:
        if kind in (0x10, 0x30):
            continue
        for n, name, fill, ident, flags in itertools.product((0, 1, 7, 8, 9, 100), ("", "n", "$I30", "\u20ac" * 9), (b"\0", b"\xee"), (0, 0xFFFF), (0, 0x8000)):
            a = simple(kind, bytes(i * 7 % 256 for i in range(n)), name, fill=fill, ident=ident, flags=flags)
            volume(ctx, "NTFS attribute %x of %s bytes named %r, filled by %r, %s %s" % (kind, n, name, fill, ident, flags), [record(1, [standard(), a, LIST[5]])])
    for flags in [1 << i for i in range(32)] + list(range(64)) + [0xFFFFFFFF]:
        for long in (False, True):
            volume(ctx, "NTFS flags %08x, %s" % (flags, long), [record(1, [standard(flags, long, k=flags % 50), LIST[2]])])
    for name, space, size, ref in itertools.product(("", "a", "\u20ac\U0001f600", "n" * 200), range(4), (0, 1, 2**40), (5, 2**64 - 1)):
        volume(ctx, "NTFS name %r in %s, size %s, parent %s" % (name[:9], space, size, ref), [record(1, [filename(name, space, size, ref=ref)])])


PLACES = [(1, 100), (200, 5), (70000, 0x123456), (3, None), (1 << 40, 0x1234567890)]


def runs(case, ctx):
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(PLACES)), repeat=n):
            if seq[0] != case["first"]:
                continue
            for name, comp in (("", 0), ("stream", 0), ("", 4), ("odd", 4)):
                rs = [PLACES[i] for i in seq]
                volume(ctx, "NTFS runs %s, %r %s" % (rs, name, comp), [record(1, [LIST[2], outside(0x80, rs, 12345, name, compression=comp), LIST[10]])])
    if not case["first"]:
        for nl, no, length, place in itertools.product(range(1, 9), range(1, 9), (1, 127, 128, 255), (1, 127)):
            volume(ctx, "NTFS run of %s clusters at %s, sizes of %s and %s bytes" % (length, place, nl, no), [record(1, [outside(0x80, [(length, place), (length, 1)], 5, sizes=(nl, no))])])
        for nl, place in itertools.product(range(1, 8), (0, 1)):
            for d in (-1, 0, 1):
                length = (1 << 8 * nl) + d
                far = (1 << 8 * nl - 1) + d
                volume(ctx, "NTFS run of %s clusters at %s, back to %s" % (length, far, place), [record(1, [outside(0xA0, [(length, far), (1, place), (2, far), (1, None)], 5)])])


if __name__ == "__main__":
    c = lib.Check("A24", "model_checking",
                  "all shapes of volumes (clusters, place of the table, unused records, sizes and versions of records), all sequences of attributes, all kinds of attributes with all lengths, names and fill, all flags, all sequences of runs with all lengths of numbers: place and value of each field, description of each record",
                  bounds={"attributes": "up to 3 of 14 (thorough: 4)", "runs": "up to 3 of 5 (thorough: 5)", "records": "up to 5"})
    q = c.quick
    c.domain("volumes", [{}], volumes)
    c.domain("attributes", [{"n": 3 if q else 4, "first": k} for k in range(len(LIST))], attributes, batch=1)
    c.domain("contents", [{}], contents)
    c.domain("runs", [{"n": 3 if q else 5, "first": k} for k in range(len(PLACES))], runs, batch=1)
    c.main()
