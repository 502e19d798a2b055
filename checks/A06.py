"""A06: FAT, EXT2, ISO 9660 and Linux swap file systems and partition tables are shown as they were written: places, tables, directories, contents of the files."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import check_meta, contiguous, direct, expect, fields, get, metadata, opened
from hachoir.core.tools import humanFilesize
from hachoir.parser import guessParser
from hachoir.parser.file_system import FAT12, FAT16, FAT32, EXT2_FS, ISO9660, LinuxSwapFile, MSDos_HardDrive
from hachoir.stream import StringInputStream
formats.ALLOW.append(("EXT2_FS", "^/group", "Delete '/group.*block"))     # (the known finding on blocks of another group)

# ---- FAT --------------------------------------------------------------------------------------

FATS = {12: FAT12, 16: FAT16, 32: FAT32}
END = {12: 0xfff, 16: 0xffff, 32: 0xfffffff}
DATE0 = (1980, 1, 1, 0, 0, 0, 0)


def fat_table(version, entries, size):
    if version == 12:
        n = 0
        for i, e in enumerate(entries):
            n |= e << 12 * i
        out = n.to_bytes((len(entries) * 12 + 7) // 8, "little")
    else:
        out = b"".join(e.to_bytes(version // 8, "little") for e in entries)
    assert len(out) <= size
    return out.ljust(size, b"\0")


def stamp(y, mo, d, h, mi, s, cs=0):
    return struct.pack("<H", s // 2 | mi << 5 | h << 11), struct.pack("<H", d | mo << 5 | (y - 1980) << 9)


def file_entry(name, ext, attributes, cluster, size, version, create=DATE0, access=DATE0, modify=DATE0, high=0):
    ct, cd = stamp(*create)
    at, ad = stamp(*access)
    mt, md = stamp(*modify)
    cs = (create[5] % 2) * 100 + create[6]
    return name.ljust(8) + ext.ljust(3) + bytes([attributes, 0, cs]) + ct + cd + ad + struct.pack("<H", cluster >> 16 if version == 32 else 0x1234) + mt + md + struct.pack("<HI", cluster & 0xffff, size)


def long_entry(seq, text):
    raw = text.encode("utf-16-le")
    raw = (raw + b"\0\0").ljust(26, b"\xff")[:26]
    return bytes([seq]) + raw[:10] + b"\x0f\0\x77" + raw[10:22] + b"\0\0" + raw[22:]


class Volume:
    """A FAT volume: the clusters are given by number"""

    def __init__(self, version, sector=512, per_cluster=1, reserved=None, copies=2, max_root=16, clusters=8, root=None, info=1, backup=6, total32=False):
        self.version, self.sector, self.per_cluster = version, sector, per_cluster
        self.reserved = reserved if reserved is not None else (8 if version == 32 else 1)
        self.copies, self.max_root, self.nclusters = copies, max_root, clusters
        self.root = root            # chain of the root directory of FAT32
        self.info, self.backup, self.total32 = info, backup, total32
        self.entries = [END[version] & ~0xf | 8, END[version]] + [0] * clusters
        self.clusters = {}
        self.rootdata = b""
        self.size = sector * per_cluster
        self.fat_size = -(-((len(self.entries) * version + 7) // 8) // sector)

    def chain(self, clusters, end=None, high=0):
        for a, b in zip(clusters, clusters[1:]):
            self.entries[a] = b | high
        self.entries[clusters[-1]] = END[self.version] if end is None else end

    def write(self, clusters, data, end=None, high=0):
        self.chain(clusters, end, high)
        data = data.ljust(len(clusters) * self.size, b"\0")
        assert len(data) == len(clusters) * self.size
        for k, c in enumerate(clusters):
            assert c not in self.clusters
            self.clusters[c] = data[k * self.size:(k + 1) * self.size]

    def boot(self):
        v = self.version
        root_sectors = -(-self.max_root * 32 // self.sector) if v != 32 else 0
        total = self.reserved + self.copies * self.fat_size + root_sectors + self.nclusters * self.per_cluster
        big = v == 32 or self.total32
        out = b"\xeb\x3c\x90" + b"MSDOS5.0" + struct.pack("<HBHBHHBHHHII", self.sector, self.per_cluster, self.reserved, self.copies, self.max_root if v != 32 else 0, 0 if big else total, 0xf8,
                                                          self.fat_size if v != 32 else 0, 63, 255, 7, total if big else 0)
        if v == 32:
            out += struct.pack("<IHHIHH", self.fat_size, 0x80, 0, self.root[0], self.info, self.backup) + bytes(12)
        out += struct.pack("<BBBI", 0x80, 0, 0x29, 0x1234abcd) + b"NO NAME    " + ("FAT%-5u" % v).encode()
        return out.ljust(510, b"\x90") + b"\x55\xaa"

    def image(self):
        v = self.version
        out = self.boot().ljust(self.reserved * self.sector, b"\0")
        if v == 32:
            out = bytearray(out)
            if self.info:
                out[self.info * self.sector:self.info * self.sector + 512] = b"RRaA" + bytes(480) + b"rrAa" + struct.pack("<II", 77, 88) + bytes(12) + b"\0\0\x55\xaa"
            if self.backup:
                out[self.backup * self.sector:self.backup * self.sector + 512] = self.boot()
            out = bytes(out)
        table = fat_table(v, self.entries, self.fat_size * self.sector)
        out += table * self.copies
        if v == 32:
            self.write(self.root, self.rootdata)
            out = out[:len(out)]
            self.fat_at = self.reserved * self.sector
            table = fat_table(v, self.entries, self.fat_size * self.sector)
            out = out[:self.fat_at] + table * self.copies
        else:
            size = -(-self.max_root * 32 // self.sector) * self.sector
            assert len(self.rootdata) <= size
            self.root_at = len(out)
            out += self.rootdata.ljust(size, b"\0")
        self.data_at = len(out)
        return out + b"".join(self.clusters.get(c, b"\xf6" * self.size) for c in range(2, 2 + self.nclusters))

    def at(self, cluster):
        return self.data_at + (cluster - 2) * self.size


def content(n, seed):
    return bytes((seed * 37 + i // 256 * 11 + i) & 255 for i in range(n))


def same_content(ctx, what, p, path, want, filename):
    """The content of the file of the entry"""
    try:
        f = p[path]
    except lookup as err:
        ctx.report("%s: no field %s" % (what, path))
        return
    first = f.value
    if first is None:
        ctx.report("%s: %s leads to nothing" % (what, path))
        return
    s = first.getSubIStream()
    got = s.readBytes(0, min(s.size // 8, len(want) + 9)) if s.size else b""
    expect(ctx, "%s: content of %s" % (what, path), (s.size, got), (len(want) * 8, want))
    expect(ctx, "%s: name of %s" % (what, path), [t[1] for t in s.tags if t[0] == "filename"], [filename])


lookup = LookupError


def fat_layout(ctx, what, p, v, data):
    """Places of the fixed parts"""
    expect(ctx, what + ": boot", (p["boot"].address, p["boot"].size), (0, 4096))
    for k in range(v.copies):
        f = p["fat[%s]" % k]
        expect(ctx, "%s: place of table %s" % (what, k), (f.address, f.size), ((v.reserved * v.sector + k * v.fat_size * v.sector) * 8, v.fat_size * v.sector * 8))
    f = p["fat[0]"]
    for i, e in enumerate(v.entries):
        expect(ctx, "%s: entry %s of the table" % (what, i), f["entry[%s]" % i].value, e)
    used = set()
    for f in p:
        n = f.name
        if f.size and f.address >= v.data_at * 8 and not (f.size == v.size * 8 and f.address % 8 == 0 and (f.address // 8 - v.data_at) % v.size == 0):
            ctx.report("%s: %s is at %s, %s bytes" % (what, f.path, f.address // 8, f.size // 8))
            break


def chains_case(case, ctx):
    version, a, b, deep = case["version"], case["a"], case["b"], case["deep"]
    base = [2, 3, 4, 5, 6]
    if version == 32 and case["root"] == 2:
        base = [3, 4, 5, 6, 7]
    ends = [None] if not case["ends"] else [END[version] & ~7 | k for k in range(8)]
    if version == 32 and case["ends"]:
        ends += [0xffffffff, 0x1ffffff8]
    highs = [0] if version != 32 or not case["ends"] else [0, 0xf0000000, 0x10000000]
    for order in itertools.permutations(base, a + b):
        if case["ends"] and list(order) not in (base[:a + b], base[:a + b][::-1]):
            continue
        for last in ((1, 511, 512) if not case["ends"] else (9,)):
            for end in ends:
                for high in highs:
                    for swap in ((0, 1) if b else (0,)):
                        one_chain(ctx, case, order[:a], order[a:], last, end, high, swap)


def one_chain(ctx, case, ca, cb, last, end, high, swap):
    version = case["version"]
    root = [case["root"]] if version == 32 else None
    v = Volume(version, clusters=7, root=root)
    what = "FAT%s with a file in clusters %s%s" % (version, list(ca), " and one in %s" % list(cb) if cb else "") + (", end 0x%x" % end if end is not None else "") + (", high bits 0x%x" % high if high else "") + (", root in cluster %s" % root[0] if root else "")
    da = content((len(ca) - 1) * 512 + last, 1)
    v.write(list(ca), da, end, high)
    v.rootdata = file_entry(b"FIRST", b"TXT", 0x20, ca[0], len(da), version)
    if cb:
        db = content((len(cb) - 1) * 512 + 513 - last, 2)
        v.write(list(cb), db, end, high)
        v.rootdata += file_entry(b"B", b"", 0x01, cb[0], len(db), version)
    data = v.image()
    p = opened(ctx, data, FATS[version])
    if root and root[0] != 2:
        expect(ctx, what + ": root directory", p["root"].value.path, "/root[0]")
    todo = [("/root[0]/entry[0]/data", da, "FIRST.TXT")]
    if cb:
        todo.append(("/root[0]/entry[1]/data", db, "B"))
    if swap:
        todo.reverse()
    for path, want, name in todo:
        same_content(ctx, what, p, path, want, name)
    # fragments: one by cluster, at the place of the cluster
    for path, chain, size in [("/root\\FIRST.TXT[%s]", ca, len(da))] + ([("/root\\B[%s]", cb, len(db))] if cb else []):
        f = p[path % 0]
        for k, c in enumerate(chain):
            if f is None:
                ctx.report("%s: no fragment %s of %s" % (what, k, path))
                break
            expect(ctx, "%s: place of fragment %s" % (what, k), (f.path, f.address, f.size, f["data"].size), (path % k, v.at(c) * 8, 4096, min(512, size - k * 512) * 8))
            f = f.next
        else:
            expect(ctx, what + ": fragments after the last one", f, None)
    fat_layout(ctx, what, p, v, data)
    # the other clusters keep their number
    for c in range(2, 9):
        if c in ca or c in cb or root and c in root:
            continue
        f = p["sector[%s]" % c]
        expect(ctx, "%s: cluster %s" % (what, c), (f.address, f.size), (v.at(c) * 8, 4096))


ENTRY = {
    "file": lambda version: file_entry(b"A FILE", b"EXT", 0x20, 3, 100, version),
    "empty": lambda version: file_entry(b"EMPTY", b"", 0x07, 0, 0, version),
    "kanji": lambda version: file_entry(b"\x05BC", b"D", 0x20, 0, 0, version),
    "only": lambda version: file_entry(b"\x05", b"", 0x20, 0, 0, version),
    "deleted": lambda version: b"\xe5" + file_entry(b"ONE", b"BAK", 0x20, 5, 1000, version)[1:],
    "free": lambda version: bytes(32),
    "label": lambda version: file_entry(b"MY VOLUM", b"E", 0x08, 0, 0, version),
    "long1": lambda version: long_entry(0x41, "Readme"),
    "long2": lambda version: long_entry(0x42, "thirteen chrs"),
    "long3": lambda version: long_entry(1, "\u00e9\u20ac name.txt"),
    "dot": lambda version: file_entry(b".", b"", 0x10, 0, 0, version),
    "dots": lambda version: file_entry(b"..", b"", 0x10, 0, 0, version),
}
SHOWN = {
    "file": "File: 'A FILE.EXT'", "empty": "File: 'EMPTY'", "kanji": "File: '\xe5BC.D'", "only": "File: '\xe5'", "deleted": "Deleted file", "free": "Free entry", "label": "File: 'MY VOLUM.E'",
    "long1": "Long filename part: 'Readme' [65]", "long2": "Long filename part: 'thirteen chrs' [66]", "long3": "Long filename part: '\u00e9\\u20ac name.txt' [1]",
    "dot": "File: './'", "dots": "File: '../'",
}


def directory(case, ctx):
    version, deep = case["version"], case["n"]
    for n in range(deep):
        for rest in itertools.product(ENTRY, repeat=n):
            kinds = (case["first"],) + rest
            if kinds.count("file") > 1:
                continue
            what = "FAT%s directory of %s" % (version, list(kinds))
            v = Volume(version, clusters=6, root=[2])
            v.rootdata = b"".join(ENTRY[k](version) for k in kinds)
            body = content(100, 5)
            if "file" in kinds:
                v.write([3], body)
            data = v.image()
            p = opened(ctx, data, FATS[version])
            found = list(p["root[0]"].array("entry"))
            expect(ctx, what + ": number of entries", len(found), (16 if version != 32 else 512 // 32))
            for i, e in enumerate(found):
                k = kinds[i] if i < len(kinds) else "free"
                if not expect(ctx, "%s: entry %s" % (what, i), (e.name, e.address, e.size, e.description), ("entry[%s]" % i, 256 * i, 256, SHOWN[k])):
                    break
                expect(ctx, "%s: entry %s has data" % (what, i), "data" in e, k == "file")
                if k == "file":
                    same_content(ctx, what, p, "/root[0]/entry[%s]/data" % i, body, "A FILE.EXT")
                    fields(ctx, "%s: entry %s" % (what, i), e, size=100, cluster_lo=3, archive=True, directory=False, read_only=False)
                elif k == "empty":
                    fields(ctx, "%s: entry %s" % (what, i), e, size=0, cluster_lo=0, archive=False, read_only=True, hidden=True, system=True, volume_label=False)


def attributes(case, ctx):
    version = case["version"]
    for a in range(64):
        if a & 0x3f == 0x0f or a & 0x10:
            continue
        v = Volume(version, clusters=6, root=[2])
        v.rootdata = file_entry(b"X", b"Y", a | case["high"], 3 | (0 if version != 32 else 0), 3, version)
        v.write([3], b"abc")
        p = opened(ctx, v.image(), FATS[version])
        names = ["read_only", "hidden", "system", "volume_label", "directory", "archive", "device", "unused"]
        fields(ctx, "FAT%s attributes 0x%02x" % (version, a | case["high"]), p["root[0]/entry[0]"], **{n: bool((a | case["high"]) >> i & 1) for i, n in enumerate(names)})


def dates(case, ctx):
    version = case["version"]
    stamps = [(y, mo, d, h, mi, s, cs) for y, mo, d in ((1980, 1, 1), (1980, 12, 31), (1999, 2, 28), (2000, 2, 29), (2024, 6, 15), (2107, 12, 31))
              for h, mi, s, cs in ((0, 0, 0, 0), (23, 59, 59, 99), (1, 2, 3, 4), (12, 30, 44, 50), (0, 0, 58, 1), (16, 32, 31, 99))]
    for c in stamps:
        for k in range(3):
            v = Volume(version, clusters=4, root=[2])
            m = stamps[(stamps.index(c) * 7 + 5 + k) % len(stamps)]
            a = stamps[(stamps.index(c) * 11 + 3 + k) % len(stamps)]
            v.rootdata = file_entry(b"X", b"Y", 0x20, 0, 0, version, c, a, m)
            what = "FAT%s dates %s, %s, %s" % (version, c, a, m)
            e = opened(ctx, v.image(), FATS[version])["root[0]/entry[0]"]
            expect(ctx, what + ": creation", e["create"].description, str(datetime.datetime(*c[:6], c[6] * 10000)))
            expect(ctx, what + ": access", e["access"].description, str(datetime.date(*a[:3])))
            expect(ctx, what + ": modification", e["modify"].description, str(datetime.datetime(*m[:5], m[5] // 2 * 2)))
    for day, month, year, want in ((0, 0, 0, "None"), (0, 1, 0, "invalid"), (31, 2, 5, "invalid"), (1, 13, 1, "invalid"), (29, 2, 21, "invalid")):
        v = Volume(version, clusters=4, root=[2])
        raw = bytearray(file_entry(b"X", b"Y", 0x20, 0, 0, version))
        for at in (16, 18, 24):
            raw[at:at + 2] = struct.pack("<H", day | month << 5 | year << 9)
        v.rootdata = bytes(raw)
        e = opened(ctx, v.image(), FATS[version])["root[0]/entry[0]"]
        expect(ctx, "FAT date %s" % ((day, month, year),), [e[k].description for k in ("create", "access", "modify")], [want] * 3)


def far(case, ctx):
    """Clusters whose number doesn't fit in 16 bits: first ones, later ones, of a file and of a directory"""
    for high in (0, 0xA0000000):
        v = Volume(32, clusters=65700, root=[2])
        chains = [[65536], [65537, 3], [4, 65600, 5], [65701, 65700]]
        bodies = [content(len(c) * 512 - 100, 7 + k) for k, c in enumerate(chains)]
        for c, b in zip(chains, bodies):
            v.write(c, b, high=high)
        v.write([65650], file_entry(b"DEEP", b"BIN", 0x20, chains[0][0], len(bodies[0]), 32))
        v.rootdata = b"".join(file_entry(b"FILE%d" % k, b"BIN", 0x20, c[0], len(b), 32) for k, (c, b) in enumerate(zip(chains, bodies))) + file_entry(b"DIR", b"", 0x10, 65650, 0, 32)
        p = opened(ctx, v.image(), FAT32)
        what = "FAT32 with clusters above 65535 (upper bits %x)" % high
        for k, (c, b) in enumerate(zip(chains, bodies)):
            e = "/root[0]/entry[%s]" % k
            fields(ctx, what, p[e], cluster_hi=c[0] >> 16, cluster_lo=c[0] & 0xFFFF)
            same_content(ctx, "%s: file in %s" % (what, c), p, e + "/data", b, "FILE%d.BIN" % k)
        first = p["/root[0]/entry[%s]/data" % len(chains)].value
        expect(ctx, what + ": directory", first and (first.absolute_address // 8, first["entry[0]"].description), (v.at(65650), "File: 'DEEP.BIN'"))


def trees(case, ctx):
    """A directory in a directory; each is in one or two clusters in any order"""
    version = case["version"]
    base = [3, 4, 5, 6, 7]
    for na, nb in ((1, 1), (2, 1), (1, 2)) if not case["deep"] else ((1, 1), (2, 1), (1, 2), (2, 2)):
        for order in itertools.permutations(base if na + nb < 4 else base, na + nb + 1):
            ca, cb, cf = list(order[:na]), list(order[na:na + nb]), order[-1]
            for asked in case["asked"]:
                tree_one(ctx, version, ca, cb, cf, asked)


def tree_one(ctx, version, ca, cb, cf, asked):
    what = "FAT%s directory in clusters %s, directory in it in %s, file in %s (%s)" % (version, ca, cb, cf, asked)
    v = Volume(version, clusters=7, root=[2])
    body = content(200, 3)
    v.write([cf], body)
    dots = [file_entry(b".", b"", 0x10, ca[0], 0, version), file_entry(b"..", b"", 0x10, 0, 0, version)]
    # the entry which matters is the last one of the last cluster
    ea = dots + [file_entry(b"F%d" % i, b"", 0x20, 0, 0, version) for i in range(len(ca) * 16 - 3)] + [file_entry(b"SUB", b"D", 0x10, cb[0], 0, version)]
    eb = dots + [file_entry(b"G%d" % i, b"", 0x20, 0, 0, version) for i in range(len(cb) * 16 - 3)] + [file_entry(b"DEEP", b"BIN", 0x20, cf, len(body), version)]
    v.write(ca, b"".join(ea))
    v.write(cb, b"".join(eb))
    v.rootdata = file_entry(b"DIR", b"", 0x10, ca[0], 0, version)
    p = opened(ctx, v.image(), FATS[version])
    if asked == "all first":
        for f in p:
            pass
    path = "/root[0]/entry[0]/data"
    for name, chain, size, sub in (("/root\\DIR[%s]", ca, len(ea), "SUB.D"), ("/root\\DIR\\SUB.D[%s]", cb, len(eb), "DEEP.BIN")):
        first = p[path].value
        if first is None:
            ctx.report("%s: %s leads to nothing" % (what, path))
            return
        f, k, last = first, 0, None
        while f is not None:
            if k >= len(chain) or not expect(ctx, what + ": fragment", (f.path, f.address, f.size), (name % k, v.at(chain[min(k, len(chain) - 1)]) * 8, 4096)):
                ctx.report("%s: more fragments" % what)
                return
            expect(ctx, what + ": number of entries", len(list(f.array("entry"))), 16)
            last = f
            f = f.next
            k += 1
        expect(ctx, what + ": number of fragments", k, len(chain))
        e = list(last.array("entry"))[-1]
        want = "File: '%s%s'" % (sub, "/" if sub == "SUB.D" else "")
        if not expect(ctx, what + ": last entry", e.description, want):
            return
        path = e.path + "/data"
    same_content(ctx, what, p, path, body, "DEEP.BIN")
    expect(ctx, what + ": path of the file", p[path].value.path, "/root\\DIR\\SUB.D\\DEEP.BIN[0]")


def roots(case, ctx):
    """Root directory of FAT32 in any chain"""
    for n in (1, 2, 3):
        for chain in itertools.permutations([2, 3, 4, 5], n):
            file_at = 6
            v = Volume(32, clusters=6, root=list(chain))
            v.write([file_at], b"content")
            v.rootdata = b"".join(file_entry(b"F%d" % i, b"", 0x20, 0, 0, 32) for i in range(16 * n - 1)) + file_entry(b"LAST", b"", 0x20, file_at, 7, 32)
            what = "FAT32 with the root directory in %s" % (chain,)
            p = opened(ctx, v.image(), FAT32)
            f = p["root[0]"] if chain[0] == 2 or case["how"] else p["root"].value
            if f is None:
                ctx.report(what + ": no root directory")
                continue
            got, k = [], 0
            while f is not None:
                if k < n:
                    expect(ctx, what + ": fragment", (f.path, f.address, f.size), ("/root[%s]" % k, v.at(chain[k]) * 8, 4096))
                got += [e.description for e in f.array("entry")]
                last = f
                f = f.next
                k += 1
            expect(ctx, what + ": fragments", k, n)
            expect(ctx, what + ": entries", got, ["File: 'F%d'" % i for i in range(16 * n - 1)] + ["File: 'LAST'"])
            same_content(ctx, what, p, list(last.array("entry"))[-1].path + "/data", b"content", "LAST")


def geometry(case, ctx):
    version = case["version"]
    for sector in (512, 1024, 2048, 4096):
        for per in (1, 2, 4):
            for copies in (1, 2):
                for reserved in ((1, 2, 5) if version != 32 else (3, 8, 32)):
                    for max_root in ((16, 33, 224) if version != 32 else (0,)):
                        for total32 in ((0, 1) if version != 32 else (1,)):
                            infos = ((1, 2), (1, 0), (0, 0), (0, 1), (2, 1)) if version == 32 and sector == 512 else ((1, 2),)
                            for info, backup in infos:
                                v = Volume(version, sector, per, reserved, copies, max_root, 5, [2], info, backup, bool(total32))
                                size = v.size
                                body = content(size * 2 + 1, 6)
                                v.write([6, 3, 5], body)
                                v.rootdata = file_entry(b"DATA", b"BIN", 0x20, 6, len(body), version)
                                data = v.image()
                                what = "FAT%s: sectors of %s bytes, clusters of %s, %s copies, %s reserved, %s entries, info %s, copy %s" % (version, sector, per, copies, reserved, max_root, info, backup)
                                p = opened(ctx, data, FATS[version])
                                fields(ctx, what, p, boot__sector_size=sector, boot__cluster_size=per, boot__reserved_sectors=reserved, boot__fat_nb=copies, boot__sign=0x29, boot__serial=0x1234abcd,
                                       boot__label="NO NAME", boot__fs_type="FAT%s" % version, boot__oem_name="MSDOS5.0", boot__hidden=7, boot__track_size=63, boot__head_nb=255, boot__media_desc=0xf8, boot__trail_sig=b"\x55\xaa")
                                if version == 32:
                                    fields(ctx, what, p, boot__fat32_size=v.fat_size, boot__root_start=2, boot__inf_sector=info, boot__boot_copy=backup, boot__fat_flags=0x80)
                                    if info:
                                        expect(ctx, what + ": info", (p["fsinfo"].address, p["fsinfo/free_count"].value, p["fsinfo/nxt_free"].value, p["fsinfo/trail_sig"].value), (info * sector * 8, 77, 88, b"\0\0\x55\xaa"))
                                    if backup:
                                        expect(ctx, what + ": copy", (p["bkboot"].address, p["bkboot/serial"].value), (backup * sector * 8, 0x1234abcd))
                                fat_layout(ctx, what, p, v, data)
                                same_content(ctx, what, p, "/root[0]/entry[0]/data", body, "DATA.BIN")
                                contiguous(ctx, what, p, len(data) * 8, 0)


# ---- partition tables -------------------------------------------------------------------------

def part(system, lba, size, boot=0, chs=(1, 2, 3)):
    head, sec, cyl = chs
    raw = bytes([head, sec | cyl >> 8 << 6, cyl & 255])
    return bytes([boot]) + raw + bytes([system]) + raw[::-1][2:] + bytes([sec | cyl >> 8 << 6, cyl & 255]) + struct.pack("<II", lba, size)


def mbr(parts, seed=0):
    return bytes((i + seed) & 255 for i in range(446)) + b"".join(parts).ljust(64, b"\0") + b"\x55\xaa"


def block(k):
    return bytes([k & 255, k >> 8]) * 256


def sector_fill(blocks, total):
    return b"".join(blocks.get(k, block(k)) for k in range(total))


SYSTEMS = [0x83, 0x82, 0x06, 0x0c, 0xff]


def partitions(case, ctx):
    """Primary partitions: order in the table, places with or without gaps"""
    n = case["n"]
    for slots in itertools.permutations(range(4), n):
        for gaps in itertools.product((0, 1, 5), repeat=n):
            for end in (0, 2):
                pos, where, table = 1, [], [bytes(16)] * 4
                for k, s in enumerate(slots):
                    pos += gaps[k]
                    size = (1, 3, 2, 4)[k]
                    chs = ((0, 1, 0), (254, 63, 1023), (1, 2, 3), (127, 32, 256))[k]
                    table[s] = part(SYSTEMS[k], pos, size, 0x80 if k == 1 else 0, chs)
                    where.append((s, SYSTEMS[k], pos, size, chs))
                    pos += size
                total = pos + end
                what = "partitions %s" % (where,)
                data = sector_fill({0: mbr(table)}, total)
                p = opened(ctx, data, MSDos_HardDrive)
                seen = [f.name for f in p if f.name.startswith("partition")]
                expect(ctx, what + ": partitions", seen, ["partition[%s]" % w[0] for w in where])
                contiguous(ctx, what, p, total * 4096, 0)
                for s in range(4):
                    h = p["mbr/header[%s]" % s]
                    w = [x for x in where if x[0] == s]
                    if not w:
                        expect(ctx, what + ": header %s" % s, (h["system"].value, h.description), (0, "Partition header: (unused)"))
                        continue
                    _, system, lba, size, (head, sec, cyl) = w[0]
                    expect(ctx, what + ": header %s" % s, [h[k].value for k in ("system", "LBA", "size", "start_head", "start_sector", "start_cylinder", "end_head", "end_sector", "end_cylinder", "bootable")],
                           [system, lba, size, head, sec, cyl, head, sec, cyl, 0x80 if where.index(w[0]) == 1 else 0])
                    f = p["partition[%s]" % s]
                    expect(ctx, what + ": place of partition %s" % s, (f.address, f.size, f.value), (lba * 4096, size * 4096, data[lba * 512:(lba + size) * 512]))


def logical(case, ctx):
    """An extended partition of 0 to 4 logical ones, between primary ones"""
    n = case["n"]
    for before in (0, 2):
        for after in (0, 3):
            for gaps in itertools.product((0, 1), repeat=n):
                for starts in itertools.product((1, 3), repeat=n):
                    for tail in (0, 1):
                        blocks, where = {}, []
                        pos = 1
                        table = []
                        if before:
                            table.append(part(0x83, pos, before))
                            pos += before
                        ext = pos
                        # places of the records
                        records = []
                        for k in range(n):
                            pos += gaps[k] if k else 0
                            records.append(pos)
                            pos += starts[k]
                            where.append((pos, 1 + k, SYSTEMS[k]))
                            pos += 1 + k
                        if not n:
                            blocks[ext] = mbr([], 3)
                            pos += 1
                        pos += tail
                        for k in range(n):
                            t = [part(SYSTEMS[k], starts[k], 1 + k)]
                            if k + 1 < n:
                                t.append(part(5, records[k + 1] - ext, starts[k + 1] + 2 + k))
                            blocks[records[k]] = mbr(t, k + 5)
                        table.append(part(5, ext, pos - ext))
                        if after:
                            table.append(part(0x06, pos, after))
                        total = pos + after
                        blocks[0] = mbr(table)
                        data = sector_fill(blocks, total)
                        what = "extended partition of %s logical ones %s, %s blocks before, %s after" % (n, where, before, after)
                        p = opened(ctx, data, MSDos_HardDrive)
                        i = 1 if before else 0
                        f = p["partition[%s]" % i]
                        expect(ctx, what + ": extended partition", (f.address, f.size), (ext * 4096, (pos - ext) * 4096))
                        if after:
                            g = p["partition[%s]" % (i + 1)]
                            expect(ctx, what + ": partition after it", (g.address, g.size), (pos * 4096, after * 4096))
                        for k in range(n):
                            if "partition[0]" not in f:
                                ctx.report("%s: no logical partition %s in %s" % (what, k, f.path))
                                break
                            g = f["partition[0]"]
                            expect(ctx, "%s: place of logical partition %s" % (what, k), (g.absolute_address, g.size, g.value), (where[k][0] * 4096, where[k][1] * 4096, data[where[k][0] * 512:(where[k][0] + where[k][1]) * 512]))
                            expect(ctx, "%s: type of logical partition %s" % (what, k), f["mbr/header[0]/system"].value, where[k][2])
                            more = "partition[1]" in f
                            expect(ctx, "%s: record after %s" % (what, k), more, k + 1 < n)
                            if not more:
                                break
                            f = f["partition[1]"]
                            if k + 1 < n:
                                expect(ctx, "%s: place of record %s" % (what, k + 1), f.absolute_address, records[k + 1] * 4096)


# ---- ISO 9660 ---------------------------------------------------------------------------------

def both(n, size):
    return n.to_bytes(size, "little") + n.to_bytes(size, "big")


TEXTS = [("system_id", 32), ("volume_id", 32)]
TEXTS2 = [("vol_set_id", 128), ("publisher", 128), ("data_preparer", 128), ("application", 128), ("copyright", 37), ("abstract", 37), ("biographic", 37)]


def primary(texts, numbers, stamps):
    out = b"\x01CD001\x01" + b"\0" + b"".join(texts.get(k, "").encode("latin-1").ljust(n) for k, n in TEXTS) + bytes(8)
    out += both(numbers[0], 4) + bytes(32) + both(numbers[1], 2) + both(numbers[2], 2) + both(numbers[3], 2) + both(numbers[4], 4)
    out += struct.pack("<II", numbers[5], numbers[6]) + struct.pack(">II", numbers[7], numbers[8]) + bytes(range(34))
    out += b"".join(texts.get(k, "").encode("latin-1").ljust(n) for k, n in TEXTS2)
    out += b"".join(s for s in stamps) + b"\x01\0" + b"for the application".ljust(512, b"\0") + bytes(653)
    assert len(out) == 2048
    return out


NUMBERS = ["space_size", "set_size", "seq_num", "block_size", "path_table_size", "occu_lpath", "opt_lpath", "occu_mpath", "opt_mpath"]
VALUES = [[1, 1, 1, 2048, 10, 18, 0, 20, 0], [0x12345678, 0x1234, 0x4321, 0x0800, 0x87654321, 0x01020304, 0xf1f2f3f4, 0x0a0b0c0d, 0xfffefdfc], [0xffffffff, 0xffff, 0, 512, 0, 255, 256, 65535, 65536]]
NO_STAMP = b"0" * 16 + b"\0"


def iso_stamp(d, cs=0, zone=0):
    return d.strftime("%Y%m%d%H%M%S").encode() + b"%02d" % cs + bytes([zone & 255])


VOLUMES = {
    "boot": b"\0CD001\x01" + b"EL TORITO SPECIFICATION".ljust(32, b"\0") + b"boot id".ljust(32, b"\0") + struct.pack("<I", 19) + bytes(1973),
    "supplementary": b"\x02CD001\x01" + bytes(i & 255 for i in range(2041)),
    "partition": b"\x03CD001\x01" + bytes(i * 3 & 255 for i in range(2041)),
    "primary": primary({"volume_id": "SECOND"}, VALUES[2], [NO_STAMP] * 4),
}
KIND = {"boot": 0, "supplementary": 2, "partition": 3, "primary": 1}


def iso(case, ctx):
    """Sequences of volume descriptors"""
    for n in range(case["n"]):
        for kinds in itertools.product(VOLUMES, repeat=n):
            for tail in (0, 1, 5000):
                data = bytes(0x8000) + primary({"volume_id": "TITLE"}, VALUES[1], [NO_STAMP] * 4) + b"".join(VOLUMES[k] for k in kinds) + b"\xffCD001\x01" + bytes(2041) + content(tail, 4)
                what = "ISO 9660 volume of %s, %s more bytes" % (list(kinds), tail)
                p = opened(ctx, data, ISO9660)
                found = [f for f in p if f.name.startswith("volume")]
                expect(ctx, what + ": volumes", [(f.address, f.size, f["type"].value) for f in found], [((0x8000 + 2048 * i) * 8, 2048 * 8, t) for i, t in enumerate([1] + [KIND[k] for k in kinds] + [255])])
                contiguous(ctx, what, p, len(data) * 8, 1)
                for i, k in enumerate(kinds):
                    f = found[1 + i]
                    fields(ctx, "%s: volume %s" % (what, i + 1), f, signature=b"CD001", version=1)
                    if k == "boot":
                        fields(ctx, "%s: volume %s" % (what, i + 1), f, content__sys_id="EL TORITO SPECIFICATION", content__boot_id="boot id", content__system_use=VOLUMES["boot"][71:])
                    elif k == "primary":
                        fields(ctx, "%s: volume %s" % (what, i + 1), f, content__volume_id="SECOND", content__space_size=0xffffffff)
                    else:
                        fields(ctx, "%s: volume %s" % (what, i + 1), f, raw_content=VOLUMES[k][7:])


def iso_values(case, ctx):
    for numbers in VALUES:
        for text in ("", "A", "NAME OF THE VOLUME", "x" * 37, "y" * 128):
            for which in [k for k, n in TEXTS + TEXTS2] + ["all"]:
                texts = {k: (text[:n] if which in (k, "all") else "") for k, n in TEXTS + TEXTS2}
                if which == "all":
                    texts = {k: (t and t[:n - 2] + "%s" % i)[:n] for i, ((k, n), t) in enumerate(zip(TEXTS + TEXTS2, texts.values()))}
                for created, changed in ((None, None), (datetime.datetime(1999, 12, 31, 23, 59, 58), None), (datetime.datetime(2004, 2, 29, 1, 2, 3), datetime.datetime(2010, 10, 11, 12, 13, 14))):
                    stamps = [iso_stamp(d) if d else NO_STAMP for d in (created, changed, None, None)]
                    what = "ISO 9660 values %s, texts %s, dates %s" % (numbers, texts, (created, changed))
                    data = bytes(0x8000) + primary(texts, numbers, stamps) + b"\xffCD001\x01" + bytes(2041)
                    p = opened(ctx, data, ISO9660)
                    fields(ctx, what, p["volume[0]/content"], root=bytes(range(34)), struct_ver=1, app_use="for the application", **dict(zip(NUMBERS, numbers)), **texts)
                    m = metadata(p)
                    titles = [t for t in (texts["volume_id"], texts["vol_set_id"]) if t]
                    authors = [t for t in (texts["publisher"], texts["data_preparer"]) if t]

                    def many(x):
                        x = list(dict.fromkeys(x))
                        # a value which is the start of another one is not kept
                        x = [t for t in x if not any(u != t and u.startswith(t) for u in x)]
                        return x[0] if len(x) == 1 else x or None
                    check_meta(ctx, what, m, title=many(titles), author=many(authors), producer=texts["application"] or None, copyright=texts["copyright"] or None, creation_date=created, last_modification=changed)


# ---- Linux swap -------------------------------------------------------------------------------

def swap(case, ctx):
    for magic, kind in ((b"SWAP-SPACE", "Linux swap file version 1"), (b"SWAPSPACE2", "Linux swap file version 2"), (b"S1SUSPEND\0", "Suspend swap file version 1")):
        for pages in (1, 2, 3, 5):
            for bad in ((), (1,), (1, 2), (2, 4, 3)):
                if len(bad) > pages - 0 or len(bad) >= pages and bad:
                    continue
                for tail in (0, 1, 4096):
                    head = bytes(i & 255 for i in range(1024)) + struct.pack("<III", 1, pages, len(bad)) + bytes(range(16)) + b"label".ljust(16, b"\0") + bytes(117 * 4) + b"".join(struct.pack("<I", b) for b in bad)
                    data = head.ljust(4086, b"\0") + magic + b"".join(bytes([65 + k]) * 4096 for k in range(pages)) + bytes(tail)
                    what = "swap file %s of %s pages, bad ones %s, %s more bytes" % (magic, pages, bad, tail)
                    p = opened(ctx, data, LinuxSwapFile)
                    fields(ctx, what, p, version=1, last_page=pages, nb_badpage=len(bad), sws_uuid=bytes(range(16)))
                    expect(ctx, what + ": bad pages", [f.value for f in p["badpages"]] if bad else [], list(bad))
                    expect(ctx, what + ": pages", [(f.absolute_address, f.size, f.value) for f in p["pages"]], [(4096 * (1 + k) * 8, 4096 * 8, bytes([65 + k]) * 4096) for k in range(pages)])
                    expect(ctx, what + ": description", p.description, "%s, page size: %s, %s pages" % (kind, humanFilesize(4096), pages - len(bad)))
                    expect(ctx, what + ": identifier", p["sws_uuid"].display, "00010203-0405-0607-0809-0a0b0c0d0e0f")
                    contiguous(ctx, what, p, len(data) * 8, 1)


# ---- EXT2 -------------------------------------------------------------------------------------

TYPE = {"Fifo": 1, "Character device": 2, "Directory": 4, "Block device": 6, "Regular": 8, "Symbolic link": 10, "Socket": 12}
LETTER = {1: "p", 2: "c", 4: "d", 6: "b", 8: "-", 10: "l", 12: "s"}


class Ext:
    """An EXT2 volume; blocks are given by number"""

    def __init__(self, log=0, inode_size=128, per_group=64, groups=1, inodes=16, last=None, creator=0):
        self.log, self.block, self.inode_size, self.per_group, self.groups, self.inodes, self.creator = log, 1024 << log, inode_size, per_group, groups, inodes, creator
        self.first = 1 if log == 0 else 0
        self.count = self.first + per_group * (groups - 1) + (last or per_group)
        self.blocks = {}
        self.nodes = {}
        self.table_blocks = -(-inodes * inode_size // self.block)
        self.free = 9
        self.free_inodes = 5
        self.volume = ("volume", "/mnt/last")
        self.used = {}

    def group_start(self, g):
        return self.first + g * self.per_group

    def layout(self, g):
        """Blocks of the bitmaps and of the table of the group"""
        s = self.group_start(g) + (2 if g == 0 else 0)
        if g == 0 and self.first == 0:
            s = 2
        return s, s + 1, s + 2

    def data_start(self, g=0):
        return self.layout(g)[2] + self.table_blocks

    def node(self, number, mode, size, nblocks=0, block=b"", links=1, uid=0, gid=0, times=(0, 0, 0, 0), flags=0, acl=0):
        raw = struct.pack("<HHIIIIIHHIII", mode, uid, size & 0xffffffff, *times, gid, links, nblocks, flags, 0) + block.ljust(60, b"\0") + struct.pack("<IIII", 7, acl, size >> 32, 0)
        raw += bytes(12)
        self.nodes[number] = raw.ljust(self.inode_size, b"\0")

    def superblock(self):
        out = struct.pack("<IIIIIIIIIIIIIHHHHHHIIIIHH", self.inodes * self.groups, self.count, 3, self.free, self.free_inodes, self.first, self.log, self.log, self.per_group, self.per_group, self.inodes,
                          0x50000000, 0x50000001, 4, 20, 0xef53, 1, 1, 0, 0x4fffffff, 86400, self.creator, 1, 0, 0)
        out += struct.pack("<IHHIII", 11, self.inode_size, 0, 0x38, 2, 1) + bytes(range(16)) + self.volume[0].encode().ljust(16, b"\0") + self.volume[1].encode().ljust(64, b"\0") + struct.pack("<IBBH", 0, 1, 2, 3)
        out += bytes(16) + struct.pack("<III", 8, 0, 0) + bytes(16) + struct.pack("<BBHIII", 1, 0, 0, 0xc, 0, 0x4f000000) + bytes(68)
        return out.ljust(1024, b"\0")

    def image(self):
        out = [self.blocks.get(b, b"\xa5" * self.block) for b in range(self.count)]
        sb = bytes(1024) + self.superblock()
        descriptors = b""
        for g in range(self.groups):
            bb, ib, it = self.layout(g)
            descriptors += struct.pack("<IIIHHHH", bb, ib, it, 10 + g, 20 + g, 30 + g, 4) + bytes(12)
            n = min(self.per_group, self.count - self.group_start(g))
            used = self.used.get(g, (1 << it - self.group_start(g) + self.table_blocks) - 1) & (1 << n) - 1
            out[bb] = (used | (1 << 8 * self.block) - (1 << n)).to_bytes(self.block, "little")
            bits, table = 0, b""
            for i in range(self.inodes):
                number = 1 + g * self.inodes + i
                if number in self.nodes:
                    bits |= 1 << i
                table += self.nodes.get(number, bytes(self.inode_size))
            out[ib] = (bits | (1 << 8 * self.block) - (1 << self.inodes)).to_bytes(self.block, "little")
            table = table.ljust(self.table_blocks * self.block, b"\0")
            for k in range(self.table_blocks):
                out[it + k] = table[k * self.block:(k + 1) * self.block]
        if self.log == 0:
            out[0], out[1] = sb[:1024], sb[1024:]
            out[2] = descriptors.ljust(1024, b"\0")
        else:
            out[0] = sb.ljust(self.block, b"\0")
            out[1] = descriptors.ljust(self.block, b"\0")
        return b"".join(out)


def ext_layout(ctx, what, p, v):
    sb = p["superblock"]
    fields(ctx, what, sb, inodes_count=v.inodes * v.groups, blocks_count=v.count, r_blocks_count=3, free_blocks_count=v.free, free_inodes_count=v.free_inodes, first_data_block=v.first, log_block_size=v.log, blocks_per_group=v.per_group,
           inodes_per_group=v.inodes, mnt_count=4, max_mnt_count=20, magic=0xef53, state=1, errors=1, creator_os=v.creator, rev_level=1, first_ino=11, inode_size=v.inode_size, uuid=bytes(range(16)), volume_name=v.volume[0], last_mounted=v.volume[1],
           prealloc_blocks=1, prealloc_dir_blocks=2, reserved_gdt_blocks=3, journal_inum=8, def_hash_version=1, mtime=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=0x50000000), wtime=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=0x50000001),
           last_check=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=0x4fffffff), mkfs_time=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=0x4f000000))
    fields(ctx, what, sb, feature_compat__ext_attr=True, feature_compat__has_journal=False, feature_compat__dir_index=True, feature_incompat__filetype=True, feature_incompat__recover=False, feature_ro_compat__sparse_super=True)
    expect(ctx, what + ": superblock", (sb.address, sb.size), (8192, 8192))
    for g in range(v.groups):
        bb, ib, it = v.layout(g)
        d = p["group_desc/group[%s]" % g]
        expect(ctx, "%s: descriptor %s" % (what, g), [d[k].value for k in ("block_bitmap", "inode_bitmap", "inode_table", "free_blocks_count", "free_inodes_count", "used_dirs_count")] + [d["bg_flags/inode_zeroed"].value, d["bg_flags/inode_uninit"].value],
               [bb, ib, it, 10 + g, 20 + g, 30 + g, True, False])
        grp = p["group[%s]" % g]
        for name, at, size in (("block_bitmap", bb, v.block), ("inode_bitmap", ib, v.block), ("inode_table", it, v.inodes * v.inode_size)):
            f = grp[name]
            expect(ctx, "%s: place of %s of group %s" % (what, name, g), (f.absolute_address, f.size), (at * v.block * 8, size * 8))
        n = min(v.per_group, v.count - v.group_start(g))
        used = v.used.get(g, (1 << it - v.group_start(g) + v.table_blocks) - 1)
        items = list(grp["block_bitmap"].array("item"))
        expect(ctx, "%s: bits of the blocks of group %s" % (what, g), [f.value for f in items], [bool(used >> i & 1) for i in range(n)])
        expect(ctx, "%s: first block of the bitmap of group %s" % (what, g), items[0].description if items else None, "Block %s" % v.group_start(g))
        contiguous(ctx, what, grp["block_bitmap"], v.block * 8, 0)
        items = list(grp["inode_bitmap"].array("item"))
        expect(ctx, "%s: bits of the inodes of group %s" % (what, g), [f.value for f in items], [1 + g * v.inodes + i in v.nodes for i in range(v.inodes)])
        for i in range(v.inodes):
            f = grp["inode_table/inode[%s]" % i]
            if not expect(ctx, "%s: place of inode %s of group %s" % (what, i, g), (f.absolute_address, f.size), ((it * v.block + i * v.inode_size) * 8, v.inode_size * 8)):
                break


def ext_geometry(case, ctx):
    log = case["log"]
    for inode_size in (128, 256, 512):
        for groups in (1, 2, 3):
            for per in (32, 64):
                for last in (None, 16, 17, 23):
                    for inodes in (16, 24):
                        v = Ext(log, inode_size, per, groups, inodes, last)
                        if v.layout(groups - 1)[2] + v.table_blocks > v.count or groups == 1 and v.data_start() + 2 > v.count or v.table_blocks + 6 > per:
                            continue
                        what = "EXT2, blocks of %s bytes, inodes of %s, %s groups of %s blocks, the last of %s, %s inodes" % (v.block, inode_size, groups, per, last or per, inodes)
                        v.used = {g: 0x5a5a5a5a5aff >> g for g in range(groups)}
                        v.node(2, 0x41ed, v.block, v.block // 512, struct.pack("<I", v.data_start()), 3)
                        v.blocks[v.data_start()] = dirents([(2, 2, b".", 0), (2, 2, b"..", 0)], v.block)
                        p = opened(ctx, v.image(), EXT2_FS)
                        ext_layout(ctx, what, p, v)
                        expect(ctx, what + ": description", p.description, "EXT2 file system: total=%s, used=%s, block=%s" % (humanFilesize(v.count * v.block), humanFilesize((v.count - v.free) * v.block), humanFilesize(v.block)))


def dirents(entries, size):
    """Entries (inode, type, name, more bytes of its record); the last one ends the block"""
    out = b""
    for k, (inode, kind, name, more) in enumerate(entries):
        n = (8 + len(name) + 3) // 4 * 4 + more
        if k == len(entries) - 1:
            n = size - len(out)
        out += (struct.pack("<IHBB", inode, n, len(name), kind) + name).ljust(n, b"\0")
    assert len(out) == size
    return out


def ext_files(case, ctx):
    """Files of n blocks in all orders, with one indirect block from the 13th one"""
    log, n = case["log"], case["n"]
    v0 = Ext(log, 128, 64, case["groups"], 16)
    own = case["number"] // 16
    start = v0.data_start(own)
    if n <= 3:
        orders = list(itertools.permutations(range(start, start + 4), n))
        if case["other"]:
            a = v0.data_start(1 - own)
            orders = [o for o in itertools.permutations([start, start + 1, a, a + 1], n) if a in o or a + 1 in o]
    else:
        base = list(range(start, start + n))
        orders = [base, base[::-1], base[1:] + base[:1], base[n // 2:] + base[:n // 2]] + [base[:i] + [base[i + 1], base[i]] + base[i + 2:] for i in range(n - 1)]
    key = "block-of-another-group" if case["other"] else None
    for order in orders:
        for number in (case["number"],):
            for partial in ((0, 1) if n <= 3 else (0,)):
                v = Ext(log, 128, 64, case["groups"], 16)
                extra = []
                pointers = [order[i] if i < n else 0 for i in range(12)] + [0, 0, 0]
                if n > 12:
                    indirect = start + n + 1
                    pointers[12] = indirect
                    v.blocks[indirect] = b"".join(struct.pack("<I", b) for b in order[12:]).ljust(v.block, b"\0")
                for k, b in enumerate(order):
                    v.blocks[b] = content(v.block, 3 + k)
                size = n * v.block - (v.block - 7 if partial else 0)
                v.node(number, 0x81a4, size, (n + (n > 12)) * v.block // 512, struct.pack("<15I", *pointers), 1, 1000, 100, (1, 2, 3, 4))
                v.node(number + 1, 0x81a4, v.block, v.block // 512, struct.pack("<I", start + n + 6), 1)
                v.blocks[start + n + 6] = content(v.block, 99)
                what = "EXT2, blocks of %s bytes: file of inode %s in blocks %s" % (v.block, number, list(order))
                p = opened(ctx, v.image(), EXT2_FS)
                g, i = divmod(number - 1, 16)
                node = p["group[%s]/inode_table/inode[%s]" % (g, i)]
                fields(ctx, what, node, size=size, size_high=0, links_count=1, uid=1000, gid=100, atime=datetime.datetime(1970, 1, 1, 0, 0, 1), ctime=datetime.datetime(1970, 1, 1, 0, 0, 2), mtime=datetime.datetime(1970, 1, 1, 0, 0, 3),
                       dtime=datetime.datetime(1970, 1, 1, 0, 0, 4), version=7)
                expect(ctx, what + ": block numbers", [f.value for f in node.array("block")], pointers)
                expect(ctx, what + ": description of the inode", node.description, "Inode %s: Regular, size=%s, mode=-rw-r--r--" % (number, humanFilesize(size)))
                grp = p["group[%s]" % g]
                got = []
                for f in grp:
                    if f.name.startswith("inode[%s]block" % i):
                        got.append(f.absolute_address // 8)
                if got != [b * v.block for b in order]:
                    ctx.report("%s: places of the blocks: %s" % (what, got), key=key)
                    continue
                s = grp["inode[%s]block[0]" % i].getSubIStream()
                expect(ctx, what + ": content", s.readBytes(0, s.size // 8), b"".join(content(v.block, 3 + k) for k in range(n)))
                s = p["group[%s]/inode[%s]block[0]" % divmod(number, 16)].getSubIStream()
                expect(ctx, what + ": content of the next file", s.readBytes(0, s.size // 8), content(v.block, 99))


def ext_modes(case, ctx):
    kind = case["kind"]
    t = TYPE[kind]
    for bits in range(4096):
        if case["part"] != bits % 4:
            continue
        v = Ext(0, 128, 32, 1, 16)
        block = b""
        if t in (2, 6):
            block = bytes([7, 9])
        size, nblocks = 100, 0
        if t == 10:
            target = b"../target"
            block, size = target, len(target)
        v.node(12, t << 12 | bits, size, nblocks, block, 1)
        p = opened(ctx, v.image(), EXT2_FS)
        node = p["group[0]/inode_table/inode[11]"]
        letters = LETTER[t]
        for k, (who, special, c) in enumerate((("owner", 2048, "sS"), ("group", 1024, "sS"), ("other", 512, "tT"))):
            b = bits >> 6 - 3 * k & 7
            letters += ("r" if b & 4 else "-") + ("w" if b & 2 else "-")
            x = "x" if b & 1 else "-"
            if bits & special:
                x = c[0] if b & 1 else c[1]
            letters += x
        what = "EXT2 inode of mode 0%o (%s)" % (t << 12 | bits, kind)
        expect(ctx, what + ": mode", (node["mode"].value, node["mode"].display, node["mode/file_type"].value, node["mode/file_type"].display), (t << 12 | bits, letters, t, kind))
        more = {2: " (9,7)", 6: " (9,7)", 10: " (-> ../target)"}.get(t, "")
        expect(ctx, what + ": description", node.description, "Inode 12: %s%s, size=%s, mode=%s" % (kind, more, humanFilesize(size), letters))


def ext_links(case, ctx):
    """Targets of symbolic links of 1 to 60 bytes, with and without an ACL block; longer ones are in a block"""
    log = case["log"]
    for n in list(range(1, 62)) + [100]:
        for acl in (0, 1):
            v = Ext(log, 128, 64, 1, 16)
            target = bytes(65 + i % 26 for i in range(n))
            sectors = v.block // 512
            start = v.data_start()
            if n <= 60:
                v.node(13, 0xa1ff, n, sectors if acl else 0, target, 1, acl=start + 3 if acl else 0)
            else:
                v.node(13, 0xa1ff, n, sectors * (1 + acl), struct.pack("<I", start), 1, acl=start + 3 if acl else 0)
                v.blocks[start] = target.ljust(v.block, b"\0")
            what = "EXT2, blocks of %s bytes: link to %s bytes%s" % (v.block, n, ", with an ACL" if acl else "")
            p = opened(ctx, v.image(), EXT2_FS)
            node = p["group[0]/inode_table/inode[12]"]
            if n <= 60:
                expect(ctx, what, get(node, "link_target"), target.decode())
                expect(ctx, what + ": description", node.description, "Inode 13: Symbolic link (-> %s), size=%s, mode=lrwxrwxrwx" % (target.decode(), humanFilesize(n)))
            else:
                s = p["group[0]/inode[12]block[0]"].getSubIStream()
                expect(ctx, what, s.readBytes(0, n), target)
            contiguous(ctx, what, node, 1024, 0)


NAMES = [(2, 2, b".", 0), (12, 1, b"file", 0), (13, 7, b"l", 0), (14, 2, b"directory", 0), (0, 0, b"", 4), (15, 1, b"name of 255 bytes" * 15, 0), (16, 4, b"abc", 12)]
KINDS = {0: None, 1: "Regular", 2: "Directory", 4: "Block dev.", 7: "Symlink"}


def ext_dirs(case, ctx):
    for n in range(case["n"]):
        for rest in itertools.product(range(len(NAMES)), repeat=n):
            entries = [NAMES[case["first"]]] + [NAMES[k] for k in rest]
            for blocks in (1, 2):
                v = Ext(case["log"], 128, 64, 1, 16)
                start = v.data_start()
                if sum((8 + len(e[2]) + 3) // 4 * 4 + e[3] for e in entries) > v.block - 12:
                    continue
                halves = [entries] if blocks == 1 else [entries, entries[::-1]]
                for k, e in enumerate(halves):
                    v.blocks[start + 1 - k] = dirents(e, v.block)
                v.node(2, 0x41ed, v.block * blocks, blocks * v.block // 512, struct.pack("<II", start + 1, start if blocks == 2 else 0), 2)
                what = "EXT2 directory of %s in %s blocks of %s bytes" % ([e[2][:12] for e in entries], blocks, v.block)
                p = opened(ctx, v.image(), EXT2_FS)
                s = p["group[0]/inode[1]block[0]"].getSubIStream()
                d = guessParser(s)
                if d is None:
                    ctx.report(what + ": no parser")
                    continue
                flat = [e for h in halves for e in h]
                found = list(d)
                if not expect(ctx, what + ": entries", [f.name for f in found], ["entry[%s]" % k for k in range(len(flat))]):
                    continue
                for f, (inode, kind, name, more) in zip(found, flat):
                    fields(ctx, what, f, inode=inode, name_len=len(name), file_type=kind)
                    if name:
                        expect(ctx, what + ": name", f["name"].value, name.decode())
                    expect(ctx, what + ": description", f.description, "Directory entry: %s" % name.decode() if name else "Directory entry (empty)")
                    if kind:
                        expect(ctx, what + ": type", f["file_type"].display, KINDS[kind])
                contiguous(ctx, what, d, blocks * v.block * 8, 1)


def main():
    c = lib.Check("A06", "model_checking",
                  "all places of the clusters of files and directories of small FAT12, FAT16 and FAT32 volumes, all sequences of directory entries, geometries; all orders and gaps of partitions, extended partitions; sequences of ISO 9660 "
                  "volume descriptors and their values; swap files; EXT2 geometries, files in blocks in all orders, modes, links, directories, written byte by byte: places, values, contents of the files",
                  bounds={"FAT": "files in up to 4 of 5 clusters, directories of %s entries of %s kinds" % (2 if True else 3, len(ENTRY)), "partitions": "4 primary or 4 logical", "EXT2": "up to 20 blocks by file, 3 groups"})
    deep = not c.quick
    pairs = [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (2, 2)] if deep else [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1)]
    vr = [(12, 2), (16, 2), (32, 2), (32, 8)]
    c.domain("clusters of FAT files", [{"version": v, "root": r, "a": a, "b": b, "deep": deep, "ends": 0} for v, r in vr for a, b in pairs + ([(4, 0), (3, 1)] if deep else [])], chains_case, batch=1, cpu_limit=800)
    c.domain("ends of FAT chains", [{"version": v, "root": r, "a": a, "b": b, "deep": deep, "ends": 1} for v, r in vr for a, b in pairs], chains_case, batch=1, cpu_limit=800)
    c.domain("FAT entries", [{"version": v, "first": k, "n": 3 if deep else 2} for v in FATS for k in ENTRY], directory, batch=1, cpu_limit=800)
    c.domain("FAT attributes", [{"version": v, "high": h} for v in FATS for h in (0, 0x40, 0x80, 0xc0)], attributes, batch=1, cpu_limit=800)
    c.domain("FAT dates", [{"version": v} for v in FATS], dates, batch=1, cpu_limit=800)
    c.domain("FAT trees", [{"version": v, "deep": deep, "asked": [a]} for v in FATS for a in ("links first", "all first")], trees, batch=1, cpu_limit=800)
    c.domain("FAT32 root directories", [{"how": h} for h in (0,)], roots, batch=1, cpu_limit=800)
    c.domain("FAT32 clusters above 65535", [{}], far, batch=1, cpu_limit=800)
    c.domain("FAT geometries", [{"version": v} for v in FATS], geometry, batch=1, cpu_limit=800)
    c.domain("partitions", [{"n": n} for n in (1, 2, 3, 4)], partitions, batch=1, cpu_limit=800)
    c.domain("logical partitions", [{"n": n} for n in range(5 if not deep else 6)], logical, batch=1, cpu_limit=800)
    c.domain("ISO 9660 volumes", [{"n": 5 if deep else 4}], iso, batch=1, cpu_limit=800)
    c.domain("ISO 9660 values", [{}], iso_values, batch=1, cpu_limit=800)
    c.domain("swap files", [{}], swap, batch=1, cpu_limit=800)
    c.domain("EXT2 geometries", [{"log": k} for k in range(3)], ext_geometry, batch=1, cpu_limit=800)
    c.domain("EXT2 files", [{"log": k, "n": n, "groups": g, "number": i, "other": 0} for k in (0, 1, 2) for g, i in ((1, 11), (1, 14), (2, 12), (2, 20)) for n in (1, 2, 3, 11, 12, 13, 14, 20)], ext_files, batch=1, cpu_limit=800)
    c.domain("EXT2 files in two groups", [{"log": k, "n": n, "groups": 2, "number": i, "other": 1} for k in (0, 2) for i in (12, 20) for n in (1, 2, 3)], ext_files, batch=1, cpu_limit=800)
    c.domain("EXT2 modes", [{"kind": k, "part": i} for k in TYPE for i in range(4)], ext_modes, batch=1, cpu_limit=800)
    c.domain("EXT2 links", [{"log": k} for k in range(3)], ext_links, batch=1, cpu_limit=800)
    c.domain("EXT2 directories", [{"log": k, "first": f, "n": 4 if deep else 3} for k in (0, 2) for f in range(len(NAMES))], ext_dirs, batch=1, cpu_limit=800)
    c.main()


if __name__ == "__main__":
    main()
