"""A11: compound documents (OLE2): every stream has its bytes wherever its sectors are, the properties and texts of summaries are shown and in the metadata."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, direct, expect, fields, get, metadata, opened
from hachoir.parser import guessParser
from hachoir.parser.misc import OLE2_File

FREE, END, FATSECT, DIFSECT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
T1601 = datetime.datetime(1601, 1, 1)


def win64(t):
    d = t - T1601
    return (d.days * 86400 + d.seconds) * 10 ** 7 + d.microseconds * 10


def content(n, seed):
    out = bytes((seed * 37 + i * 7 + (i >> 8) * 13 + (i >> 6)) & 255 for i in range(n))
    return out


class Stream:
    def __init__(self, name, data, kind=2, times=(0, 0), tree=(FREE, FREE, FREE), color=1):
        self.name, self.data, self.kind, self.times, self.tree, self.color = name, data, kind, times, tree, color


def cut(owner, n, parts):
    """n sectors of a chain, in runs of about the same length"""
    parts = min(parts, n)
    at = [n * k // parts for k in range(parts + 1)]
    return [[(owner, i) for i in range(a, b)] for a, b in zip(at, at[1:])]


def ole(streams, version=3, runs=1, order=None, mini_runs=1, mini_order=None, fat_sectors=None, hole=0, threshold=4096):
    """(bytes, description): order: permutation of the runs of sectors"""
    shift = 9 if version == 3 else 12
    S = 1 << shift
    per = S // 4
    small = [k for k, s in enumerate(streams) if s.kind == 2 and 0 < len(s.data) < threshold]
    big = [k for k, s in enumerate(streams) if s.kind == 2 and len(s.data) >= threshold]
    # sectors of 64 bytes
    mruns = [r for k in small for r in cut(k, -(-len(streams[k].data) // 64), mini_runs)]
    if mini_order is not None:
        mruns = [mruns[i] for i in mini_order if i < len(mruns)]
    mini = [x for r in mruns for x in r]
    mini_pos = {x: i for i, x in enumerate(mini)}
    mini_fat = [END] * len(mini)
    mini_data = bytearray(64 * len(mini))
    for (k, i), pos in mini_pos.items():
        mini_data[64 * pos:64 * pos + 64] = streams[k].data[64 * i:64 * i + 64].ljust(64, b"\0")
        if (k, i + 1) in mini_pos:
            mini_fat[pos] = mini_pos[k, i + 1]
    nmini = -(-len(mini_data) // S)
    nminifat = -(-len(mini) // per)
    ndir = -(-(len(streams) + 1) * 128 // S)
    chains = [("dir", ndir)] + ([("minifat", nminifat), ("mini", nmini)] if mini else []) + [(k, -(-len(streams[k].data) // S)) for k in big]
    pieces = [r for owner, n in chains for r in cut(owner, n, runs if owner not in ("dir", "minifat") else 1)]
    count = sum(map(len, pieces)) + hole
    nfat = fat_sectors or 1
    ndif = 0
    while fat_sectors is None and nfat * per < count + nfat:
        nfat += 1
    if nfat > 109:
        ndif = -(-(nfat - 109) // (per - 1))
    pieces += [[("fat", i) for i in range(nfat)]] + ([[("difat", i) for i in range(ndif)]] if ndif else [])
    if order is not None:
        pieces = [pieces[i] for i in order if i < len(pieces)]
    sectors = []
    for j, r in enumerate(pieces):
        sectors += r
        if j == 0:
            sectors += [None] * hole
    pos = {x: i for i, x in enumerate(sectors) if x}
    fat = [FREE] * (nfat * per)
    for x, i in pos.items():
        if x[0] == "fat":
            fat[i] = FATSECT
        elif x[0] == "difat":
            fat[i] = DIFSECT
        else:
            fat[i] = pos.get((x[0], x[1] + 1), END)
    entries = [Stream("Root Entry", bytes(mini_data), 5, tree=(FREE, FREE, 1 if streams else FREE))] + list(streams)
    d = b""
    starts = []
    for k, s in enumerate(entries):
        if k == 0:
            start = pos["mini", 0] if mini else END
        elif k - 1 in big:
            start = pos[k - 1, 0]
        elif k - 1 in small:
            start = mini_pos[k - 1, 0]
        else:
            start = END if s.kind == 2 else 0
        starts.append(start)
        raw = (s.name + "\0").encode("utf-16-le")
        d += raw.ljust(64, b"\0") + struct.pack("<HBBIII16sIQQIQ", len(raw), s.kind, s.color, *s.tree, bytes(16), 0, s.times[0], s.times[1], start, len(s.data) if s.kind != 1 else 0)
    d = d.ljust(ndir * S, b"\0")
    blob = {"dir": d, "minifat": struct.pack("<%dI" % (nminifat * per), *(mini_fat + [FREE] * (nminifat * per - len(mini)))), "mini": bytes(mini_data), "fat": struct.pack("<%dI" % len(fat), *fat)}
    fats = [pos["fat", i] for i in range(nfat)]
    dif = b""
    rest = fats[109:]
    for i in range(ndif):
        part = rest[i * (per - 1):(i + 1) * (per - 1)]
        dif += struct.pack("<%dI" % per, *(part + [FREE] * (per - 1 - len(part)) + [pos.get(("difat", i + 1), END)]))
    blob["difat"] = dif
    for k in big:
        blob[k] = streams[k].data
    h = dict(ver_min=0x3E, ver_maj=version, bb_shift=shift, sb_shift=6, csectdir=ndir if version == 4 else 0, bb_count=nfat, bb_start=pos["dir", 0], threshold=threshold, sb_start=pos["minifat", 0] if mini else END,
             sb_count=nminifat, db_start=pos["difat", 0] if ndif else END, db_count=ndif)
    head = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1" + bytes(16) + struct.pack("<HH2sHH6xIII4xIIIII", h["ver_min"], h["ver_maj"], b"\xFE\xFF", h["bb_shift"], h["sb_shift"], h["csectdir"], h["bb_count"], h["bb_start"], h["threshold"], h["sb_start"], h["sb_count"], h["db_start"], h["db_count"])
    head += struct.pack("<109I", *(fats[:109] + [FREE] * (109 - len(fats[:109]))))
    out = bytearray(head.ljust(S, b"\0"))
    for x in sectors:
        out += blob[x[0]][x[1] * S:(x[1] + 1) * S].ljust(S, b"\0") if x else b"\xEE" * S
    return bytes(out), dict(header=h, entries=entries, starts=starts, fat=fat, fats=fats, sector=S, used=max(pos.values()) + 1, small=small, big=big, mini_fat=mini_fat)


def fragment(ctx, what, f, data, unit):
    """The bytes of a stream, from its fragment"""
    sub = f.getSubIStream()
    want = data.ljust(-(-len(data) // unit) * unit, b"\0")
    if expect(ctx, what + ": size", sub.askSize(None) or sub.size, len(want) * 8):
        expect(ctx, what + ": bytes", sub.readBytes(0, len(want)) == want, True)


def check_ole(ctx, what, data, info, raw=True):
    p = opened(ctx, data, OLE2_File)
    p._feedAll()
    fields(ctx, what, p["header"], **info["header"])
    S = info["sector"]
    props = p.array("property")
    entries = info["entries"]
    if not expect(ctx, what + ": properties", len(props), -(-len(entries) * 128 // S) * S // 128):
        return p
    for f, s, start in zip(props, entries, info["starts"]):
        size = len(s.data) if s.kind != 1 else 0
        fields(ctx, what, f, name=s.name, namelen=2 * len(s.name) + 2, type=s.kind, decorator=s.color, left=s.tree[0], right=s.tree[1], child=s.tree[2], start=start, size=size)
        for n, t in zip(("creation", "lastmod"), s.times):
            expect(ctx, "%s: %s of %s" % (what, n, s.name), f[n].value, T1601 + datetime.timedelta(microseconds=t // 10))
    for k, n in enumerate(info["fats"]):
        f = p["bbfat[%s]" % k]
        per = S // 4
        expect(ctx, "%s: place of %s" % (what, f.name), f.address, (n + 1) * S * 8)
        part = info["fat"][k * per:(k + 1) * per]
        if k in (0, len(info["fats"]) - 1):
            expect(ctx, "%s: values of %s" % (what, f.name), [x.value for x in f], part)
    expect(ctx, what + ": size of the content", p.content_size, (info["used"] + 1) * S * 8)
    if "root[0]" in p:
        mini = p["root[0]"].getSubIStream()
        mini = guessParser(mini)
        mini._feedAll()
    elif info["small"]:
        ctx.report("%s: no root" % what)
        return p
    for k, s in enumerate(entries[1:]):
        if not s.data:
            continue
        where, unit = (mini, 64) if k in info["small"] else (p, S)
        name = "property[%s]content[0]" % (k + 1)
        if s.name in SPECIAL:
            name = SPECIAL[s.name] + "[0]"
        if name not in where:
            ctx.report("%s: %s (%s) is missing" % (what, name, s.name))
            continue
        fragment(ctx, "%s: %s" % (what, name), where[name], s.data, unit)
        if raw and s.name not in SPECIAL:
            sub = guessParser(where[name].getSubIStream())
            expect(ctx, "%s: content of %s" % (what, s.name), sub["rawdata"].value == s.data, True)
            slack = -len(s.data) % unit
            expect(ctx, "%s: end of %s" % (what, s.name), len(get(sub, "slack_space")) if slack else get(sub, "slack_space"), slack or "no field")
    return p


SPECIAL = {"\5SummaryInformation": "summary", "\5DocumentSummaryInformation": "doc_summary", "\1CompObj": "compobj", "Workbook": "workbook", "PowerPoint Document": "powerpointdoc", "Current User": "current_user", "Catalog": "catalog"}


def sizes(case, ctx):
    """Streams of all sizes near the sizes of sectors"""
    version = case["version"]
    S = 512 if version == 3 else 4096
    some = [0, 1, 63, 64, 65, 128, 511, 512, 513, 4095, 4096, 4097, 4608, 8192, 8193]
    for k in range(case["n"] + 1):
        for seq in itertools.product(some, repeat=k) if k < 3 else itertools.combinations(some, k):
            streams = [Stream("s%s" % j, content(n, j)) for j, n in enumerate(seq)]
            data, info = ole(streams, version)
            check_ole(ctx, "version %s, streams of %s bytes" % (version, seq), data, info)


def fragments(case, ctx):
    """All orders of the runs of sectors"""
    version = case["version"]
    S = 512 if version == 3 else 4096
    streams = [Stream("big", content(4096 + (4 * S if version == 4 else 700), 1)), Stream("small", content(100, 2)), Stream("other", content(4100 if version == 3 else 8200, 3))]
    n = 0
    # dir, minifat, mini, big x 2, other x 2 (or 3), fat
    for order in itertools.permutations(range(8)):
        n += 1
        if n % case["step"] != case["i"]:
            continue
        data, info = ole(streams, version, runs=2, order=order)
        check_ole(ctx, "version %s, runs of sectors in order %s" % (version, order), data, info, raw=False)
    for k in case["runs"]:
        for hole in (0, 1, 3):
            for order in itertools.permutations(range(4)):
                full = tuple(order) + tuple(range(4, 40))
                data, info = ole(streams, version, runs=k, order=full, hole=hole)
                check_ole(ctx, "version %s, %s runs, %s free sectors" % (version, k, hole), data, info, raw=False)


def mini_fragments(case, ctx):
    """All orders of the sectors of small streams"""
    version = case["version"]
    streams = [Stream("a", content(190, 1)), Stream("b", content(128, 2)), Stream("c", content(20, 3))]
    for order in itertools.permutations(range(6)):
        data, info = ole(streams, version, mini_runs=3, mini_order=order)
        check_ole(ctx, "version %s, small sectors in order %s" % (version, order), data, info)
    many = [Stream("n%s" % k, content(1000 + 300 * k, k)) for k in range(9)]
    for runs in (1, 2, 5, 16):
        for back in (0, 1):
            for main in (1, 3):
                order = list(range(200))[::-1 if back else 1]
                data, info = ole(many, version, mini_runs=runs, mini_order=order, runs=main)
                check_ole(ctx, "version %s, many small streams in %s runs" % (version, runs), data, info)


def many_sectors(case, ctx):
    """Allocation tables which are larger than the list of the header"""
    for n, order in case["nfat"]:
        streams = [Stream("big", content(5000, 1)), Stream("small", content(70, 2))]
        pieces = 6 if n <= 109 else 7
        data, info = ole(streams, 3, fat_sectors=n, order=None if order == 0 else [5, 4, 3, 6, 0, 1, 2])
        check_ole(ctx, "%s sectors of allocation table" % n, data, info)
    if not case.get("large"):
        return
    big = Stream("huge", content(4096, 5) * 2100)
    data, info = ole([big, Stream("small", content(70, 2))], 3, runs=3, order=[4, 2, 6, 0, 3, 1, 5, 7, 8])
    check_ole(ctx, "a stream of %s bytes" % len(big.data), data, info)


def directories(case, ctx):
    """Storages, names, times and trees of the directory"""
    t1, t2 = win64(datetime.datetime(2006, 11, 4, 1, 2, 3)), win64(datetime.datetime(1999, 12, 31, 23, 59, 59, 500000))
    for version in (3, 4):
        for n in range(0, 34):
            streams = [Stream("entry %s" % k, content(10 + k, k), times=(t1, t2) if k % 3 == 0 else (0, t1), tree=(k, FREE, FREE), color=k % 2) for k in range(n)]
            data, info = ole(streams, version)
            check_ole(ctx, "version %s, %s entries" % (version, n), data, info)
        for kinds in itertools.product((1, 2), repeat=4):
            streams = [Stream("store %s" % k if x == 1 else "same", content(30 * (k + 1), k) if x == 2 else b"", x, (t2, t1), (FREE, k, k + 1)) for k, x in enumerate(kinds)]
            data, info = ole(streams, version)
            check_ole(ctx, "version %s, kinds %s" % (version, kinds), data, info)
        for name in ("x", "n" * 31, "\xe9t\xe9", "\u65e5\u672c", "\1Ole", "a b", "VisioDocument"):
            data, info = ole([Stream(name, b"data of it")], version)
            check_ole(ctx, "version %s, name %r" % (version, name), data, info)


# --- summaries ---

CODEPAGES = {1252: "cp1252", 1251: "cp1251", 65001: "utf-8", 10000: "mac_roman", 1250: "cp1250", 1253: "cp1253"}
TEXTS = {1252: "Caf\xe9", 1251: "\u041f\u0440\u0438\u0432\u0435\u0442", 65001: "\u65e5\u672c\u8a9e \xe9", 10000: "\xc4pfel", 1250: "\u0141\xf3d\u017a", 1253: "\u03b1\u03b2\u03b3"}
IDS = {2: "Title", 3: "Subject", 4: "Author", 5: "Keywords", 6: "Comments", 7: "Template", 8: "LastSavedBy", 9: "RevisionNumber", 10: "TotalEditingTime", 11: "LastPrinted", 12: "CreateTime", 13: "LastSavedTime", 14: "NumPages", 15: "NumWords", 16: "NumCharacters", 18: "AppName", 19: "Security"}
DOC_IDS = {2: "Category", 3: "PresentationFormat", 4: "NumBytes", 5: "NumLines", 6: "NumParagraphs", 7: "NumSlides", 8: "NumNotes", 9: "NumHiddenSlides", 14: "Manager", 15: "Company"}
ATTR = {2: "title", 3: "title", 4: "author", 6: "comment", 8: "author", 12: "creation_date", 13: "last_modification", 14: "nb_page", 18: "producer"}
DOC_ATTR = {3: "title", 14: "author"}


def value_bytes(e, kind, v, charset):
    if kind == 30:
        raw = v.encode(charset) + b"\0"
        b = struct.pack(e + "I", len(raw)) + raw
    elif kind == 31:
        raw = (v + "\0").encode("utf-16-le" if e == "<" else "utf-16-be")
        b = struct.pack(e + "I", len(raw) // 2) + raw
    elif kind == 64:
        b = struct.pack(e + "Q", v)
    elif kind == 11:
        b = struct.pack(e + "h", -1 if v else 0)
    else:
        b = struct.pack(e + {2: "H", 3: "I", 4: "f", 5: "d"}[kind], v)
    return b


def summary(props, e="<", codepage=1252, guid=b"\xe0\x85\x9f\xf2\xf9\x4f\x68\x10\xab\x91\x08\x00\x2b\x27\xb3\xd9", reverse=False, sections=1, os_type=2, gap=0):
    """props: [(id, type, value)]; the codepage is the property 1"""
    charset = CODEPAGES[codepage]
    props = ([(1, 2, codepage)] if codepage else []) + list(props)
    blobs = []
    for i, kind, v in props:
        if isinstance(kind, tuple):     # vector
            b = struct.pack(e + "I", kind[0] | 0x1000) + struct.pack(e + "I", len(v)) + b"".join(value_bytes(e, kind[0], x, charset) for x in v)
        else:
            b = struct.pack(e + "I", kind) + value_bytes(e, kind, v, charset)
        blobs.append(b + bytes(-len(b) % 4))
    order = list(range(len(props)))
    if reverse:
        order = order[:1] + order[1:][::-1]
    pos = 8 + 8 * len(props)
    at, body = {}, b""
    for k in order:
        at[k] = pos
        body += blobs[k] + bytes(gap)
        pos += len(blobs[k]) + gap
    sec = struct.pack(e + "II", pos, len(props)) + b"".join(struct.pack(e + "II", i, at[k]) for k, (i, kind, v) in enumerate(props)) + body
    bom = b"\xFE\xFF" if e == "<" else b"\xFF\xFE"
    return bom + struct.pack(e + "HBBH", 0, 5, 1, os_type) + bytes(16) + struct.pack(e + "I", 1) + guid + struct.pack(e + "I", 48) + sec


def open_summary(ctx, blob, doc, version=3, size_up=False):
    name = "\5DocumentSummaryInformation" if doc else "\5SummaryInformation"
    data, info = ole([Stream(name, blob)], version)
    p = check_ole(ctx, "document with a summary", data, info)
    where = p if len(blob) >= 4096 else guessParser(p["root[0]"].getSubIStream())
    return p, guessParser(where["doc_summary[0]" if doc else "summary[0]"].getSubIStream())


def stored(kind, v):
    if kind in (30, 31):
        return v + "\0"
    if kind == 64:
        return T1601 + datetime.timedelta(microseconds=v // 10)
    return v


def check_summary(ctx, what, s, props, doc, e, codepage=1252):
    props = ([(1, 2, codepage)] if codepage else []) + list(props)
    expect(ctx, what + ": valid", s.validate(), True)
    fields(ctx, what, s, endian=b"\xFE\xFF" if e == "<" else b"\xFF\xFE", os_version=5, os_revision=1, section_count=1)
    sec = s["section[0]"]
    if not expect(ctx, what + ": properties", (sec["property_count"].value, len(sec.array("property_index")), len(sec.array("property"))), (len(props),) * 3):
        return
    for k, (i, kind, v) in enumerate(props):
        f, x = sec["property_index[%s]" % k], sec["property[%s]" % k]
        expect(ctx, what + ": property", (f["id"].value, x.address // 8, x["type"].value, x["is_vector"].value), (i, f["offset"].value, kind[0] if isinstance(kind, tuple) else kind, isinstance(kind, tuple)))
        name = {1: "CodePage"}.get(i) or (DOC_IDS if doc else IDS).get(i)
        if name:
            expect(ctx, what + ": name", (f["id"].display, f.description), (name, "Property: " + name))
        if isinstance(kind, tuple):
            expect(ctx, "%s: values of property %s" % (what, i), [y.value for y in x.array("item")], [stored(kind[0], y) for y in v])
        else:
            want = stored(kind, v)
            if kind == 64 and i == 10:
                want = datetime.timedelta(microseconds=v / 10)
            expect(ctx, "%s: value of property %s" % (what, i), get(x, "value"), want)


def property_sequences(case, ctx):
    """Sequences of properties of all types"""
    date = win64(datetime.datetime(2007, 3, 4, 5, 6, 7))
    choices = [(2, 30, "Some title"), (4, 30, "Writer"), (3, 31, "Topic text"), (14, 3, 17), (19, 2, 5), (100, 11, True), (101, 11, False), (102, 4, 1.5), (103, 5, -0.25), (12, 64, date), (104, (3,), [1, 2, 3]), (105, (64,), [date, 0]),
               (106, (5,), [0.5]), (107, (3,), []), (108, 31, ""), (109, 30, ""), (110, (4,), [0.5, 2.0])]
    n = 0
    for k in range(case["n"] + 1):
        for seq in itertools.permutations(range(len(choices)), k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            props = [choices[x] for x in seq]
            for e in "<>":
                for rev, gap in ((0, 0), (1, 0), (0, 4)):
                    blob = summary(props, e, reverse=rev, gap=gap, codepage=1252 if e == "<" else 10000)
                    p, s = open_summary(ctx, blob, case["doc"])
                    check_summary(ctx, "properties %s, order %s" % (lib.short(props, 120), e), s, props, case["doc"], e, 1252 if e == "<" else 10000)


def summary_meta(case, ctx):
    """The metadata: every property, combinations of properties"""
    doc = case["doc"]
    ids, attr = (DOC_IDS, DOC_ATTR) if doc else (IDS, ATTR)
    t = datetime.datetime(2006, 11, 4, 1, 2, 3)
    texts = ["First text", "Another", "Third one", "Quatre", "Zwo"]

    def value(i, k):
        if not doc and i in (11, 12, 13):
            return 64, win64(t + datetime.timedelta(days=i)), str(t + datetime.timedelta(days=i)) if i == 11 else t + datetime.timedelta(days=i)
        if not doc and i == 10:
            return 64, 36000000000, "1:00:00"
        if ids[i].startswith("Num") or i == 19:
            return 3, 40 + i, 40 + i
        return (30, 31)[k % 2], texts[k % 5], texts[k % 5]
    for n in range(1, case["n"] + 1):
        for seq in itertools.combinations(list(ids), n):
            for shift in range(2):
                props, wanted = [], {}
                for k, i in enumerate(seq):
                    kind, v, w = value(i, k + shift)
                    props.append((i, kind, v))
                    key = attr.get(i, "comment")
                    wanted.setdefault(key, []).append(w if i in attr else "%s: %s" % (ids[i], w))
                p, s = open_summary(ctx, summary(props), doc)
                m = metadata(p)
                what = "document with %s" % lib.short(props, 140)
                for key in set(attr.values()) | {"comment"}:
                    got = m.getValues(key) if m is not None and m.has(key) else []
                    expect(ctx, "%s: %s of the metadata" % (what, key), sorted(map(str, got)), sorted(map(str, set(wanted.get(key, [])))))
    if doc:
        return
    # null times are not shown
    p, s = open_summary(ctx, summary([(2, 30, "Some title"), (11, 64, 0), (13, 64, 0), (10, 64, 0)]), False)
    m = metadata(p)
    expect(ctx, "null times in the metadata", [m.has("last_modification"), [x for x in m.getValues("comment") if "Last" in x or "Total" in x]], [False, []])
    for codepage, text in TEXTS.items():
        for kind in (30, 31):
            for e in "<>":
                if e == ">" and kind == 30 and codepage != 10000:
                    continue
                props = [(2, kind, text), (4, kind, "Abc")]
                p, s = open_summary(ctx, summary(props, e, codepage), False)
                what = "texts of codepage %s, type %s, order %s" % (codepage, kind, e)
                check_summary(ctx, what, s, props, False, e, codepage)
                check_meta(ctx, what, metadata(p), title=text, author="Abc")
    systems = {0: "Windows 16-bit", 1: "Macintosh", 2: "Windows 32-bit"}
    for os_type, name in systems.items():
        for e in "<>":
            p, s = open_summary(ctx, summary([(2, 30, "Some title")], e, 1252 if e == "<" else 10000, os_type=os_type), False)
            expect(ctx, "system of the summary", (s["os_type"].value, s["os_type"].display), (os_type, name))
            check_meta(ctx, "system %s" % name, metadata(p), os=name)
    # a large summary, in sectors of the document; with both summaries
    for size in (3000, 4096, 9000):
        big = summary([(2, 30, "Some title"), (6, 30, "c" * size), (4, 30, "Writer")])
        dsum = summary([(15, 30, "Firm"), (14, 31, "Boss")])
        for both in ((0, 1), (1, 0)):
            streams = [Stream("\5SummaryInformation", big), Stream("\5DocumentSummaryInformation", dsum)]
            data, info = ole([streams[k] for k in both], 3, runs=3, mini_runs=2, order=[3, 4, 2, 1, 0, 5, 6, 7], mini_order=[3, 1, 2, 0])
            p = check_ole(ctx, "summary of %s bytes" % len(big), data, info)
            m = metadata(p)
            what = "summary of %s bytes" % len(big)
            check_meta(ctx, what, m, title="Some title")
            expect(ctx, what, (sorted(m.getValues("author")), [x for x in m.getValues("comment") if "Firm" in x]), (["Boss", "Writer"], ["Company: Firm"]))


def thumbnails(case, ctx):
    """Pictures of a summary have all their bytes"""
    for e in "<>":
        for fmt, dib in ((-1, 3), (-1, 14), (-2, None), (0, None), (-1, 2)):
            for n in (0, 1, 4, 77):
                pic = struct.pack(e + "i", fmt) + (struct.pack(e + "I", dib) if dib is not None else b"") + content(n, 3)
                # property 17 (type 71) behind the codepage, before a text
                tail = struct.pack(e + "II", 30, 4) + b"abc\0"
                body = struct.pack(e + "IHH", 2, 1252 if e == "<" else 10000, 0)
                thumb = struct.pack(e + "II", 71, len(pic)) + pic
                thumb += bytes(-len(thumb) % 4)
                at = [8 + 24, 8 + 24 + len(body), 8 + 24 + len(body) + len(thumb)]
                sec = b"".join(struct.pack(e + "II", i, a) for i, a in zip((1, 17, 2), at)) + body + thumb + tail
                sec = struct.pack(e + "II", 8 + len(sec), 3) + sec
                blob = summary([], e, 1252)[:48] + sec
                p, s = open_summary(ctx, blob, False)
                what = "picture of format %s, %s bytes" % (fmt, n)
                x = s["section[0]/property[1]"]
                f = x["value"]
                expect(ctx, what, (x["type"].value, f["size"].value, f["format"].value, get(f, "dib_format"), get(f, "data")), (71, len(pic), fmt, dib if dib is not None else "no field", content(n, 3) if n else "no field"))
                expect(ctx, what + ": next text", s["section[0]/property[2]/value"].value, "abc\0")


# --- other streams ---

def pascal(s):
    return struct.pack("<I", len(s) + 1) + s.encode("latin-1") + b"\0" if s else struct.pack("<I", 0)


def wide(s):
    return struct.pack("<I", len(s) + 1) + (s + "\0").encode("utf-16-le") if s else struct.pack("<I", 0)


def compobjs(case, ctx):
    texts = ["", "Word document", "W"]
    for a, b, c, d in itertools.product(texts, texts, texts, ("", "\u65e5 wide")):
        for full in (0, 1):
            blob = struct.pack("<H2sBBHi16s", 1, b"\xFE\xFF", 5, 1, 2, -1, bytes(range(16))) + pascal(a) + pascal(b)
            if full:
                blob += pascal(c) + struct.pack("<I", 0x71B239F4) + wide(d) + wide(b) + wide(c)
            data, info = ole([Stream("\1CompObj", blob)])
            what = "description of an object %s" % ((a, b, c, d, full),)
            p = check_ole(ctx, what, data, info)
            s = guessParser(guessParser(p["root[0]"].getSubIStream())["compobj[0]"].getSubIStream())
            expect(ctx, what + ": valid", s.validate(), True)
            want = dict(version=1, os_version=5, os_revision=1, os=2, user_type=a, clipboard_format=b)
            if full:
                want.update(prog_id=c, magic=0x71B239F4, user_type_unicode=d or None, clipboard_format_unicode=b or None, prog_id_unicode=c or None)
            fields(ctx, what, s, **want)


def records(case, ctx):
    """Sequences of records of a workbook, trees of records of a presentation"""
    biff = [(0x809, b"\0\6\5\0", "BOF_v8"), (0x0A, b"", "EOF"), (0x85, b"sheet one", "BOUNDSHEET"), (0x7777, b"zz", "30583"), (0x0C, b"\1\0", "CALCCOUNT")]
    for k in range(1, 5):
        for seq in itertools.product(biff, repeat=k):
            blob = b"".join(struct.pack("<HH", t, len(d)) + d for t, d, n in seq)
            data, info = ole([Stream("Workbook", blob)])
            what = "workbook of %s" % [n for t, d, n in seq]
            p = check_ole(ctx, what, data, info)
            s = guessParser(guessParser(p["root[0]"].getSubIStream())["workbook[0]"].getSubIStream())
            got = [f for f in s if f.name.startswith("BIFF[")]
            if expect(ctx, what + ": records", [(f["type"].value, f["length"].value, get(f, "data")) for f in got], [(t, len(d), d or "no field") for t, d, n in seq]):
                for f, (t, d, n) in zip(got, seq):
                    if n in ("BOF_v8", "EOF", "30583"):
                        expect(ctx, what + ": name", f["type"].display, n)
    atom = [(0, 1001, b"atom data"), (0, 4008, b"bytes text"), (0, 4000, "w\xefde".encode("utf-16-le")), (1, 1002, b""), (0, 0xF008, b"drawing!")]
    trees = list(atom) + [(15, 1000, ()), (15, 1000, (atom[1],)), (15, 1006, (atom[2], atom[3], atom[0])), (15, 1000, ((15, 0xF002, (atom[4],)), (15, 1008, ()), atom[1]))]

    def raw(t):
        body = t[2] if isinstance(t[2], bytes) else b"".join(map(raw, t[2]))
        return struct.pack("<HHI", t[0] | 0x120, t[1], len(body)) + body

    def compare(what, f, t):
        body = t[2] if isinstance(t[2], bytes) else b"".join(map(raw, t[2]))
        expect(ctx, what, (f["version"].value, f["instance"].value, f["type"].value, f["length"].value, f.size), (t[0], 0x12, t[1], len(body), 64 + 8 * len(body)))
        if isinstance(t[2], bytes):
            want = t[2] or "no field"
            if t[1] == 4008:
                want = t[2].decode("ascii")
            if t[1] == 4000:
                want = t[2].decode("utf-16-le")
            expect(ctx, what, get(f, "data"), want)
        else:
            got = f.array("object")
            if expect(ctx, what + ": records", len(got), len(t[2])):
                for a, b in zip(got, t[2]):
                    compare(what, a, b)
    for k in range(1, 4):
        for seq in itertools.product(range(len(trees)), repeat=k):
            blob = b"".join(raw(trees[x]) for x in seq)
            data, info = ole([Stream("PowerPoint Document", blob)])
            what = "presentation of %s" % (seq,)
            p = check_ole(ctx, what, data, info)
            s = guessParser(guessParser(p["root[0]"].getSubIStream())["powerpointdoc[0]"].getSubIStream())
            got = [f for f in s if f.name.startswith("object[")]
            if expect(ctx, what + ": records", len(got), k):
                for f, x in zip(got, seq):
                    compare(what, f, trees[x])


def main():
    c = lib.Check("A11", "model_checking",
                  "all sequences of stream sizes near those of sectors, all orders of the runs of sectors and of the small sectors, free sectors, allocation tables larger than the header, directories; all sequences of properties, metadata of all combinations, "
                  "codepages, sequences of records: the bytes of every stream, every field and text, and the metadata",
                  bounds={"streams": "up to 2 (thorough 3) of 15 sizes", "orders of runs": "every 10th to 20th (all) of the orders of 8", "small sectors": "all orders of 6", "allocation table": "up to 237 sectors", "properties": "up to 2 (3) of 17", "metadata": "up to 2 (4) properties"})
    q = c.quick
    c.domain("sizes of streams", [dict(n=2 if q else 3, version=v) for v in (3, 4)], sizes)
    c.domain("orders of sectors", [dict(version=v, step=(80 if v == 4 else 40) if q else 8, i=i, runs=r) for v in (3, 4) for i, r in zip((0, 11, 22, 33) if q else range(8), ((1, 5), (2,), (3,), (4,), (6,), (7,), (8,), (9,)))], fragments)
    c.domain("small sectors", [dict(version=v) for v in (3, 4)], mini_fragments)
    c.domain("large tables", [dict(nfat=[x]) for x in ((109, 0), (110, 0), (110, 1), (236, 1), (237, 0), (237, 1))] + [dict(nfat=[], large=1)], many_sectors)
    c.domain("directories", [{}], directories)
    c.domain("properties", [dict(n=2 if q else 3, doc=d, i=i, of=4) for d in (False, True) for i in range(4)], property_sequences)
    c.domain("metadata", [dict(n=2 if q else 4, doc=d) for d in (False, True)], summary_meta)
    c.domain("pictures", [{}], thumbnails)
    c.domain("descriptions of objects", [{}], compobjs)
    c.domain("records", [{}], records)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
