"""A17: Fonts (TrueType, PCF) are shown as they were written: tables, flags, names, characters, and their metadata."""
import datetime, itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct as opened, expect, get, metadata
from hachoir.parser.misc import PcfFile, TrueTypeFontFile


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


def names(ctx, what, f, want):
    got = [x.name for x in f]
    if got != want:
        ctx.report("%s: fields are %r, expected %r" % (what, got, want))


FILL = [("cvt ", b"\0\1\0\2"), ("fpgm", b"abc"), ("prep", b"x" * 8)]


def font(tables, order=None, gap=0, otto=False, tail=0):
    """tables: [(tag, data)]; the data in the order asked, aligned; returns the font and the places of the tables"""
    head = (b"OTTO" if otto else b"\0\1\0\0") + struct.pack(">HHHH", len(tables), 16, 2, 32)
    at = 12 + 16 * len(tables)
    place = {}
    body = b""
    for i in order or range(len(tables)):
        tag, d = tables[i]
        if body or gap:
            body += bytes(-len(body) % 4 + gap * 4)
        place[i] = at + len(body)
        body += d
    for i, (tag, d) in enumerate(tables):
        head += tag.encode() + struct.pack(">III", 0x1000 + i, place[i], len(d))
    return head + body + bytes(tail), place


def table(ctx, what, tag, data):
    """A font with one table and others; returns the field of the table"""
    f, place = font([(tag, data)] + FILL)
    p = opened(ctx, f, TrueTypeFontFile)
    contiguous(ctx, what, p, len(f) * 8, 3)
    name = {"OS/2": "OS_2", "head": "header", "name": "names"}.get(tag, tag)
    t = p[name]
    expect(ctx, what + ": place of the table", (t.address // 8, t.size // 8), (place[0], len(data)))
    ctx.seen("states", repr((tag, data)))
    ctx.count("traces")
    ctx.count("transitions")
    return p, t


DATES = [datetime.datetime(1999, 12, 31, 23, 59, 59), datetime.datetime(2007, 3, 1), datetime.datetime(2029, 2, 28, 12, 0, 1)]
FLAGS = {0: "y0", 1: "x0", 2: "instr_point", 3: "ppem", 4: "instr_width", 5: "vertical", 7: "linguistic", 8: "gx", 9: "strong", 10: "indic", 11: "lossless", 12: "converted", 13: "cleartype"}
STYLES = ("bold", "italic", "underline", "outline", "shadow", "condensed", "expanded")
DIRECTION = {0: "Mixed directional", 1: "Left to right", 2: "Left to right + neutrals", -1: "Right to left", -2: "Right to left + neutrals"}


def mac(d):
    return int((d - datetime.datetime(1904, 1, 1)).total_seconds())


def head(flags=0, upem=1000, created=DATES[0], modified=DATES[1], box=(-100, -200, 1000, 2000), style=0, lowest=8, direction=2, loca=0, version=(2, 5)):
    return struct.pack(">HHHHIIHHQQ4hHHhhh", 1, 0, *version, 0x12345678, 0x5F0F3CF5, flags, upem, mac(created), mac(modified), *box, style, lowest, direction, loca, 0)


def heads(case, ctx):
    cases = [dict(flags=1 << i) for i in FLAGS] + [dict(flags=f) for f in (0x3FBF, 0x2AAA, 0x1515, 0x4000, 0xC000)] + [dict(style=s) for s in range(128)] + [dict(direction=d, loca=abs(d) % 2) for d in DIRECTION]
    cases += [dict(upem=u) for u in (16, 17, 1000, 2048, 16384)] + [dict(box=b) for b in itertools.product((-32768, -1, 0, 32767), repeat=4)] + [dict(created=a, modified=b, lowest=n) for a, b in itertools.product(DATES, repeat=2) for n in (1, 8, 65535)]
    for options in cases:
        what = "font header %s" % options
        p, t = table(ctx, what, "head", head(**options))
        flags, style, direction, loca = (options.get(k, d) for k, d in (("flags", 0), ("style", 0), ("direction", 2), ("loca", 0)))
        box = options.get("box", (-100, -200, 1000, 2000))
        created, modified, lowest = options.get("created", DATES[0]), options.get("modified", DATES[1]), options.get("lowest", 8)
        fields(ctx, what, t, maj_ver=1, min_ver=0, font_maj_ver=2, font_min_ver=5, checksum=0x12345678, adobe=flags >> 14, unit_per_em=options.get("upem", 1000), created=created, modified=modified, xmin=box[0], ymin=box[1], xmax=box[2], ymax=box[3], lowest=lowest, font_dir=direction, ofst_format=loca,
               **{n: bool(flags >> i & 1) for i, n in FLAGS.items()}, **{n: bool(style >> i & 1) for i, n in enumerate(STYLES)})
        expect(ctx, what + ": displays", (t["font_dir"].display, t["ofst_format"].display), (DIRECTION[direction], ("short offsets", "long")[loca]))
        check_meta(ctx, what, metadata(p), creation_date=created, last_modification=modified, comment=["Smallest readable size in pixels: %s pixels" % lowest, "Font direction: %s" % DIRECTION[direction]])


NAMEID = {0: "Copyright notice", 1: "Font family name", 2: "Font subfamily name", 3: "Unique font identifier", 4: "Full font name", 5: "Version string", 6: "Postscript name", 7: "Trademark", 8: "Manufacturer name", 9: "Designer", 10: "Description", 11: "URL Vendor", 12: "URL Designer", 13: "License Description", 14: "License info URL",
          16: "Preferred Family", 17: "Preferred Subfamily", 18: "Compatible Full", 19: "Sample text", 20: "PostScript CID findfont name"}
PLATFORM = {0: "Unicode", 1: "Macintosh", 3: "Microsoft"}
ATTR = {0: "copyright", 3: "title", 5: "version", 8: "author", 11: "url", 14: "copyright"}
SPOTS = [(1, 0, "mac-roman"), (3, 1, "utf-16-be"), (0, 3, "utf-16-be"), (3, 10, "utf-16-be"), (3, 0, "utf-16-be"), (0, 0, "utf-16-be"), (0, 4, "utf-16-be")]


def name_table(records, order=None, gap=0, start=0):
    """records: (spot, name id, text); the texts in the order asked"""
    raw = [t.encode(SPOTS[s][2]) for s, i, t in records]
    at, body = {}, b""
    for i in order or range(len(raw)):
        body += bytes(gap)
        at[i] = len(body)
        body += raw[i]
    out = struct.pack(">HHH", 0, len(records), 6 + 12 * len(records) + start)
    for i, (s, n, t) in enumerate(records):
        out += struct.pack(">6H", SPOTS[s][0], SPOTS[s][1], 0x409, n, len(raw[i]), at[i])
    return out + bytes(start) + body


def text_names(case, ctx):
    words = ["(c) me", "\xe9t\xe9", "Version 2.5", "DejaVu", ""]
    ids = sorted(NAMEID) if case["n"] < 2 else [0, 1, 3, 5] if case["n"] < 3 else [3, 5, 14]
    spots = range(len(SPOTS)) if case["n"] < 2 else (0, 1)
    for combo in itertools.product(itertools.product(spots, ids, words if case["n"] < 3 else words[1:4:2]), repeat=case["n"]):
        for order, gap, start in ((None, 0, 0), (list(range(case["n"]))[::-1], 1, 0), (None, 2, 3)) if case["n"] < 3 else ((None, 0, 0), ([1, 2, 0], 1, 1)):
            what = "font with names %s, order %s, gap %s" % (combo, order, gap)
            p, t = table(ctx, what, "name", name_table(combo, order, gap, start))
            fields(ctx, what, t, count=len(combo), offset=6 + 12 * len(combo) + start)
            want = [combo[i] for i in (order or range(len(combo)))]
            for i, (s, n, text) in enumerate(combo):
                h = t["header[%d]" % i]
                fields(ctx, what, h, platformID=SPOTS[s][0], encodingID=SPOTS[s][1], languageID=0x409, nameID=n, length=len(text.encode(SPOTS[s][2])))
                expect(ctx, what + ": description of %s" % i, h.description, "Name record: %s (%s)" % (NAMEID[n], PLATFORM[SPOTS[s][0]]))
            expect(ctx, what + ": values", [(x.value, x.description) for x in t if x.name.startswith("value[")], [(text, "Name record: %s (%s)" % (NAMEID[n], PLATFORM[SPOTS[s][0]])) for s, n, text in want if text])
            told = {}
            for s, n, text in combo:
                if n in ATTR and text:
                    text = text[8:] if n == 5 and text.startswith("Version ") else text
                    values = told.setdefault(ATTR[n], [])
                    if text not in values:
                        values.append(text)
            m = metadata(p)
            for key in set(ATTR.values()):
                got = [v.value for v in m.getItems(key)] if m is not None and m.has(key) else []
                if sorted(got) != sorted(told.get(key, [])):
                    ctx.report("%s: metadata %s is %r, expected %r" % (what, key, got, told.get(key)))


def glyph_maps():
    """Subtables of cmap: (format, data, fields)"""
    out = [(0, struct.pack(">HHH", 0, 262, 5) + bytes((i * 7) & 255 for i in range(256)), {"length": 262, "language": 5, "mapping__item__0": 0, "mapping__item__255": (255 * 7) & 255})]
    for segs, extra in itertools.product((1, 2, 3), (0, 1, 2)):
        ends, starts = [(i + 1) * 10 for i in range(segs - 1)] + [0xFFFF], [i * 10 + 1 for i in range(segs - 1)] + [0xFFFF]
        deltas, ranges = [-i for i in range(segs - 1)] + [1], [0] * segs
        size = 16 + 8 * segs + 2 * extra
        d = struct.pack(">HHHHHHH", 4, size, 0, segs * 2, 2, 1, 0) + struct.pack(">%dH" % segs, *ends) + b"\0\0" + struct.pack(">%dH" % segs, *starts) + struct.pack(">%dh" % segs, *deltas) + struct.pack(">%dH" % segs, *ranges) + struct.pack(">%dH" % extra, *range(100, 100 + extra))
        want = {"length": size, "segCountX2": segs * 2, "searchRange": 2, "entrySelector": 1, "rangeShift": 0}
        for i in range(segs):
            want.update({"endCode__item__%d" % i: ends[i], "startCode__item__%d" % i: starts[i], "idDelta__item__%d" % i: deltas[i], "idRangeOffsets__item__%d" % i: 0})
        for i in range(extra):
            want["glyphIdArray__item__%d" % i] = 100 + i
        out.append((4, d, want))
    for n in (1, 3):
        out.append((6, struct.pack(">HHHHH", 6, 10 + 2 * n, 0, 32, n) + struct.pack(">%dH" % n, *range(7, 7 + n)), {"firstCode": 32, "entryCount": n, "glyphIdArray__item__0": 7, "glyphIdArray__item__%d" % (n - 1): 6 + n}))
    for n in (0, 1, 3):
        want = {"length": 16 + 12 * n, "language": 0, "numGroups": n}
        for i in range(n):
            want.update({"mapgroup__%d__startCharCode" % i: 0x10000 + i * 256, "mapgroup__%d__endCharCode" % i: 0x10010 + i * 256, "mapgroup__%d__startGlyphID" % i: 70000 * i})
        out.append((12, struct.pack(">HHIII", 12, 0, 16 + 12 * n, 0, n) + b"".join(struct.pack(">III", 0x10000 + i * 256, 0x10010 + i * 256, 70000 * i) for i in range(n)), want))
    for n in (0, 2):
        want = {"length": 10 + 11 * n, "numVarSelectorRecords": n}
        for i in range(n):
            want.update({"variationSelector__%d__varSelector" % i: 0xFE00 + i, "variationSelector__%d__defaultUVSOffset" % i: 0, "variationSelector__%d__nonDefaultUVSOffset" % i: i})
        out.append((14, struct.pack(">HII", 14, 10 + 11 * n, n) + b"".join(struct.pack(">I", 0xFE00 + i)[1:] + struct.pack(">II", 0, i) for i in range(n)), want))
    return out


def cmaps(case, ctx):
    maps = glyph_maps()
    for choice in itertools.product(range(len(maps)), repeat=case["n"]):
        if case["n"] == 3 and (any(i not in (0, 2, 9, 11, 13, 15) for i in choice)):
            continue
        for shared, gap in ((0, 0), (1, 0), (0, 2)):
            subs = [maps[i] for i in choice]
            count = len(subs) + (1 if shared and subs else 0)
            at, body, offs = 4 + 8 * count, b"", []
            for f, d, w in subs:
                body += bytes(gap)
                offs.append(at + len(body))
                body += d
            if count > len(subs):
                offs.append(offs[0])
            data = struct.pack(">HH", 0, count) + b"".join(struct.pack(">HHI", i % 4, i, o) for i, o in enumerate(offs)) + body
            what = "cmap of formats %s, shared %s, gap %s" % ([maps[i][0] for i in choice], shared, gap)
            p, t = table(ctx, what, "cmap", data)
            fields(ctx, what, t, version=0, numTables=count)
            for i, o in enumerate(offs):
                fields(ctx, what, t["encodingRecords[%d]" % i], platformID=i % 4, encodingID=i, subtableOffset=o)
            got = [x for x in t if x.name.startswith("cmap table format ")]
            expect(ctx, what + ": tables", [(int(re.match("cmap table format ([0-9]+)", x.name).group(1)), x.address // 8, x.size // 8) for x in got], [(f, o, len(d)) for (f, d, w), o in zip(subs, offs)])
            for x, (f, d, want) in zip(got, subs):
                fields(ctx, "%s: %s" % (what, x.name), x, format=f, **{re.sub("__item__", "__%s__" % (list(x[k.split("__")[0]])[0].name.split("[")[0]) if "__item__" in k else "", k): v for k, v in want.items()})


def fixed(v):
    return int(v * 65536) & 0xFFFFFFFF


def others(case, ctx):
    ints = (-32768, -1, 0, 1, 32767)
    # hhea
    for i in range(11):
        for v in ints:
            values = [100 * j for j in range(11)]
            values[i] = v if i != 3 else v & 0xFFFF
            data = struct.pack(">HHhhhHhhhhhh4hhH", 1, 0, *values[:10], 0, 0, 0, 0, 0, values[10] & 0xFFFF)
            p, t = table(ctx, "hhea %s" % values, "hhea", data[:36])
            fields(ctx, "hhea %s" % values, t, majorVersion=1, minorVersion=0, **dict(zip(("ascender", "descender", "lineGap", "advanceWidthMax", "minLeftSideBearing", "minRightSideBearing", "xMaxExtent", "caretSlopeRise", "caretSlopeRun", "caretOffset"), values)), metricDataFormat=0, numberOfHMetrics=values[10] & 0xFFFF)
    # maxp
    keys = "maxPoints maxContours maxCompositePoints maxCompositeContours maxZones maxTwilightPoints maxStorage maxFunctionDefs maxInstructionDefs maxStackElements maxSizeOfInstructions maxComponentElements maxComponentDepth".split()
    for glyphs in (0, 1, 65535):
        p, t = table(ctx, "maxp 0.5", "maxp", struct.pack(">IH", 0x5000, glyphs))
        fields(ctx, "maxp 0.5", t, format=0.5, numGlyphs=glyphs)
        names(ctx, "maxp 0.5", t, ["format", "numGlyphs"])
        p, t = table(ctx, "maxp 1.0", "maxp", struct.pack(">IH13H", 0x10000, glyphs, *range(glyphs & 7, (glyphs & 7) + 13)))
        fields(ctx, "maxp 1.0", t, format=1.0, numGlyphs=glyphs, **{k: (glyphs & 7) + i for i, k in enumerate(keys)})
    # OS/2
    first = "xAvgCharWidth usWeightClass usWidthClass".split()
    second = "ySubscriptXSize ySubscriptYSize ySubscriptXOffset ySubscriptYOffset ySuperscriptXSize ySuperscriptYSize ySuperscriptXOffset ySuperscriptYOffset yStrikeoutSize yStrikeoutPosition sFamilyClass".split()
    third = "fsSelection usFirstCharIndex usLastCharIndex sTypoAscender sTypoDescender sTypoLineGap usWinAscent usWinDescent".split()
    for version, kind, sign in itertools.product(range(6), (0, 2, 4, 8, 0x100, 0x200, 0x304), (1, -1)):
        data = struct.pack(">HhHHH11h", version, 500 * sign, 400, 5, kind, *[sign * (i + 1) for i in range(11)]) + bytes(range(10)) + struct.pack(">4I4sHHHhhhHH", 1, 2, 3, 2 ** 32 - 1, b"VEND", 64, 32, 65535, 800 * sign, -200 * sign, 90, 1000, 65000)
        want = dict(version=version, xAvgCharWidth=500 * sign, usWeightClass=400, usWidthClass=5, fsType__usage_permissions=kind & 15, fsType__no_subsetting=bool(kind & 0x100), fsType__bitmap_embedding=bool(kind & 0x200), ulUnicodeRange1=1, ulUnicodeRange4=2 ** 32 - 1, achVendID="VEND",
                    **{k: sign * (i + 1) for i, k in enumerate(second)}, **dict(zip(third, (64, 32, 65535, 800 * sign, -200 * sign, 90, 1000, 65000))))
        if version >= 1:
            data += struct.pack(">II", 7, 8)
            want.update(ulCodePageRange1=7, ulCodePageRange2=8)
        if version >= 2:
            data += struct.pack(">hhHHH", 500 * sign, 700, 0, 32, 3)
            want.update(sxHeight=500 * sign, sCapHeight=700, usDefaultChar=0, usBreakChar=32, usMaxContext=3)
        if version >= 5:
            data += struct.pack(">HH", 9, 720)
            want.update(usLowerOpticalPointSize=9, usUpperOpticalPointSize=720)
        what = "OS/2 version %s, embedding %#x" % (version, kind)
        p, t = table(ctx, what, "OS/2", data)
        fields(ctx, what, t, **want)
        expect(ctx, what + ": panose", [x.value for x in t["panose"]], list(range(10)))
        if kind & 15 == kind:
            expect(ctx, what + ": embedding", t["fsType/usage_permissions"].display, {0: "Installable embedding", 2: "Restricted License embedding", 4: "Preview & Print embedding", 8: "Editable embedding"}[kind])
    # post
    for version, angle, pitch in itertools.product((0x10000, 0x20000, 0x25000, 0x30000), (0, -12.5, 7.25, -0.5), (0, 1)):
        base = struct.pack(">IIhhIIIII", version, fixed(angle), -100, 50, pitch, 1, 2, 3, 4)
        tails = [(b"", {})]
        if version == 0x20000:
            tails = []
            for own in itertools.product((False, True), repeat=3):
                ids, text, want, k = [], b"", {"numGlyphs": 3}, 0
                for g, b in enumerate(own):
                    ids.append(258 + k if b else g)
                    if b:
                        text += bytes([k + 1]) + b"n" * (k + 1)
                        want["glyphname__%d" % g] = "n" * (k + 1)
                        k += 1
                tails.append((struct.pack(">H3H", 3, *ids) + text, want))
        if version == 0x25000:
            tails = [(struct.pack(">H3b", 3, 0, -1, 127), {"numGlyphs": 3})]
        for tail, want in tails:
            what = "post %#x, angle %s, %s" % (version, angle, want)
            p, t = table(ctx, what, "post", base + tail)
            fields(ctx, what, t, version={0x10000: 1.0, 0x20000: 2.0, 0x25000: 2.5, 0x30000: 3.0}[version], italicAngle=angle, underlinePosition=-100, underlineThickness=50, isFixedPitch=pitch, minMemType42=1, maxMemType42=2, minMemType1=3, maxMemType1=4, **want)
            if version == 0x25000:
                expect(ctx, what + ": offsets", [x.value for x in list(t)[-1]], [0, -1, 127])
    # fvar, avar
    for axes, instances, ps, pad in itertools.product(range(3), range(3), (0, 1), (0, 4)):
        size = 4 * axes + 4 + 2 * ps
        data = struct.pack(">8H", 1, 0, 16 + pad, 2, axes, 20, instances, size) + bytes(pad)
        want = dict(axisArrayOffset=16 + pad, axisCount=axes, axisSize=20, instanceCount=instances, instanceSize=size)
        for i in range(axes):
            data += (b"wght", b"slnt")[i] + struct.pack(">IIIHH", fixed(-20 - i), fixed(0), fixed(900.5), i, 256 + i)
            want.update({"axes__%d__axisTag" % i: ("wght", "slnt")[i], "axes__%d__minValue" % i: -20 - i, "axes__%d__defaultValue" % i: 0, "axes__%d__maxValue" % i: 900.5, "axes__%d__hidden" % i: bool(i), "axes__%d__axisNameID" % i: 256 + i})
        for i in range(instances):
            data += struct.pack(">HH", 300 + i, 0) + b"".join(struct.pack(">I", fixed(j - 1.5)) for j in range(axes)) + (struct.pack(">H", 400 + i) if ps else b"")
            want["instances__%d__subfamilyNameID" % i] = 300 + i
            for j in range(axes):
                want["instances__%d__coordinates__coordinate__%d" % (i, j)] = j - 1.5
            if ps:
                want["instances__%d__postScriptNameID" % i] = 400 + i
        if axes or not instances:
            what = "fvar of %s axes, %s instances, ps %s, pad %s" % (axes, instances, ps, pad)
            p, t = table(ctx, what, "fvar", data)
            fields(ctx, what, t, **want)
    for counts in itertools.product(range(4), repeat=2):
        data, want = struct.pack(">4H", 1, 0, 0, 2), {"axisCount": 2}
        for i, n in enumerate(counts):
            data += struct.pack(">H", n)
            want["segmentMaps__%d__positionMapCount" % i] = n
            for j in range(n):
                data += struct.pack(">hh", 16384 * (j - 1), -8192 + j)
                want.update({"segmentMaps__%d__axisValueMaps__%d__fromCoordinate" % (i, j): j - 1, "segmentMaps__%d__axisValueMaps__%d__toCoordinate" % (i, j): (j - 8192) / 16384})
        p, t = table(ctx, "avar %s" % (counts,), "avar", data)
        fields(ctx, "avar %s" % (counts,), t, **want)
    # DSIG
    for sizes, flag in itertools.product([()] + [(a,) for a in (0, 1, 8)] + list(itertools.product((1, 8), repeat=2)), (0, 1)):
        at, body = 8 + 12 * len(sizes), b""
        data, want = struct.pack(">IHH", 1, len(sizes), flag), {"version": 1, "numSignatures": len(sizes), "flag": bool(flag)}
        for i, n in enumerate(sizes):
            data += struct.pack(">III", 1, 8 + n, at + len(body))
            want.update({"signatureRecords__%d__format" % i: 1, "signatureRecords__%d__length" % i: 8 + n, "signatureRecords__%d__signatureBlockOffset" % i: at + len(body), "signatureBlocks__%d__length" % i: n})
            if n:
                want["signatureBlocks__%d__signature" % i] = b"s" * n
            body += struct.pack(">HHI", 0, 0, n) + b"s" * n
        p, t = table(ctx, "DSIG %s" % (sizes,), "DSIG", data + body)
        fields(ctx, "DSIG %s" % (sizes,), t, **want)
    # GSUB
    for sizes, minor, order in itertools.product(itertools.product((0, 2, 5), repeat=3), (0, 1), ((0, 1, 2), (2, 0, 1), (1, 2, 0))):
        at, offs, body = 10 + 4 * minor, {}, b""
        for i in order:
            offs[i] = at + len(body) if sizes[i] else 0
            body += bytes([i + 1]) * sizes[i]
        data = struct.pack(">HHHHH", 1, minor, *[offs[i] for i in range(3)])
        var = at + len(body) if minor and sizes[0] == 2 else 0
        if minor:
            data += struct.pack(">I", var)
            body += b"v" * (3 if var else 0)
        what = "GSUB 1.%s of sizes %s, order %s" % (minor, sizes, order)
        p, t = table(ctx, what, "GSUB", data + body)
        fields(ctx, what, t, majorVersion=1, minorVersion=minor, scriptList=offs[0], featureList=offs[1], lookupList=offs[2], **({"featureVariationsOffset": var} if minor else {}))
        expect(ctx, what + ": content", [x.value for x in t if x.name.startswith("content")], [bytes([i + 1]) * sizes[i] for i in order if sizes[i]] + ([b"vvv"] if var else []))


def directories(case, ctx):
    """All orders of the tables in the file, with gaps"""
    kinds = [("head", head()), ("maxp", struct.pack(">IH", 0x5000, 3)), ("cvt ", b"\0\1\0\2\5"), ("glyf", b"x" * 13), ("name", name_table([(0, 3, "title")]))]
    for n in (3, 4, 5):
        for order in itertools.permutations(range(n)):
            for gap, otto, tail in ((0, False, 0), (1, False, 0), (0, True, 3)):
                data, place = font(kinds[:n], order, gap, otto, tail)
                what = "font of %s tables in the order %s, gap %s" % (n, order, gap)
                p = opened(ctx, data, TrueTypeFontFile)
                contiguous(ctx, what, p, len(data) * 8, 2)
                fields(ctx, what, p, maj_ver=0x4F54 if otto else 1, min_ver=0x544F if otto else 0, nb_table=n, search_range=16, entry_selector=2, range_shift=32)
                for i in range(n):
                    h = p["table_hdr[%d]" % i]
                    fields(ctx, what, h, tag=kinds[i][0], checksum=0x1000 + i, offset=place[i], size=len(kinds[i][1]))
                    expect(ctx, what + ": display", (h["checksum"].display, h.description), ("0x%08x" % (0x1000 + i), 'Table entry: "%s" (%s bytes)' % (kinds[i][0], len(kinds[i][1]))))
                got = [(x.address // 8, x.size // 8, x.description) for x in p if x.name.startswith(("table[", "header", "maxp", "names"))]
                expect(ctx, what + ": tables", got, sorted((place[i], len(kinds[i][1]), {"head": "Font header", "maxp": "Maximum Profile", "name": "Names"}.get(kinds[i][0], "Table %s (/table_hdr[%d])" % (kinds[i][0], i))) for i in range(n)))
                for x in p:
                    if x.name.startswith("table["):
                        expect(ctx, what + ": content", x["content"].value in (kinds[2][1], kinds[3][1]), True)
                ctx.seen("states", repr((n, order, gap)))
                ctx.count("traces")
                ctx.count("transitions", n)


def texts_area(texts, order, gap):
    """Place of each text, and the texts in the order asked"""
    offs, body = {}, b""
    for i in order:
        offs[i] = len(body)
        body += texts[i].encode() + bytes(1 + gap)
    return offs, body


PROPS = [("FONT", "-misc-fixed"), ("COPYRIGHT", "Nobody"), ("POINT_SIZE", 120), ("FONT_ASCENT", -3), ("FOUNDRY", "Misc"), ("WEIGHT_NAME", "Nobody"), ("CHARSET_REGISTRY", "ISO8859"), ("OTHER", "")]
META = {"FONT": "title", "COPYRIGHT": "copyright", "FOUNDRY": "author", "WEIGHT_NAME": "font_weight", "CHARSET_REGISTRY": "charset"}


def pcf(tocs, order=None, gap=0):
    """tocs: [(type, format, data)]"""
    at = 8 + 16 * len(tocs)
    place, body = {}, b""
    for i in order or range(len(tocs)):
        body += bytes(-len(body) % 4 + gap * 4)
        place[i] = at + len(body)
        body += tocs[i][2]
    head = b"\1fcp" + struct.pack("<I", len(tocs))
    for i, (t, f, d) in enumerate(tocs):
        head += struct.pack("<IIII", t, f, len(d), place[i])
    return head + body, place


def pcf_properties(case, ctx):
    """Sets of properties, texts in all orders, gaps, shared or not, both byte orders"""
    n = case["n"]
    for props in itertools.permutations(PROPS, n) if n < 3 else itertools.combinations(PROPS, n):
        for big, gap, share, tail in itertools.product((0, 1), (0, 2), (0, 1), (0, 3)):
            texts = []
            refs = []
            for name, v in props:
                r = []
                for t in (name, v):
                    if isinstance(t, int):
                        r.append(None)
                        continue
                    if share and t in texts:
                        r.append(texts.index(t))
                        continue
                    r.append(len(texts))
                    texts.append(t)
                refs.append(r)
            N = len(texts)
            for order in (itertools.permutations(range(N)) if N <= case["all"] else (tuple(range(N)), tuple(reversed(range(N))), tuple(range(1, N, 2)) + tuple(range(0, N, 2)))):
                offs, area = texts_area(texts, order, gap)
                e = ">" if big else "<"
                bits = big << 2 | big << 3 | 1 << 4 | 2
                d = struct.pack("<I", bits) + struct.pack(e + "I", n)
                for (name, v), (a, b) in zip(props, refs):
                    d += struct.pack(e + "IBi", offs[a], b is not None, v if b is None else offs[b])
                pad = -len(d) % 4
                d += bytes(pad) + struct.pack(e + "I", len(area))
                base = len(d)
                d += area + bytes(tail)
                what = "PCF properties %s, order %s, big endian %s, gap %s, shared %s" % (props, order, big, gap, share)
                data, place = pcf([(1, bits, d)])
                p = opened(ctx, data, PcfFile)
                contiguous(ctx, what, p, len(data) * 8, 3)
                t = p["properties"]
                expect(ctx, what + ": place", (t.address // 8, t.size // 8), (place[0], len(d)))
                want = {"format__byte_big_endian": bool(big), "format__bit_big_endian": bool(big), "format__scan_unit": 1, "nb_prop": n, "total_str_length": len(area)}
                for i, ((name, v), (a, b)) in enumerate(zip(props, refs)):
                    want["property__%d__name_offset" % i] = offs[a]
                    want["property__%d__is_string" % i] = int(b is not None)
                    want["property__%d__%s" % (i, "value" if b is None else "value_offset")] = v if b is None else offs[b]
                fields(ctx, what, t, **want)
                for i, (name, v) in enumerate(props):
                    expect(ctx, what + ": description", t["property[%d]" % i].description, "Property " + name)
                keys = {r[0] for r in refs}
                got = [(x.address // 8 - base, x.value, x.name[:4]) for x in t if x.name.startswith(("name[", "value["))]
                expect(ctx, what + ": texts", got, sorted((offs[i], texts[i], "name" if i in keys else "valu") for i in range(N)))
                m = metadata(p)
                for name, key in META.items():
                    v = dict(props).get(name)
                    expect(ctx, what + ": metadata " + key, m.getValues(key) if m else [], [v] if v else [])
                ctx.seen("states", repr((props, order, big, gap, share, tail)))
                ctx.count("traces")
                ctx.count("transitions", n)


TYPES = {1: "Properties", 2: "Accelerators", 4: "Metrics", 8: "Bitmaps", 16: "Ink metrics", 32: "BDF encodings", 64: "SWidths", 128: "Glyph names", 256: "BDF accelerators", 512: "512"}


def pcf_tables(case, ctx):
    """Names of glyphs; tables of all types in all orders"""
    for n in range(0, 4):
        for names_ in itertools.product(("A", "space", ""), repeat=n):
            for order in itertools.permutations(range(n)):
                for big, gap, share, tail in itertools.product((0, 1), (0, 1), (0, 1), (0, 2)):
                    offs, area = texts_area(names_, order, gap)
                    if share:
                        offs = {i: offs[names_.index(names_[i])] for i in range(n)}
                    e = ">" if big else "<"
                    d = struct.pack("<I", big << 2) + struct.pack(e + "I", n) + b"".join(struct.pack(e + "I", offs[i]) for i in range(n)) + struct.pack(e + "I", len(area))
                    base = len(d)
                    d += area + bytes(tail)
                    data, place = pcf([(128, 0, d), (2, 0x100, b"acc")])
                    what = "PCF names of glyphs %s, order %s, big endian %s" % (names_, order, big)
                    p = opened(ctx, data, PcfFile)
                    contiguous(ctx, what, p, len(data) * 8, 3)
                    t = p["glyph_names"]
                    fields(ctx, what, t, count=n, total_str_length=len(area), **{"offset__%d" % i: offs[i] for i in range(n)})
                    expect(ctx, what + ": names", [(x.address // 8 - base, x.value) for x in t if x.name.startswith("name[")], sorted({(offs[i], names_[i]) for i in range(n)}))
                    ctx.seen("states", repr((names_, order, big, gap, share, tail)))
                    ctx.count("traces")
                    ctx.count("transitions", n)
    for n in (1, 2, 3):
        for kinds in itertools.permutations(TYPES, n):
            if kinds != tuple(sorted(kinds)) and n == 3 and not case["deep"]:
                continue
            for order in itertools.permutations(range(n)):
                for gap, empty in ((0, None), (1, None), (0, 0)):
                    tocs = []
                    for i, k in enumerate(kinds):
                        d = bytes([65 + i]) * (5 + i)
                        if k == 1:
                            d = struct.pack("<III", 0, 0, 0)
                        if k == 128:
                            d = struct.pack("<III", 0, 0, 0)
                        if empty == i:
                            d = b""
                        tocs.append((k, 0x200 + i, d))
                    data, place = pcf(tocs, order, gap)
                    if empty is not None and place[0] > len(data):
                        continue
                    what = "PCF tables %s, order %s, gap %s, empty %s" % (kinds, order, gap, empty)
                    p = opened(ctx, data, PcfFile)
                    contiguous(ctx, what, p, len(data) * 8, 3)
                    want = []
                    for i, (k, f, d) in enumerate(tocs):
                        h = p["toc[%d]" % i]
                        fields(ctx, what, h, type=k, format=f, size=len(d), offset=place[i])
                        expect(ctx, what + ": display", (h["type"].display, h.description), (TYPES[k], "%s at %s (%s bytes)" % (TYPES[k], place[i], len(d))))
                        if d:
                            want.append((place[i], len(d), {1: "Properties", 128: "Glyph names"}.get(k, "Content of /toc[%d]" % i)))
                    got = [(x.address // 8, x.size // 8, x.description) for x in p if x.name.startswith(("properties", "glyph_names", "data["))]
                    expect(ctx, what + ": tables", got, sorted(want))
                    ctx.seen("states", repr((kinds, order, gap, empty)))
                    ctx.count("traces")
                    ctx.count("transitions", n)


if __name__ == "__main__":
    c = lib.Check("A17", "model_checking",
                  "all values of the font header, sets of names with all identifiers, platforms and orders, sequences of character maps of all formats, all versions of the other tables, all orders of up to 5 tables with gaps; PCF properties, names of glyphs and tables in all orders, both byte orders, with gaps and shared texts: place and value of each field, and metadata",
                  bounds={"names": "up to 3", "character maps": "up to 2 of all kinds, 3 of six kinds", "tables": "3 to 5"})
    q = c.quick
    c.domain("heads", [{}], heads)
    c.domain("names", [{"n": n} for n in range(0, 4)], text_names, batch=1)
    c.domain("cmaps", [{"n": n} for n in range(0, 4)], cmaps, batch=1)
    c.domain("others", [{}], others)
    c.domain("directories", [{}], directories)
    c.domain("pcf_properties", [{"n": n, "all": 4 if q else 5} for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 5, 8))], pcf_properties, batch=1)
    c.domain("pcf_tables", [{"deep": not q}], pcf_tables)
    c.main()
