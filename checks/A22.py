"""A22: Windows metafiles (WMF, APM, EMF) are shown as they were written: headers, functions, their arguments, the metadata."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct, expect, get, metadata, opened
from hachoir.parser.image.wmf import WMF_File

LE = "<"
BRUSH = {0: "Solid", 1: "Null", 2: "Hatched", 3: "Pattern", 4: "Indexed", 5: "DIB pattern", 6: "DIB pattern point", 7: "Pattern 8x8", 8: "DIB pattern 8x8"}
HATCH = {0: "Horizontal", 1: "Vertical", 2: "FDIAGONAL", 3: "BDIAGONAL", 4: "Cross", 5: "Diagonal cross"}
PEN = {0: "Solid", 1: "Dash", 2: "Dot", 3: "Dash dot", 4: "Dash dot dot", 5: "Null", 6: "Inside frame", 7: "User style", 8: "Alternate"}
ROP = {1: "Black (0)", 2: "Not merge pen (DPon)", 3: "Mask not pen (DPna)", 4: "Not copy pen (PN)", 5: "Mask pen not (PDna)", 6: "Not (Dn)", 7: "Xor pen (DPx)", 8: "Not mask pen (DPan)", 9: "Mask pen (DPa)", 10: "Not xor pen (DPxn)",
       11: "No operation (D)", 12: "Merge not pen (DPno)", 13: "Copy pen (P)", 14: "Merge pen not (PDno)", 15: "Merge pen (DPo)", 16: "White (1)"}
FILL = {1: "Alternate", 2: "Winding"}
MODE = {1: "TEXT", 2: "LOMETRIC", 3: "HIMETRIC", 4: "LOENGLISH", 5: "HIENGLISH", 6: "TWIPS", 7: "ISOTROPIC", 8: "ANISOTROPIC"}
# names of the functions in the documentation of Microsoft (MS-WMF 2.1.1.1, MS-EMF 2.1.1)
WMF = {0: "EOF", 0x35: "REALIZEPALETTE", 0x37: "SETPALENTRIES", 0x102: "SETBKMODE", 0x103: "SETMAPMODE", 0x104: "SETROP2", 0x105: "SETRELABS", 0x106: "SETPOLYFILLMODE", 0x107: "SETSTRETCHBLTMODE", 0x108: "SETTEXTCHAREXTRA",
       0x127: "RESTOREDC", 0x139: "RESIZEPALETTE", 0x149: "SETLAYOUT", 0x201: "SETBKCOLOR", 0x209: "SETTEXTCOLOR", 0x20D: "SETVIEWPORTORG", 0x20E: "SETVIEWPORTEXT", 0x20F: "OFFSETWINDOWORG", 0x211: "OFFSETVIEWPORTORG", 0x213: "LINETO", 0x214: "MOVETO",
       0x220: "OFFSETCLIPRGN", 0x228: "FILLREGION", 0x231: "SETMAPPERFLAGS", 0x234: "SELECTPALETTE", 0x325: "POLYLINE", 0x20A: "SETTEXTJUSTIFICATION", 0x410: "SCALEWINDOWEXT", 0x412: "SCALEVIEWPORTEXT", 0x415: "EXCLUDECLIPRECT", 0x416: "INTERSECTCLIPRECT",
       0x418: "ELLIPSE", 0x419: "FLOODFILL", 0x429: "FRAMEREGION", 0x436: "ANIMATEPALETTE", 0x521: "TEXTOUT", 0x538: "POLYPOLYGON", 0x548: "EXTFLOODFILL", 0x41B: "RECTANGLE", 0x41F: "SETPIXEL", 0x61C: "ROUNDRECT", 0x61D: "PATBLT", 0x1E: "SAVEDC",
       0x81A: "PIE", 0xB23: "STRETCHBLT", 0x626: "ESCAPE", 0x12A: "INVERTREGION", 0x12B: "PAINTREGION", 0x12C: "SELECTCLIPREGION", 0x12D: "SELECTOBJECT", 0x12E: "SETTEXTALIGN", 0x817: "ARC", 0x830: "CHORD", 0x922: "BITBLT", 0xA32: "EXTTEXTOUT",
       0xD33: "SETDIBTODEV", 0x940: "DIBBITBLT", 0xB41: "DIBSTRETCHBLT", 0x142: "CREATEDIBPATTERNBRUSH", 0xF43: "STRETCHDIB", 0x1F0: "DELETEOBJECT", 0xF7: "CREATEPALETTE", 0x1F9: "CREATEPATTERNBRUSH", 0x2FA: "CREATEPENINDIRECT", 0x2FB: "CREATEFONTINDIRECT",
       0x2FC: "CREATEBRUSHINDIRECT", 0x6FF: "CREATEREGION", 0x324: "POLYGON", 0x20B: "SETWINDOWORG", 0x20C: "SETWINDOWEXT"}
EMF = dict(enumerate("""HEADER POLYBEZIER POLYGON POLYLINE POLYBEZIERTO POLYLINETO POLYPOLYLINE POLYPOLYGON SETWINDOWEXTEX SETWINDOWORGEX SETVIEWPORTEXTEX SETVIEWPORTORGEX SETBRUSHORGEX EOF SETPIXELV SETMAPPERFLAGS SETMAPMODE SETBKMODE SETPOLYFILLMODE SETROP2
SETSTRETCHBLTMODE SETTEXTALIGN SETCOLORADJUSTMENT SETTEXTCOLOR SETBKCOLOR OFFSETCLIPRGN MOVETOEX SETMETARGN EXCLUDECLIPRECT INTERSECTCLIPRECT SCALEVIEWPORTEXTEX SCALEWINDOWEXTEX SAVEDC RESTOREDC SETWORLDTRANSFORM MODIFYWORLDTRANSFORM SELECTOBJECT
CREATEPEN CREATEBRUSHINDIRECT DELETEOBJECT ANGLEARC ELLIPSE RECTANGLE ROUNDRECT ARC CHORD PIE SELECTPALETTE CREATEPALETTE SETPALETTEENTRIES RESIZEPALETTE REALIZEPALETTE EXTFLOODFILL LINETO ARCTO POLYDRAW SETARCDIRECTION SETMITERLIMIT BEGINPATH ENDPATH
CLOSEFIGURE FILLPATH STROKEANDFILLPATH STROKEPATH FLATTENPATH WIDENPATH SELECTCLIPPATH ABORTPATH - GDICOMMENT FILLRGN FRAMERGN INVERTRGN PAINTRGN EXTSELECTCLIPRGN BITBLT STRETCHBLT MASKBLT PLGBLT SETDIBITSTODEVICE STRETCHDIBITS EXTCREATEFONTINDIRECTW
EXTTEXTOUTA EXTTEXTOUTW POLYBEZIER16 POLYGON16 POLYLINE16 POLYBEZIERTO16 POLYLINETO16 POLYPOLYLINE16 POLYPOLYGON16 POLYDRAW16 CREATEMONOBRUSH CREATEDIBPATTERNBRUSHPT EXTCREATEPEN POLYTEXTOUTA POLYTEXTOUTW SETICMMODE CREATECOLORSPACE SETCOLORSPACE
DELETECOLORSPACE GLSRECORD GLSBOUNDEDRECORD PIXELFORMAT DRAWESCAPE EXTESCAPE - SMALLTEXTOUT FORCEUFIMAPPING NAMEDESCAPE COLORCORRECTPALETTE SETICMPROFILEA SETICMPROFILEW ALPHABLEND SETLAYOUT TRANSPARENTBLT - GRADIENTFILL SETLINKEDUFIS
SETTEXTJUSTIFICATION COLORMATCHTOTARGETW CREATECOLORSPACEW""".split(), 1))
EMF = {k: v for k, v in EMF.items() if v != "-"}


def wmf(code, fmt="", *args, extra=b"", size=None, names=(), display=(), more=()):
    """A function: its bytes, code and values"""
    body = struct.pack("<" + fmt, *args) + extra
    body += b"\0" * (len(body) % 2)
    want = dict(more)
    if names:
        want.update(zip(names.split(), args))
    elif body:
        want["data"] = body
    return struct.pack("<IH", 3 + len(body) // 2, code) + body, code, want, dict(display)


def color(prefix, c):
    return {prefix + "/" + n: v for n, v in zip(("red", "green", "blue", "alpha"), c)}


def brush(style=0, c=(1, 2, 3, 0), hatch=0):
    return wmf(0x2FC, "H4BH", style, *c, hatch, names="brush_style color/red color/green color/blue color/alpha brush_hatch", display={"brush_style": BRUSH[style], "brush_hatch": HATCH[hatch]})


def pen(style=0, w=1, h=0, c=(1, 2, 3, 0)):
    return wmf(0x2FA, "HHH4B", style, w, h, *c, names="pen_style pen_width pen_height color/red color/green color/blue color/alpha", display={"pen_style": PEN[style]})


def points(n, count=None):
    return {"point[%d]/%s" % (i, a): (-1) ** i * (i * 100 + k) for i in range(n) for k, a in enumerate("xy")} | {"point[%d]" % n: "no field"}


def polygon(n):
    p = points(n)
    return wmf(0x324, "H%dh" % (2 * n), n, *[v for v in p.values() if v != "no field"], names="count", more=p)


END = wmf(0)
WPOOL = [brush(), pen(3, 5, 6), polygon(0), polygon(3), wmf(0x104, "H", 13, names="operation", display={"operation": ROP[13]}), wmf(0x106, "H", 2, names="operation", display={"operation": "Winding"}), wmf(0x12D, "H", 7, names="object_id"),
         wmf(0x1F0, "H", 0xFFFF, names="object_id"), wmf(0x1E), wmf(0x521, "H", 3, extra=b"abc"), wmf(0x940, extra=b"\3\0\0\0\0\0\3\0\0\0\0\0"), wmf(0x149, "HH", 1, 0), wmf(0x626, extra=bytes(range(256)) * 2)]


def functions(ctx, what, p, items, start, names, word):
    at, want = start, []
    for i, it in enumerate(items):
        want.append(("func[%d]" % i, at, len(it[0])))
        at += len(it[0])
    if not expect(ctx, what + ": functions", [(f.name, f.address // 8, f.size // 8) for f in p.array("func")], want):
        return
    for i, (raw, code, values, display) in enumerate(items):
        f = p["func[%d]" % i]
        expect(ctx, "%s: func[%d]" % (what, i), (f["function"].value, f["function"].display, f["size"].value), (code, names[code], len(raw) // word))
        for k, v in values.items():
            expect(ctx, "%s: func[%d]/%s" % (what, i, k), get(f, k), v)
        for k, v in display.items():
            expect(ctx, "%s: display of func[%d]/%s" % (what, i, k), f[k].display, v)


def check_wmf(ctx, what, items, kind=1, apm=None, nobj=3, minor=0, tail=b"", maxrec=None):
    """apm: (left, top, right, bottom, inch)"""
    head = b""
    if apm:
        head = struct.pack("<IHhhhhHI", 0x9AC6CDD7, 0, *apm, 0)
        x = 0
        for (v,) in struct.iter_unpack("<H", head):
            x ^= v
        head += struct.pack("<H", x)
    body = b"".join(i[0] for i in items)
    biggest = max(len(i[0]) // 2 for i in items) if maxrec is None else maxrec
    data = head + struct.pack("<HHBBIHIH", kind, 9, minor, 3, 9 + len(body) // 2, nobj, biggest, 0) + body + tail
    if len(data) < 40:
        return
    p = opened(ctx, data, WMF_File)
    if not tail:
        contiguous(ctx, what, p, len(data) * 8, 2)
        functions(ctx, what, p, items, len(head) + 18, WMF, 2)
    want = dict(file_type=kind, header_size=9, win_ver_min=minor, win_ver_maj=3, file_size=9 + len(body) // 2, nb_obj=nobj, max_record_size=biggest, nb_params=0)
    if apm:
        want.update({"amf_header/" + k: v for k, v in zip(("rect/left", "rect/top", "rect/right", "rect/bottom", "inch", "checksum"), apm + (x,))})
    for k, v in want.items():
        expect(ctx, what + ": " + k, get(p, k), v)
    expect(ctx, what + ": type", (p.description, p.mime_type, p["file_type"].display), ("Aldus Placeable Metafile (APM) picture" if apm else "Microsoft Windows Metafile (WMF) picture", "image/wmf", ("memory", "disk")[kind]))
    if items[-1][1] == 0:
        expect(ctx, what + ": size", p.content_size, (len(data) - len(tail)) * 8)
    return p


def wmf_headers(case, ctx):
    for kind, nobj, minor, apm in itertools.product((0, 1), (0, 1, 65535), (0, 16, 1), (None, (0, 0, 100, 200, 1440), (-100, -200, 300, 400, 96), (-32768, -1, -1, 32767, 1), (5, 6, 7, 8, 65535))):
        for tail in (b"", b"\x03\0\0\0\0\0", b"tail"):
            p = check_wmf(ctx, "WMF picture %s" % ((kind, nobj, minor, apm, tail),), [WPOOL[3], WPOOL[10], WPOOL[0], WPOOL[8], WPOOL[1], END], kind, apm, nobj, minor, tail)
            if apm and not tail and 0 < apm[2] - apm[0] < 20000 and 0 < apm[3] - apm[1] < 20000:
                check_meta(ctx, "metadata of the APM picture %s" % (apm,), metadata(p), width=apm[2] - apm[0], height=apm[3] - apm[1], bits_per_pixel=24)
    for code in WMF:
        if code in (0x2FA, 0x2FC, 0x324, 0x20B, 0x20C, 0, 0x104, 0x106, 0x12D, 0x1F0):
            continue
        for size in (0, 1, 2, 10, 300):
            check_wmf(ctx, "WMF function %s of %s words" % (WMF[code], size), [wmf(code, extra=b"\3\0" * size), WPOOL[0], END])


def wmf_values(case, ctx):
    colors = [(0, 0, 0, 0), (255, 1, 2, 0), (1, 255, 3, 2), (9, 8, 255, 255)]
    for s, c, h in itertools.product(BRUSH, colors, HATCH):
        check_wmf(ctx, "WMF brush %s" % ((s, c, h),), [brush(s, c, h), WPOOL[0], END])
    for s, c, w, h in itertools.product(PEN, colors, (0, 1, 65535), (0, 1, 65535)):
        check_wmf(ctx, "WMF pen %s" % ((s, c, w, h),), [pen(s, w, h, c), WPOOL[0], END])
    for code, table in ((0x104, ROP), (0x106, FILL), (0x12D, None), (0x1F0, None)):
        for v in table or (0, 1, 255, 65535):
            name = "operation" if table else "object_id"
            check_wmf(ctx, "WMF function %s of %s" % (WMF[code], v), [wmf(code, "H", v, names=name, display={name: table[v]} if table else {}), pen(), END])
    for code, v in itertools.product((0x104, 0x106), (1, 2)):
        check_wmf(ctx, "WMF function %s of %s with a reserved word" % (WMF[code], v), [wmf(code, "H", v, extra=b"\1\2", names="operation", more={"padding": b"\1\2"}), pen(), END])
    for n in list(range(12)) + [300]:
        check_wmf(ctx, "WMF polygon of %s points" % n, [polygon(n), pen(), END])
    # (the coordinates of SETWINDOWORG and SETWINDOWEXT are written with y first)
    for code, x, y in itertools.product((0x20B, 0x20C), (0, 1, -1, 32767), (0, 2, -2, -32768)):
        body = struct.pack("<IHhh", 5, code, y, x)
        p = check_wmf(ctx, "WMF window %s, %s" % (x, y), [(body, code, {}, {}), pen(), END])
        if (p["func[0]/x"].value, p["func[0]/y"].value) != (x, y):
            if (p["func[0]/x"].value, p["func[0]/y"].value) == (y, x):
                ctx.report("WMF function %s of x=%s, y=%s: x and y are exchanged" % (WMF[code], x, y), key="wmf-window-xy")
            else:
                ctx.report("WMF function %s of x=%s, y=%s: %s, %s" % (WMF[code], x, y, p["func[0]/x"].value, p["func[0]/y"].value))


def wmf_sequences(case, ctx):
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(WPOOL)), repeat=n):
            if seq[0] != case["first"]:
                continue
            for apm in (None, (0, 0, 10, 10, 96)):
                check_wmf(ctx, "WMF functions %s, %s" % (seq, apm), [WPOOL[i] for i in seq] + [END], apm=apm)


# --- Enhanced ---

def emf(code, fmt="", *args, extra=b"", names="", display=(), more=()):
    body = struct.pack("<" + fmt, *args) + extra
    pad = -len(body) % 4
    body += b"\0" * pad
    want = dict(more)
    if names:
        want.update(zip(names.split(), args))
    elif body and code != 70:
        want["data"] = body
    return struct.pack("<II", code, 8 + len(body)) + body, code, want, dict(display)


RECT = (-5, 6, 70000, -80000)
RECTN = "bounds/left bounds/top bounds/right bounds/bottom"


def emf_poly(code, n):
    p = points(n)
    return emf(code, "4iI%dh" % (2 * n), *RECT, n, *[v for v in p.values() if v != "no field"], names=RECTN + " count", more=p)


def emf_polypoly(counts):
    n = sum(counts)
    p = points(n)
    return emf(91, "4iII%dI%dh" % (len(counts), 2 * n), *RECT, len(counts), n, *counts, *[v for v in p.values() if v != "no field"],
               names=RECTN + " nb_polygon count " + " ".join("nb_point[%d]" % i for i in range(len(counts))), more=p)


def emf_pen(style=0, width=1, bs=0, c=(1, 2, 3, 0), hatch=0, styles=()):
    raw = struct.pack("<II8I4BII%dI" % len(styles), 95, 52 + 4 * len(styles), 4, 0, 0, 0, 0, style, width, bs, *c, hatch, len(styles), *styles)
    return raw, 95, dict(ihPen=4, offBmi=0, cbBmi=0, offBits=0, cbBits=0, pen_style=style, width=width, brush_style=bs, hatch=hatch, nb_style=len(styles), **color("color", c), **{"style[%d]" % i: s for i, s in enumerate(styles)}), {}


def comment(data):
    return emf(70, "I", len(data), extra=data, more={"data_size": len(data), "data": data or "no field", "padding": b"\0" * (-len(data) % 4) or "no field"})


def emf_brush(style=0, c=(1, 2, 3, 0), hatch=0):
    return emf(39, "II4Bi", 9, style, *c, hatch, names="ihBrush style color/red color/green color/blue color/alpha hatch")


EEND = emf(14, "III", 0, 16, 20)
EPOOL = [emf(9, "ii", 100, -200, names="x y"), emf(17, "i", 8, names="mapping_mode", display={"mapping_mode": "ANISOTROPIC"}), emf_poly(86, 3), emf_poly(88, 0), emf_polypoly((3, 0, 2)), emf_pen(styles=(5, 6)), comment(b"EMF+"), comment(b"abc"), emf_brush(),
         emf(37, "I", 0x80000001, names="object_id"), emf(59), emf(98, "I", 2, names="icm_mode"), emf(115, "I", 1), emf(76, extra=b"\x0e\0\0\0\x14\0\0\0" * 9)]


def check_emf(ctx, what, items, ext=0, text="", colors=0, size=(1024, 768), bounds=(0, 0, 10, 20), frame=(-1, -2, 300, 400), handles=1, at=None, pad=0):
    body = b"".join(i[0] for i in items)
    t = text.encode("utf-16-le")
    n = 88 + ext + len(t) + pad
    n += -n % 4
    count = len(items) + 1
    mm = (320, 240)
    head = struct.pack("<II4i4iIHHIIHHIIIiiii", 1, n, *bounds, *frame, 0x464D4520, 0, 1, n + len(body), count, handles, 0, len(t) // 2, 88 + ext if t else 0, colors, *size, *mm)
    head += b"\0" * ext + t
    head += b"\0" * (n - len(head))
    p = direct(ctx, head + body, WMF_File)      # (some look like MPEG audio)
    contiguous(ctx, what, p, n * 8 + len(body) * 8, 2)
    functions(ctx, what, p, items, n, EMF, 1)
    want = dict(type=1, size=n, signature=0x464D4520, min_ver=0, maj_ver=1, file_size=n + len(body), NumOfRecords=count, NumOfHandles=handles, desc_size=len(t) // 2, desc_ofst=88 + ext if t else 0, nb_colors=colors, width_px=size[0], height_px=size[1],
                width_mm=mm[0], height_mm=mm[1], description=text.strip("\0 ") if t else "no field")
    for name, r in (("Bounds", bounds), ("Frame", frame)):
        want.update({name + "/" + k: v for k, v in zip(("left", "top", "right", "bottom"), r)})
    for k, v in want.items():
        expect(ctx, what + ": " + k, get(p, "emf_header/" + k), v)
    expect(ctx, what + ": type", (p.description, p.mime_type), ("Microsoft Enhanced Metafile (EMF) picture", "image/x-emf"))
    return p


def emf_headers(case, ctx):
    texts = ["", "app\0picture\0\0", "only app\0\0", "\u20ac\0\U0001f600\0\0", "a" * 100 + "\0b\0\0"]
    for text, ext, colors, size, pad, handles in itertools.product(texts, (0, 12, 20, 60), (0, 1, 256), ((1, 1), (1024, 768), (19999, 20000)), (0, 4), (1, 65535)):
        what = "EMF picture %s" % ((text, ext, colors, size, pad, handles),)
        p = check_emf(ctx, what, [EPOOL[0], EPOOL[9], EEND], ext, text, colors, size, pad=pad, handles=handles)
        words = text.strip("\0").split("\0") if text else []
        check_meta(ctx, what + ": metadata", metadata(p), width=size[0], height=size[1], bits_per_pixel=8 if colors else 24, nb_colors=colors if colors > 1 else None if not colors else 1,
                   producer=words[0] if words else None, title=words[1] if len(words) > 1 else None)
    for b in itertools.product((0, -1, 2**31 - 1), repeat=4):
        check_emf(ctx, "EMF picture of bounds %s" % (b,), [EPOOL[0], EEND], bounds=b, frame=b[::-1])


def emf_values(case, ctx):
    done = {9, 10, 11, 12, 17, 27, 37, 39, 40, 54, 70, 86, 87, 88, 89, 91, 95, 98}
    for code in EMF:
        if code in done:
            continue
        for size in (0, 4, 8, 40, 500):
            p = check_emf(ctx, "EMF function %s of %s bytes" % (EMF[code], size), [emf(code, extra=bytes(i % 251 + 1 for i in range(size))), EEND])
    for code, x, y in itertools.product((9, 10, 11, 12, 27, 54), (0, 1, -1, 2**31 - 1), (0, 2, -2, -2**31)):
        check_emf(ctx, "EMF function %s of %s, %s" % (EMF[code], x, y), [emf(code, "ii", x, y, names="x y"), EEND])
    for m in MODE:
        check_emf(ctx, "EMF mode %s" % m, [emf(17, "i", m, names="mapping_mode", display={"mapping_mode": MODE[m]}), EEND])
    for code, v in itertools.product((37, 40, 98), (0, 1, 0x80000008, 2**32 - 1)):
        check_emf(ctx, "EMF function %s of %s" % (EMF[code], v), [emf(code, "I", v, names="icm_mode" if code == 98 else "object_id", display={} if code == 98 else {"object_id": "0x%08x" % v}), EEND])
    for code, n in itertools.product((86, 87, 88, 89), (0, 1, 2, 3, 7, 200)):
        check_emf(ctx, "EMF function %s of %s points" % (EMF[code], n), [emf_poly(code, n), EPOOL[0], EEND])
    for n in range(0, 5):
        for counts in itertools.product((0, 1, 2, 5), repeat=n):
            check_emf(ctx, "EMF polygons of %s points" % (counts,), [emf_polypoly(counts), EPOOL[0], EEND])
    for style, width, bs, c, hatch, n in itertools.product((0, 7, 0x10000, 0x12207), (0, 1, 2**32 - 1), (0, 2), ((1, 2, 3, 4), (255, 0, 0, 0)), (0, 5), (0, 1, 2, 5)):
        check_emf(ctx, "EMF pen %s" % ((style, width, bs, c, hatch, n),), [emf_pen(style, width, bs, c, hatch, tuple(range(10, 10 + n))), EPOOL[0], EEND])
    for style, c, hatch in itertools.product((0, 1, 2, 2**32 - 1), ((1, 2, 3, 4), (255, 0, 0, 0)), (0, 5, -1)):
        check_emf(ctx, "EMF brush %s" % ((style, c, hatch),), [emf_brush(style, c, hatch), EPOOL[0], EEND])
    for n in list(range(20)) + [500]:
        check_emf(ctx, "EMF comment of %s bytes" % n, [comment(bytes(i % 255 + 1 for i in range(n))), EPOOL[0], EEND])


def emf_sequences(case, ctx):
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(EPOOL)), repeat=n):
            if seq[0] == case["first"]:
                check_emf(ctx, "EMF functions %s" % (seq,), [EPOOL[i] for i in seq] + [EEND], ext=20, text="app\0x\0\0")


if __name__ == "__main__":
    c = lib.Check("A22", "model_checking",
                  "all headers (both kinds, frames, extensions, texts), every function with several sizes, all values of the arguments of functions which are decoded, all sequences of functions: place, size, name, values and displays, type, size and metadata of the picture",
                  bounds={"sequences": "up to 3 of 13 (WMF) and 14 (EMF) functions (thorough: 4)"})
    q = c.quick
    c.domain("WMF headers", [{}], wmf_headers)
    c.domain("WMF values", [{}], wmf_values)
    c.domain("WMF sequences", [{"n": 3 if q else 4, "first": k} for k in range(len(WPOOL))], wmf_sequences, batch=1)
    c.domain("EMF headers", [{}], emf_headers)
    c.domain("EMF values", [{}], emf_values)
    c.domain("EMF sequences", [{"n": 3 if q else 4, "first": k} for k in range(len(EPOOL))], emf_sequences, batch=1)
    c.main()
