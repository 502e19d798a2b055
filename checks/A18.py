"""A18: Gimp and Photoshop pictures are shown as they were written: header, properties, layers, channels, tiles, resources."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import check_meta, contiguous, direct as opened, expect, get, metadata
from hachoir.core.endian import LITTLE_ENDIAN
from hachoir.parser import Parser
from hachoir.parser.image import PsdFile, XcfFile
from hachoir.parser.image.common import BGR, BGRA, RGB, RGBA, PaletteBGR, PaletteBGRA, PaletteRGB, PaletteRGBA


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


VERSIONS = (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12)
PRECISION = {4: {0: "8-bit gamma integer", 1: "16-bit gamma integer", 2: "32-bit linear integer", 3: "16-bit linear floating point", 4: "32-bit linear floating point", 7: "7"},
             5: {100: "8-bit linear integer", 150: "8-bit gamma integer", 200: "16-bit linear integer", 250: "16-bit gamma integer", 300: "32-bit linear integer", 350: "32-bit gamma integer", 400: "16-bit linear floating point",
                 450: "16-bit gamma floating point", 500: "32-bit linear floating point", 550: "32-bit gamma floating point", 600: "600"},
             7: {100: "8-bit linear integer", 150: "8-bit gamma integer", 200: "16-bit linear integer", 250: "16-bit gamma integer", 300: "32-bit linear integer", 350: "32-bit gamma integer", 500: "16-bit linear floating point",
                 550: "16-bit gamma floating point", 600: "32-bit linear floating point", 650: "32-bit gamma floating point", 700: "64-bit linear floating point", 750: "64-bit gamma floating point", 400: "400"}}


def precisions(version):
    return {None: ""} if version < 4 else PRECISION[4 if version == 4 else 5 if version < 7 else 7]


NAMES = {0: "End", 1: "Colormap", 2: "Active layer", 3: "Active channel", 4: "Selection", 5: "Floating selection", 6: "Opacity", 7: "Mode", 8: "Visible", 9: "Linked", 10: "Lock alpha", 11: "Apply mask", 12: "Edit mask", 13: "Show mask",
         14: "Show masked", 15: "Offsets", 16: "Color", 17: "Compression", 18: "Guides", 19: "Resolution", 20: "Tattoo", 21: "Parasites", 22: "Unit", 23: "Paths", 24: "User unit", 25: "Vectors", 26: "Text layer flags",
         27: "Old Sample points", 28: "Lock content", 29: "Group item", 30: "Item path", 31: "Group item flags", 32: "Lock position", 33: "Float opacity", 34: "Color tag", 35: "Composite mode", 36: "Composite space", 37: "Blend space",
         38: "Float color", 39: "Sample points", 40: "Item set", 41: "Item set item", 42: "Lock visibility", 43: "Selected path", 44: "Filter region", 45: "Filter argument", 46: "Filter clip", 99: "99"}


def pascal(s):
    return struct.pack(">I", len(s.encode()) + 1) + s.encode() + b"\0"


def prop(kind, data):
    return struct.pack(">II", kind, len(data)) + data


def parasites(*items):
    return b"".join(pascal(n) + struct.pack(">I", fl) + pascal(d) for n, fl, d in items)


# (kind, data, fields of the property, metadata)
PROPERTIES = [
    (17, b"\0", {"data__compression": 0}, {"compression": "None"}), (17, b"\1", {"data__compression": 1}, {"compression": "RLE"}), (17, b"\2", {"data__compression": 2}, {"compression": "Zlib"}),
    (19, struct.pack(">ff", 72, 96.5), {"data__xres": 72.0, "data__yres": 96.5}, {"width_dpi": 72, "height_dpi": 96}),
    (20, struct.pack(">I", 7), {"data__tattoo": 7}, {}), (22, struct.pack(">I", 2), {"data__unit": 2}, {}),
    (21, parasites(("gimp-comment", 1, "Made with care")), {"data__parasite__0__name": "gimp-comment", "data__parasite__0__flags": 1, "data__parasite__0__data": "Made with care"}, {"comment": "Made with care"}),
    (21, parasites(("other", 3, "x"), ("gimp-comment", 1, "\u00e9t\u00e9")), {"data__parasite__0__name": "other", "data__parasite__0__flags": 3, "data__parasite__1__name": "gimp-comment", "data__parasite__1__data": "\u00e9t\u00e9"},
     {"comment": "\u00e9t\u00e9"}),
    (21, b"", {}, {}), (2, b"", {}, {}), (1, b"\0\0\0\1abc", {"data": b"\0\0\0\1abc"}, {}), (6, struct.pack(">I", 128), {"data__alpha": 128, "data__red": 0}, {}),
    (7, struct.pack(">I", 28 - 5), {"data__mode": 23}, {}), (15, struct.pack(">ii", -5, 700), {"data__ofst_x": -5, "data__ofst_y": 700}, {}), (15, struct.pack(">ii", 1, -(1 << 20)), {"data__ofst_x": 1, "data__ofst_y": -(1 << 20)}, {}),
] + [(k, struct.pack(">I", v), {"data": bool(v)}, {}) for k in (8, 9, 10, 11, 12, 13) for v in (0, 1)] + [(99, b"unknown", {"data": b"unknown"}, {})]


def check_props(ctx, what, f, props):
    got = [x for x in f if x.name.startswith("property[")]
    if expect(ctx, what + ": properties", [x["type"].value for x in got], [p[0] for p in props] + [0]):
        for x, (kind, data, want, meta) in zip(got, props):
            w = "%s: %s" % (what, x.name)
            expect(ctx, w + ": size", (x["size"].value, x.size // 8), (len(data), 8 + len(data)))
            expect(ctx, w + ": description", x.description, "Property: " + NAMES[kind])
            fields(ctx, w, x, **want)


def hierarchy(at, wide, levels, gap, end):
    """levels: [sizes of the tiles]; the next levels are empty, as Gimp writes them; returns the bytes and the fields"""
    w = ">Q" if wide else ">I"
    n = 8 if wide else 4
    p = at + 12 + n * (len(levels) + 1)
    head, body, want = struct.pack(">III", 64, 32, 3), b"", {"width": 64, "height": 32, "bpp": 3}
    pos = []
    for i, tiles in enumerate(levels):
        body += bytes(gap)
        start = p + len(body)
        pos.append((start, tiles))
        head += struct.pack(w, start)
        want["offset__%d" % i] = start
        want["level__%d__width" % i] = 64 >> i
        want["level__%d__height" % i] = 32 >> i
        body += struct.pack(">II", 64 >> i, 32 >> i)
        if i:
            body += bytes(4)
            want["level__%d__offset" % i] = 0
            continue
        if not tiles:
            body += bytes(n)
            want["level__0__offset"] = 0
            continue
        t = start + 8 + n * (len(tiles) + 1)
        for k, size in enumerate(tiles):
            body += struct.pack(w, t)
            want["level__0__offset" if not k else "level__0__data_offset__%d" % (k - 1)] = t
            # the last tile ends where the next level, mask, layer or channel starts
            want["level__0__data__%d" % k] = bytes([65 + k]) * size + bytes(gap if k + 1 == len(tiles) and not (end and len(levels) == 1) else 0)
            t += size
        want["level__0__data_offset__%d" % (len(tiles) - 1)] = 0
        body += bytes(n)
        for k, size in enumerate(tiles):
            body += bytes([65 + k]) * size
    want["offset__%d" % len(levels)] = 0
    return head + struct.pack(w, 0) + body, want


def xcf(version, kind, precision, props, layers, channels, gap=0, size=(300, 200)):
    """layers: [(type, name, props, levels, mask)], channels: [(name, props, levels)]"""
    wide = version >= 11
    w, n = (">Q", 8) if wide else (">I", 4)
    head = (b"gimp xcf file\0" if not version else b"gimp xcf v%03d\0" % version) + struct.pack(">III", size[0], size[1], kind)
    if precision is not None:
        head += struct.pack(">I", precision)
    head += b"".join(prop(p[0], p[1]) for p in props) + prop(0, b"")
    at = len(head) + n * (len(layers) + len(channels) + 2)
    body, offs, wants = b"", [], []
    for x in layers + channels:
        body += bytes(gap)
        start = at + len(body)
        offs.append(start)
        if len(x) == 5:
            t, name, pp, levels, mask = x
            b = struct.pack(">III", 30, 20, t) + pascal(name)
        else:
            name, pp, levels = x
            mask = None
            b = struct.pack(">II", 30, 20) + pascal(name)
        b += b"".join(prop(p[0], p[1]) for p in pp) + prop(0, b"")
        ptr = start + len(b) + n * (1 if mask is None else 2) + gap
        h, want = hierarchy(ptr, wide, levels, gap, mask or len(wants) + 1 == len(layers + channels))
        b += struct.pack(w, ptr)
        if mask is not None:
            b += struct.pack(w, ptr + len(h) if mask else 0)
        b += bytes(gap) + h
        wants.append((start, ptr, ptr + len(h) if mask else 0, want))
        if mask:
            m = ptr + len(h)
            b += struct.pack(">II", 30, 20) + pascal("The mask") + prop(8, struct.pack(">I", 1)) + prop(0, b"")
            mp = start + len(b) + n + gap
            h, mw = hierarchy(mp, wide, [(2, 3)], gap, len(wants) == len(layers + channels))
            b += struct.pack(w, mp) + bytes(gap) + h
            want.update({"../mask/hierarchy/" + re.sub("__([0-9]+)", r"[\1]", k).replace("__", "/"): v for k, v in mw.items()})
            want.update({"../mask/name": "The mask", "../mask/hierarchy_ofs": mp, "../mask/property[0]/data": True, "../mask/width": 30, "../mask/height": 20})
        body += b
    for group in (offs[:len(layers)], offs[len(layers):]):
        for o in group:
            head += struct.pack(w, o)
        head += struct.pack(w, 0)
    return head + body, wants


def check_xcf(ctx, what, version, kind, precision, props, layers, channels, gap=0, size=(300, 200)):
    data, wants = xcf(version, kind, precision, props, layers, channels, gap, size)
    p = opened(ctx, data, XcfFile)
    contiguous(ctx, what, p, len(data) * 8, 2)
    fields(ctx, what, p, signature="gimp xcf file\0" if not version else "gimp xcf v%03d\0" % version, width=size[0], height=size[1], type=kind)
    if precision is not None:
        fields(ctx, what, p, precision=precision)
        expect(ctx, what + ": name of the precision", p["precision"].display, precisions(version)[precision])
    else:
        expect(ctx, what + ": precision", "precision" in p, False)
    expect(ctx, what + ": type", p["type"].display, {0: "RGB", 1: "Gray", 2: "Indexed"}.get(kind, str(kind)))
    check_props(ctx, what, p, props)
    n = len(layers)
    fields(ctx, what, p, **{"layer_offset__%d" % i: wants[i][0] if i < n else 0 for i in range(n + 1)}, **{"channel_offset__%d" % i: wants[n + i][0] if i < len(channels) else 0 for i in range(len(channels) + 1)})
    expect(ctx, what + ": layers and channels", [(x.name, x.address // 8) for x in p if x.is_field_set and x.name.startswith(("layer", "channel"))],
           [("layer[%d]" % i if i < n else "channel[%d]" % (i - n), wants[i][0]) for i in range(len(wants))])
    for i, x in enumerate(layers + channels):
        name = "layer[%d]" % i if i < n else "channel[%d]" % (i - n)
        if name not in p:
            continue
        f = p[name]
        w = "%s: %s" % (what, name)
        start, ptr, mask, want = wants[i]
        fields(ctx, w, f, width=30, height=20, name=x[-4 if i < n else 0], hierarchy_ofs=ptr)
        expect(ctx, w + ": description", f.description.encode("latin-1", "replace"), ('%s "%s"' % ("Layer" if i < n else "Channel", x[-4 if i < n else 0])).encode("latin-1", "replace"))
        if i < n:
            fields(ctx, w, f, type=x[0], mask_ofs=mask)
            expect(ctx, w + ": name of the type", f["type"].display, ["RGB", "RGB with alpha", "Gray", "Gray with alpha", "Indexed", "Indexed with alpha"][x[0]])
        check_props(ctx, w, f, x[2 if i < n else 1])
        h = f["hierarchy"]
        expect(ctx, w + ": place of the hierarchy", h.absolute_address // 8, ptr)
        fields(ctx, w + ": hierarchy", h, **want)
        levels = x[3 if i < n else 2]
        expect(ctx, w + ": levels", [y.absolute_address // 8 for y in h if y.name.startswith("level")], [want["offset__%d" % k] for k in range(len(levels))])
    m = metadata(p)
    want = {"width": size[0], "height": size[1], "bits_per_pixel": {0: 24, 1: 8, 2: 8}.get(kind), "comment": None, "compression": None, "width_dpi": None, "height_dpi": None}
    for q in props:
        want.update(q[3])
    check_meta(ctx, what, m, **want)
    expect(ctx, what + ": format", m.get("format_version", None), {0: "RGB", 1: "Gray", 2: "Indexed"}.get(kind, str(kind)))
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", 1 + len(props) + len(layers) + len(channels))


def headers(case, ctx):
    version = case["version"]
    for kind, precision, size in itertools.product((0, 1, 2, 3), precisions(version), ((1, 1), (300, 200), (1 << 14, 3))):
        check_xcf(ctx, "Gimp picture of version %s, type %s, precision %s, size %s" % (version, kind, precision, size), version, kind, precision, [], [], [], size=size)
    pr = list(precisions(version))[0]
    for props in itertools.chain([()], itertools.product(PROPERTIES, repeat=1), itertools.product(PROPERTIES, repeat=2)):
        if len({p[0] for p in props}) == len(props):
            check_xcf(ctx, "Gimp picture of version %s with the properties %s" % (version, [p[:2] for p in props]), version, 0, pr, list(props), [], [])
    for kind in NAMES:
        if kind and kind not in [p[0] for p in PROPERTIES]:
            check_xcf(ctx, "Gimp picture of version %s with the property %s" % (version, kind), version, 0, pr, [(kind, b"data", {"data": b"data"}, {})], [], [])


LEVELS = [[()], [(5,)], [(5, 3)], [(5,), ()], [(4, 1, 6), (), ()], [(), ()]]


def layers(case, ctx):
    version = case["version"]
    pr = list(precisions(version))[0]
    some = [PROPERTIES[11], PROPERTIES[13], PROPERTIES[16]]
    kinds = [(k % 6, ["Background", "Calque \u00e9", "x", ""][k % 4], [[], some, some[:1]][k % 3], lv, k % 2 == 1) for k, lv in enumerate(LEVELS)]
    chans = [(["Mask", "c"][k % 2], [[], some[:1]][k % 2], lv) for k, lv in enumerate(LEVELS)]
    for nl in range(0, case["layers"] + 1):
        for ls in itertools.product(kinds, repeat=nl):
            for nc in range(0, 3 if nl < 2 else 2):
                for cs in itertools.product(chans if nl < 2 else chans[1:5:3], repeat=nc):
                    for gap in (0, 3):
                        check_xcf(ctx, "Gimp picture of version %s, layers %s, channels %s, gap %s" % (version, [(x[0], x[1], x[3]) for x in ls], [x[2] for x in cs], gap), version, 1, pr, [], list(ls), list(cs), gap)


def modes(case, ctx):
    """All kinds of layers and modes have their name"""
    for t in range(6):
        for mode in range(0, 63):
            data, wants = xcf(case["version"], 0, list(precisions(case["version"]))[0], [], [(t, "l", [(7, struct.pack(">I", mode), {}, {})], [()], False)], [])
            p = opened(ctx, data, XcfFile)
            f = p["layer[0]/property[0]/data/mode"]
            expect(ctx, "mode %s" % mode, f.value, mode)
            names = {0: "Normal", 1: "Dissolve", 2: "Behind", 3: "Multiply", 4: "Screen", 6: "Difference", 7: "Addition", 8: "Subtract", 9: "Darken", 10: "Lighten", 11: "Hue", 12: "Saturation", 13: "Color", 14: "Value", 15: "Divide",
                     16: "Dodge", 17: "Burn", 18: "Hard light", 19: "Soft light", 20: "Grain extract", 21: "Grain merge", 22: "Color erase", 23: "Overlay", 24: "Hue", 25: "Chroma", 26: "Color", 27: "Lightness", 29: "Behind",
                     30: "Multiply", 31: "Screen", 32: "Difference", 33: "Addition", 34: "Subtract", 35: "Darken", 36: "Lighten", 37: "Hue", 38: "Saturation", 39: "Color", 40: "Value", 41: "Divide", 42: "Dodge", 43: "Burn",
                     44: "Hard light", 45: "Soft light", 46: "Grain extract", 47: "Grain merge", 48: "Vivid light", 49: "Pin light", 50: "Linear light", 51: "Hard mix", 52: "Exclusion", 53: "Linear burn", 54: "Luma", 55: "Luma",
                     56: "Luminance", 57: "Color erase", 58: "Erase", 59: "Merge", 60: "Split", 61: "Pass through"}
            if mode in names and not f.display.startswith(names[mode]):
                ctx.report("mode %s is shown as %s" % (mode, f.display))
            ctx.seen("states", repr((t, mode)))
            ctx.count("traces")
            ctx.count("transitions")


# --- Photoshop ---

def resource(tag, data, name=b""):
    n = bytes([len(name)]) + name
    return b"8BIM" + struct.pack(">H", tag) + n + bytes(len(n) % 2) + struct.pack(">I", len(data)) + data + bytes(len(data) % 2)


def uni(s):
    return struct.pack(">I", len(s)) + s.encode("utf-16-be")


# (tag, data, name of the field, fields of the content)
RESOURCES = [
    (0x3ED, struct.pack(">HHHHHHHH", 300, 0x8000, 1, 2, 72, 0x4000, 2, 5), "res_info",
     {"content__horiz_res": 300.5, "content__horiz_res_unit": 1, "content__width_unit": 2, "content__vert_res": 72.25, "content__vert_res_unit": 2, "content__height_unit": 5}),
    (0x3F3, bytes([0, 1, 0, 1, 1, 0, 0, 1, 0]), "print_flag", {"content": ["crop_marks", "reg_marks", "negative", "caption"]}), (0x3F3, bytes(9), "print_flag", {"content": []}),
    (0x406, b"quality", "jpeg_qual", {"content": b"quality"}), (0x408, struct.pack(">IIII", 1, 576, 288, 0), "grid_guide", {"content__version": 1, "content__horiz_cycle": 576, "content__vert_cycle": 288, "content__guide_count": 0}),
    (0x40A, b"\1", "copyright_flag", {"content": 1}), (0x410, b"\5", "watermark", {"content": 5}), (0x40B, b"http://www", "url", {"content": b"http://www"}), (0x40D, struct.pack(">I", 120), "glob_angle", {"content": 120}),
    (0x419, struct.pack(">I", 30), "glob_altitude", {"content": 30}), (0x414, struct.pack(">I", 1 << 31), "base_layer_id", {"content": 1 << 31}), (0x416, struct.pack(">H", 255), "indexed_colors", {"content": 255}),
    (0x417, struct.pack(">H", 7), "transparency_index", {"content": 7}), (0x421, struct.pack(">IB", 1, 1) + uni("Adobe Photoshop") + uni("Other \u00e9") + struct.pack(">I", 3), "version",
     {"content__version": 1, "content__has_realm": 1, "content__writer_name": "Adobe Photoshop", "content__reader_name": "Other \u00e9", "content__file_version": 3}),
    (0x421, struct.pack(">IB", 2, 0) + uni("") + uni("x") + struct.pack(">I", 1), "version", {"content__version": 2, "content__has_realm": 0, "content__writer_name": None, "content__reader_name": "x", "content__file_version": 1}),
    (0x426, struct.pack(">Hfff", 2, 1.5, -2, 0.25), "printscale", {"content__style": 2, "content__x_location": 1.5, "content__y_location": -2.0, "content__scale": 0.25}),
    (0x2710, struct.pack(">HBBIH", 1, 1, 0, 70000, 2), "print_flag2", {"content__version": 1, "content__center_crop_marks": 1, "content__bleed_width": 70000, "content__bleed_width_scale": 2}),
    (0x40C, struct.pack(">IIIIIIHH", 1, 100, 80, 300, 24000, 7, 24, 1) + b"\xff\xd8 jpeg", "thumb_res2",
     {"content__format": 1, "content__width": 100, "content__height": 80, "content__widthbytes": 300, "content__uncompressed_size": 24000, "content__compressed_size": 7, "content__bits_per_pixel": 24, "content__num_planes": 1,
      "content__thumbnail": b"\xff\xd8 jpeg"}),
    (0x404, b"\x1c\2\x5a\0\4city", "iptc", {"content__city__content": "city"}), (0x425, bytes(range(16)), "caption_digest", {"content": bytes(range(16))}), (0x7777, b"other", "item[]", {"content": b"other"}), (0x7777, b"", "item[]", {}),
    (0x41A, b"s" * 70000, "slices", {"content": b"s" * 70000}), (0x409, struct.pack(">IIIIIIHH", 1, 1, 1, 4, 4, 65539, 24, 1) + b"j" * 65539, "thumb_res", {"content__compressed_size": 65539, "content__thumbnail": b"j" * 65539}),
]
MODES = {0: "Bitmap", 1: "Grayscale", 2: "Indexed", 3: "RGB color", 4: "CMYK color", 7: "Multichannel", 8: "Duotone", 9: "Lab Color", 5: "5"}


def check_psd(ctx, what, head=(3, 200, 300, 8, 3), mode=b"", items=(), reserved=b"", compression=1, tail=b"pixels"):
    conf = b"".join(resource(t, d, n) for t, d, n, _, _ in items)
    data = b"8BPS\0\1" + bytes(6) + struct.pack(">HIIHH", *head) + struct.pack(">I", len(mode)) + mode + struct.pack(">I", len(conf)) + conf + struct.pack(">I", len(reserved)) + reserved + struct.pack(">H", compression) + tail
    p = opened(ctx, data, PsdFile)
    contiguous(ctx, what, p, len(data) * 8, 3)
    fields(ctx, what, p, signature="8BPS", version=1, nb_channels=head[0], height=head[1], width=head[2], depth=head[3], color_mode=head[4], mode_data_size=len(mode), config__size=len(conf), reserved_data_size=len(reserved),
           compression=compression, **({"end": tail} if tail else {}), **({"mode_data": mode} if mode else {}), **({"reserved_data": reserved} if reserved else {}))
    expect(ctx, what + ": names", (p["color_mode"].display, p["compression"].display), (MODES[head[4]], {0: "Raw data", 1: "RLE"}.get(compression, str(compression))))
    got = [x for x in p["config"] if x.name != "size"]
    count = 0
    if expect(ctx, what + ": resources", len(got), len(items)):
        at = 4
        for x, (t, d, n, name, want) in zip(got, items):
            w = "%s: resource %x" % (what, t)
            if name == "item[]":
                name = "item[%d]" % count
                count += 1
            elif [i[3] for i in items].count(name) == 2:
                name = x.name
            size = len(resource(t, d, n))
            expect(ctx, w + ": place", (x.name, x.address // 8, x.size // 8), (name, at, size))
            at += size
            fields(ctx, w, x, signature="8BIM", tag=t, size=len(d), **want)
            expect(ctx, w + ": name", get(x, "name") or "", n.decode())
            if "mime_type" in str(x):
                pass
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", 1 + len(items))


def psds(case, ctx):
    for ch, (h, w), depth, mode in itertools.product((1, 3, 4, 24), ((1, 2), (200, 300), (30000, 7)), (1, 8, 16, 32), MODES):
        check_psd(ctx, "Photoshop picture %s" % ((ch, h, w, depth, mode),), (ch, h, w, depth, mode))
    for mode, reserved, compression, tail, items in itertools.product((b"", b"m", b"p" * 768), (b"", b"r", b"layers" * 20), (0, 1, 2), (b"", b"x", b"pixels" * 9), ((), ((0x40A, b"\1", b"", "copyright_flag", {"content": 1}),))):
        check_psd(ctx, "Photoshop picture with mode %s, layers %s, compression %s, data %s, %s resources" % (len(mode), len(reserved), compression, len(tail), len(items)), mode=mode, items=items, reserved=reserved, compression=compression, tail=tail)


def resources(case, ctx):
    for n in range(1, case["n"] + 1):
        for items in itertools.product(RESOURCES, repeat=n):
            if n > 1 and any(len(i[1]) > 60000 for i in items[1:]) or len({i[2] for i in items if "[" not in i[2]}) < len([i for i in items if "[" not in i[2]]):
                continue
            if n > 2 and RESOURCES.index(items[0]) != case["first"]:
                continue
            if n < 3 and case["first"]:
                continue
            for name in (b"", b"x", b"ab") if n == 1 else (b"", b"x"):
                check_psd(ctx, "Photoshop picture with the resources %s called %s" % (["%x of %s" % (i[0], len(i[1])) for i in items], name), items=[(t, d, name, f, w) for t, d, f, w in items])


PALETTES = {"RGB": PaletteRGB, "RGBA": PaletteRGBA, "BGR": PaletteBGR, "BGRA": PaletteBGRA}
ITEMS = {"RGB": RGB, "RGBA": RGBA, "BGR": BGR, "BGRA": BGRA}
COLORS = {(0, 0, 0): "Black", (255, 0, 0): "Red", (0, 255, 0): "Green", (0, 0, 255): "Blue", (255, 255, 255): "White"}


class Colors(Parser):
    PARSER_TAGS = {"id": "colors", "category": "misc", "description": "Colors", "min_size": 8}
    endian = LITTLE_ENDIAN
    kind, count = "RGB", 1

    def validate(self):
        return True

    def createFields(self):
        yield PALETTES[self.kind](self, "palette", self.count)
        yield ITEMS[self.kind](self, "one")


def colors(case, ctx):
    """The palettes which all the pictures use: all colors of extreme values, all opacities, all lengths"""
    some = list(itertools.product((0, 1, 127, 254, 255), repeat=3))
    for kind in PALETTES:
        for group in [some] + [some[i:i + n] for n in (1, 2, 3, 16) for i in range(0, 100, 7)]:
            for alphas in ([0, 255, 128, 1, 254], range(256)) if "A" in kind else ([None],):
                rows = [(c, a) for i, c in enumerate(group) for a in ([alphas[i % 5]] if len(alphas) == 5 else alphas if i < 3 else alphas[:1])]
                raw = lambda c, a: bytes(c if kind.startswith("R") else c[::-1]) + (bytes([a]) if a is not None else b"")
                Colors.kind, Colors.count = kind, len(rows)
                p = opened(ctx, b"".join(raw(*r) for r in rows) + raw(*rows[0]), Colors)
                what = "palette of %s %s colors" % (len(rows), kind)
                expect(ctx, what + ": number, place of the next", (len(p["palette"]), p["one"].absolute_address), (len(rows), len(raw(*rows[0])) * len(rows) * 8))
                for k, (f, (c, a)) in enumerate(zip(list(p["palette"]) + [p["one"]], rows + rows[:1])):
                    text = "RGB color: " + COLORS.get(c, "#%02X%02X%02X" % c) + (" (opacity: %s%%)" % (a * 100 // 255) if a is not None else "")
                    got = (f["red"].value, f["green"].value, f["blue"].value, f["alpha"].value if a is not None else None, f.description)
                    if got != c + (a, text):
                        ctx.report("%s: color %s: %s, expected %s" % (what, k, got, c + (a, text)))
                        return


if __name__ == "__main__":
    c = lib.Check("A18", "model_checking",
                  "all versions, types, precisions and pairs of properties of Gimp pictures; sequences of layers and channels with all shapes of levels and tiles, with gaps; all headers, sections and sequences of resources of "
                  "Photoshop pictures: place and value of each field, and metadata",
                  bounds={"layers": "up to 2, with up to 2 channels", "tiles": "up to 3", "resources": "up to 2 of %s (thorough: 3)" % len(RESOURCES)})
    q = c.quick
    c.domain("headers", [{"version": v} for v in VERSIONS], headers, batch=1)
    c.domain("layers", [{"version": v, "layers": 2 if v in (0, 11) or not q else 1} for v in VERSIONS], layers, batch=1)
    c.domain("modes", [{"version": v} for v in (0, 10, 11)], modes, batch=1)
    c.domain("psds", [{}], psds)
    c.domain("colors", [{}], colors)
    c.domain("resources", [{"n": 2, "first": 0}] if q else [{"n": 3, "first": k} for k in range(len(RESOURCES))], resources, batch=1)
    c.main()
