"""A14: Flash movies are shown as they were written: header, tags, sounds, pictures, actions and classes, plain or compressed."""
import itertools, math, os, re, struct, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import check_meta, contiguous, expect, get, metadata, direct as opened
from hachoir.parser import guessParser
from hachoir.parser.container import SwfFile


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if v != "any" and (got != v or isinstance(got, bool) != isinstance(v, bool)):
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


def bits(pairs):
    """Bits, the most significant one first, up to a byte"""
    text = "".join(format(v, "0%db" % n) if n else "" for v, n in pairs)
    text += "0" * (-len(text) % 8)
    return int(text, 2).to_bytes(len(text) // 8, "big")


def rect(nbits, *values):
    return bits([(nbits, 5)] + [(v, nbits) for v in values])


def tag(code, body=b"", long=None):
    if long is None:
        long = len(body) >= 63
    if long:
        return struct.pack("<HI", code << 6 | 63, len(body)) + body
    return struct.pack("<H", code << 6 | len(body)) + body


def movie(tags, version=6, r=None, rate=24 * 256, frames=1, packed=False):
    body = (r or rect(15, 0, 11000, 0, 8000)) + struct.pack("<HH", rate, frames) + b"".join(tags)
    size = len(body) + 8
    return (b"CWS" if packed else b"FWS") + bytes([version]) + struct.pack("<I", size) + (zlib.compress(body) if packed else body)


def load(ctx, what, data):
    """The parser of the movie, also when it is compressed"""
    p = opened(ctx, data, SwfFile)
    if data[:1] == b"C":
        contiguous(ctx, what, p, len(data) * 8)
        fields(ctx, what, p, signature="CWS", version=data[3], filesize=int.from_bytes(data[4:8], "little"))
        expect(ctx, what + ": description", p.description, "Macromedia Flash data: version %s, compressed" % data[3])
        formats.STRICT["on"] = False
        p = guessParser(p["compressed_data"].getSubIStream())
        formats.STRICT["on"] = True
        if type(p) is not SwfFile:
            ctx.report("%s: the compressed movie is read by %s" % (what, type(p).__name__))
            return None
    fields(ctx, what, p, signature="FWS")
    return p


def headers(case, ctx):
    for nbits, (w, h), rate, frames, version in itertools.product(range(1, 32), ((0, 0), (1, 1), (20, 40), (399, 401), (11000, 8000), (2 ** 30, 2 ** 31 - 1)), (0, 256, 0x0C80, 0xFFFF), (0, 1, 65535), case["versions"]):
        if max(w, h) >= 1 << nbits:
            continue
        data = movie([tag(1), tag(0)], version, rect(nbits, 0, w, 0, h), rate, frames, case["packed"])
        what = "movie of %sx%s twips in %s bits, rate %#x, %s frames, version %s%s" % (w, h, nbits, rate, frames, version, ", compressed" if case["packed"] else "")
        p = load(ctx, what, data)
        if p is None:
            continue
        size = (5 + 4 * nbits + 7) // 8
        fields(ctx, what, p, version=version, rect__nbits=nbits, rect__xmin=0, rect__xmax=w, rect__ymin=0, rect__ymax=h, frame_rate=rate / 256, frame_count=frames)
        expect(ctx, what + ": rectangle", (p["rect"].size, p["rect"].description), (size * 8, "Rectangle: %sx%s" % (math.ceil(w / 20), math.ceil(h / 20))))
        expect(ctx, what + ": tags", [f.name for f in p][3:], ["rect", "frame_rate", "frame_count", "show_frame[0]", "end[0]"])
        expect(ctx, what + ": description", p.description, "Macromedia Flash data: version %s" % version)
        if not case["packed"]:
            contiguous(ctx, what, p, len(data) * 8, 2)
            expect(ctx, what + ": size", p.content_size, len(data) * 8)
            m = metadata(p)
            if 20 < w <= 20000 * 20 and 20 < h <= 20000 * 20:
                check_meta(ctx, what, m, width=math.ceil(w / 20), height=math.ceil(h / 20), format_version="flash version %s" % version, comment="Frame count: %s" % frames)


NAMES = {0: "end[]", 1: "show_frame[]", 2: "def_shape[]", 4: "place_obj[]", 5: "remove_obj[]", 8: "jpg_table", 10: "def_font[]", 11: "def_text[]", 13: "def_font_info[]", 16: "stop_sound[]", 17: "def_but_sound[]", 20: "def_bits_lossless[]", 22: "def_shape2[]",
         24: "protect", 26: "place_obj2[]", 28: "remove_obj2[]", 32: "def_shape3[]", 34: "def_but2[]", 36: "def_bits_lossless2[]", 37: "def_text_field[]", 39: "def_sprite[]", 43: "frame_label[]", 46: "def_morph_shape[]", 48: "def_font2[]", 57: "import[]",
         59: "do_init_action[]", 60: "video_str[]", 66: "tab_index[]", 69: "file_attr[]", 70: "place_obj3[]", 71: "import2[]", 73: "def_font_align[]", 74: "csm_txt_set[]", 75: "def_font3[]", 77: "metadata[]", 78: "def_scale_grid[]", 83: "def_shape4[]", 84: "def_morph2[]",
         86: "def_scene_frame[]", 88: "def_font_name[]", 30: "tag[]", 255: "tag[]", 1023: "tag[]"}


def jpeg(n):
    return b"\xff\xd8\xff\xe0\0\x10JFIF\0\1\1\0\0\1\0\1\0\0\xff\xda\0\x08\1\1\0\0\x3f\0" + b"\x55" * n + b"\xff\xd9"


TABLES = b"\xff\xd8\xff\xdb\0\x43\0" + b"\1" * 64 + b"\xff\xd9"
KINDS = {}


def kind(name, code, body, check, title):
    KINDS[name] = (code, body, check, title)


def vals(**want):
    return lambda ctx, what, g: fields(ctx, what, g, **want)


def image(at, size, **want):
    def check(ctx, what, g):
        fields(ctx, what, g, **want)
        f = g["image"]
        expect(ctx, what + ": place of the picture", (f.address, f.size), (at * 8, size * 8))
    return check


def make_kinds():
    if KINDS:
        return
    kind("color", 9, b"\xcc\x99\x33", lambda ctx, what, g: (fields(ctx, what, g, color__red=0xCC, color__green=0x99, color__blue=0x33), expect(ctx, what, g["color"].description, "RGB color: #CC9933")), "bkgd_color[]")
    kind("sound", 14, struct.pack("<HBI", 7, 2 << 4 | 1 << 2 | 1, 1000) + struct.pack("<H", 1661) + b"MP3DATA", vals(sound_id=7, is_stereo=True, is_16bit=False, rate=1, codec=2, sample_count=1000, len=1661, music_data=b"MP3DATA"), "def_sound[]")
    kind("sound of no data", 14, struct.pack("<HBI", 65535, 3 << 4 | 3 << 2 | 2, 0), vals(sound_id=65535, is_stereo=False, is_16bit=True, rate=3, codec=3, sample_count=0, music_data="no field"), "def_sound[]")
    kind("start", 15, struct.pack("<HB", 5, 0x10), vals(sound_id=5, has_in_point=False, has_envelope=False, no_multiple=True, stop_playback=False, in_point="no field", envelope="no field"), "start_sound[]")
    kind("stream head", 18, struct.pack("<BBHH", 0x0A, 0x27, 576, 1105), vals(playback_is_stereo=False, playback_is_16bit=True, playback_rate=2, sound_is_stereo=True, sound_is_16bit=True, sound_rate=1, codec=2, sample_count=576, latency_seek=1105), "sound_hdr")
    kind("stream head 2", 45, struct.pack("<BBH", 0x01, 0x1C, 1), vals(playback_is_stereo=True, playback_is_16bit=False, playback_rate=0, sound_is_stereo=False, sound_is_16bit=False, sound_rate=3, codec=1, sample_count=1, latency_seek="no field"), "sound_hdr2[]")
    kind("stream block", 19, struct.pack("<HH", 576, 3) + b"music", vals(samples=576, left=3, music_data=b"music"), "sound_blk[]")
    kind("empty stream block", 19, struct.pack("<HH", 0, 0), vals(samples=0, left=0, music_data="no field"), "sound_blk[]")
    kind("bits", 6, b"\x09\0" + jpeg(9), image(4, len(jpeg(9)), char_id=9), "def_bits[]")
    kind("jpeg 2", 21, b"\x0a\0" + jpeg(40), image(4, len(jpeg(40)), char_id=10), "def_bits_jpeg2[]")
    kind("jpeg 2 with tables", 21, b"\x0a\0" + TABLES + jpeg(40), image(4 + len(TABLES), len(jpeg(40)), char_id=10), "def_bits_jpeg2[]")
    kind("jpeg 3", 35, b"\x0b\0" + struct.pack("<I", len(jpeg(40))) + jpeg(40) + b"alpha", lambda ctx, what, g: (image(8, len(jpeg(40)), char_id=11, alpha_offset=len(jpeg(40)))(ctx, what, g), fields(ctx, what, g, alpha=b"alpha")), "def_bits_jpeg3[]")
    kind("jpeg 3 with tables", 35, b"\x0b\0" + struct.pack("<I", len(TABLES + jpeg(40))) + TABLES + jpeg(40) + b"alpha", lambda ctx, what, g: (image(8 + len(TABLES), len(jpeg(40)), char_id=11)(ctx, what, g), fields(ctx, what, g, alpha=b"alpha")), "def_bits_jpeg3[]")
    kind("jpeg 3 of no alpha", 35, b"\x0b\0" + struct.pack("<I", len(jpeg(40))) + jpeg(40), image(8, len(jpeg(40)), char_id=11, alpha="no field"), "def_bits_jpeg3[]")
    kind("export", 56, b"\2\0" + b"\x05\0C bras\0" + b"\xff\xff\0", lambda ctx, what, g: (fields(ctx, what, g, count=2), expect(ctx, what, [(f["object_id"].value, f["name"].value) for f in g.array("export")], [(5, "C bras"), (65535, "")])), "export[]")
    kind("no export", 56, b"\0\0", vals(count=0), "export[]")
    kind("symbols", 76, b"\2\0" + b"\x05\0Main\0" + b"\x06\0a.b\0", vals(count=2, symbol_id__0=5, symbol_name__0="Main", symbol_id__1=6, symbol_name__1="a.b"), "symbol_class[]")
    kind("frame", 61, b"\1\0\2\0video", vals(stream_id=1, frame_num=2, video_data=b"video"), "video_frame[]")
    kind("empty frame", 61, b"\1\0\2\0", vals(stream_id=1, frame_num=2, video_data="no field"), "video_frame[]")
    kind("product", 41, struct.pack("<iiBBqq", 3, 6, 4, 0, 1 << 40, -5), vals(product_id=3, edition=6, major_version=4, minor_version=0, build_number=1 << 40, compilation_date=-5), "product_info")
    kind("limits", 65, struct.pack("<HH", 256, 20), vals(max_recursion_limit=256, timeout_seconds=20), "script_limits[]")
    kind("binary", 87, struct.pack("<HI", 2, 0) + b"data", vals(data_id=2, reserved=0, data=b"data"), "def_binary_data[]")
    kind("empty binary", 87, struct.pack("<HI", 2, 0), vals(data_id=2, data="no field"), "def_binary_data[]")
    kind("actions", 12, b"\x07\x06\0", lambda ctx, what, g: expect(ctx, what, [f.name for f in g["action"]], ["Stop[0]", "Play[0]", "end[0]"]), "action[]")
    kind("nothing", 12, b"", lambda ctx, what, g: None, "action[]")
    for size in (0, 1, 62, 63, 64, 300):
        kind("raw %s" % size, 2, bytes(k & 255 for k in range(size)), (lambda size: lambda ctx, what, g: fields(ctx, what, g, data=bytes(k & 255 for k in range(size)) if size else "no field"))(size), "def_shape[]")


def check_tag(ctx, what, g, at, name, code, body, long, check):
    head = 6 if long else 2
    expect(ctx, what + ": place", (g.name, g.address, g.size), (name, at * 8, (head + len(body)) * 8))
    f = g["length_ext"].value if "length_ext" in g else None
    expect(ctx, what + ": head", (g["code"].value, g["length"].value, f), (code, len(body), 63 if long else None))
    if check:
        check(ctx, what, Shift(g, 4 if long else 0))


class Shift:
    """A tag whose addresses don't count the longer head"""

    def __init__(self, f, n):
        self._f, self._n = f, n

    def __getitem__(self, k):
        if k == "image":
            f = self._f[k]

            class Place:
                address, size = f.address - self._n * 8, f.size
            return Place
        return self._f[k]

    def __contains__(self, k):
        return k in self._f

    def __getattr__(self, k):
        return getattr(self._f, k)


def sequences(case, ctx):
    make_kinds()
    for seq in itertools.product([case["first"]], *[sorted(KINDS)] * (case["n"] - 1)):
        for packed, form in ((False, None), (True, None), (False, True)):
            parts, places, counts = [], [], {}
            at = len(movie([]))
            if any(not KINDS[n][3].endswith("[]") and [KINDS[m][3] for m in seq].count(KINDS[n][3]) > 1 for n in seq):
                continue
            for n in seq:
                code, body, check, title = KINDS[n]
                k = counts.setdefault(title, 0)
                counts[title] += 1
                places.append((at, title.replace("[]", "[%s]" % k)))
                parts.append(tag(code, body, form))
                at += len(parts[-1])
            data = movie(parts + [tag(0)], packed=packed)
            what = "movie%s of %s%s" % (" compressed" if packed else "", list(seq), ", long heads" if form else "")
            p = load(ctx, what, data)
            if p is None:
                continue
            contiguous(ctx, what, p, None if packed else len(data) * 8, 3)
            tags = list(p)[6:]
            if not expect(ctx, what + ": tags", [f.name for f in tags], [n for _, n in places] + ["end[0]"]):
                continue
            for n, (pos, name), g in zip(seq, places, tags):
                code, body, check, title = KINDS[n]
                check_tag(ctx, "%s: %s" % (what, n), g, pos, name, code, body, bool(form) or len(body) >= 63, check)
    ctx.sample(case)


def codes(case, ctx):
    for code, size, form in itertools.product(range(1024), (0, 1, 62, 63, 70000), (None, True)):
        if code not in NAMES and size not in (0,) or size > 1000 and code % 16:
            continue
        body = b"\x11" * size
        data = movie([tag(code, body, form), tag(1), tag(0)])
        what = "tag of code %s and %s bytes%s" % (code, size, ", long head" if form else "")
        p = opened(ctx, data, SwfFile)
        g = list(p)[6]
        name = NAMES.get(code)
        check_tag(ctx, what, g, len(movie([])), (name or g.name).replace("[]", "[0]"), code, body, bool(form) or size >= 63, None)
        if size and name:
            fields(ctx, what, g, data=body)
        expect(ctx, what + ": next one", list(p)[7].name, "show_frame[%s]" % int(code == 1))
        contiguous(ctx, what, p, len(data) * 8, 2)


def sound_bits(case, ctx):
    for b in range(256):
        has = [bool(b >> k & 1) for k in range(6)]
        if b < 64:
            body = struct.pack("<HB", b, b)
            body += (struct.pack("<I", 1 << 31) if has[0] else b"") + (struct.pack("<I", 77) if has[1] else b"") + (struct.pack("<H", 3) if has[2] else b"")
            body += b"\2" + struct.pack("<IHHIHH", 0, 32768, 1, 1 << 20, 2, 3) if has[3] else b""
            p = opened(ctx, movie([tag(15, body), tag(1), tag(0)]), SwfFile)
            g = p["start_sound[0]"]
            what = "start of a sound, flags %02x" % b
            fields(ctx, what, g, sound_id=b, has_in_point=has[0], has_out_point=has[1], has_loops=has[2], has_envelope=has[3], no_multiple=has[4], stop_playback=has[5], in_point=1 << 31 if has[0] else "no field", out_point=77 if has[1] else "no field", loop_count=3 if has[2] else "no field")
            if has[3]:
                fields(ctx, what, g["envelope"], count=2, mark44__0=0, level0__0=32768, level1__0=1, mark44__1=1 << 20, level0__1=2, level1__1=3)
            contiguous(ctx, what, g, g.size, 1)
        codec = b >> 4
        body = struct.pack("<HBI", 1, b, 5) + (b"\7\0" if codec == 2 else b"") + b"data"
        p = opened(ctx, movie([tag(14, body), tag(0)]), SwfFile)
        what = "sound of flags %02x" % b
        g = p["def_sound[0]"]
        fields(ctx, what, g, is_stereo=bool(b & 1), is_16bit=bool(b & 2), rate=b >> 2 & 3, codec=codec, sample_count=5, len=7 if codec == 2 else "no field", music_data=b"data")
        expect(ctx, what + ": displays", (g["rate"].display, g["codec"].display), (["5.5 kHz", "11.0 kHz", "22.1 kHz", "44.1 kHz"][b >> 2 & 3], {0: "RAW", 1: "ADPCM", 2: "MP3", 3: "Uncompressed", 6: "Nellymoser"}.get(codec, str(codec))))
        for first in (b & 15, 5):
            body = struct.pack("<BBH", first, b, 9) + (b"\1\1" if codec == 2 else b"")
            p = opened(ctx, movie([tag(45, body), tag(0)]), SwfFile)
            fields(ctx, "stream of flags %02x" % b, p["sound_hdr2[0]"], playback_is_stereo=bool(first & 1), playback_is_16bit=bool(first & 2), playback_rate=first >> 2, sound_is_stereo=bool(b & 1), sound_is_16bit=bool(b & 2), sound_rate=b >> 2 & 3, codec=codec, sample_count=9, latency_seek=257 if codec == 2 else "no field")
    for rgb in itertools.product((0, 1, 128, 255), repeat=3):
        p = opened(ctx, movie([tag(9, bytes(rgb)), tag(0)]), SwfFile)
        name = {(0, 0, 0): "Black", (255, 0, 0): "Red", (0, 255, 0): "Green", (0, 0, 255): "Blue", (255, 255, 255): "White"}.get(rgb, "#%02X%02X%02X" % rgb)
        expect(ctx, "color %s" % (rgb,), (tuple(p["bkgd_color[0]/color/" + k].value for k in ("red", "green", "blue")), p["bkgd_color[0]/color"].description), (rgb, "RGB color: " + name))


SIMPLE = {0x3D: "Call_Function", 0x52: "Call_Method", 0x3E: "Return", 0x2A: "Throw", 0x4C: "Duplicate", 0x4D: "Swap", 0x20: "Set_Target_dynamic", 0x04: "Next_Frame", 0x06: "Play", 0x05: "Previous_Frame", 0x07: "Stop", 0x08: "Toggle_Quality", 0x09: "Stop_Sound",
          0x0A: "Add", 0x47: "Add_typed", 0x51: "Decrement", 0x0D: "Divide", 0x50: "Increment", 0x18: "Integral_Part", 0x3F: "Modulo", 0x0C: "Multiply", 0x4A: "Number", 0x0B: "Subtract", 0x0E: "Equal", 0x49: "Equal_typed", 0x66: "Strict_Equal",
          0x67: "Greater_Than_typed", 0x0F: "Less_Than", 0x48: "Less_Than_typed", 0x13: "String_Equal", 0x68: "String_Greater_Than", 0x29: "String_Less_Than", 0x60: "And", 0x10: "Logical_And", 0x12: "Logical_Not", 0x11: "Logical_Or", 0x61: "Or",
          0x63: "Shift_Left", 0x64: "Shift_Right", 0x65: "Shift_Right_Unsigned", 0x62: "Xor", 0x33: "Chr", 0x21: "Concatenate_Strings", 0x32: "Ord", 0x4B: "String", 0x14: "String_Length", 0x15: "SubString", 0x22: "Get_Property", 0x23: "Set_Property",
          0x2B: "Cast_Object", 0x42: "Declare_Array", 0x43: "Declare_Object", 0x3A: "Delete", 0x3B: "Delete_All", 0x24: "Duplicate_Sprite", 0x46: "Enumerate", 0x55: "Enumerate_Object", 0x69: "Extends", 0x4E: "Get_Member", 0x45: "Get_Target",
          0x2C: "Implements", 0x54: "Instance_Of", 0x40: "New", 0x53: "New_Method", 0x25: "Remove_Sprite", 0x4F: "Set_Member", 0x44: "Type_Of", 0x41: "Declare_Local_Variable", 0x1C: "Get_Variable", 0x3C: "Set_Local_Variable", 0x1D: "Set_Variable",
          0x34: "Get_Timer", 0x30: "Random", 0x27: "Start_Drag", 0x28: "Stop_Drag", 0x26: "Trace", 0x01: "instr", 0x7F: "instr"}
ACTIONS = {}


def action(name, code, body, /, **want):
    ACTIONS["%s %s" % (name, len(ACTIONS))] = (name, bytes([code]) + (struct.pack("<H", len(body)) + body if code & 128 else b""), want, len(body))


def make_actions():
    if ACTIONS:
        return
    for code, name in SIMPLE.items():
        action(name, code, b"")
    action("Branch_Always", 0x99, struct.pack("<h", -5), offset=-5)
    action("Branch_If_True", 0x9D, struct.pack("<h", 300), offset=300)
    action("Declare_Function", 0x9B, b"f\0" + b"\2\0" + b"x\0yy\0" + b"\x34\x12", name="f", arg_count=2, arg__0="x", arg__1="yy", function_length=0x1234)
    action("Declare_Function", 0x9B, b"\0" + b"\0\0" + b"\1\0", name="", arg_count=0, arg__0="no field", function_length=1)
    flags = ["preload_this", "suppress_this", "preload_arguments", "suppress_arguments", "preload_super", "suppress_super", "preload_root", "preload_parent", "preload_global"]
    for b in [1 << k for k in range(9)] + [0, 0x1FF, 0x12A]:
        action("Declare_Function_V7", 0x8E, b"go\0" + b"\1\0" + b"\4" + struct.pack("<H", b) + b"\3arg\0" + b"\7\0", name="go", arg_count=1, reg_count=4, reserved=0, register__0=3, arg__0="arg", function_length=7, **{n: bool(b >> k & 1) for k, n in enumerate(flags)})
    for b in range(8):
        body = bytes([b]) + struct.pack("<HHH", 1, 513, 65535) + (b"\5" if b & 4 else b"err\0")
        action("Try", 0x8F, body, catch=bool(b & 1), catch_in_register=bool(b & 4), try_size=1, catch_size=513, finally_size=65535, **({"register": 5, "name": "no field"} if b & 4 else {"name": "err", "register": "no field"}), **{"finally": bool(b & 2)})
    d = struct.pack("<d", -1234.5)
    action("Push_Data", 0x96, b"\0text\0", data_type__0=0, Cstring__0="text")
    action("Push_Data", 0x96, b"\1" + struct.pack("<f", 0.5) + b"\2\3" + b"\4\x09" + b"\5\1" + b"\6" + d[4:] + d[:4] + b"\7" + struct.pack("<I", 1 << 31) + b"\x08\xff" + b"\x09\x34\x12", data_type__0=1, Float__0=0.5, data_type__1=2, data_type__2=3, Register__0=9, Boolean__0=1,
           Double__0=-1234.5, Integer__0=1 << 31, Dictionary_Lookup_Index__0=255, Large_Dictionary_Lookup_Index__0=0x1234, data_type__8=9)
    action("Push_Data", 0x96, b"\0a\0\0\0\0b\0", Cstring__0="a", Cstring__1="", Cstring__2="b")
    action("Set_Target", 0x8B, b"/a/b\0", target="/a/b")
    action("With", 0x94, b"\5\0", size="any")
    action("Get_URL", 0x83, b"http://x\0_blank\0", url="http://x", target="_blank")
    action("Get_URL2", 0x9A, b"\x41", method=0x41)
    action("Goto_Expression", 0x9F, b"\1", play=1)
    action("Goto_Frame", 0x81, b"\x01\x02", frame_no=513)
    action("Goto_Label", 0x8C, b"start\0", label="start")
    action("Wait_For_Frame", 0x8A, b"\1\0\2", frame=1, skip=2)
    action("Wait_For_Frame_dynamic", 0x8D, b"\3", skip=3)
    action("Declare_Dictionary", 0x88, b"\3\0a\0\0ccc\0", count=3, dictionnary__0="a", dictionnary__1="", dictionnary__2="ccc")
    action("Store_Register", 0x87, b"\x04", register=4)
    action("Strict_Mode", 0x89, b"\1", strict=1)
    action("Call_Frame", 0x9E, b"")
    action("instr", 0xC0, b"???", action_data=b"???")
    action("instr", 0xC1, b"")


def actions(case, ctx):
    make_actions()
    names = sorted(ACTIONS)
    # the second one of each pair is any, the third one of each kind
    seconds = names if case["n"] > 1 else [None]
    for seq in itertools.product([case["first"]], *[names] * (case["n"] - 1)):
        body = b"".join(ACTIONS[n][1] for n in seq) + b"\0"
        what = "actions %s" % (list(seq),)
        data = movie([tag(12, body), tag(1), tag(0)])
        p = opened(ctx, data, SwfFile)
        g = p["action[0]/action"]
        counts, at, want = {}, 0, []
        for n in seq:
            name, raw, _, _ = ACTIONS[n]
            k = counts.setdefault(name, 0)
            counts[name] += 1
            want.append(("%s[%s]" % (name, k), at * 8, len(raw) * 8))
            at += len(raw)
        want.append(("end[0]", at * 8, 8))
        if not expect(ctx, what + ": places", [(f.name, f.address, f.size) for f in g], want):
            continue
        for n, f in zip(seq, g):
            name, raw, values, size = ACTIONS[n]
            fields(ctx, what + ", " + n, f, action_id=raw[0], action_length=size if raw[0] & 128 else "no field", **{k: v for k, v in values.items() if v != "any"})
            contiguous(ctx, what, f, f.size, 1)
            if name != "instr":
                expect(ctx, what + ", " + n + ": description", f.description.replace(" ", "_").replace("(", "").replace(")", ""), name)
    ctx.sample(case)


def u30(v):
    out = b""
    while True:
        if v < 128:
            return out + bytes([v])
        out += bytes([v & 127 | 128])
        v >>= 7


INTS = [0, 1, -1, 127, 128, -128, 16383, 16384, 2 ** 31 - 1, -2 ** 31, 1 << 28]
UINTS = [0, 1, 127, 128, 2 ** 31, 2 ** 32 - 1, 1 << 21]
STRINGS = ["", "a", "method", "Name", "p\u00e9t\u00e9", "x" * 130]


def pool(items):
    return u30(len(items) + 1 if items else 0) + b"".join(items)


def array(items):
    return u30(len(items)) + b"".join(items)


class Abc:
    """A block of classes: bytes, and what each of the parts has"""

    def __init__(self, ints=(), uints=(), doubles=(), strings=(), spaces=(), sets=(), names=(), methods=(), infos=(), classes=(), scripts=(), bodies=()):
        self.__dict__.update(locals())

    def raw(self):
        out = struct.pack("<HH", 16, 46)
        out += pool([u30(v & 0xFFFFFFFF) for v in self.ints]) + pool([u30(v) for v in self.uints]) + pool([struct.pack("<d", v) for v in self.doubles]) + pool([array([bytes([b]) for b in s.encode()]) for s in self.strings])
        out += pool([bytes([k]) + u30(n) for k, n in self.spaces]) + pool([array([u30(n) for n in s]) for s in self.sets])
        out += pool([bytes([k]) + b"".join(u30(v) for v in a) for k, *a in self.names])
        out += array([self.method(m) for m in self.methods])
        out += array([u30(n) + u30(len(kv)) + b"".join(u30(k) for k, v in kv) + b"".join(u30(v) for k, v in kv) for n, kv in self.infos])
        out += u30(len(self.classes)) + b"".join(self.instance(c) for c in self.classes) + b"".join(u30(c["cinit"]) + array([self.trait(t) for t in c["statics"]]) for c in self.classes)
        out += array([u30(i) + array([self.trait(t) for t in ts]) for i, ts in self.scripts])
        out += array([b"".join(u30(v) for v in b["head"]) + u30(len(b["code"])) + b["code"] + array([b"".join(u30(v) for v in e) for e in b["exceptions"]]) + array([self.trait(t) for t in b["traits"]]) for b in self.bodies])
        return out

    def method(self, m):
        out = u30(len(m["params"])) + u30(m["ret"]) + b"".join(u30(v) for v in m["params"]) + u30(m["name"]) + bytes([m["flags"]])
        if m["flags"] & 8:
            out += array([u30(v) + bytes([k]) for v, k in m["optional"]])
        if m["flags"] & 128:
            out += b"".join(u30(v) for v in m["names"])
        return out

    def instance(self, c):
        return u30(c["name"]) + u30(c["super"]) + bytes([c["flags"]]) + (u30(c["space"]) if c["flags"] & 8 else b"") + array([u30(v) for v in c["interfaces"]]) + u30(c["init"]) + array([self.trait(t) for t in c["traits"]])

    def trait(self, t):
        name, kind_, flags, a, meta = t
        out = u30(name) + bytes([kind_ | flags << 4]) + b"".join(u30(v) for v in a[:3])
        if kind_ in (0, 6) and a[2]:
            out += bytes([a[3]])
        if flags & 4:
            out += array([u30(v) for v in meta])
        return out


def trait_fields(ctx, what, f, t):
    name, kind_, flags, a, meta = t
    fields(ctx, what, f, name_index=name, kind=kind_, is_final=bool(flags & 1), is_override=bool(flags & 2), has_metadata=bool(flags & 4))
    keys = {0: ("slot_id", "type_index", "value_index"), 6: ("slot_id", "type_index", "value_index"), 4: ("disp_id", "class_info")}.get(kind_, ("disp_id", "method_info"))
    fields(ctx, what, f, **dict(zip(keys, a)))
    if kind_ in (0, 6):
        fields(ctx, what, f, value_kind=a[3] if a[2] else "no field")
    if flags & 4:
        expect(ctx, what + ": metadata", [g.value for g in f["metadata_array"]], [len(meta)] + list(meta))
    contiguous(ctx, what, f, f.size, 2)


def abc_check(ctx, what, b, named):
    body = b.raw()
    if named:
        data = movie([tag(82, struct.pack("<I", 1) + b"frame1\0" + body), tag(1), tag(0)], version=9)
    else:
        data = movie([tag(72, body), tag(1), tag(0)], version=9)
    p = opened(ctx, data, SwfFile)
    contiguous(ctx, what, p, len(data) * 8, 4)
    g = p["do_abc_define[0]" if named else "do_abc[0]"]
    fields(ctx, what, g, minor_version=16, major_version=46, action_flags=1 if named else "no field", action_name="frame1" if named else "no field")

    def consts(name, items, get):
        fs = g["constant_%s_pool" % name]
        expect(ctx, what + ": " + name, (fs["count"].value, [(f.name, get(f)) for f in list(fs)[1:]]), (len(items) + 1 if items else 0, [("constant[%s]" % (k + 1), v) for k, v in enumerate(items)]))
    consts("int", list(b.ints), lambda f: f.value)
    consts("uint", list(b.uints), lambda f: f.value)
    consts("double", list(b.doubles), lambda f: f.value)
    consts("string", list(b.strings), lambda f: f.value)
    consts("namespace", list(b.spaces), lambda f: (f["kind"].value, f["name_index"].value))
    consts("namespace_set", [list(s) for s in b.sets], lambda f: [x.value for x in f.array("namespace_index")])
    consts("multiname", list(b.names), lambda f: tuple(x.value for x in f))

    def text(n):
        return b.strings[n - 1] if n else "*"

    def multi(n):
        if not n:
            return "*"
        k, *a = b.names[n - 1]
        return "?" if k in (17, 18, 27) else text(a[1] if k in (7, 13) else a[0])
    for k, m in enumerate(b.methods):
        f = g["method_array/method[%s]" % k]
        w = "%s: method %s" % (what, k)
        fields(ctx, w, f, param_count=len(m["params"]), ret_type=m["ret"], name_index=m["name"], **{n: bool(m["flags"] >> i & 1) for i, n in enumerate(("need_arguments", "need_activation", "need_rest", "has_optional", "ignore_rest", "explicit", "setsdxns", "has_paramnames"))})
        expect(ctx, w + ": parameters", [x.value for x in f.array("param_type")], list(m["params"]))
        if m["flags"] & 8:
            expect(ctx, w + ": optional", [(x["value_index"].value, x["value_kind"].value) for x in f["optional_array"].array("optional")], list(m["optional"]))
        expect(ctx, w + ": names", [x.value for x in f.array("param_name")], list(m["names"]) if m["flags"] & 128 else [])
        expect(ctx, w + ": description", f.description, "%s %s(%s)" % tuple(formats_text(x) for x in (multi(m["ret"]), text(m["name"]), ", ".join(multi(v) for v in m["params"]))))
    for k, (n, kv) in enumerate(b.infos):
        f = g["metadata_array/metadata[%s]" % k]
        expect(ctx, "%s: information %s" % (what, k), (f["name_index"].value, f["values_count"].value, [x.value for x in f.array("key")], [x.value for x in f.array("value")]), (n, len(kv), [x for x, _ in kv], [y for _, y in kv]))
    for k, c in enumerate(b.classes):
        f = g["class_array/instance[%s]" % k]
        w = "%s: class %s" % (what, k)
        fl = c["flags"]
        fields(ctx, w, f, name_index=c["name"], super_index=c["super"], is_sealed=bool(fl & 1), is_final=bool(fl & 2), is_interface=bool(fl & 4), is_protected=bool(fl & 8), protectedNS=c["space"] if fl & 8 else "no field", interfaces_count=len(c["interfaces"]), iinit_index=c["init"])
        expect(ctx, w + ": interfaces", [x.value for x in f.array("interface")], list(c["interfaces"]))
        expect(ctx, w + ": name", f["name_index"].display, multi(c["name"]))
        s = g["class_array/class[%s]" % k]
        expect(ctx, w + ": init", s["cinit_index"].value, c["cinit"])
        for key, fs in (("traits", f), ("statics", s)):
            ts = list(fs["trait_array"].array("trait"))
            if expect(ctx, "%s: %s" % (w, key), len(ts), len(c[key])):
                for i, t in enumerate(c[key]):
                    trait_fields(ctx, "%s: %s %s" % (w, key, i), ts[i], t)
    for k, (i, ts) in enumerate(b.scripts):
        f = g["script_array/script[%s]" % k]
        expect(ctx, what + ": script", (f["init_index"].value, len(list(f["trait_array"].array("trait")))), (i, len(ts)))
    for k, d in enumerate(b.bodies):
        f = g["body_array/body[%s]" % k]
        w = "%s: body %s" % (what, k)
        fields(ctx, w, f, **dict(zip(("method_info", "max_stack", "max_regs", "scope_depth", "max_scope"), d["head"])))
        fields(ctx, w, f, code_length=len(d["code"]), code=d["code"] or "no field")
        expect(ctx, w + ": exceptions", [tuple(y.value for y in x) for x in f["exception_array"].array("exception")], list(d["exceptions"]))
        expect(ctx, w + ": traits", len(list(f["trait_array"].array("trait"))), len(d["traits"]))
    if b.methods and b.bodies:
        expect(ctx, what + ": method of the body", g["body_array/body[0]/method_info"].display, g["method_array/method[%s]" % b.bodies[0]["head"][0]].description)


def formats_text(s):
    return "".join(c if 32 <= ord(c) < 127 or 160 <= ord(c) < 256 else ascii(c)[1:-1] for c in s)


def classes(case, ctx):
    names = [(7, 1, 4), (13, 1, 0), (9, 3, 1), (14, 4, 1), (15, 2), (16, 3), (17,), (18,), (27, 1)]
    base = dict(strings=STRINGS[:4], spaces=[(8, 0), (22, 3), (5, 4)], sets=[[], [1], [1, 2, 3]], names=names)
    method = dict(params=(), ret=0, name=0, flags=0, optional=(), names=())
    part = case["part"]

    def run(what, **kw):
        for named in (False, True):
            d = dict(base)
            d.update(kw)
            abc_check(ctx, what + (", named" if named else ""), Abc(**d), named)
    if part == "pools":
        for key, items in (("ints", INTS), ("uints", UINTS), ("doubles", [0.0, -1.5, 1e300]), ("strings", STRINGS)):
            for n in range(0, 4):
                for seq in itertools.product(items, repeat=n):
                    d = {"strings": (), "spaces": (), "sets": (), "names": (), key: seq}
                    if n < 3 or key != "ints":
                        run("constants %s %s" % (key, lib.short(list(seq), 60)), **d)
        for n in range(0, 4):
            for seq in itertools.product([(8, 0), (5, 1), (22, 4), (23, 2), (24, 3), (25, 1)], repeat=n):
                run("namespaces %s" % (list(seq),), spaces=list(seq) or (), sets=(), names=())
            for seq in itertools.product(names, repeat=n):
                run("names %s" % (list(seq),), names=list(seq) or ())
            for seq in itertools.product([[], [1], [3, 2], [1, 1, 1]], repeat=n):
                run("sets %s" % (list(seq),), sets=list(seq) or (), names=())
    elif part == "methods":
        for flags in range(256):
            for params in ((), (1,), (0, 3), (9, 7, 1)):
                m = dict(method, flags=flags, params=params, ret=len(params), name=min(4, len(params) + 1), optional=[(1, 3), (0, 12)][:len(params)], names=[2] * len(params))
                run("method of flags %02x, parameters %s" % (flags, params), methods=[m])
                run("second method of flags %02x, parameters %s" % (flags, params), methods=[method, m, method], bodies=[{"head": (1, 2, 3, 0, 1), "code": b"\xd0\x30\x47", "exceptions": [], "traits": []}])
    elif part == "traits":
        traits = []
        for kind_, flags in itertools.product(range(7), range(8)):
            for value in ((0, 0), (300, 6)) if kind_ in (0, 6) else ((None, None),):
                traits.append((1 + kind_, kind_, flags, ((2, 3, value[0], value[1]) if kind_ in (0, 6) else (0, 0)), [0, 1] if flags & 4 else []))
        c = dict(name=1, super=0, flags=0, space=1, interfaces=(), init=0, cinit=1, traits=[], statics=[])
        ms = [method, dict(method, name=3)]
        for t in traits:
            run("trait %s" % (t,), methods=ms, classes=[dict(c, traits=[t])])
            run("static trait %s" % (t,), methods=ms, classes=[dict(c, statics=[t, traits[0]])])
            run("trait of a script %s" % (t,), methods=ms, scripts=[(0, [t])])
            run("trait of a body %s" % (t,), methods=ms, bodies=[{"head": (0, 1, 1, 1, 1), "code": b"G", "exceptions": [(0, 1, 2, 3, 4)], "traits": [t]}])
        for a, b in itertools.product(traits[::3], repeat=2):
            run("traits %s, %s" % (a, b), methods=ms, classes=[dict(c, traits=[a, b]), dict(c, name=3, flags=8, interfaces=(1, 2))])
    else:
        ms = [method, dict(method, name=3)]
        c = dict(name=1, super=0, flags=0, space=1, interfaces=(), init=0, cinit=1, traits=[], statics=[])
        for flags in range(16):
            for interfaces in ((), (1,), (2, 1)):
                for count in (1, 2):
                    run("class of flags %x, interfaces %s" % (flags, interfaces), methods=ms, classes=[dict(c, flags=flags, space=2, interfaces=interfaces, super=3, name=4)] * count, scripts=[(1, [])] * (count - 1))
        for n in range(3):
            for infos in itertools.product([(1, []), (2, [(1, 2)]), (0, [(0, 3), (4, 1)])], repeat=n):
                run("information %s" % (infos,), methods=ms, infos=list(infos))
        for n in range(3):
            for es in itertools.product([(), ((0, 3, 5, 1, 0),), ((1, 2, 300, 0, 2), (5, 6, 7, 2, 3))], (b"\xd0", b"x" * 200), repeat=n):
                run("bodies %s" % (lib.short(es, 80),), methods=ms, bodies=[{"head": (k & 1, k, 2, 300, 4), "code": es[2 * k + 1], "exceptions": list(es[2 * k]), "traits": []} for k in range(len(es) // 2)])
    ctx.sample(case)


def main():
    make_kinds()
    make_actions()
    c = lib.Check("A14", "model_checking",
                  "all sequences of tags of all kinds up to the length, plain, compressed and with long heads, all codes, sizes of the header, flags of sounds, sequences of actions, and blocks of classes with all small constant pools, methods, traits and bodies: place and value of each field",
                  bounds={"tags": "sequences up to 2 (thorough: 3)", "actions": "sequences up to 2 (thorough: 3 from some)", "constants": "up to 3 of each pool"})
    q = c.quick
    for packed in (False, True):
        c.domain("headers%s" % (" compressed" if packed else ""), [{"packed": packed, "versions": [v]} for v in ((1, 6, 10) if q else range(1, 11))], headers, batch=1)
    for n in range(1, 3 if q else 4):
        c.domain("tags %s" % n, [{"n": n, "first": k} for k in sorted(KINDS)], sequences, batch=1, cpu_limit=800)
        c.domain("actions %s" % n, [{"n": n, "first": k} for k in sorted(ACTIONS)[::1 if n < 3 else 8]], actions, batch=1, cpu_limit=800)
    c.domain("codes", [{}], codes)
    c.domain("sounds", [{}], sound_bits)
    c.domain("classes", [{"part": k} for k in ("pools", "methods", "traits", "other")], classes, batch=1, cpu_limit=800)
    c.main()


if __name__ == "__main__":
    main()
