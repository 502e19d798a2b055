"""A33: EFI firmware volumes are shown as they were written: volumes, block maps, files, trees of aligned sections."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get
from hachoir.parser.misc.pifv import PIFVFile

GUIDS = [(bytes(range(16)), "03020100-0504-0706-0809-0A0B0C0D0E0F"), (b"\n" * 16, "0A0A0A0A-0A0A-0A0A-0A0A-0A0A0A0A0A0A"), (bytes(16), "00000000-0000-0000-0000-000000000000"),
         (bytes.fromhex("d954937a680444448 1ce0bf617d890df".replace(" ", "")), "7A9354D9-0468-4444-81CE-0BF617D890DF"), (b"\xff" * 16, "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF")]
KINDS = {0x1: "compressed", 0x2: "GUID", 0x10: "PE32", 0x11: "Position-Independent", 0x12: "Terse", 0x13: "DXE Dependency", 0x14: "Version", 0x15: "User-Friendly", 0x16: "DOS", 0x17: "Firmware Volume",
         0x18: "Raw data with GUID", 0x19: "Raw data", 0x1b: "PEI Dependency"}
PLAIN = (0x10, 0x11, 0x12, 0x13, 0x16, 0x19, 0x1b)


def align(raw, n, fill=b"\0"):
    return raw + fill * (-len(raw) % n)


# A section is (kind, content): bytes, a list of sections, a volume, a name, ...
def section(s):
    kind, x = s
    if kind in PLAIN or kind not in KINDS:
        body = x
    elif kind == 1:
        raw = b"".join([align(section(t), 4) for t in x[:-1]] + [section(t) for t in x[-1:]]) if isinstance(x, (list, tuple)) else x
        body = struct.pack("<IB", 1000 if raw is x else len(raw), 1 if raw is x else 0) + raw
    elif kind == 2:
        body = x[0][0] + struct.pack("<HH", 24, x[1]) + x[2]
    elif kind == 0x18:
        body = x[0][0] + x[1]
    elif kind == 0x15:
        body = x.encode("utf-16-le") + b"\0\0"
    elif kind == 0x14:
        body = struct.pack("<H", x[0]) + x[1].encode("utf-16-le") + b"\0\0"
    elif kind == 0x17:
        body = volume(**x)
    return (len(body) + 4).to_bytes(3, "little") + bytes([kind]) + body


# A file is (guid, type, attributes, state, sections or content)
def efifile(f):
    guid, kind, attr, state, x = f
    body = x if isinstance(x, bytes) else b"".join([align(section(t), 4) for t in x[:-1]] + [section(t) for t in x[-1:]])
    return guid[0] + struct.pack("<HBB", 0xAA55, kind, attr) + (24 + len(body)).to_bytes(3, "little") + bytes([state]) + body


def volume(guid=GUIDS[0], attr=0x4FEFF, revision=2, ext=0, checksum=0x1234, blocks=((1, 65536),), files=(), end=0, free=0):
    """end: bytes behind the last file up to the alignment are there or not; free: bytes of free space"""
    head = 56 + 8 * (len(blocks) + 1)
    body = b"".join(struct.pack("<II", *b) for b in list(blocks) + [(0, 0)])
    for k, f in enumerate(files):
        body += efifile(f)
        if k < len(files) - 1 or end or free:
            body = align(body, 8, b"\xff")
    body += b"\xff" * free
    return bytes(16) + guid[0] + struct.pack("<Q4sIHHHBB", 56 + len(body), b"_FVH", attr, head, checksum, ext, 0, revision) + body


def check_section(ctx, what, f, at, s):
    kind, x = s
    raw = section(s)
    expect(ctx, what + ": place, size, kind", (f.absolute_address, f.size, get(f, "size"), get(f, "type")), (at * 8, len(raw) * 8, len(raw), kind))
    word = KINDS.get(kind, "Unknown Section Type")
    if kind == 1:
        word = "Encapsulation section where other sections are compressed"
    if kind == 2:
        word = "Encapsulation section where other sections have format defined by a GUID"
    if word not in f.description:
        ctx.report("%s: described as %s" % (what, f.description))
    if kind in KINDS and f["type"].display != f.description:
        ctx.report("%s: kind shown as %s" % (what, f["type"].display))
    content = None
    if kind == 1:
        packed = not isinstance(x, (list, tuple))
        expect(ctx, what + ": compression", (get(f, "uncomp_len"), get(f, "comp_type"), f["comp_type"].display), (1000 if packed else len(raw) - 9, int(packed), "Standard Compression" if packed else "Not Compressed"))
        if packed:
            expect(ctx, what + ": compressed content", get(f, "compressed_content"), x if x else "no field")
        else:
            check_sections(ctx, what, f, at + 9, x)
    elif kind == 2:
        expect(ctx, what + ": GUID", (get(f, "section_definition_guid"), get(f, "data_offset"), get(f, "attributes")), (x[0][1], 24, x[1]))
        content = x[2]
    elif kind == 0x18:
        expect(ctx, what + ": GUID", get(f, "sub_type_guid"), x[0][1])
        content = x[1]
    elif kind == 0x15:
        expect(ctx, what + ": name", get(f, "file_name"), x)
        content = b""
    elif kind == 0x14:
        expect(ctx, what + ": version", (get(f, "build_number"), get(f, "version")), x)
        content = b""
    elif kind == 0x17:
        check_volume(ctx, what + "/volume", f["firmware_volume"], at + 4, x)
    else:
        content = x
    if content is not None:
        expect(ctx, what + ": content", get(f, "content"), content if content else "no field")
        if content:
            expect(ctx, what + ": place of the content", f["content"].absolute_address, (at + len(raw) - len(content)) * 8)


def check_sections(ctx, what, f, at, secs):
    got = list(f.array("section"))
    expect(ctx, what + ": number of sections", len(got), len(secs))
    start = at
    for k, (g, s) in enumerate(zip(got, secs)):
        at = start + (at - start + 3) // 4 * 4
        check_section(ctx, "%s/section %s" % (what, k), g, at, s)
        at += len(section(s))


def check_volume(ctx, what, v, at, x):
    raw = volume(**x)
    y = dict(guid=GUIDS[0], attr=0x4FEFF, revision=2, ext=0, checksum=0x1234, blocks=((1, 65536),), files=(), free=0)
    y.update(x)
    expect(ctx, what + ": place, size", (v.absolute_address, v.size), (at * 8, len(raw) * 8))
    n = len(y["blocks"])
    expect(ctx, what + ": header", tuple(get(v, k) for k in ("fs_guid", "volume_len", "signature", "attributes", "header_len", "checksum", "ext_header_offset", "revision")),
           (y["guid"][1], len(raw), "_FVH", y["attr"], 56 + 8 * (n + 1), y["checksum"], y["ext"], y["revision"]))
    expect(ctx, what + ": block map", [(b["num_blocks"].value, b["len"].value, b.absolute_address) for b in v.array("block_map")],
           [(c, l, (at + 56 + 8 * i) * 8) for i, (c, l) in enumerate(list(y["blocks"]) + [(0, 0)])])
    expect(ctx, what + ": described blocks", [b.description.split(" of ")[0] for b in v.array("block_map")], ["%s blocks" % c for c, l in list(y["blocks"]) + [(0, 0)]])
    got = list(v.array("file"))
    expect(ctx, what + ": number of files, description", (len(got), v.description), (len(y["files"]), "Firmware Volume containing %s file(s)" % len(y["files"])))
    pos = 56 + 8 * (n + 1)
    for k, (g, f) in enumerate(zip(got, y["files"])):
        pos = (pos + 7) // 8 * 8
        w = "%s/file %s" % (what, k)
        guid, kind, attr, state, secs = f
        one = efifile(f)
        expect(ctx, w + ": place, size", (g.absolute_address, g.size), ((at + pos) * 8, len(one) * 8))
        expect(ctx, w + ": header", tuple(get(g, k) for k in ("name", "integrity_check", "type", "attributes", "size", "state")), (guid[1], 0xAA55, kind, attr, len(one), state))
        if isinstance(secs, bytes):
            expect(ctx, w + ": content", (get(g, "content"), len(g.array("section"))), (secs or "no field", 0))
        else:
            check_sections(ctx, w, g, at + pos + 24, secs)
        expect(ctx, w + ": description", g.description, "%s: %s containing %s section(s)" % (guid[1], g["type"].display, 0 if isinstance(secs, bytes) else len(secs)))
        pos += len(one)
    if y["free"]:
        pos = (pos + 7) // 8 * 8
        expect(ctx, what + ": free space", ([(f.absolute_address, f.size) for f in v if f.name == "free_space"]), [((at + pos) * 8, y["free"] * 8)])


def image(ctx, what, *volumes):
    data = b"".join(volume(**x) for x in volumes)
    p = direct(ctx, data, PIFVFile)   # (MPEG audio, which has no signature, is tried before and accepts some small images)
    contiguous(ctx, what, p, len(data) * 8, 20)
    got = list(p.array("firmware_volume"))
    expect(ctx, what + ": number of volumes", len(got), len(volumes))
    at = 0
    for k, (v, x) in enumerate(zip(got, volumes)):
        check_volume(ctx, "%s: volume %s" % (what, k), v, at, x)
        at += len(volume(**x))


def f7(*secs, guid=GUIDS[3], kind=7):
    return (guid, kind, 0, 0xF8, list(secs))


SMALL = [(0x19, b""), (0x19, b"\0"), (0x13, b"ab"), (0x1b, b"abc"), (0x10, b"MZ.."), (0x15, "A"), (0x15, "Ab"), (0x14, (7, "1.0")), (1, b"packed!"), (2, (GUIDS[0], 1, b"xyz")), (0x18, (GUIDS[1], b"")), (0x42, b"?")]


def headers(case, ctx):
    for g in GUIDS:
        for n in (0, 1, 2, 5):
            image(ctx, "GUID %s, %s blocks" % (g[1], n), dict(guid=g, blocks=[(i + 1, 4096 << i) for i in range(n)], files=[f7((0x19, b"data"), guid=g)]))
    for v in (0, 1, 10, 0x0A0A0A0A, 2 ** 31, 2 ** 32 - 1):
        image(ctx, "numbers %s" % v, dict(attr=v, checksum=v & 65535, ext=v >> 16, revision=v & 255, blocks=[(v, 1), (0, v), (v, 0)] if v else [(1, 1)]))
    for k in range(256):
        if k in (1, 0xf0):
            for n in (0, 1, 3, 8, 100, 5000):
                image(ctx, "file of type %s with %s bytes" % (k, n), dict(files=[(GUIDS[0], k, 0x28, 0xF8, bytes((i * 7 + 1) % 256 for i in range(n))), f7(SMALL[3])]))
        else:
            image(ctx, "file of type %s" % k, dict(files=[(GUIDS[2], k, k, k ^ 255, [SMALL[2]]), f7(SMALL[3], kind=k)]))
    for a, b in itertools.product(range(0, 20), repeat=2):
        for end in (0, 1):
            image(ctx, "free space %s %s" % (a, b), dict(files=[f7((0x19, bytes(a)))], free=b, end=end))
    for n in range(0, 64, 3):
        image(ctx, "no file, free space %s" % n, dict(free=n), dict(files=[f7((0x19, bytes(3)))], end=1))


def sections(case, ctx):
    for kind in range(case["i"], 256, 8):
        if kind in PLAIN or kind not in KINDS:
            for n in list(range(9)) + [255, 256, 65536]:
                image(ctx, "section of kind %s with %s bytes" % (kind, n), dict(files=[f7((kind, bytes((i * 5 + 1) % 256 for i in range(n))), SMALL[5])]))
    for n in range(1, case["n"] + 1):
        for k, seq in enumerate(itertools.product(SMALL, repeat=n)):
            if k % 8 == case["i"]:
                image(ctx, "sections %s" % (seq,), dict(files=[f7(*seq)]))


def trees(case, ctx):
    """Sections inside of sections, volumes inside of volumes, sequences of files and of volumes"""
    one = [(1, [])] + [(1, [s]) for s in SMALL] + [(1, [s, t]) for s in SMALL for t in SMALL]
    one += [(0x17, dict(files=[f7(*seq)], free=8 * (len(seq) % 2))) for seq in itertools.product(SMALL, repeat=case["n"])] + [(0x17, dict(files=[]))]
    two = [(1, [s, t]) for s in one[::3] for t in one[::case["step"]]] + [(0x17, dict(files=[f7(s), f7(t)])) for s in one[::5] for t in one[::case["step"]]]
    for k, s in enumerate(one + two):
        if k % 8 == case["i"]:
            image(ctx, "tree %s" % (s,), dict(files=[f7(s), f7(SMALL[k % 12], s)]))
            image(ctx, "volumes with tree %s" % (s,), dict(files=[f7(s)], end=1), dict(free=16), dict(files=[f7(s), (GUIDS[1], 0xf0, 0, 0xF8, bytes(k % 9)), f7(SMALL[k % 12])], end=k % 2))


if __name__ == "__main__":
    c = lib.Check("A33", "model_checking", "all kinds, lengths and GUIDs, all sequences of sections, trees of sections and volumes, all alignments of files with all lengths of free space: place and value of each",
                  bounds={"sections": "sequences of up to 3 of 12 (thorough: 4)", "trees": "three levels", "free space": "0-19 bytes behind 20 lengths"})
    q = c.quick
    c.domain("headers", [{}], headers, batch=1)
    c.domain("sections", [{"i": i, "n": 3 if q else 4} for i in range(8)], sections, batch=1)
    c.domain("trees", [{"i": i, "n": 1 if q else 2, "step": 31 if q else 7} for i in range(8)], trees, batch=1)
    c.main()
