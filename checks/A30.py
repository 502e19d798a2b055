"""A30: 3D Studio models are shown as they were written: chunks in each other, objects, vertices, faces, maps, materials."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import ALLOW, contiguous, direct, expect, get
from hachoir.parser.misc.file_3ds import File3ds

# the chunks are named by their type: a second one of the same type gets another name, with a warning
ALLOW.append(("File3ds", "", "Duplicate field"))
TYPES = {0x0011: "Color", 0x4D4D: "Main chunk", 0x0002: "File version", 0x3D3D: "Materials and objects", 0x4000: "Object", 0x4100: "Mesh (triangular)", 0x4110: "Vertices list", 0x4120: "Polygon (faces) list", 0x4140: "Map UV list",
         0x4130: "Object material", 0xAFFF: "New material", 0xA000: "Material name", 0xA010: "Material ambient", 0xA020: "Material diffuse", 0xA030: "Texture specular", 0xA200: "Texture", 0xA300: "Texture filename", 0xB000: "Keyframes",
         0xB002: "Object node tag", 0xB006: "Light target node tag", 0xB007: "Spot light node tag", 0xB00A: "Keyframes header", 0xB009: "Keyframe current time", 0xB030: "Node identifier", 0xB010: "Node header", 0x7001: "Viewport layout"}
NAMES = {0x4D4D: "main", 2: "version", 0x3D3D: "obj_mat", 0xB000: "keyframes", 0xAFFF: "material", 0x4000: "object", 0x4110: "vertices_list", 0x4120: "polygon_list", 0x4140: "mapuv_list", 0x4100: "mesh"}
GROUPS = (0x4D4D, 0x4100, 0x3D3D, 0xAFFF, 0xA200, 0xB002, 0xB006, 0xB007, 0xA010, 0xA030, 0xA020, 0xB000)


class Chunk:
    """own: (bytes, [(start of the name, value)]) in front of the chunks inside"""

    def __init__(self, kind, inside=(), own=(b"", ())):
        self.kind, self.inside, self.own = kind, inside, own
        body = own[0] + b"".join(c.bytes for c in inside)
        self.bytes = struct.pack("<HI", kind, 6 + len(body)) + body

    def check(self, ctx, w, f, at):
        w = "%s/%04x" % (w, self.kind)
        expect(ctx, w + ": place and size", (f.absolute_address // 8, f.size // 8), (at, len(self.bytes)))
        name = TYPES.get(self.kind, "0x%04x" % self.kind)
        expect(ctx, w + ": kind, size", (f["type"].value, f["type"].display, f["size"].value), (self.kind, name, len(self.bytes)))
        expect(ctx, w + ": description", f.description, "Chunk: " + name)
        expect(ctx, w + ": name", f.name.split("[")[0], NAMES.get(self.kind, "chunk_%04x" % self.kind))
        rest = [x for x in f][2:]
        n = len(self.own[1])
        for x, (start, v) in zip(rest, self.own[1]):
            expect(ctx, w + ": " + start, (x.name.split("[")[0], x.value if not x.is_field_set or type(x).__name__ in ("Vertex", "MapUV") else tuple(y.value for y in x)), (start, v))
        expect(ctx, w + ": number of fields", len(rest), n + len(self.inside))
        at += 6 + len(self.own[0])
        for x, c in zip(rest[n:], self.inside):
            c.check(ctx, w, x, at)
            at += len(c.bytes)


def text(kind, s, label, inside=()):
    return Chunk(kind, inside, (s.encode("latin-1") + b"\0", [(label, s)]))


def raw(kind, data):
    return Chunk(kind, (), (data, [("data", data)] if data else []))


def color(r, g, b):
    return Chunk(0x11, (), (bytes((r, g, b)), [("color", (r, g, b))]))


def version(n=3):
    return Chunk(2, (), (struct.pack("<I", n), [("version", n)]))


def vertices(points):
    return Chunk(0x4110, (), (struct.pack("<H", len(points)) + b"".join(struct.pack("<3f", *p) for p in points), [("count", len(points))] + [("vertex", p) for p in points]))


def faces(items, inside=()):
    return Chunk(0x4120, inside, (struct.pack("<H", len(items)) + b"".join(struct.pack("<4H", *p) for p in items), [("count", len(items))] + [("polygon", p) for p in items]))


def maps(items):
    return Chunk(0x4140, (), (struct.pack("<H", len(items)) + b"".join(struct.pack("<2f", *p) for p in items), [("count", len(items))] + [("map_uv", p) for p in items]))


def run(ctx, what, chunks, n=3, after=()):
    main = Chunk(0x4D4D, [version(n), *chunks])
    data = main.bytes + b"".join(c.bytes for c in after)
    p = direct(ctx, data, File3ds)
    contiguous(ctx, what, p, len(data) * 8, 12)
    got = list(p)
    expect(ctx, what + ": chunks of the file", len(got), 1 + len(after))
    at = 0
    for f, c in zip(got, [main, *after]):
        c.check(ctx, what, f, at)
        at += len(c.bytes)
    expect(ctx, what + ": version", get(p, "main/version/version"), n)


def points(n, k=0):
    return [(float(i), -0.5 * i + k, 1024.0 * (i % 3)) for i in range(n)]


def lists(case, ctx):
    for n in case["counts"]:
        v, u = points(n), [(i / 4, 1 - i / 8) for i in range(n)]
        f = [(i, (i * 7) % 65536, 65535 - i, 1 << i % 16) for i in range(n)]
        for inside in ([], [raw(0x4150, bytes(4 * n))], [text(0x4130, "mat", "data")] and [raw(0x4130, b"mat\0\1\0\0\0")]):
            run(ctx, "%s vertices, faces, maps, %s chunks in the faces" % (n, len(inside)), [Chunk(0x3D3D, [text(0x4000, "Box", "name", [Chunk(0x4100, [vertices(v), faces(f, inside), maps(u)])])])])
        run(ctx, "maps before %s vertices" % n, [Chunk(0x3D3D, [text(0x4000, "Box", "name", [Chunk(0x4100, [maps(u), faces(f), vertices(v)])])])])
    if case["i"]:
        return
    for kind in list(TYPES) + [0x1234, 0xFFFF]:
        if kind in GROUPS:
            run(ctx, "empty group %#x" % kind, [Chunk(kind), version(7)])
            run(ctx, "group %#x" % kind, [Chunk(kind, [color(1, 2, 3), raw(0x30, b"\5\0")]), color(4, 5, 6)])
        elif kind not in (0x11, 2, 0x4000, 0x4110, 0x4120, 0x4140, 0xA000, 0xA300):
            for n in range(0, 12):
                run(ctx, "%s bytes of kind %#x" % (n, kind), [raw(kind, bytes(range(n))), color(4, 5, 6)])
    for n in range(0, 40):
        s = "x" * n
        run(ctx, "names of %s letters" % n, [Chunk(0x3D3D, [Chunk(0xAFFF, [text(0xA000, s, "name"), Chunk(0xA200, [text(0xA300, s, "filename")])]), text(0x4000, s, "name"), text(0x4000, s, "name", [raw(0x4600, b"light")])])])
    for c in itertools.product((0, 1, 127, 128, 255), repeat=3):
        run(ctx, "color %s" % (c,), [Chunk(0x3D3D, [Chunk(0xAFFF, [Chunk(k, [color(*c)]) for k in (0xA010, 0xA020, 0xA030)])])])
    for n in (2, 3):
        run(ctx, "version %s" % n, [], n, [raw(0x1234, b"after")])


def trees(case, ctx):
    """All trees of groups, to a depth, with all sequences of leaves"""
    leaves = [color(9, 8, 7), raw(0x4150, b"abcd"), text(0xA000, "name", "name"), vertices(points(2)), faces([(1, 2, 3, 4)]), raw(0xB00A, b"")]

    def make(depth, width, k):
        out = [[leaves[(k + i) % len(leaves)]] for i in range(len(leaves))] + [[]]
        if depth:
            inner = make(depth - 1, width, k + 1)
            for n in range(1, width + 1):
                for parts in itertools.product(range(0, len(inner), 1 if n == 1 else 3), repeat=n):
                    out.append([c for j, i in enumerate(parts) for c in [Chunk(GROUPS[(k + i + j) % len(GROUPS)], inner[i])] + ([leaves[i % len(leaves)]] if j % 2 else [])])
                    out.append([text(0x4000, "o%s" % j, "name", inner[i]) for j, i in enumerate(parts)])
        return out
    for k, chunks in enumerate(make(case["depth"], 2, 0)):
        if k % 8 == case["i"]:
            run(ctx, "tree %s" % k, chunks)


def sequences(case, ctx):
    items = [Chunk(0xAFFF, [text(0xA000, "m", "name"), Chunk(0xA010, [color(1, 2, 3)])]), text(0x4000, "Box", "name", [Chunk(0x4100, [vertices(points(3)), faces([(0, 1, 2, 7)], [raw(0x4150, b"\1\0\0\0")]), maps([(0.5, 0.25)])])]), raw(0x0100, b"\0\0\x80\x3f"),
             text(0x4000, "Light", "name", [raw(0x4600, b"0123456789ab")]), color(255, 255, 255), raw(0x2100, b""), Chunk(0xB000, [raw(0xB00A, b"head"), Chunk(0xB002, [raw(0xB030, b"\0\0"), raw(0xB010, b"Box\0")]), Chunk(0xB002, [raw(0xB010, b"Light\0")])])]
    for n in range(0, case["n"] + 1):
        for seq in itertools.product(range(len(items)), repeat=n):
            if (seq[0] if seq else 0) == case["first"]:
                run(ctx, "chunks %s" % (seq,), [Chunk(0x3D3D, [items[i] for i in seq]), *[items[i] for i in seq[:1]]])


if __name__ == "__main__":
    c = lib.Check("A30", "model_checking",
                  "all numbers of vertices, faces and maps, all lengths of names, all colors of extreme values, all kinds of chunks with all lengths, all sequences of chunks and all trees of groups of 3D Studio models: place, name, kind, size and values of each chunk",
                  bounds={"chunks": "sequences of up to 4 of 7 (thorough: 5)", "trees": "depth 2 (thorough: 3), two groups in each"})
    q = c.quick
    counts = list(range(0, 40)) if q else list(range(0, 300))
    c.domain("lists", [{"i": i, "counts": counts[i::8]} for i in range(8)], lists, batch=1)
    c.domain("trees", [{"i": i, "depth": 2 if q else 3} for i in range(8)], trees, batch=1)
    c.domain("sequences", [{"first": i, "n": 4 if q else 5} for i in range(7)], sequences, batch=1)
    c.main()
