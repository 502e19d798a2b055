"""A28: .DS_Store files (Mac OS X Finder) are shown as they were written: allocator, tree of nodes, records of each type, free blocks."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, expect, get, opened
from hachoir.parser.misc.dsstore import DSStore


def text(s):
    return struct.pack(">I", len(s)) + s.encode("utf-16-be")


class Rec:
    def __init__(self, name, prop, kind, value):
        self.name, self.prop, self.kind, self.value = name, prop, kind, value
        v = value
        if kind == b"long":
            b = struct.pack(">I", v)
        elif kind == b"shor":
            b = struct.pack(">HH", 0, v)
        elif kind == b"bool":
            b = bytes([v])
        elif kind == b"blob":
            b = struct.pack(">I", len(v)) + v
        elif kind == b"type":
            b = v
        elif kind == b"ustr":
            b = text(v)
        else:
            b = struct.pack(">Q", v)
        self.bytes = text(name) + prop + kind + b

    def check(self, ctx, w, f):
        expect(ctx, w + ": name, property, type", (get(f, "filename"), get(f, "property"), get(f, "type")), (self.name, self.prop, self.kind))
        expect(ctx, w + ": size", f.size // 8, len(self.bytes))
        if self.kind == b"blob":
            expect(ctx, w + ": size of the content", get(f, "size"), len(self.value))
            if self.value:
                x = f["value"]
                expect(ctx, w + ": place of the content", (x.absolute_address - f.absolute_address, x.size // 8), ((len(self.bytes) - len(self.value)) * 8, len(self.value)))
                expect(ctx, w + ": content", x.getSubIStream().readBytes(0, len(self.value)), self.value)
        else:
            expect(ctx, w + ": value", get(f, "value"), self.value)
            expect(ctx, w + ": name, property and value", f.value, (self.name, self.prop, self.value))
        expect(ctx, w + ": display", f.display, "%s:%s" % (f["filename"].display, self.prop.decode()))
        contiguous(ctx, w, f, f.size, 1)


class Node:
    """children: one more than the records, or none"""

    def __init__(self, recs, children=()):
        self.recs, self.children = recs, children

    def all(self):
        out = [self]
        for c in self.children:
            out += c.all()
        return out

    def depth(self):
        return 1 + (self.children[0].depth() if self.children else 0)


def check(ctx, what, root, extra=0, unused=0, names=("DSDB",), free=(), slack=0):
    """extra: further blocks of the table; unused: null blocks before the one of the root; free: (power of 2, content); slack: bytes"""
    place = {}
    body = {}
    nodes = root.all()
    pos = 64            # (after the header)

    def put(content, least=5):
        nonlocal pos
        n = max(5, least)
        while (1 << n) < len(content):
            n += 1
        at = pos
        body[at] = content.ljust(1 << n, bytes([slack]))
        pos += 1 << n
        return at, n

    # numbers of the blocks: 0 allocator, 1 database, then the nodes
    number = {id(x): 2 + unused + i for i, x in enumerate(nodes)}
    total = 2 + unused + len(nodes) + extra
    table = {}
    for x in nodes:
        if x.children:
            b = struct.pack(">II", number[id(x.children[-1])], len(x.recs)) + b"".join(struct.pack(">I", number[id(c)]) + r.bytes for c, r in zip(x.children, x.recs))
        else:
            b = struct.pack(">II", 0, len(x.recs)) + b"".join(r.bytes for r in x.recs)
        table[number[id(x)]] = put(b, 6), b
    levels, count = root.depth() - 1, sum(len(x.recs) for x in nodes)
    db = struct.pack(">5I", number[id(root)], levels, count, len(nodes), 0x1000)
    table[1] = put(db), db
    frees = []
    for n, content in free:
        at = pos
        body[at] = content.ljust(1 << n, b"f")
        pos += 1 << n
        frees.append((n, at))
    pos = (pos + 31) & ~31
    # the allocator is placed last, its size is found by trial
    lists = [[at for k, at in frees if k == n] for n in range(32)]

    def allocator(at, n):
        cells = [table[i][0] if i in table else (0, 0) for i in range(total)]
        cells[0] = (at, n)
        b = struct.pack(">II", total, 0) + b"".join(struct.pack(">I", a | k) for a, k in cells) + bytes(4 * (-total % 256))
        b += struct.pack(">I", len(names)) + b"".join(bytes([len(x)]) + x.encode("mac-roman") + struct.pack(">I", 1) for x in names)
        return b + b"".join(struct.pack(">I", len(x)) + b"".join(struct.pack(">I", a) for a in x) for x in lists), cells
    at = pos
    b, cells = allocator(at, 0)
    n = 5
    while (1 << n) < len(b):
        n += 1
    b, cells = allocator(at, n)
    body[at] = b.ljust(1 << n, bytes([slack]))
    end = at + (1 << n)
    data = bytearray(4 + end)
    data[:4] = struct.pack(">I", 1)
    copies = (cells + [(0, 0)] * 4)[:4]
    data[4:36] = b"Bud1" + struct.pack(">III", at, 1 << n, at) + b"".join(struct.pack(">I", a | k) for a, k in copies)
    for a, content in body.items():
        data[4 + a:4 + a + len(content)] = content
    p = opened(ctx, bytes(data), DSStore)
    h = p["header"]
    expect(ctx, what + ": header", [get(h, k) for k in ("magic", "allocator_offset", "allocator_size", "allocator_offset_backup")], [b"Bud1", at, 1 << n, at])
    expect(ctx, what + ": copies of the addresses", [f.value for f in h.array("block_address_copy")], [(a, 1 << k) for a, k in copies])
    list(p)
    a = p["allocator"]
    expect(ctx, what + ": place of the allocator", (a.address // 8 - 4, a.size // 8), (at, 1 << n))
    expect(ctx, what + ": number of blocks", get(a, "nblocks"), total)
    expect(ctx, what + ": addresses", [f.value for f in a.array("block")], [(x, 1 << k) for x, k in cells])
    expect(ctx, what + ": displayed addresses", [f.display for f in a.array("block")], ["%s/%s" % (hex(x), hex(1 << k)) if k else "null block" for x, k in cells])
    expect(ctx, what + ": directories", [f.value for f in a.array("dir")], [(x, 1) for x in names])
    expect(ctx, what + ": free lists", [[x.value for x in f.array("offset")] for f in a.array("freelist")], lists)
    contiguous(ctx, what, a, a.size, 2)
    d = p["dsdb"]
    expect(ctx, what + ": database", (d.address // 8 - 4, d.size // 8, [get(d, k) for k in ("root_block", "tree_levels", "num_records", "num_nodes", "unknown")]), (cells[1][0], 1 << cells[1][1], [number[id(root)], levels, count, len(nodes), 0x1000]))
    contiguous(ctx, what, d, d.size, 2)
    got = sorted(f.name for f in p if f.name.startswith("node["))
    expect(ctx, what + ": nodes", got, sorted("node[%s]" % v for v in number.values()))
    for x in nodes:
        k = number[id(x)]
        f = p["node[%s]" % k]
        w = "%s: node %s" % (what, k)
        expect(ctx, w + ": place", (f.address // 8 - 4, f.size // 8), (cells[k][0], 1 << cells[k][1]))
        contiguous(ctx, w, f, f.size, 2)
        expect(ctx, w + ": last block, count", (get(f, "last_block"), get(f, "count")), (number[id(x.children[-1])] if x.children else 0, len(x.recs)))
        expect(ctx, w + ": children", [c.value for c in f.array("child_block")], [number[id(c)] for c in x.children[:-1]])
        expect(ctx, w + ": links", [c.value.name for c in f.array("child_link")], ["node[%s]" % number[id(c)] for c in x.children])
        recs = list(f.array("record"))
        expect(ctx, w + ": number of records", len(recs), len(x.recs))
        for i, (g, r) in enumerate(zip(recs, x.recs)):
            r.check(ctx, "%s: record %s (%s)" % (w, i, r.kind.decode()), g)
    expect(ctx, what + ": free blocks", sorted((f.address // 8 - 4, f.size // 8) for f in p if f.name.startswith("free[")), sorted((x, 1 << k) for k, x in frees))


WORDS = ["a", ".", "file name.txt", "\xe9t\xe9", "\u65e5\u672c", "x" * 200]


def samples(deep):
    out = [Rec("a", b"lsvo", b"bool", v) for v in (0, 1)]
    out += [Rec("b", b"logS", b"comp", v) for v in (0, 1, 2 ** 63, 2 ** 64 - 1, 0x123456789abcdef0)]
    out += [Rec("b", b"modD", b"dutc", v) for v in (0, 0x123456789abcdef0)]
    out += [Rec("c", b"icvo", b"long", v) for v in (0, 1, 0x12345678, 2 ** 31, 2 ** 32 - 1)]
    out += [Rec("d", b"GRP0", b"shor", v) for v in (0, 1, 0x1234, 0xffff)]
    out += [Rec("e", b"vstl", b"type", v) for v in (b"icnv", b"clmv", b"\0\1\2\3", b"    ")]
    out += [Rec("f", b"bwsp", b"blob", bytes(i % 251 for i in range(n))) for n in [0, 1, 2, 3, 12, 100, 1000]]
    out += [Rec("g", b"cmmt", b"ustr", v) for v in ["", *WORDS]]
    return out


def records(case, ctx):
    s = samples(True)
    for i, r in enumerate(s):
        if i % 8 != case["i"]:
            continue
        check(ctx, "one record (%s %s)" % (r.kind.decode(), lib.short(r.value, 20)), Node([r]))
        for j, t in enumerate(s):
            check(ctx, "records (%s %s) and (%s %s)" % (r.kind.decode(), lib.short(r.value, 20), t.kind.decode(), lib.short(t.value, 20)), Node([r, t]), slack=(i + j) % 256)
            if case["deep"]:
                for u in s:
                    check(ctx, "records (%s %s), (%s %s), (%s %s)" % (r.kind.decode(), lib.short(r.value, 20), t.kind.decode(), lib.short(t.value, 20), u.kind.decode(), lib.short(u.value, 20)), Node([r, t, u]))
        for name in WORDS:
            q = Rec(name, r.prop, r.kind, r.value)
            check(ctx, "record of %r (%s)" % (name[:10], r.kind.decode()), Node([q, r]))


def trees(case, ctx):
    s = samples(False)

    def shapes(depth, most):
        if depth == 1:
            return [(n,) for n in range(0, most + 1)]
        return [t for n in range(1, most + 1) for t in itertools.product(shapes(depth - 1, most), repeat=n + 1)]

    def build(shape, k):
        if len(shape) == 1 and isinstance(shape[0], int):
            return Node([s[(k * 3 + i * 5) % len(s)] for i in range(shape[0])])
        return Node([s[(k + i * 7) % len(s)] for i in range(len(shape) - 1)], [build(x, k * 5 + i + 1) for i, x in enumerate(shape)])
    todo = shapes(1, 5) + shapes(2, 3 if case["deep"] else 2) + shapes(3, 1)
    for k, shape in enumerate(todo):
        if k % 8 == case["i"]:
            check(ctx, "tree %s" % (shape,), build(shape, k), unused=k % 3, extra=k % 4)


def allocators(case, ctx):
    r = Node([Rec("a", b"icvo", b"long", 5)])
    for n in case["blocks"]:
        check(ctx, "%s more blocks" % n, r, extra=n)
        check(ctx, "%s null blocks" % n, r, unused=n)
    if case["i"]:
        return
    for names in [("DSDB",), ("other", "DSDB"), ("DSDB", "other"), ("\xe9", "", "DSDB")]:
        for k in range(0, 4):
            for sizes in itertools.product((5, 6, 11), repeat=k):
                check(ctx, "free blocks of %s, directories %s" % (sizes, names), r, names=names, free=[(n, b"F" * i) for i, n in enumerate(sizes)], slack=k)


if __name__ == "__main__":
    c = lib.Check("A28", "model_checking",
                  "all pairs of records of each type with extreme values, names and lengths, all shapes of trees, all numbers of blocks and sets of free blocks of .DS_Store files: place of each node, link and block, values of each record",
                  bounds={"records": "pairs (thorough: triples) of 32", "trees": "up to 3 levels", "blocks": "up to 300 more (thorough: 800)"})
    q = c.quick
    c.domain("records", [{"i": i, "deep": not q} for i in range(8)], records, batch=1)
    c.domain("trees", [{"i": i, "deep": not q} for i in range(8)], trees, batch=1)
    most = list(range(0, 20)) + list(range(240, 300)) if q else list(range(0, 801))
    c.domain("allocators", [{"i": i, "blocks": most[i::8]} for i in range(8)], allocators, batch=1)
    c.main()
