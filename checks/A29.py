"""A29: serialized Java objects are shown as they were written: classes, objects, arrays, texts, references, block data."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get
from hachoir.parser.program.java_serialized import JavaSerializedFile

CODES = {"B": "b", "D": "d", "F": "f", "I": "i", "J": "q", "S": "h"}
HUMAN = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int", "J": "long", "S": "short", "Z": "boolean"}
FIRST = 0x7e0000


def human(d):
    n = len(d) - len(d.lstrip("["))
    d = d[n:]
    return (HUMAN[d] if d in HUMAN else d[1:-1].replace("/", ".")) + "[]" * n


class Node:
    """One content; a second writing of the same node is a reference"""
    handle = True
    shown = None


class Str(Node):
    def __init__(self, text, long=False):
        self.text, self.long = text, long

    def write(self, w):
        b = self.text.encode()
        w.new(self)
        return b"\x7c" + struct.pack(">q", len(b)) + b if self.long else b"\x74" + struct.pack(">H", len(b)) + b

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", f["typecode"].display, "LONGSTRING" if self.long else "STRING")
        expect(ctx, w + ": text", f.value, self.text)

    def shown(self, t):
        return '"%s"' % self.text if self.text else "(empty)"

    def cls(self):
        return None


class Desc(Node):
    """fields: (code, name) or (descriptor Str, name)"""

    def __init__(self, name, fields=(), up=None, flags=2, uid=0x123456789, notes=()):
        self.name, self.fields, self.up, self.flags, self.uid, self.notes = name, fields, up, flags, uid, notes

    def write(self, w):
        b = b"\x72" + struct.pack(">H", len(self.name)) + self.name.encode() + struct.pack(">q", self.uid)
        w.new(self)
        b += bytes([self.flags]) + struct.pack(">h", len(self.fields))
        for t, name in self.fields:
            code = t.text[0] if isinstance(t, Str) else t
            b += code.encode() + struct.pack(">H", len(name)) + name.encode()
            if isinstance(t, Str):
                b += w.put(t)
        return b + b"".join(w.put(x) for x in self.notes) + b"\x78" + w.put(self.up)

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": class", (f["typecode"].display, f.value, get(f, "serialVersionUID")), ("CLASSDESC", self.name, self.uid))
        got = [n for n in ("enum", "block_data", "externalizable", "serializable", "write_method") if f["classDescFlags_" + n].value]
        expect(ctx, w + ": flags", got, [n for n, k in (("enum", 16), ("block_data", 8), ("externalizable", 4), ("serializable", 2), ("write_method", 1)) if self.flags & k])
        d = list(f.array("fieldDesc"))
        expect(ctx, w + ": number of fields", (f["fieldDesc_count"].value, len(d)), (len(self.fields), len(self.fields)))
        for g, (x, name) in zip(d, self.fields):
            text = x.text if isinstance(x, Str) else x
            expect(ctx, w + ": field " + name, (g["typecode"].value, g["fieldName"].value, g.value, g.display), (text[0], name, (text, name), "%s %s" % (human(text), name)))
            if isinstance(x, Str):
                t.compare(w + ": type of field " + name, g["className"], x)
        notes = list(f["classAnnotation"])
        expect(ctx, w + ": number of annotations", len(notes), len(self.notes) + 1)
        for g, x in zip(notes, self.notes):
            t.compare(w + ": annotation", g, x)
        expect(ctx, w + ": end of the annotations", notes[-1]["typecode"].display, "ENDBLOCKDATA")
        t.compare(w + ": superclass", f["superClassDesc"], self.up)

    def chain(self):
        return (self.up.chain() if self.up else []) + [self]


class Proxy(Node):
    def __init__(self, names, up=None):
        self.names, self.up, self.fields, self.flags = names, up, (), 2
        self.name = "<Proxy implements %s>" % ", ".join(names)

    def write(self, w):
        w.new(self)
        return b"\x7d" + struct.pack(">i", len(self.names)) + b"".join(struct.pack(">H", len(x)) + x.encode() for x in self.names) + b"\x78" + w.put(self.up)

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": proxy", (f["typecode"].display, [x.value for x in f.array("proxyInterfaceName")], f.className), ("PROXYCLASSDESC", list(self.names), self.name))
        t.compare(w + ": superclass", f["superClassDesc"], self.up)

    chain = Desc.chain


def prim(code, v):
    if code == "Z":
        return bytes([v])
    if code == "C":
        return struct.pack(">H", ord(v))
    return struct.pack(">" + CODES[code], v)


def check_value(ctx, w, f, t, code, v):
    if code in "L[":
        t.compare(w, f, v)
    elif code == "C":
        expect(ctx, w, (f.value, f.display), (ord(v), repr(v)))
    else:
        expect(ctx, w, (f.value, type(f.value)), (v, type(v)))


def show_value(t, code, v, here):
    """here: it is the first writing of a node"""
    if code in "L[":
        if v is None:
            return "null"
        if not here:
            return "-> " + v.shown(t) if isinstance(v, Str) else "#<REF:%s>" % v.cls().name
        return v.shown(t)
    return repr(v) if code == "C" else str(v)


class Obj(Node):
    """values: for each class from the first one, (values of its fields, contents of writeObject or None)"""

    def __init__(self, desc, values):
        self.desc, self.values = desc, values

    def cls(self):
        return self.desc

    def layout(self):
        if self.desc.flags & 4:
            return [self.desc]
        return self.desc.chain()

    def write(self, w):
        b = b"\x73" + w.put(self.desc)
        w.new(self)
        for d, (vals, extra) in zip(self.layout(), self.values):
            if not d.flags & 4:
                for (t, name), v in zip(d.fields, vals):
                    code = t.text[0] if isinstance(t, Str) else t
                    if code in "L[":
                        b += w.put(v)
                    else:
                        b += prim(code, v)
            if d.flags & 5:
                b += b"".join(w.put(x) for x in extra) + b"\x78"
        return b

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", f["typecode"].display, "OBJECT")
        t.compare(w + ": class", f["classDesc"], self.desc)
        got, names, outputs = [], [], []
        if "value" in f:
            got = list(f["value"].array("field"))
            outputs = [x for x in f["value"] if not x.name.startswith("field[")]
        want, others = [], []
        for d, (vals, extra) in zip(self.layout(), self.values):
            if not d.flags & 4:
                want += [(d, x, v) for x, v in zip(d.fields, vals)]
            if d.flags & 5:
                others.append((d, extra))
        expect(ctx, w + ": number of values", len(got), len(want))
        k = 0
        self.first = set()
        # in the order of the file, so that the first writing of each node is met first
        for n, (d, (vals, extra)) in enumerate(zip(self.layout(), self.values)):
            if not d.flags & 4:
                for i, ((x, name), v) in enumerate(zip(d.fields, vals)):
                    if id(v) not in t.fields:
                        self.first.add((n, i))
                    if k < len(got):
                        expect(ctx, w + ": name of a value", got[k].description, "%s.%s" % (d.name, name))
                        check_value(ctx, "%s: %s" % (w, name), got[k], t, x.text[0] if isinstance(x, Str) else x, v)
                    k += 1
            if d.flags & 5:
                if not outputs:
                    ctx.report(w + ": no output of writeObject")
                    continue
                o = outputs.pop(0)
                expect(ctx, w + ": output of the class", o.description, "%s.write%s() output" % (d.name, "External" if d.flags & 4 else "Object"))
                c = list(o)
                expect(ctx, w + ": number of contents", len(c), len(extra) + 1)
                for g, x in zip(c, extra):
                    t.compare(w + ": content", g, x)
                expect(ctx, w + ": end of the contents", c[-1]["typecode"].display, "ENDBLOCKDATA")
        expect(ctx, w + ": further outputs", outputs, [])

    def shown(self, t):
        out = []
        for k, (d, (vals, extra)) in enumerate(zip(self.layout(), self.values)):
            if not d.flags & 4:
                for i, ((x, name), v) in enumerate(zip(d.fields, vals)):
                    out.append("%s=%s" % (name, show_value(t, x.text[0] if isinstance(x, Str) else x, v, (k, i) in self.first)))
        return "%s(%s)" % (self.desc.name, ", ".join(out))


class Arr(Node):
    def __init__(self, desc, values):
        self.desc, self.values = desc, values

    def cls(self):
        return self.desc

    def write(self, w):
        b = b"\x75" + w.put(self.desc)
        w.new(self)
        b += struct.pack(">i", len(self.values))
        code = self.desc.name[1]
        for v in self.values:
            if code in "L[":
                b += w.put(v)
            else:
                b += prim(code, v)
        return b

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", (f["typecode"].display, get(f, "size")), ("ARRAY", len(self.values)))
        t.compare(w + ": class", f["classDesc"], self.desc)
        got = list(f.array("value"))
        expect(ctx, w + ": number of elements", len(got), len(self.values))
        self.first = set()
        for i, (g, v) in enumerate(zip(got, self.values)):
            if id(v) not in t.fields:
                self.first.add(i)
            check_value(ctx, "%s: element %s" % (w, i), g, t, self.desc.name[1], v)

    def shown(self, t):
        return "[%s]" % ", ".join(show_value(t, self.desc.name[1], v, i in self.first) for i, v in enumerate(self.values))


class EnumValue(Node):
    def __init__(self, desc, name):
        self.desc, self.name = desc, name

    def cls(self):
        return self.desc

    def write(self, w):
        b = b"\x7e" + w.put(self.desc)
        w.new(self)
        return b + w.put(self.name)

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", (f["typecode"].display, f.value), ("ENUM", self.name.text))
        t.compare(w + ": class", f["classDesc"], self.desc)
        t.compare(w + ": name", f["enumConstantName"], self.name)

    def shown(self, t):
        return "%s.%s" % (self.desc.name, self.name.text)


class Class(Node):
    def __init__(self, desc):
        self.desc = desc

    def cls(self):
        return self.desc

    def write(self, w):
        b = b"\x76" + w.put(self.desc)
        w.new(self)
        return b

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", f["typecode"].display, "CLASS")
        t.compare(w + ": class", f["classDesc"], self.desc)

    def shown(self, t):
        return "class " + self.desc.name


class Block(Node):
    handle = False

    def __init__(self, data):
        self.data = data

    def write(self, w):
        n = len(self.data)
        return (b"\x77" + bytes([n]) if n < 256 else b"\x7a" + struct.pack(">I", n)) + self.data

    def check(self, ctx, w, f, t):
        n = len(self.data)
        expect(ctx, w + ": block", (f["typecode"].display, get(f, "size"), get(f, "data")), ("BLOCKDATA" if n < 256 else "BLOCKDATALONG", n, self.data if n else "no field"))

    shown = None


class Reset(Node):
    handle = False

    def write(self, w):
        w.reset()
        return b"\x79"

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", f["typecode"].display, "RESET")
        t.reset()

    shown = None


class Failure(Node):
    handle = False

    def __init__(self, obj):
        self.obj = obj

    def write(self, w):
        w.reset()
        b = b"\x7b" + w.put(self.obj)
        w.reset()
        return b

    def check(self, ctx, w, f, t):
        expect(ctx, w + ": kind", f["typecode"].display, "EXCEPTION")
        t.reset()
        t.compare(w + ": exception", f["object"], self.obj)
        t.reset()

    shown = None


class Writer:
    def __init__(self):
        self.reset()

    def reset(self):
        self.handles = {}

    def new(self, node):
        self.handles[id(node)] = FIRST + len(self.handles)

    def put(self, node):
        if node is None:
            return b"\x70"
        if id(node) in self.handles:
            return b"\x71" + struct.pack(">i", self.handles[id(node)])
        return node.write(self)


class Compare:
    def __init__(self, ctx):
        self.ctx = ctx
        self.fields = {}
        self.order = {}

    def reset(self):
        self.fields = {}

    def compare(self, w, f, node):
        ctx = self.ctx
        if node is None:
            expect(ctx, w + ": null", (f["typecode"].display, f.value, f.display, f.size), ("NULL", None, "null", 8))
            return
        if id(node) in self.fields:
            expect(ctx, w + ": reference", f["typecode"].display, "REFERENCE")
            if f["typecode"].value == 0x71 and f.referent is not self.fields[id(node)]:
                ctx.report("%s: reference to %s, expected %s" % (w, f.referent.path, self.fields[id(node)].path))
            return
        if node.handle:
            self.fields[id(node)] = f
        node.check(ctx, w, f, self)
        if node.shown and type(node) is not Str:
            expect(ctx, w + ": display", f.display, node.shown(self))
        elif type(node) is Str and len(node.text) < 40 and node.text.isascii():
            expect(ctx, w + ": display", f.display, node.shown(self))


def run(ctx, what, contents):
    w = Writer()
    parts = [w.put(x) for x in contents]
    data = b"\xac\xed\0\5" + b"".join(parts)
    p = direct(ctx, data, JavaSerializedFile)     # (without tags, an MPEG audio file may be found in 0xFF bytes)
    expect(ctx, what + ": header", (get(p, "magic"), get(p, "version"), p.description), (0xaced, 5, "Serialized Java object, version 5"))
    # (an object without values has a set of values without bytes)
    contiguous(ctx, what, p, len(data) * 8, 9)
    got = list(p.array("object"))
    expect(ctx, what + ": number of contents", len(got), len(contents))
    c = Compare(ctx)
    pos = 4
    for i, (f, x, b) in enumerate(zip(got, contents, parts)):
        expect(ctx, "%s: place of content %s" % (what, i), (f.address // 8, f.size // 8), (pos, len(b)))
        pos += len(b)
        c.compare("%s: content %s" % (what, i), f, x)


VALUES = {"B": [0, 1, -1, 127, -128], "C": ["a", "'", "\xe9", "\u65e5", "\0"], "D": [0.0, 1.5, -2.25], "F": [0.0, 1.5, -2.25], "I": [0, 1, -1, 2 ** 31 - 1, -2 ** 31], "J": [0, -1, 2 ** 63 - 1, -2 ** 63, 0x123456789abcdef], "S": [0, -1, 32767, -32768],
          "Z": [False, True]}


def scalars(case, ctx):
    """Fields and elements of each basic type with extreme values, pairs of types"""
    n = 0
    for code, vals in VALUES.items():
        for v in vals:
            n += 1
            if n % 4 != case["i"]:
                continue
            run(ctx, "field %s %r" % (code, v), [Obj(Desc("A", [(code, "x")]), [([v], None)])])
            run(ctx, "elements %s %r" % (code, v), [Arr(Desc("[" + code), [v] * 3)])
            for other, more in VALUES.items():
                for u in more:
                    d = Desc("pack.A", [(code, "x"), (other, "y")])
                    run(ctx, "fields %s %r, %s %r" % (code, v, other, u), [Obj(d, [([v, u], None)]), Obj(d, [([vals[0], more[-1]], None)])])
        if case["i"] == list(VALUES).index(code) % 4:
            for k in case["lengths"]:
                run(ctx, "%s elements %s" % (k, code), [Arr(Desc("[" + code), [vals[i % len(vals)] for i in range(k)]), Str("end")])
    if case["i"] == 0:
        for k in case["lengths"] + [255, 256, 65535]:
            run(ctx, "text of %s letters" % k, [Str("x" * k), Str("end")])
            run(ctx, "block of %s bytes" % k, [Block(b"x" * k), Str("end")])
        for k in case["lengths"] + [65536, 100000]:
            run(ctx, "long text of %s letters" % k, [Str("x" * k, True), Str("end")])
        for uid in (0, 1, -1, 2 ** 63 - 1, -2 ** 63):
            run(ctx, "version %s" % uid, [Obj(Desc("A", uid=uid), [([], None)])])
        for t in ("\xe9", "\u65e5\u672c", "a'b"):
            run(ctx, "text %r" % t, [Str(t), Str(t, True), Str("end")])


def pool():
    """Contents with shared nodes"""
    ls, la = Str("Ljava/lang/String;"), Str("[I")
    any_ = Str("Ljava/lang/Object;")
    base = Desc("pack.Base", [("I", "id"), (ls, "name")])
    sub = Desc("pack.Sub", [("Z", "flag"), (la, "data"), (ls, "other")], base, 3)
    node = Desc("pack.Node", [(any_, "next"), (any_, "prev")], flags=2, notes=[Block(b"note")])
    ints = Desc("[I")
    objs = Desc("[Ljava.lang.Object;")
    color = Desc("pack.Color", (), Desc("java.lang.Enum", (), flags=0x12, uid=0), 0x12, 0)
    ext = Desc("pack.Ext", (), base, 12)
    empty = Desc("pack.Empty")
    text = Str("shared text")
    red = EnumValue(color, Str("RED"))
    arr = Arr(ints, [1, 2, -3])
    o1 = Obj(base, [([7, text], None)])
    o2 = Obj(sub, [([8, text], None), ([True, arr, None], [Block(b"abc"), Str("extra")])])
    cycle = Obj(node, [([None, text], None)])
    cycle.values = [([cycle, Obj(node, [([cycle, arr], None)])], None)]
    mixed = Arr(objs, [text, None, red, o1, arr, Str("long", True)])
    mixed.values += [mixed.values[-1], text, o1]
    own = Arr(objs, [])
    own.values = [own, empty and Obj(empty, [([], None)]), own]
    e = Obj(ext, [([], [Block(b"x" * 300), text, Block(b"")])])
    handler = Obj(Desc("pack.Handler", [("I", "k")]), [([3], None)])
    proxy = Obj(Proxy(["pack.I", "pack.J"], Desc("java.lang.reflect.Proxy", [(Str("Ljava/lang/reflect/InvocationHandler;"), "h")])), [([handler], None), ([], None)])
    return [text, red, o1, o2, cycle, mixed, own, e, proxy, Class(base), Block(b"12"), Reset(), Failure(o1), Obj(empty, [([], None)]), EnumValue(color, text), None, Obj(node, [([red, o2], None)])]


def sequences(case, ctx):
    """All sequences of contents: what was already written is a reference"""
    items = pool()
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(items)), repeat=n):
            if seq[0] == case["first"]:
                run(ctx, "contents %s" % (seq,), [items[i] for i in seq])


def graphs(case, ctx):
    """All graphs of objects: two links of each of the objects, to each object, a text, a class or nothing"""
    for n in range(1, case["n"] + 1):
        targets = n + 4
        for links in itertools.product(range(targets), repeat=2 * n):
            if links[0] % 4 != case["i"]:
                continue
            o = Str("Ljava/lang/Object;")
            d = Desc("N", [(o, "a"), ("B", "k"), (o, "b")])
            objs = [Obj(d, None) for _ in range(n)]
            c = Desc("M")
            all_ = objs + [None, Str("t"), Str("u", True), Class(c)]
            for i, x in enumerate(objs):
                x.values = [([all_[links[2 * i]], i, all_[links[2 * i + 1]]], None)]
            run(ctx, "graph %s" % (links,), [objs[0], objs[-1]])


def classes(case, ctx):
    """Chains of classes with all flags, numbers of fields and types"""
    types = ["I", "Z", "[", "L", "[[", "[L"]
    for n in range(1, case["n"] + 1):
        for flags in itertools.product((2, 3, 12), repeat=n):
            if flags[0] % 3 != case["i"] % 3:
                continue
            for k, shape in enumerate(itertools.product(range(0, 3), repeat=n)):
                if k % 3 != case["i"] // 3:
                    continue
                up, values = None, []
                shared = {"[": Str("[B"), "L": Str("Lpack/T;"), "[[": Str("[[J"), "[L": Str("[Lpack/U;")}
                for i, (fl, m) in enumerate(zip(flags, shape)):
                    f = []
                    for j in range(m):
                        t = types[(i * 3 + j + k) % len(types)]
                        f.append((shared.get(t, t), "f%s%s" % (i, j)))
                    if fl == 12:
                        f = []
                    up = Desc("C%s" % i, f, up, fl, notes=[Block(b"n")] * (k % 2) + [Str("note")] * (k % 3 == 1))
                    values.append(([{"I": 5, "Z": True}.get(t) if not isinstance(t, Str) else None for t, _ in f], [Block(b"b")] if k % 2 else []))
                if up.flags & 4:
                    values = values[-1:]
                elif any(x == 12 for x in flags[:-1]):
                    continue
                x = Obj(up, values)
                run(ctx, "classes %s with %s fields" % (flags, shape), [x, Obj(up, values), x, Class(up)])


if __name__ == "__main__":
    c = lib.Check("A29", "model_checking",
                  "all basic types with extreme values and pairs of them, all sequences of contents of each kind with shared nodes, all graphs of references between objects, all chains of classes of serialized Java objects: place, kind, value and display of each content, target of each reference",
                  bounds={"contents": "up to 3 of 17 (thorough: 4)", "graphs": "up to 2 objects of 2 links (thorough: 3)", "classes": "chains of up to 3 (thorough: 5)"})
    q = c.quick
    c.domain("scalars", [{"i": i, "lengths": list(range(0, 20)) + ([] if q else list(range(20, 400)))} for i in range(4)], scalars, batch=1)
    c.domain("sequences", [{"first": i, "n": 3 if q else 4} for i in range(17)], sequences, batch=1)
    c.domain("graphs", [{"i": i, "n": 2 if q else 3} for i in range(4)], graphs, batch=1)
    c.domain("classes", [{"i": i, "n": 3 if q else 5} for i in range(9)], classes, batch=1)
    c.main()
