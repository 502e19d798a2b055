"""E01: saving an editor writes the fields as edited: unedited ones unchanged, in order, with the insertions and without the deletions."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream, StringOutputStream
from hachoir import field as F
from hachoir.field import MissingField
from hachoir.core.dict import UniqKeyError
from hachoir.editor import createEditor, EditableInteger, EditableBits, EditableBytes, NewFieldSet, EditorError
E = endians()

# layouts: [kind, name, size] or ["s", name, size or None, items]
LAYOUTS = {
    "bytes": [["u", "a", 8], ["u", "b", 16], ["r", "r", 3], ["s", "s", None, [["u", "x", 8], ["u", "y", 8]]], ["u", "c[]", 8], ["u", "c[]", 8]],
    "bits": [["b", "p", 5], ["b", "q", 1], ["b", "t", 10], ["s", "s", None, [["b", "x", 3], ["b", "y", 5], ["u", "z", 8]]], ["u", "e", 8]],
    "shifted": [["b", "p", 3], ["s", "s", None, [["b", "x", 5], ["u", "z", 16], ["r", "w", 2]]], ["b", "q", 1], ["s", "u", 16, [["s", "in", None, [["u", "k", 8]]], ["u", "l", 8]]], ["b", "v", 7]],
    "deep": [["s", "s", 32, [["s", "in", None, [["u", "x", 8], ["u", "y", 8]]], ["u", "v", 16]]], ["u", "c[]", 8], ["r", "tail", 2]],
}
DATA = bytes((i * 53 + 0x9d) & 0xff for i in range(40))


def bits_of(value, n, big):
    b = [(value >> i) & 1 for i in range(n)]
    return b[::-1] if big else b


def bytes_bits(data, big):
    return [x for b in data for x in bits_of(b, 8, big)]


def pack(bits, big):
    out = bytearray()
    for i in range(0, len(bits) - 7, 8):
        v = 0
        for k, b in enumerate(bits[i:i + 8]):
            v |= b << (7 - k if big else k)
        out.append(v)
    return bytes(out)


class M(object):
    """A field of the model."""

    def __init__(self, name, kind, bits=None, children=None, altered=False, size=None):
        self.name, self.kind, self.bits, self.children, self.altered = name, kind, bits, children, altered
        self.orig = list(children) if children is not None else None

    def size(self):
        return len(self.all_bits())

    def all_bits(self):
        if self.children is None:
            return self.bits
        return [b for c in self.children for b in c.all_bits()]

    def find(self, name):
        for c in self.children or ():
            if c.name == name:
                return c

    def walk(self, path=""):
        for c in self.children:
            p = path + c.name
            yield p, c
            if c.children is not None:
                for x in c.walk(p + "/"):
                    yield x

    def touched(self):
        if self.children is None or self.altered:
            return self.altered
        return self.children != self.orig or any(c.touched() for c in self.children)


def model_of(items, bits, pos=0):
    out, counts = [], {}
    for it in items:
        name = it[1]
        if name.endswith("[]"):
            k = counts[name] = counts.get(name, -1) + 1
            name = "%s[%d]" % (name[:-2], k)
        if it[0] == "s":
            ch, end = model_of(it[3], bits, pos)
            out.append(M(name, "s", children=ch))
            pos = end
        else:
            n = it[2] * (8 if it[0] == "r" else 1)
            out.append(M(name, it[0], bits[pos:pos + n]))
            pos += n
    return out, pos


def parser_of(items, en):
    def make(self, its):
        for it in its:
            if it[0] == "u":
                yield getattr(F, "UInt%d" % it[2])(self, it[1])
            elif it[0] == "b":
                yield F.Bits(self, it[1], it[2])
            elif it[0] == "r":
                yield F.RawBytes(self, it[1], it[2])
            else:
                def sub(its):
                    class S(F.FieldSet):
                        def createFields(self):
                            return make(self, its)
                    return S
                yield sub(it[3])(self, it[1], size=it[2])

    class P(F.Parser):
        endian = E[en]

        def createFields(self):
            return make(self, items)
    return P


def size_of(items):
    return sum(size_of(i[3]) if i[0] == "s" else i[2] * (8 if i[0] == "r" else 1) for i in items)


class Run(object):
    def __init__(self, layout, en):
        self.items = LAYOUTS[layout]
        self.big = en == "BIG"
        nbits = size_of(self.items)
        assert nbits % 8 == 0, layout
        self.data = DATA[:nbits // 8]
        self.root = M("root", "s", children=model_of(self.items, bytes_bits(self.data, self.big))[0])
        self.parser = parser_of(self.items, en)(StringInputStream(self.data))
        self.editor = createEditor(self.parser)
        self.keep = []
        self.refused = 0

    def at(self, path):
        n, e = self.root, self.editor
        for part in path.split("/") if path else ():
            n = n.find(part)
            if n is None:
                return None, None
            e = e[part]
        return n, e

    # -- operations: apply to the model, then to the real editor ---------------------------------
    def new(self, editor, spec):
        """(model, field) of a new field."""
        kind, name = spec[0], spec[1]
        if kind == "u":
            return M(name, "u", bits_of(0x5b, 8, self.big), altered=True), EditableInteger(editor, name, False, 8, 0x5b)
        if kind == "h":
            return M(name, "u", bits_of(0xc0de, 16, self.big), altered=True), EditableInteger(editor, name, False, 16, 0xc0de)
        if kind == "b":
            return M(name, "b", bits_of(5, 3, self.big), altered=True), EditableBits(editor, name, 3, 5)
        if kind == "r":
            return M(name, "r", bytes_bits(b"\xab\x01", self.big), altered=True), EditableBytes(editor, name, b"\xab\x01")
        if kind == "s":
            f = NewFieldSet(editor, name)
            g = EditableInteger(f, "g[]", False, 8, 0x77)
            h = EditableInteger(f, "h", False, 8, 0x78)
            f.insert(g, h)
            f.insertBefore("h", EditableInteger(f, "i", False, 8, 0x79))
            return M(name, "s", children=[M("g[0]", "u", bits_of(0x77, 8, self.big), altered=True), M("i", "u", bits_of(0x79, 8, self.big), altered=True),
                                          M("h", "u", bits_of(0x78, 8, self.big), altered=True)], altered=True), f
        raise lib.HarnessError(spec)

    def apply(self, op):
        k = op[0]
        if k in ("set", "del"):
            path, _, name = op[1].rpartition("/")
            parent, e = self.at(path)
            node = parent.find(name) if parent is not None and parent.children is not None else None
            if k == "del":
                # (TypeError: a name inside a field which is not a set)
                self.expect(op, node is None, (MissingField, TypeError), lambda: self.editor.__delitem__(op[1]))
                if node is not None:
                    parent.children.remove(node)
            else:
                def run():
                    f = self.editor[op[1]]
                    f.value = value
                    self.keep.append(f)
                if node is None:
                    value = 1
                    self.expect(op, True, MissingField, run)
                    return
                if node.kind == "s":
                    value = 1
                    self.expect(op, True, EditorError, run)
                    return
                if node.kind == "r":
                    value = b"new!" if op[2] else b""
                    bad = not op[2]
                    bits = bytes_bits(value, self.big)
                else:
                    n = len(node.bits)
                    value = [1 << n, 2 & ((1 << n) - 1), (1 << n) - 1][op[2]]
                    bad = op[2] == 0
                    bits = bits_of(value, n, self.big) if not bad else None
                self.expect(op, bad, ValueError, run)
                if not bad:
                    node.bits = bits
                    node.altered = True
        elif k in ("before", "after", "insert"):
            parent, e = self.at(op[1])
            if parent is None or parent.children is None:
                return
            specs = op[3]
            pairs = [self.new(e, s) for s in specs]
            fields = [f for m, f in pairs]
            self.keep.append(fields)
            names = [m.name for m, f in pairs]
            there = {c.name for c in parent.children}
            plain = [n for n in names if not n.endswith("[]")]
            dup = len(set(plain)) < len(plain) or any(n in there for n in plain)
            missing = k != "insert" and op[2] not in there
            if k == "insert":
                call = lambda: e.insert(*fields)
            elif k == "before":
                call = lambda: e.insertBefore(op[2], *fields)
            else:
                call = lambda: e.insertAfter(op[2], *fields)
            self.expect(op, dup or missing, (UniqKeyError, MissingField), call)
            if dup or missing:
                return
            for (m, f) in pairs:
                if m.name.endswith("[]"):
                    m.name = f.name
                    base = op_base(m.name)
                    if base is None or m.name in there:
                        raise lib.Violation("%r: new field is named %r" % (op, m.name))
                    there.add(m.name)
            pos = len(parent.children)
            if k != "insert":
                pos = [c.name for c in parent.children].index(op[2]) + (k == "after")
            parent.children[pos:pos] = [m for m, f in pairs]
        elif k == "reset":
            self.editor.reset()
        elif k == "look":
            self.look()
        elif k == "touch":
            try:
                self.keep.append(self.editor[op[1]])
            except MissingField:
                pass

    def expect(self, op, bad, exc, call):
        try:
            call()
        except exc as e:
            if not bad:
                raise lib.Violation("%r is refused: %s %s" % (op, type(e).__name__, e))
            self.refused += 1
            return
        if bad:
            raise lib.Violation("%r is accepted" % (op,))

    # -- observations ----------------------------------------------------------------------------
    def look(self):
        self.look_set(self.root, self.editor, 0, 0)
        for p, n in self.root.walk():
            if p not in self.editor:
                raise lib.Violation("%s is not found" % p)
        for p, c in M("", "s", children=model_of(self.items, bytes_bits(self.data, self.big))[0]).walk():
            if self.at_model(p) is None and p in self.editor:
                raise lib.Violation("%s is still there" % p)

    def at_model(self, path):
        n = self.root
        for part in path.split("/"):
            n = n.find(part) if n.children is not None else None
            if n is None:
                return None
        return n

    def look_set(self, node, e, addr, base):
        fields = list(e)
        names = [f.name for f in fields]
        if names != [c.name for c in node.children]:
            raise lib.Violation("fields of %s: %r instead of %r" % (node.name, names, [c.name for c in node.children]))
        if len(e) != len(fields):
            raise lib.Violation("%s has %d fields, len() is %d" % (node.name, len(fields), len(e)))
        if e.size != node.size():
            raise lib.Violation("%s: size %r instead of %d" % (node.name, e.size, node.size()))
        pos = 0
        for c, f in zip(node.children, fields):
            if f.size != c.size() or f.address != pos:
                raise lib.Violation("%s is at %r, %r bits, instead of %d, %d bits" % (c.name, f.address, f.size, pos, c.size()))
            if c.children is not None:
                if f.absolute_address != base + pos:
                    raise lib.Violation("%s: absolute address %r instead of %d" % (c.name, f.absolute_address, base + pos))
                self.look_set(c, f, 0, base + pos)
            else:
                v = f.value
                if c.kind == "r":
                    ok = v == pack(c.bits, self.big)
                else:
                    ok = v == sum(b << (len(c.bits) - 1 - i if self.big else i) for i, b in enumerate(c.bits))
                if not ok:
                    raise lib.Violation("%s: value %r instead of bits %r" % (c.name, v, c.bits))
                if bool(f.is_altered) != bool(c.altered):
                    raise lib.Violation("%s: is_altered is %r" % (c.name, f.is_altered))
            g = e[c.name]
            if g.name != c.name or g.size != c.size():
                raise lib.Violation("%s: another field is found by its name" % c.name)
            pos += c.size()
        if bool(e.is_altered) != node.touched():
            raise lib.Violation("%s: is_altered is %r" % (node.name, e.is_altered))

    def writable(self):
        """Edited bytes cannot be written between two bytes (documented limit of the output stream)."""
        pos = 0
        stack = [(self.root, )]

        def rec(n, pos):
            for c in n.children:
                if c.children is not None:
                    if not rec(c, pos):
                        return False
                elif c.kind == "r" and c.altered and pos % 8:
                    return False
                pos += c.size()
            return True
        return rec(self.root, 0)

    def save(self):
        if not self.writable():
            return
        want = pack(self.root.all_bits(), self.big)
        for _ in (1, 2):
            out = StringOutputStream()
            self.editor.writeInto(out)
            out._output.seek(0)
            got = out._output.read()
            if got != want:
                raise lib.Violation("saved %s instead of %s" % (got.hex(), want.hex()))


def op_base(name):
    a, b, c = name.partition("[")
    return a if b and c.endswith("]") and c[:-1].isdigit() else None


def ops_of(layout, full):
    names = {"": []}
    m = M("", "s", children=model_of(LAYOUTS[layout], bytes_bits(DATA, True))[0])
    leaves, sets = [], [""]
    for p, c in m.walk():
        head, _, tail = p.rpartition("/")
        names.setdefault(head, []).append(tail)
        if c.children is None:
            leaves.append(p)
        else:
            sets.append(p)
    ops = []
    for p in leaves:
        ops += [("set", p, 1), ("set", p, 2)] + ([("set", p, 0)] if full else [])
        ops.append(("del", p))
    for p in sets:
        if p:
            ops += [("del", p)] + ([("set", p, 1)] if full else [])
        ins = names[p]
        keys = ins if full else [ins[0], ins[-1]]
        arr = next((op_base(n) + "[]" for n in ins if op_base(n)), "new[]")
        for key in keys:
            for k in ("before", "after"):
                ops.append((k, p, key, [("u", "n1")]))
                ops.append((k, p, key, [("h", "m1"), ("u", arr)]))
        ops.append(("insert", p, None, [("u", "n2"), ("r", "n3")]))
        ops.append(("insert", p, None, [("u", ins[0])]))
        ops.append(("before", p, "n1", [("u", "o1"), ("u", arr)]))
        ops.append(("after", p, "n1", [("u", "o2")]))
        ops.append(("after", p, ins[0], [("s", "new[]")]))
        ops.append(("del", (p + "/" if p else "") + "n1"))
        ops.append(("set", (p + "/" if p else "") + "n1", 2))
        if full:
            ops.append(("before", p, ins[0], [("b", "n4"), ("b", "n4")]))
            ops.append(("before", p, ins[-1], [("b", "n4")]))
            ops.append(("after", p, "none", [("u", "n1")]))
            ops.append(("touch", p or names[""][0]))
    ops += [("del", "none"), ("look",), ("reset",)]
    return ops


def edits(case, ctx):
    layout, en = case["layout"], case["endian"]
    ops = ops_of(layout, case["full"])
    first = ops[case["first"]]
    for rest in lib.sequences(ops, case["depth"] - 1):
        seq = (first,) + rest
        run = Run(layout, en)
        try:
            for op in seq:
                run.apply(op)
                ctx.count("transitions")
            run.look()
            run.save()
            run.look()
        except lib.Violation as e:
            raise lib.Violation("%s, %s endian, after %r: %s" % (layout, en, list(seq), e.msg))
        except (lib.HarnessError, lib.CaseTimeout):
            raise
        except Exception as e:
            if not lib.in_repo(e.__traceback__):
                raise
            import traceback
            raise lib.Violation("%s, %s endian, after %r: %s: %s" % (layout, en, list(seq), type(e).__name__, e), trace=traceback.format_exc())
        ctx.count("traces")
        ctx.seen("states", (layout, en, tuple((p, tuple(n.bits or ())) for p, n in run.root.walk())))


def untouched(case, ctx):
    """Whatever is looked at, an editor without edits saves the data unchanged, also set by set."""
    layout, en = case["layout"], case["endian"]
    paths = [p for p, c in Run(layout, en).root.walk()]
    for k in range(0, 3):
        for seq in itertools.product(paths, repeat=k):
            run = Run(layout, en)
            for p in seq:
                run.apply(("touch", p))
            run.save()
            run.look()
            for p, n in run.root.walk():
                if n.children is None:
                    continue
                e = run.editor[p]
                out = StringOutputStream()
                e.writeInto(out)
                out._output.seek(0)
                got, want = out._output.read(), pack(n.all_bits(), run.big)
                if got != want:
                    raise lib.Violation("%s, %s: %s saved alone as %s instead of %s" % (layout, en, p, got.hex(), want.hex()))
            ctx.count("transitions")
            ctx.count("traces")
            ctx.seen("states", (layout, en, seq))


def main():
    c = lib.Check("E01", "model_checking",
                  "every sequence of edits up to the depth on every layout and byte order, against a list model; a state is a distinct edited tree",
                  assumptions=["fields follow each other in the edited sets (no seek)", "edited bytes are not written between two bytes (refused by the output stream)"],
                  bounds={"depth": "2 with all operations; thorough: 3 with the main ones", "layouts": len(LAYOUTS)})
    for depth, full, name in ([(2, True, "edits")] if c.quick else [(2, True, "edits"), (3, False, "edits3")]):
        c.domain(name, [{"layout": l, "endian": en, "first": i, "depth": depth, "full": full} for l in LAYOUTS for en in ("BIG", "LITTLE")
                        for i in range(len(ops_of(l, full)))], edits, cpu_limit=600)
    c.domain("untouched", [{"layout": l, "endian": en} for l in LAYOUTS for en in ("BIG", "LITTLE")], untouched)
    c.main()


if __name__ == "__main__":
    main()
