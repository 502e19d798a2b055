"""Parsers built from a small grammar, and reference layouts computed without the library.

items:  ["b", name, nbits]          bit field (Bits)
        ["r", name, nbytes]         RawBytes
        ["u", name, nbytes]         UInt8/16/24/32
        ["s", name, size, items]    FieldSet; size in bits or None
        ["!", kind]                 the generator raises (kind: "parser", "value", "missing")
        ["seek", bits, name]        seekBit(relative) and yield the padding when there is one
        ["cnt", src, item]          as many copies of item as the value of the earlier field src
        ["rep", n, item]            n copies
        ["eof", item]               copies until the end of the set
        ["peek", name]              asks self[name].value (a field before) and goes on
"""
from mc import lib

LEAF = ("b", "r", "u")


def build(items, endian=None, trace=None, base=None):
    """A Parser class for the items.  trace: list receiving (path-ish, index) at each creation."""
    from hachoir.core.endian import BIG_ENDIAN
    from hachoir.field import Parser
    b = base or Parser

    class P(b):
        def createFields(self):
            return gen(self, items, trace, "/")
    P.endian = endian or BIG_ENDIAN
    return P


def gen(self, items, trace, where):
    from hachoir.field import ParserError, MissingField
    for item in items:
        k = item[0]
        if k == "cnt":
            count = self[item[1]].value
            if isinstance(count, bytes):
                count = int.from_bytes(count, "big")
            for _ in range(count):
                yield make(self, item[2], trace, where)
        elif k == "rep":
            for _ in range(item[1]):
                yield make(self, item[2], trace, where)
        elif k == "eof":
            while not self.eof:
                yield make(self, item[1], trace, where)
        elif k == "!":
            if item[1] == "parser":
                raise ParserError("planned")
            if item[1] == "value":
                raise ValueError("planned")
            self["no_such_field"]
        elif k == "seek":
            f = self.seekBit(item[1], item[2] if len(item) > 2 else "padding[]")
            if f:
                yield f
        elif k == "peek":
            self[item[1]].value
        else:
            yield make(self, item, trace, where)


def make(self, item, trace, where):
    from hachoir.field import Bits, RawBytes, FieldSet, UInt8, UInt16, UInt24, UInt32
    k, name, n = item[:3]
    if trace is not None:
        trace.append(where + name)
    if k == "b":
        return Bits(self, name, n)
    if k == "r":
        return RawBytes(self, name, n)
    if k == "u":
        return {1: UInt8, 2: UInt16, 3: UInt24, 4: UInt32}[n](self, name)
    if k == "s":
        children = item[3]

        class S(FieldSet):
            def createFields(self):
                return gen(self, children, trace, where + name + "/")
        return S(self, name, size=n)
    raise lib.HarnessError(item)


# -- reference layout on unlimited data ---------------------------------------------------------
class Node(object):
    __slots__ = ("name", "addr", "size", "children", "abs", "lazy")

    def __init__(self, name, addr, size, children, abs_, lazy=False):
        self.name, self.addr, self.size, self.children, self.abs, self.lazy = name, addr, size, children, abs_, lazy


def unique(name, counts, used):
    if name.endswith("[]"):
        key = name[:-2]
        counts[key] = counts.get(key, -1) + 1
        name = "%s[%d]" % (key, counts[key])
    if name in used:
        key = name
        counts[key] = counts.get(key, -1) + 1
        name = "%s[%d]" % (key, counts[key])
    used.add(name)
    return name


def ideal(items, base=0, value_of=None):
    """Nodes of a well-behaved program over unlimited data (no declared size smaller than the content,
    no raise, no eof loop).  value_of(abs address, nbits) gives field values for "cnt"."""
    counts, used, out, cur, byname = {}, set(), [], 0, {}

    def put(item):
        nonlocal cur
        k, name, n = item[:3]
        if k == "s":
            ch, sz = ideal(item[3], base + cur, value_of)
            if n is not None:
                if n > sz:
                    ch.append(Node(pad_name(ch), sz, n - sz, None, base + cur + sz))
                sz = n
        else:
            ch, sz = None, n if k == "b" else 8 * n
        nm = unique(name, counts, used)
        node = Node(nm, cur, sz, ch, base + cur)
        out.append(node)
        byname[nm] = node
        cur += sz
    for item in items:
        k = item[0]
        if k == "cnt":
            src = byname[item[1]]
            for _ in range(value_of(src.abs, src.size)):
                put(item[2])
        elif k == "rep":
            for _ in range(item[1]):
                put(item[2])
        elif k == "seek":
            if item[1] > cur:
                put(["b", item[2] if len(item) > 2 else "padding[]", item[1] - cur])
        elif k == "peek":
            pass
        else:
            put(item)
    return out, cur


def pad_name(nodes):
    return "raw[]"


def walk(nodes, path="/"):
    for n in nodes:
        p = path + n.name
        yield p, n
        if n.children is not None:
            for x in walk(n.children, p + "/"):
                yield x


# -- invariants of a parsed tree -----------------------------------------------------------------
def check_tiling(fs, content, where="", complete=True, limit=None, values=True, zero_ok=True):
    """The invariants of a fully parsed field set (recursively).  Returns the number of fields."""
    n = 0
    addr = 0
    names = set()
    fields = list(fs)
    for i, f in enumerate(fields):
        what = "%s (field %d of %s)" % (f.path, i, fs.path)
        if f.address != addr:
            raise lib.Violation("%s is at %d, the previous field ends at %d" % (what, f.address, addr))
        size = f.size
        if size is None or size < 0 or (size == 0 and not zero_ok):
            raise lib.Violation("%s has size %r" % (what, size))
        if f.name in names:
            raise lib.Violation("%s: name used twice" % what)
        names.add(f.name)
        if f.parent is not fs:
            raise lib.Violation("%s: wrong parent" % what)
        if f.absolute_address != fs.absolute_address + addr:
            raise lib.Violation("%s: absolute address %d instead of %d" % (what, f.absolute_address, fs.absolute_address + addr))
        if f.index != i or fs.getField(i) is not f:
            raise lib.Violation("%s: index %r instead of %d" % (what, f.index, i))
        if fs[f.name] is not f:
            raise lib.Violation("%s: not found by its name" % what)
        addr += size
        n += 1
        if f.is_field_set:
            n += check_tiling(f, content, where, complete, limit, values, zero_ok)
    if complete and addr != fs.size:
        raise lib.Violation("%s: fields cover %d bits of %d" % (fs.path, addr, fs.size))
    if addr > fs.size:
        raise lib.Violation("%s: fields cover %d bits, the set has %d" % (fs.path, addr, fs.size))
    end = fs.absolute_address + fs.size
    if content is not None and end > 8 * len(content):
        raise lib.Violation("%s ends at %d, the data has %d bits" % (fs.path, end, 8 * len(content)))
    if len(fs) != len(fields):
        raise lib.Violation("%s: len() gives %d, iteration %d fields" % (fs.path, len(fs), len(fields)))
    return n


def leaves(fs):
    for f in fs:
        if f.is_field_set:
            for x in leaves(f):
                yield x
        else:
            yield f


def dump(fs, values=True):
    """A canonical image of a tree."""
    out = []
    for f in fs:
        if f.is_field_set:
            out.append((f.name, f.__class__.__name__, f.address, f.size, tuple(dump(f, values))))
        else:
            v = f.value if values else None
            if isinstance(v, bytes):
                v = v[:64]
            out.append((f.name, f.__class__.__name__, f.address, f.size, v))
    return out


# -- exact reference of parsing with repair ("autofix") on limited data ---------------------------
class TooLarge(Exception):
    pass


class Planned(Exception):
    pass


class _Stop(Exception):
    pass


class Set(object):
    """Reference parse of one field set.  limit: bits available from `base` in the nearest enclosing set
    of known size.  A set of known size repairs itself: whatever goes wrong, the fields read so far are
    kept and the rest is one raw field.  A set of unknown size ends where its fields end; an error in it
    is an error of its parent, unless it has fields and uses all the available bits."""

    def __init__(self, items, size, base, limit, value_of):
        self.items, self.size, self.base, self.limit, self.value_of = items, size, base, limit, value_of
        self.cur, self.nodes, self.counts, self.used, self.byname = 0, [], {}, set(), {}
        self.error = None
        try:
            try:
                self.feed()
            except _Stop:
                pass
        except (TooLarge, Planned) as e:
            if self.size is None:
                self.error = e
                return
        if self.size is None:
            self.size = self.cur
        self.close()

    def close(self):
        if self.cur < self.size:
            self.nodes.append(Node("raw[]", self.cur, self.size - self.cur, None, self.base + self.cur))
            self.cur = self.size

    def room(self):
        return (self.size if self.size is not None else self.limit) - self.cur

    def feed(self):
        for item in self.items:
            k = item[0]
            if k == "cnt":
                src = self.byname.get(item[1])
                if src is None:
                    raise Planned()
                for _ in range(self.value_of(src.abs, src.size)):
                    self.put(item[2])
            elif k == "rep":
                for _ in range(item[1]):
                    self.put(item[2])
            elif k == "eof":
                while self.room() >= 1:
                    self.put(item[1])
            elif k == "seek":
                if item[1] < self.cur:
                    raise Planned()
                if item[1] > self.cur:
                    self.put(["b", item[2] if len(item) > 2 else "padding[]", item[1] - self.cur])
            elif k == "peek":
                if item[1] not in self.byname:
                    raise Planned()
            elif k == "!":
                raise Planned()
            else:
                self.put(item)

    def put(self, item):
        k, name, n = item[:3]
        # numbered names are taken when the field is added, even if it is not kept
        if name.endswith("[]"):
            key = name[:-2]
            self.counts[key] = self.counts.get(key, -1) + 1
            name = "%s[%d]" % (key, self.counts[key])
        room = self.room()
        stop = False
        children = None
        if k == "s":
            if n is None:
                sub = Set(item[3], None, self.base + self.cur, room, self.value_of)
                if sub.error is not None:
                    if not (sub.nodes and sub.room() < 1):
                        raise sub.error
                    sub.size = sub.cur
                    stop = True
                size, children = sub.size, sub.nodes
            else:
                size = n
        else:
            size = n if k == "b" else 8 * n
        if size > room or (k == "s" and size <= 0):
            if not self.cur:
                raise TooLarge()
            if k == "s" and size > 0 and room > 0:
                size = room
            else:
                if room > 0 and self.size is None:
                    self.size = self.cur + room
                raise _Stop()
        if k == "s" and n is not None:
            children = Set(item[3], size, self.base + self.cur, size, self.value_of).nodes
        if name in self.used:
            key = name
            self.counts[key] = self.counts.get(key, -1) + 1
            name = "%s[%d]" % (key, self.counts[key])
        self.used.add(name)
        node = Node(name, self.cur, size, children, self.base + self.cur, k == "s" and n is not None)
        self.nodes.append(node)
        self.byname[name] = node
        self.cur += size
        if stop:
            raise _Stop()


def model(items, nbits, value_of=None):
    """Reference tree of a root parser over nbits of data: list of Node."""
    return Set(items, nbits, 0, nbits, value_of).nodes


def norm(name):
    import re
    return re.sub(r"^raw\[\d*\]$", "raw[]", name)


def shape(nodes):
    return tuple((norm(n.name), n.addr, n.size, None if n.children is None else shape(n.children)) for n in nodes)


def real_shape(fs):
    return tuple((norm(f.name), f.address, f.size, real_shape(f) if f.is_field_set else None) for f in fs)
