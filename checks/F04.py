"""F04: replacing fields of a set keeps it a tiling, tells the listeners, and changes nothing when it is refused."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir.field import Parser, FieldSet, Bits, RawBytes, ParserError, MissingField, createOrphanField
E = endians()
DATA = bytes((i * 91 + 29) & 0xff for i in range(16))
# one set of fields: (name, bits)
LAYOUTS = [
    [("a", 8), ("b", 16), ("c[]", 8), ("c[]", 4), ("d", 4)],
    [("a", 24)],
    [("x[]", 8), ("x[]", 8), ("x[]", 8)],
    [("b", 3), ("a", 13)],
]
# what a field is replaced by: pieces as (name, share); the shares are made to fill the old field
NEW = [
    [("n", 0)], [("=", 0)], [("a", 0)], [("n[]", 0)],
    [("n", 3), ("m", 0)], [("=", 3), ("n[]", 0)], [("n[]", 3), ("n[]", 0)], [("n[]", 3), ("=", 0)],
    [("n", 3), ("a", 0)], [("n", 3), ("n", 0)], [("x[]", 3), ("x[]", 0)],
    [("n[]", 1), ("a", 1), ("n[]", 0)], [("n[]", 1), ("n[]", 1), ("n[]", 0)], [("n", 1), ("m", 1), ("b", 0)],
    [("n", -1)], [("n", "+1")], [("n", 3), ("m", "+1")],
]


class Model(object):
    def __init__(self, layout):
        self.counts = {}
        self.fields = []
        for n, s in layout:
            self.fields.append((self.name(n), s))
        self.events = []

    def name(self, n):
        if n.endswith("[]"):
            k = n[:-2]
            self.counts[k] = self.counts.get(k, -1) + 1
            n = "%s[%d]" % (k, self.counts[k])
        return n


def mk(cls, fs, addr, name, size):
    return createOrphanField(fs, addr, cls, name, size)


def parser(layout, nested, read, log):
    def create(self):
        for n, s in layout:
            yield Bits(self, n, s)

    class S(FieldSet):
        createFields = create

    class P(Parser):
        endian = E["BIG"]

        def createFields(self):
            if nested:
                yield Bits(self, "head", 5)
                yield S(self, "set")
            else:
                for f in create(self):
                    yield f
    bits = sum(s for n, s in layout)
    p = P(StringInputStream(DATA))
    s = p["set"] if nested else p
    if read is None:
        len(s)
    else:
        s.readFirstFields(read)
    return p, s


def state(s):
    return [(f.name, f.address, f.size, f.absolute_address) for f in s]


def sizes(new, old):
    out, used = [], 0
    for i, (n, share) in enumerate(new):
        if isinstance(share, str):
            sz = old - used + int(share)
        elif share == -1:
            sz = old - 1
        elif share == 0:
            sz = old - used
        else:
            sz = share
        out.append((n, sz))
        used += sz
    return out


def step(ctx, p, s, m, op, log, what):
    """One operation on the set and on the model (a list of names and sizes)."""
    kind, at = op[0], op[1]
    if kind == "replace":
        if at >= len(m.fields):
            name, oldsize = "nosuch", 8
        else:
            name, oldsize = m.fields[at]
        new = [((name if n == "=" else n), z) for n, z in sizes(NEW[op[2]], oldsize)]
        if any(z <= 0 for n, z in new):
            return False
        fields = [mk(Bits, s, 0, n, z) for n, z in new]
        old = s[name] if at < len(m.fields) else None
        counts = dict(m.counts)
        names = [m.name(n) for n, z in new]
        ok = at < len(m.fields) and sum(z for n, z in new) == oldsize
        if not ok:
            m.counts = counts
        others = [n for n, z in m.fields if n != name]
        if ok and (len(set(names)) < len(names) or set(names) & set(others)):
            ok = False
        before = s._current_size if hasattr(s, "_current_size") else None
        call = lambda: s.replaceField(name, fields)
        index = at
        pieces = list(zip(names, [z for n, z in new]))
    else:
        # write one field at an offset inside an existing field
        if at >= len(m.fields):
            return False
        name, oldsize = m.fields[at]
        old = s[name]
        off, size = op[2], op[3]
        addr = sum(z for n, z in m.fields[:at])
        f = mk(Bits, s, 0, "w[]", size)
        counts = dict(m.counts)
        ok = off + size <= oldsize
        pieces = []
        if ok:
            if off:
                pieces.append((m.name("padding[]"), off))
            pieces.append((m.name("w[]"), size))
            if oldsize > off + size:
                pieces.append((m.name("padding[]"), oldsize - off - size))
        call = lambda: s.writeFieldsIn(old, addr + off, [f])
        index = at
        fields = None
    del log[:]
    try:
        call()
    except (ParserError, AssertionError):
        if ok:
            raise lib.Violation("%s: %r is refused" % (what, op))
        if log:
            raise lib.Violation("%s: %r is refused but an event was raised" % (what, op))
        if kind == "replace" and any(n.endswith("[]") for n, z in new):
            return "numbers"    # which numbers a refused operation uses up is not specified
    else:
        if not ok:
            raise lib.Violation("%s: %r is not refused" % (what, op))
        m.fields[index:index + 1] = pieces
        # events: one replacement, then one insertion per further field, to both listeners
        want = []
        objs = [s[n] for n, z in pieces]
        for who in ("local", "global"):
            want.append(("replaced", who, id(old), id(objs[0])))
        for i, o in enumerate(objs[1:]):
            for who in ("local", "global"):
                want.append(("inserted", who, index + 1 + i, id(o)))
        if log != want:
            raise lib.Violation("%s: %r: events %r instead of %r" % (what, op, [x[:2] for x in log], [x[:2] for x in want]))
        if fields is not None and [id(x) for x in fields] != [id(x) for x in objs]:
            raise lib.Violation("%s: %r: other fields were put" % (what, op))
    return True


def verify(p, s, m, base, what):
    """The set is the one of the model."""
    got = [(f.name, f.size) for f in s._fields.values] if False else None
    k = len(m.fields)
    addr = 0
    for i, (n, z) in enumerate(m.fields):
        f = s.getField(i)
        if f.name != n or f.size != z or f.address != addr or f.absolute_address != base + addr:
            raise lib.Violation("%s: field %d is %s at %d+%r (absolute %d) instead of %s at %d+%d" % (
                what, i, f.name, f.address, f.size, f.absolute_address, n, addr, z))
        if s[n] is not f or f.index != i or f.parent is not s or (n in s) is not True:
            raise lib.Violation("%s: %s: lookup by name, index or parent is wrong" % (what, n))
        v = f.value
        want = ref_bits(DATA, base + addr, z, "BIG")
        if isinstance(v, bytes):
            v = int.from_bytes(v, "big")
        elif v is None and z % 8 == 0 and (base + addr) % 8:
            v = want      # whole bytes are not read at a bit address
        if v != want:
            raise lib.Violation("%s: %s has value %r instead of %r" % (what, n, v, want))
        for a in (addr, addr + z - 1):
            if s.getFieldByAddress(a, feed=False) is not f:
                raise lib.Violation("%s: the field at %d is not %s" % (what, a, n))
        addr += z
    # arrays give the fields of the tree
    for key in ("n", "x", "c", "padding"):
        arr = s.array(key)
        i = 0
        names = set(n for n, z in m.fields)
        while "%s[%d]" % (key, i) in names:
            if arr[i] is not s["%s[%d]" % (key, i)]:
                raise lib.Violation("%s: array %s[%d] is not the field of the set" % (what, key, i))
            i += 1


def run(case, ctx):
    layout = LAYOUTS[case["layout"]]
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        ops = (tuple(case["op"]),) + rest
        for nested in (False, True):
            for read in case["reads"]:
                log = []
                p, s = parser(layout, nested, read, log)
                m = Model(layout)
                full = list(m.fields)
                if read is not None:
                    # the model holds the fields read so far
                    m = Model(layout[:read])
                    if nested:
                        m = Model(layout)     # a set of unknown size is read at once
                elif not nested:
                    m.fields.append(("raw[]", 8 * len(DATA) - sum(z for n, z in m.fields)))
                base = 5 if nested else 0
                s.connectEvent("field-replaced", lambda o, n: log.append(("replaced", "local", id(o), id(n))))
                s.connectEvent("field-inserted", lambda i, n: log.append(("inserted", "local", i, id(n))))
                s.connectEvent("field-replaced", lambda o, n: log.append(("replaced", "global", id(o), id(n))), local=False)
                s.connectEvent("field-inserted", lambda i, n: log.append(("inserted", "global", i, id(n))), local=False)
                done = True
                for i, op in enumerate(ops):
                    what = "%r%s read %r, after %r" % (layout, " in a set" if nested else "", read, ops[:i + 1])
                    done = step(ctx, p, s, m, op, log, what)
                    if not done:
                        break
                    ctx.count("transitions")
                    verify(p, s, m, base, what)
                    if done == "numbers":
                        break
                if not done:
                    continue
                # the rest is parsed as before, behind the replaced fields
                clash = set()
                if read is not None and not nested:
                    tail = [(n, z) for n, z in full[read:]]
                    if set(n for n, z in tail) & set(n for n, z in m.fields) or any(n.endswith("]") for n, z in tail):
                        continue     # a name taken in the meantime: renamed, see F03
                    m.fields += tail
                    m.fields.append(("raw[]", 8 * len(DATA) - sum(z for n, z in m.fields)))
                    len(s)
                    verify(p, s, m, base, what + " then parsed to the end")
                if [(f.name, f.size) for f in s] != m.fields or len(s) != len(m.fields):
                    raise lib.Violation("%s: fields %r instead of %r" % (what, [(f.name, f.size) for f in s], m.fields))
                ctx.count("traces")
                ctx.seen("states", (case["layout"], nested, read, tuple(m.fields)))
    ctx.sample(case)


OPS = ([("replace", at, k) for at in (0, 1, 9) for k in range(len(NEW))]
       + [("write", at, off, size) for at in (0, 1) for off in (0, 3, 8) for size in (2, 5, 8)])


def main():
    c = lib.Check("F04", "model_checking",
                  "every sequence of replacements and writes up to the depth, on every layout, at the root or in a set, read completely or in "
                  "part; a state is a distinct list of (name, size)",
                  bounds={"depth": 2 if os.environ.get("VERIF_TIER") != "thorough" else 3, "operations": len(OPS)})
    cases = []
    for i in range(len(LAYOUTS)):
        for op in OPS:
            cases.append({"layout": i, "op": list(op), "depth": 1, "reads": [None, 1, 2]})
            cases.append({"layout": i, "op": list(op), "depth": 2, "reads": [None, 1, 2]})
            if not c.quick:
                cases.append({"layout": i, "op": list(op), "depth": 3, "reads": [None]})
    c.domain("operations", cases, run)
    c.main()


if __name__ == "__main__":
    main()
