"""F05: a set whose parser seeks freely is covered: fields where they were sought, one raw field per gap."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir.field import (Parser, FieldSet, Bits, RawBytes, RootSeekableFieldSet, SeekableFieldSet, MissingField)
from hachoir.field.seekable_field_set import getgaps
E = endians()


def gaps(case, ctx):
    """getgaps() against the set of uncovered units, on every list of blocks within the bound."""
    start, length = case["start"], case["length"]
    blocks = [(s, l) for s in range(0, case["top"]) for l in range(0, 4)]
    for combo in itertools.product(blocks, repeat=case["k"] - 1) if case["k"] else [()]:
        bl = ([tuple(case["first"])] if case["k"] else []) + list(combo)
        covered = set(u for s, l in bl for u in range(s, s + l))
        want, run = [], None
        for u in range(start, start + length + 1):
            free = u < start + length and u not in covered
            if free and run is None:
                run = u
            if not free and run is not None:
                want.append((run, u - run))
                run = None
        copy = list(bl)
        got = list(getgaps(start, length, bl))
        ctx.count("transitions")
        if any(l == 0 for s, l in bl):
            # a gap may be cut at an empty block
            got = [(u, 1) for s, l in got for u in range(s, s + l)]
            want = [(u, 1) for s, l in want for u in range(s, s + l)]
        if got != want or bl != copy:
            raise lib.Violation("getgaps(%d, %d, %r) is %r instead of %r" % (start, length, copy, got, want))
    ctx.count("traces")
    ctx.seen("states", ("gaps", start, length, tuple(case["first"]), case["k"]))


def create(self, items):
    for it in items:
        if it[0] == "seek":
            if it[1] % 8 == 0 and len(it) > 2:
                r = self.seekByte(it[1] // 8)
            else:
                r = self.seekBit(it[1])
            if r is not None:
                raise lib.Violation("seek gives %r" % r)
        elif it[0] == "abs":
            self.seekBit(self.absolute_address + it[1], relative=False)
        elif it[0] == "!":
            raise ValueError("planned")
        elif it[0] == "s":
            class S(FieldSet):
                def createFields(self):
                    yield Bits(self, "x", 4)
                    yield Bits(self, "y", 4)
            yield S(self, it[1], size=it[2])
        else:
            yield Bits(self, it[1], it[2])


def reference(items, room, known):
    """[(address, size)] of the fields kept, the size of the set, or None when the set is an error."""
    cur, out, stopped, error = 0, [], False, False
    size = room if known else None
    for it in items:
        if it[0] in ("seek", "abs"):
            cur = it[1]
            continue
        if it[0] == "!":
            error = True
            break
        sz = it[2]
        if sz is None:
            # a set of two fields of 4 bits: an error when there is no place for the first one
            left = room - cur
            if left < 4:
                error = True
                break
            sz = min(8, left)
        if cur + sz > room:
            if cur == 0:
                error = True
            else:
                left = room - cur
                if it[0] == "s" and left > 0:
                    out.append((cur, left, it[1]))
                    cur += left
                    continue
                if left > 0 and size is None:
                    size = room
                stopped = True
            break
        out.append((cur, sz, it[1]))
        cur += sz
    if size is None:
        if error:
            return None
        size = max([cur] + [a + s for a, s, n in out])
    return out, size


def verify(s, want, data, base, what):
    out, size = want
    fields = list(s)
    declared = fields[:len(out)]
    rest = fields[len(out):]
    if s.size != size:
        raise lib.Violation("%s: size %r instead of %d" % (what, s.size, size))
    got = [(f.address, f.size) for f in declared]
    if got != [(a, z) for a, z, n in out]:
        raise lib.Violation("%s: fields at %r instead of %r" % (what, got, [(a, z) for a, z, n in out]))
    covered = bytearray(size)
    for a, z, n in out:
        covered[a:a + z] = b"\1" * z
    gapl, run = [], None
    for u in range(size + 1):
        free = u < size and not covered[u]
        if free and run is None:
            run = u
        if not free and run is not None:
            gapl.append((run, u - run))
            run = None
    got = [(f.address, f.size) for f in rest]
    if got != gapl:
        raise lib.Violation("%s: raw fields at %r, the gaps are %r" % (what, got, gapl))
    names = [f.name for f in fields]
    if len(set(names)) != len(names) or len(s) != len(fields):
        raise lib.Violation("%s: names %r, length %d" % (what, names, len(s)))
    if [f.name for f in rest] != ["unparsed[%d]" % i for i in range(len(rest))]:
        raise lib.Violation("%s: raw fields are named %r" % (what, [f.name for f in rest]))
    for i, f in enumerate(fields):
        if f.absolute_address != base + f.address or s[f.name] is not f or f.index != i or f.parent is not s:
            raise lib.Violation("%s: field %s is not consistent" % (what, f.path))
        if not f.is_field_set:
            v = f.value
            if isinstance(v, bytes):
                v = int.from_bytes(v, "big")
            if v != ref_bits(data, base + f.address, f.size, "BIG"):
                raise lib.Violation("%s: value of %s" % (what, f.path))
    for bit in range(size):
        f = s.getFieldByAddress(bit)
        if f is None or not f.address <= bit < f.address + f.size:
            raise lib.Violation("%s: the field at bit %d is %r" % (what, bit, f))
    if s.getFieldByAddress(size) is not None:
        raise lib.Violation("%s: a field at bit %d, past the end" % (what, size))
    return len(fields)


class Mode(object):
    pass


def build(items, mode, nbytes):
    data = bytes((i * 67 + 5) & 0xff for i in range(nbytes))
    stream = StringInputStream(data)
    if mode == "root":
        class P(RootSeekableFieldSet, Parser):
            endian = E["BIG"]

            def __init__(self, stream):
                RootSeekableFieldSet.__init__(self, None, "root", stream, None, stream.askSize(self))
                Parser.__init__(self, stream)

            def createFields(self):
                return create(self, items)
        p = P(stream)
        return p, p, 8 * nbytes, 0, data, True

    class K(SeekableFieldSet):
        def createFields(self):
            return create(self, items)

    class Q(Parser):
        endian = E["BIG"]

        def createFields(self):
            yield Bits(self, "head", 3)
            yield K(self, "k", size=mode if mode != "free" else None)
            yield Bits(self, "tail", 4)
    p = Q(stream)
    return p, None, (mode if mode != "free" else 8 * nbytes - 3), 3, data, mode != "free"


def programs(case, ctx):
    for tail in itertools.product(ITEMS, repeat=case["len"] - 1):
        prog = [case["first"]] + [list(t) for t in tail]
        prog = [[it[0], it[1] + "[]"] + it[2:] if it[0] in ("b", "s") else it for it in prog]
        for mode in ("root", "free", 24, 12):
            nbytes = 3 if mode == "root" else 5
            for ask in ("iter", "len", "name", "index", "address"):
                what = "%r, %s, %d bytes, asked by %s" % (prog, mode, nbytes, ask)
                p, s, room, base, data, known = build(prog, mode, nbytes)
                want = reference(prog, room, known)
                if want is not None and mode == "free" and want[1] > room:
                    want = "past"
                try:
                    if s is None:
                        if want is None or want == "past" or want[1] == 0:
                            # the set has no fields, or is in error: the parent repairs itself, see F01
                            end = 0
                            for f in p:
                                if f.address != end:
                                    raise lib.Violation("%s: fields of the parent do not follow each other" % what)
                                end += f.size
                            if end != p.size:
                                raise lib.Violation("%s: the fields of the parent end at %d" % (what, end))
                            continue
                        s = p["k"]
                    if ask == "len":
                        len(s)
                    elif ask == "name":
                        "nosuch" in s
                    elif ask == "index":
                        s.readFirstFields(1)
                    elif ask == "address" and want[1]:
                        f = s.getFieldByAddress(want[1] - 1)
                        if f is None or not f.address <= want[1] - 1 < f.address + f.size:
                            raise lib.Violation("%s: the field at bit %d is %r before any other question" % (what, want[1] - 1, f))
                    n = verify(s, want, data, base, what)
                    if base and (p["tail"].address != base + want[1] if base + want[1] + 4 <= 8 * nbytes else False):
                        raise lib.Violation("%s: the field behind the set is at %d" % (what, p["tail"].address))
                except lib.Violation:
                    raise
                except Exception as e:
                    raise lib.Violation("%s escapes: %s (%s)" % (type(e).__name__, e, what))
                ctx.count("transitions", n)
                ctx.count("traces")
                ctx.seen("states", (mode, tuple(want[0]), want[1]))
    ctx.sample(case)


ITEMS = [["seek", a] for a in (0, 4, 13, 24, 40)] + [["seek", 8, "byte"], ["abs", 10]] + [["b", "f", 3], ["b", "f", 8], ["s", "t", None], ["s", "t", 16], ["!"]]


def main():
    c = lib.Check("F05", "model_checking",
                  "every list of blocks, and every program of seeks and fields up to the bound, at the root or in a set of known or unknown "
                  "size; a state is a distinct (set, fields, size)",
                  bounds={"blocks": 3, "items": 4 if os.environ.get("VERIF_TIER") != "thorough" else 5})
    cases = [{"start": s, "length": l, "top": 8, "first": [fs, fl], "k": k}
             for s in (0, 1, 3) for l in (0, 1, 4, 5) for k in ((1, 2, 3) if c.quick else (1, 2, 3, 4)) for fs in range(8) for fl in range(4)]
    cases += [{"start": s, "length": l, "top": 8, "first": [], "k": 0} for s in (0, 1, 3) for l in (0, 1, 4, 5)]
    c.domain("gaps", cases, gaps)
    c.domain("programs", [{"first": it, "len": n} for n in ((1, 2, 3, 4) if c.quick else (1, 2, 3, 4, 5)) for it in ITEMS], programs, batch=1)
    c.main()


if __name__ == "__main__":
    main()
