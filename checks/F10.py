"""F10: static field sets and vectors have the size of their fields, and are those fields, wherever the data ends."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, grammar
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir import field as F
E = endians()


def inner():
    class Inner(F.StaticFieldSet):
        format = ((F.UInt8, "x"), (F.Bits, "y[]", 5), (F.Bits, "y[]", 3), (F.UInt16, "z"))
    return Inner


# (item, its size in bits)
ITEMS = {
    "u8": (lambda: (F.UInt8, "u8[]"), 8),
    "i16": (lambda: (F.Int16, "i16[]", "a number"), 16),
    "u24": (lambda: (F.UInt24, "u24[]", {"description": "three bytes"}), 24),
    "bit": (lambda: (F.Bit, "bit[]"), 1),
    "bits": (lambda: (F.Bits, "bits[]", 7), 7),
    "raw": (lambda: (F.RawBytes, "raw[]", 3), 24),
    "str": (lambda: (F.String, "str[]", 2, "text", {"charset": "ASCII", "strip": True}), 16),
    "nul": (lambda: (F.NullBytes, "nul[]", 1), 8),
    "pad": (lambda: (F.PaddingBits, "pad[]", 8), 8),
    "flt": (lambda: (F.Float32, "flt[]"), 32),
    "chr": (lambda: (F.Character, "chr[]"), 8),
    "set": (lambda: (inner(), "set[]"), 32),
    "dos": (lambda: (F.DateTimeMSDOS32, "dos[]"), 32),
    "ena": (lambda: (F.RawBits, "ena[]", 9), 9),
}
QUICK = ["u8", "i16", "bit", "bits", "raw", "str", "flt", "set", "pad"]


def data_of(n):
    return bytes((i * 37 + 0x41) & 0xff for i in range(n))


def image(fs):
    return [(f.name, f.__class__.__name__, f.address, f.size, f.description, f.display, repr(f.value), image(f) if f.is_field_set else None) for f in fs]


def make_fields(self, names):
    """The fields of the format, made one by one."""
    for n in names:
        item = ITEMS[n][0]()
        cls, args = item[0], list(item[1:])
        kw = {}
        if isinstance(args[-1], dict):
            kw = args.pop()
        yield cls(self, *args, **kw)


def classes(names, nested):
    fmt = tuple(ITEMS[n][0]() for n in names)
    size = sum(ITEMS[n][1] for n in names)

    class St(F.StaticFieldSet):
        format = fmt

    class Dy(F.FieldSet):
        static_size = size

        def createFields(self):
            return make_fields(self, names)
    if nested:
        class St2(F.StaticFieldSet):
            format = ((F.UInt8, "head"), (St, "in"), (St, "in2"), (F.Bit, "tail"))

        class Dy2(F.FieldSet):
            static_size = 8 + 2 * size + 1

            def createFields(self):
                yield F.UInt8(self, "head")
                yield Dy(self, "in")
                yield Dy(self, "in2")
                yield F.Bit(self, "tail")
        return St2, Dy2, 8 + 2 * size + 1
    return St, Dy, size


def parser(cls, en, at):
    class P(F.Parser):
        endian = E[en]

        def createFields(self):
            if at:
                yield F.Bits(self, "head", at)
            yield cls(self, "set")
            yield F.Bits(self, "after", 3)
    return P


def rename(img):
    """The names of the classes differ."""
    return [(n, {"Dy": "St", "Dy2": "St2"}.get(c, c), a, s, d, x.replace("Dy", "St"), v, rename(k) if k is not None else None) for n, c, a, s, d, x, v, k in img]


def statics(case, ctx):
    first = case["first"]
    names_ = QUICK if ctx.quick else list(ITEMS)
    for rest in lib.sequences(names_, case["rest"]):
        names = (first,) + rest
        for nested in ((False, True) if len(names) < 3 else (False,)):
            ST, DY, size = classes(names, nested)
            for en in ("BIG", "LITTLE"):
                for at in ((0, 3) if len(names) < 3 else (0,)):
                    need = (at + size + 3 + 7) // 8
                    lengths = range(1, need + 2) if len(names) < 3 else sorted({1, size // 8, size // 8 - 1, need, need - 1})
                    for n in lengths:
                        if n < 1:
                            continue
                        a = image_of(parser(ST, en, at), n)
                        b = rename(image_of(parser(DY, en, at), n))
                        ctx.count("transitions")
                        if a != b:
                            raise lib.Violation("static set of %r, %s, at %d, %d bytes: %r\ninstead of %r" % (names, en, at, n, a, b))
                        ctx.count("traces")
                    if ST.static_size != size:
                        raise lib.Violation("static size of %r: %r instead of %d" % (names, ST.static_size, size))
                    p = parser(ST, en, at)(StringInputStream(data_of(need + 1)))
                    if p["set"].size != size or p["after"].address != at + size:
                        raise lib.Violation("%r: size %r, next field at %r" % (names, p["set"].size, p["after"].address))
                    ctx.seen("states", (names, nested, en, at))


def image_of(P, n):
    p = P(StringInputStream(data_of(n)))
    img = image(p)
    grammar.check_tiling(p, data_of(n))
    return img


def redefined(case, ctx):
    """A class which redefines the format of another one has its own size, whatever their names and the order of use."""
    A, B = case["a"], case["b"]
    for same in (False, True):
      for first in (False, True):
        for order in itertools.product((0, 1), repeat=3):
            class H(F.StaticFieldSet):
                format = tuple(ITEMS[n][0]() for n in A)
            one = H
            if same:
                class H(H):
                    format = tuple(ITEMS[n][0]() for n in B)
                two = H
            else:
                class H2(H):
                    format = tuple(ITEMS[n][0]() for n in B)
                two = H2
            for use in (("nested", "vector") if first else ()):
                for k in order[:2]:
                    cls, size = (one, two)[k], sum(ITEMS[n][1] for n in (A, B)[k])

                    class Out(F.StaticFieldSet):
                        format = ((F.UInt8, "head"), (cls, "a"), (cls, "b"))

                    class P(F.Parser):
                        endian = E["BIG"]

                        def createFields(self):
                            if use == "nested":
                                yield Out(self, "set")
                            else:
                                yield F.GenericVector(self, "set", 2, cls)
                    p = P(StringInputStream(data_of(40)))
                    want = 2 * size + (8 if use == "nested" else 0)
                    if "set" not in p or p["set"].size != want or [f.size for f in p["set"]][-2:] != [size, size]:
                        raise lib.Violation("formats %r and %r, classes of the %s name, class %d %s: %r" % (A, B, "same" if same else "other", k, use, list(p)))
                    ctx.count("traces")
            sizes = [sum(ITEMS[n][1] for n in x) for x in (A, B)]
            for k in order:
                cls = (one, two)[k]

                class P(F.Parser):
                    endian = E["BIG"]

                    def createFields(self):
                        yield cls(self, "set")
                p = P(StringInputStream(data_of(40)))
                ctx.count("transitions")
                s = p["set"]
                names = [f.name.split("[")[0] for f in s]
                if s.size != sizes[k] or names != list((A, B)[k]):
                    raise lib.Violation("formats %r and %r, classes of the %s name, used in order %r: size %r instead of %d, fields %r" % (
                        A, B, "same" if same else "other", order, s.size, sizes[k], names))
                ctx.count("traces")
                ctx.seen("states", (A, B, same, order))


ELEMENTS = ["UInt8", "UInt16", "Int32", "Bit", "Float32", "TimeDateMSDOS32", "Character", "static", "set"]


def element(name):
    """(class, size)"""
    if name == "static":
        return inner(), 32
    if name == "set":
        class Pt(F.FieldSet):
            static_size = 20

            def createFields(self):
                yield F.Bits(self, "a", 4)
                yield F.UInt16(self, "b")
        return Pt, 20
    cls = getattr(F, name)
    return cls, cls.static_size


def vectors(case, ctx):
    name, count, user = case["item"], case["count"], case["user"]
    for en in ("BIG", "LITTLE"):
        for at in (0, 8, 5):
            cls, size = element(name)
            total = size * count
            need = (at + total + 3 + 7) // 8
            for n in range(1, need + 2):
                for access in ("len", "iter", "last", "name", "array"):
                    cls, size = element(name)

                    class V(F.UserVector):
                        item_class = cls
                        item_name = "cell"

                    class P(F.Parser):
                        endian = E[en]

                        def createFields(self):
                            if at:
                                yield F.Bits(self, "head", at)
                            if user:
                                yield V(self, "vec", count, "a vector")
                            else:
                                yield F.GenericVector(self, "vec", count, cls, "cell", "a vector")
                            yield F.Bits(self, "after", 3)

                    class D(F.FieldSet):
                        static_size = total

                        def createFields(self):
                            for i in range(count):
                                yield cls(self, "cell[]")

                    class Q(F.Parser):
                        endian = E[en]

                        def createFields(self):
                            if at:
                                yield F.Bits(self, "head", at)
                            yield D(self, "vec", "a vector")
                            yield F.Bits(self, "after", 3)
                    p = P(StringInputStream(data_of(n)))
                    q = Q(StringInputStream(data_of(n)))
                    what = "vector of %d %s, %s, at %d, %d bytes" % (count, name, en, at, n)
                    ctx.count("transitions")
                    if ("vec" in p) != ("vec" in q):
                        raise lib.Violation("%s: %r" % (what, [f.name for f in p]))
                    if "vec" in q:
                        if "vec" not in p:
                            raise lib.Violation("%s: no vector" % what)
                        v, w = p["vec"], q["vec"]
                        if access == "len":
                            if len(v) != len(w):
                                raise lib.Violation("%s: len() is %d, there are %d fields" % (what, len(v), len(w)))
                        elif access == "last":
                            if v[len(w) - 1].name != w[len(w) - 1].name:
                                raise lib.Violation("%s: last field %r" % (what, v[len(w) - 1]))
                        elif access == "name":
                            for k in range(count + 1):
                                key = "cell[%d]" % k
                                if (key in v) != (key in w):
                                    raise lib.Violation("%s: %s in vector: %r" % (what, key, key in v))
                        elif access == "array":
                            if [f.address for f in v.array("cell")] != [f.address for f in w.array("cell")]:
                                raise lib.Violation("%s: array" % what)
                        if v.size != w.size or v.address != at:
                            raise lib.Violation("%s: size %r" % (what, v.size))
                    a, b = image(p), image(q)
                    for x in (a, b):
                        for i, t in enumerate(x):
                            if t[0] == "vec":
                                x[i] = t[:1] + t[2:5] + t[6:]
                    if a != b:
                        raise lib.Violation("%s: %r\ninstead of %r" % (what, a, b))
                    grammar.check_tiling(p, data_of(n))
                    if "vec" in p:
                        p["vec"].reset()
                        p["vec"]._address = at
                        if image(p["vec"]) != image(q["vec"]):
                            raise lib.Violation("%s: after a reset" % what)
                    ctx.count("traces")
                    ctx.seen("states", (name, count, en, at, n))


def main():
    c = lib.Check("F10", "model_checking",
                  "every format up to the bound and every vector, on data of every length, against the same fields made one by one; a state is a distinct (format or vector, order, place)",
                  bounds={"format": "1-3 items of %d" % len(QUICK), "vectors": "0-5 items"})
    names = QUICK if c.quick else list(ITEMS)
    c.domain("static", [{"first": n, "rest": 2} for n in names], statics)
    fm = [("u8",), ("i16",), ("u8", "i16"), ("bits", "bit"), ("set", "u8"), ("flt",)]
    c.domain("redefined", [{"a": a, "b": b} for a in fm for b in fm if a != b], redefined)
    c.domain("vectors", [{"item": e, "count": k, "user": u} for e in ELEMENTS for k in ((1, 2, 3) if c.quick else (1, 2, 3, 4, 5)) for u in (False, True)], vectors)
    c.main()


if __name__ == "__main__":
    main()
