"""F01: a field tree tiles the data, whatever the parser does and wherever the data ends.

Programs of a small parser grammar are enumerated exhaustively (leaf fields of several kinds, field
sets of known or unknown size, nested sets, counts read from the data, loops up to the end, seeks, and
generators which raise), each on every length of data up to a bound.  The tree of the real library is
compared with an independent reference (mc/grammar.py: Set) which says which fields are kept and where
the rest of a set becomes one raw field, and every invariant of the tree is checked on the way.
"""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.grammar import build, model, ideal, shape, real_shape, check_tiling, leaves
from mc.streams import ref_bits, PipeFile, endians

lib.quiet()
from hachoir.stream import StringInputStream, InputIOStream
E = endians()

LEAVES = [["b", "a", 3], ["r", "a", 1], ["u", "n[]", 2]]
INSIDE = LEAVES + [["!", "value"], ["seek", 12], ["eof", ["b", "e[]", 5]]]
TOP = LEAVES + [["!", "parser"], ["!", "missing"], ["seek", 20], ["peek", "a"],
                ["eof", ["s", "e[]", None, [["b", "x", 4], ["b", "y", 3]]]], ["eof", ["u", "e[]", 1]],
                ["cnt", "a", ["b", "c[]", 2]], ["rep", 2, ["s", "r[]", 8, [["b", "x", 4]]]]]


def sets(sizes=(None, 4, 8, 16, 24), depth=2):
    for size in sizes:
        for k in range(depth + 1):
            for ch in itertools.product(INSIDE, repeat=k):
                yield ["s", "s", size, list(ch)]
        for s2 in (None, 8, 12):
            yield ["s", "s", size, [["s", "t", s2, LEAVES[:2]]]]
            yield ["s", "s", size, [LEAVES[0], ["s", "t", s2, LEAVES[:2]]]]
            yield ["s", "s", size, [["s", "t", s2, LEAVES[:2]], LEAVES[2]]]
            yield ["s", "s", size, [["s", "t", s2, [["b", "a", 3], ["!", "value"]]], LEAVES[1]]]


SETS = list(sets())


def content_of(n):
    return bytes((17 + i * 29) & 0xff for i in range(n))


def one(top, T, ctx):
    content = content_of(T)
    for en in ("BIG", "LITTLE"):
        value_of = lambda a, s: ref_bits(content, a, s, en)
        want = shape(model(top, 8 * T, value_of))
        p = build(top, E[en])(StringInputStream(content))
        if p.size != 8 * T:
            raise lib.Violation("a parser of %d bytes has size %r" % (T, p.size), program=top)
        try:
            got = real_shape(p)
            if p.done is not True or p.eof is not True:
                raise lib.Violation("after reading every field: done %r, eof %r" % (p.done, p.eof))
            n = check_tiling(p, content)
        except lib.Violation as e:
            raise lib.Violation("%s (program %r, %d bytes)" % (e.msg, top, T))
        except Exception as e:
            raise lib.Violation("%s: %s escapes from reading the fields (program %r, %d bytes)" % (type(e).__name__, e, top, T))
        ctx.count("transitions", n)
        if got != want:
            raise lib.Violation("tree %r instead of %r (program %r, %d bytes)" % (got, want, top, T))
        # leaves cover each bit once, in order
        at = 0
        for f in leaves(p):
            if f.absolute_address != at:
                raise lib.Violation("leaf %s at %d instead of %d (program %r, %d bytes)" % (f.path, f.absolute_address, at, top, T))
            at += f.size
        if at != 8 * T:
            raise lib.Violation("leaves end at %d of %d" % (at, 8 * T))
        ctx.count("traces")
        ctx.seen("states", (want, T))
        if not any(x[0] == "cnt" for x in top):
            break


def programs(case, ctx):
    for top in tops(case):
        for T in case["lengths"]:
            one(top, T, ctx)
    ctx.sample({"shape": case["shape"], "i": case["i"], "lengths": case["lengths"]})


def tops(case):
    s = SETS[case["i"]]
    sh = case["shape"]
    if sh == "S":
        yield [s]
    elif sh == "LS":
        for a in TOP:
            yield [a, s]
            yield [s, a]
    elif sh == "LSL":
        for a in TOP:
            for b in TOP:
                yield [a, s, b]
    elif sh == "SS":
        for t in SETS:
            yield [s, t]
    elif sh == "LLSL":
        for a in LEAVES:
            for a2 in TOP:
                for b in TOP:
                    yield [a, a2, s, b]


def deep_sets(depth):
    if depth == 0:
        return [["b", "a", 3], ["u", "n[]", 1], ["!", "value"]]
    out = []
    for size in (None, 8, 12):
        for inner in deep_sets(depth - 1):
            out.append(["s", "s", size, [inner]])
            out.append(["s", "s", size, [["b", "p", 2], inner]])
            out.append(["s", "s", size, [inner, ["b", "q", 2]]])
    return out


def deep(case, ctx):
    for prog in case["progs"]:
        for T in case["lengths"]:
            one([prog], T, ctx)
            one([["b", "h", 5], prog, ["b", "z", 6]], T, ctx)


def pipes(case, ctx):
    """Parsers whose fields fit the data exactly: the same tree when the size is only known at the end."""
    for top in tops(case):
        for T in range(1, 9):
            content = content_of(T)
            value_of = lambda a, s: ref_bits(content, a, s, "BIG")
            if not fits(top, T, value_of):
                continue
            want = shape(ideal(top, 0, value_of)[0])
            if want != shape(model(top, 8 * T, value_of)):
                raise lib.HarnessError("the two references disagree on %r, %d bytes" % (top, T))
            for feed in ("iter", "len", "size", "index"):
                p = build(top)(InputIOStream(PipeFile(content)))
                if feed == "len":
                    len(p)
                elif feed == "size":
                    p.stream.sizeGe(8 * T + 1)
                elif feed == "index":
                    i = 0
                    while True:
                        try:
                            p.getField(i, const=False)
                        except KeyError:
                            break
                        i += 1
                got = real_shape(p)
                ctx.count("transitions", len(got))
                if got != want:
                    raise lib.Violation("over a pipe, tree %r instead of %r (program %r, %d bytes, %s)" % (got, want, top, T, feed))
                ctx.count("traces")
            ctx.seen("states", ("pipe", want, T))


def wellformed(items):
    for it in items:
        if it[0] in ("!", "eof", "peek", "seek"):
            return False
        if it[0] == "s":
            if not wellformed(it[3]):
                return False
        if it[0] in ("rep", "cnt") and not wellformed([it[2]]):
            return False
    return True


def inner_ok(items, value_of, base=0):
    """Every set of known size holds its content, and is not empty."""
    try:
        nodes, n = ideal(items, base, value_of)
    except KeyError:
        return False
    def ok(items, nodes):
        for node in nodes:
            if node.children is not None:
                end = sum(c.size for c in node.children)
                if node.size <= 0 or end != node.size:
                    return False
                if not ok(None, node.children):
                    return False
        return True
    return ok(items, nodes)


def fits(top, T, value_of):
    if not wellformed(top) or not inner_ok(top, value_of):
        return False
    return ideal(top, 0, value_of)[1] == 8 * T


def main():
    c = lib.Check("F01", "model_checking",
                  "every program of the grammar with up to one (thorough: two) enumerated field sets and its neighbours, on every length of "
                  "data of the list; a state is a distinct (reference tree, length); each is the tree of a real parse, compared field by field",
                  assumptions=["the size of the stream is known, or the fields fit the data exactly",
                               "errors of field definitions are Exceptions"],
                  bounds={"sets": len(SETS), "bytes": 9, "nesting": 4})
    n = range(len(SETS))
    L = [1, 2, 3, 4, 5, 7] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8, 9]
    c.domain("set alone", [{"shape": "S", "i": i, "lengths": list(range(1, 10))} for i in n], programs)
    c.domain("set and neighbour", [{"shape": "LS", "i": i, "lengths": L} for i in n], programs)
    c.domain("set between neighbours", [{"shape": "LSL", "i": i, "lengths": L[:4] if c.quick else L} for i in n], programs)
    if not c.quick:
        c.domain("two sets", [{"shape": "SS", "i": i, "lengths": [1, 2, 3, 4, 5, 7]} for i in n], programs)
        c.domain("four items", [{"shape": "LLSL", "i": i, "lengths": [2, 3, 4, 5, 7]} for i in n], programs)
    progs = deep_sets(2 if c.quick else 3)
    c.domain("nested", [{"progs": progs[i:i + 20], "lengths": [1, 2, 3, 4]} for i in range(0, len(progs), 20)], deep)
    c.domain("pipe", [{"shape": sh, "i": i} for i in n for sh in ("S", "LS") + (() if c.quick else ("LSL", "SS"))], pipes)
    c.main()


if __name__ == "__main__":
    main()
