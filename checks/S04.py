"""S04: windows, concatenations and fragment chains hold exactly the bytes they are made of."""
import os, sys, itertools, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians, fragmented, PipeFile

lib.quiet()
from hachoir.stream import (StringInputStream, InputSubStream, InputIOStream, ConcatStream, StreamError, FileInputStream, InputStreamError)
E = endians()
CONTENT = bytes.fromhex("1d8ec7a35f9a0371")


def rd(fn, *a):
    try:
        return fn(*a)
    except StreamError:
        return None


def same(got, want, what, **detail):
    if got != want or type(got) is not type(want):
        raise lib.Violation("%s: %r instead of %r" % (what, got, want), **detail)


def window(case, ctx):
    """A window at any bit offset and of any bit size: all reads inside it and over its ends."""
    parent = CONTENT[:case["n"]]
    T = 8 * len(parent)
    off = case["offset"]
    for size in range(1, T - off + 1):
        base = StringInputStream(parent) if case["kind"] == "string" else InputIOStream(PipeFile(parent))
        w = InputSubStream(base, off, size)
        same(w.size, size, "size of a window")
        for a in range(0, size + 2):
            for n in range(1, size - a + 3):
                for en in ("BIG", "LITTLE"):
                    want = ref_bits(parent, off + a, n, en) if a + n <= size else None
                    ctx.count("transitions")
                    same(rd(w.readBits, a, n, E[en]), want, "window (%d, %d) of %d bits: readBits(%d, %d, %s)" % (off, size, T, a, n, en))
        for n in range(1, size + 10):
            same(bool(w.sizeGe(n)), n <= size, "window (%d, %d): sizeGe(%d)" % (off, size, n))
        ctx.count("traces")
        ctx.seen("states", (case["kind"], off, size))
        if off % 8 == 0 and size % 8 == 0:
            data = parent[off // 8:(off + size) // 8]
            for a in range(len(data) + 1):
                for b in range(a, len(data) + 2):
                    same(rd(w.readBytes, 8 * a, b - a), data[a:b] if b <= len(data) else None, "window (%d, %d): readBytes(%d, %d)" % (off, size, 8 * a, b - a))
            for i in range(len(parent)):
                for k in (1, 2):
                    nd = parent[i:i + k]
                    p = data.find(nd)
                    same(rd(w.searchBytes, nd), None if p < 0 else 8 * p, "window (%d, %d): searchBytes(%r)" % (off, size, nd))
    # open-ended window
    if off < T:
        base = StringInputStream(parent) if case["kind"] == "string" else InputIOStream(PipeFile(parent))
        w = InputSubStream(base, off)
        for a in range(0, T - off):
            same(rd(w.readBits, a, 1, E["BIG"]), ref_bits(parent, off + a, 1, "BIG"), "open window at %d: bit %d" % (off, a))
        same(rd(w.readBits, T - off, 1, E["BIG"]), None, "open window at %d: read past the end" % off)
        same(bool(w.sizeGe(T - off)), True, "open window at %d: sizeGe" % off)
        same(bool(w.sizeGe(T - off + 1)), False, "open window at %d: sizeGe past the end" % off)
        same(w.size, T - off, "open window at %d: size at the end" % off)


def nested(case, ctx):
    parent = CONTENT[:case["n"]]
    T = 8 * len(parent)
    o1, s1 = case["o1"], case["s1"]
    base = StringInputStream(parent)
    w1 = InputSubStream(base, o1, s1)
    for o2 in range(s1):
        for s2 in range(1, s1 - o2 + 1):
            w2 = InputSubStream(w1, o2, s2)
            for a in range(s2 + 1):
                for n in range(1, s2 - a + 2):
                    want = ref_bits(parent, o1 + o2 + a, n, "BIG") if a + n <= s2 else None
                    ctx.count("transitions")
                    same(rd(w2.readBits, a, n, E["BIG"]), want, "window (%d,%d) of window (%d,%d): readBits(%d, %d)" % (o2, s2, o1, s1, a, n))
            ctx.count("traces")
            ctx.seen("states", ("nested", o1, s1, o2, s2))


def all_reads(make, content, what, ctx, fresh):
    """Every bit range, on one stream (ascending then descending) and each on a fresh stream."""
    T = 8 * len(content)
    rng = [(a, n) for a in range(0, T + 1, 1) for n in (1, 3, 8, 13, 16, 24, T - a, T - a + 1) if n > 0]
    rng = sorted(set(rng))
    for order in (rng, rng[::-1]):
        s, keep = make()
        for a, n in order:
            for en in ("BIG", "LITTLE"):
                ctx.count("transitions")
                same(rd(s.readBits, a, n, E[en]), ref_bits(content, a, n, en), "%s: readBits(%d, %d, %s)" % (what, a, n, en))
        same(s.size, T, "%s: size at the end" % what)
    if fresh:
        for a, n in rng:
            s, keep = make()
            ctx.count("transitions")
            same(rd(s.readBits, a, n, E["BIG"]), ref_bits(content, a, n, "BIG"), "%s: first read, readBits(%d, %d)" % (what, a, n))
            if s.size is not None:
                same(s.size, T, "%s: size after readBits(%d, %d)" % (what, a, n))
        for n in range(1, T + 20):
            s, keep = make()
            same(bool(s.sizeGe(n)), n <= T, "%s: sizeGe(%d) first" % (what, n))
    for i in range(len(content)):
        for k in (1, 2, 3):
            for start in range(0, len(content)):
                nd = content[i:i + k]
                p = content.find(nd, start)
                s, keep = make()
                ctx.count("transitions")
                same(rd(s.searchBytes, nd, 8 * start), None if p < 0 else 8 * p, "%s: searchBytes(%r, %d)" % (what, nd, 8 * start))
    for a in range(len(content) + 1):
        for b in range(a + 1, len(content) + 2):
            s, keep = make()
            r = rd(s.read, 8 * a, 8 * (b - a))
            ctx.count("transitions")
            if b <= len(content):
                same(r, (0, content[a:b], False), "%s: read(%d, %d)" % (what, 8 * a, 8 * (b - a)))
            elif r is not None and not (r[2] and content[a:].startswith(r[1])):
                raise lib.Violation("%s: read(%d, %d) past the end gives %r" % (what, 8 * a, 8 * (b - a), r))
    ctx.count("traces")


def frag(case, ctx):
    n = case["n"]
    content = CONTENT[:n]
    mask = case["mask"]
    cuts = [i + 1 for i in range(n - 1) if mask >> i & 1]
    for reverse in (False, True):
        for known in (False, True):
            for pipe in (False, True):
                what = "chain of fragments cut at %r%s%s%s" % (cuts, " reversed" * reverse, " sized" * known, " over a pipe" * pipe)
                all_reads(lambda: fragmented(content, cuts, reverse=reverse, known=known, pipe=pipe), content, what, ctx, not known)
                ctx.seen("states", ("frag", n, mask, reverse, known, pipe))
    ctx.sample({"fragments": cuts})


def concat(case, ctx):
    n, k = case["n"], case["k"]
    content = CONTENT[:n]

    def mk(kind):
        def f():
            a = StringInputStream(content[:k])
            if kind == "string":
                b = StringInputStream(content[k:])
            elif kind == "pipe":
                b = InputIOStream(PipeFile(content[k:]))
            elif kind == "sub":
                p = StringInputStream(b"\xee" + content[k:] + b"\xdd")
                b = InputSubStream(p, 8, 8 * (n - k))
            elif kind == "frag":
                b, c = fragmented(content[k:], [1] if n - k > 1 else [], known=False)
                return ConcatStream((a, b)), (a, b, c)
            elif kind == "concat":
                c = StringInputStream(content[k:])
                b = ConcatStream((c, StringInputStream(b"\x77")))
                b = InputSubStream(b, 0, 8 * (n - k))
                return ConcatStream((a, b)), (a, b, c)
            return ConcatStream((a, b)), (a, b)
        return f
    for kind in ("string", "pipe", "sub", "frag", "concat"):
        all_reads(mk(kind), content, "concatenation at %d with %s" % (k, kind), ctx, True)
        ctx.seen("states", ("concat", n, k, kind))


def part_of(content, offset, size):
    return content[offset:] if size is None else content[offset:offset + size]


def files(case, ctx):
    """A part of a file: every offset and size, by name or by file object"""
    n = case["n"]
    content = CONTENT[:n]
    fd, name = tempfile.mkstemp(prefix="hachoir-s04-")
    try:
        os.write(fd, content)
        os.close(fd)
        for how in ("name", "file", "other"):
            for offset in range(n):
                for size in [None] + list(range(1, n - offset + 1)):
                    if how == "other" and offset + (size or 0):
                        given = {"real_filename": name}
                    else:
                        given = {}
                    for explicit in (0, 1):
                        args = dict(given)
                        if offset or explicit:
                            args["offset"] = offset
                        if size is not None or explicit:
                            args["size"] = size
                        what = "FileInputStream(%s of %s bytes, %s)" % (how, n, args)
                        with FileInputStream(open(name, "rb") if how == "file" else "shown name" if given else name, **args) as s:
                            want = part_of(content, offset, size)
                            got = b""
                            while not s.size or 8 * len(got) < s.size:
                                b = rd(s.readBytes, 8 * len(got), 1)
                                if not b:
                                    break
                                got += b
                            if got != want or s.size is not None and s.size != 8 * len(want) or s.sizeGe(8 * len(want)) is not True or s.sizeGe(8 * len(want) + 1):
                                ctx.report("%s: %r, size %s; expected %r" % (what, got, s.size, want))
                            if len(want) > 1 and s.searchBytes(want[-1:], 8 * (len(want) - 1)) != 8 * (len(want) - 1):
                                ctx.report("%s: the last byte is not found" % what)
                            shown = "shown name" if given else name
                            if not offset and size is None:
                                if dict(s.tags if not callable(s.tags) else s.tags()).get("filename") != shown or s.source != "file:" + shown:
                                    ctx.report("%s: source %s, tags %s" % (what, s.source, s.tags))
                        ctx.count("transitions")
                        ctx.count("traces")
                        ctx.seen("states", (n, how, offset, size))
        for missing in (name + ".missing", os.path.dirname(name)):
            try:
                FileInputStream(missing)
                ctx.report("FileInputStream(%s): no error" % missing)
            except InputStreamError as e:
                if missing not in str(e):
                    ctx.report("FileInputStream(%s): %s" % (missing, e))
    finally:
        os.unlink(name)


def main():
    c = lib.Check("S04", "model_checking",
                  "every window (bit offset and size), window of a window, split point of a concatenation and set of "
                  "cuts of a fragment chain over a small content, with every read and search on it; a state is one composition",
                  assumptions=["fragment and concatenation pieces are whole bytes"],
                  bounds={"content_bytes": 5})
    q = c.quick
    n = 5 if q else 7
    c.domain("window", [{"n": n, "offset": o, "kind": k} for k in ("string", "pipe") for o in range(8 * n)], window, batch=2)
    m = 2 if q else 3
    c.domain("nested", [{"n": m, "o1": o, "s1": s} for o in range(8 * m) for s in range(1, 8 * m - o + 1)], nested)
    f = 6 if q else 8
    c.domain("fragments", [{"n": k, "mask": b} for k in range(1, f + 1) for b in range(1 << (k - 1))], frag, batch=1)
    c.domain("concat", [{"n": k, "k": j} for k in range(2, f + 1) for j in range(1, k)], concat, batch=1)
    c.domain("files", [{"n": k} for k in range(1, 7)], files, batch=1)
    c.main()


if __name__ == "__main__":
    main()
