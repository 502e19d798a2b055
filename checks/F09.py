"""F09: the stream inside a field - embedded file, chain of fragments, group of blocks, compressed data - is its content."""
import bz2, itertools, os, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians, PipeFile

lib.quiet()
from hachoir.stream import StringInputStream, InputIOStream
from hachoir.stream.input import ReadStreamError
from hachoir import field as F
from hachoir.parser.common.deflate import Deflate, DeflateStream, DeflateStreamWbits
E = endians()


def root(data, kind):
    return StringInputStream(data) if kind == "memory" else InputIOStream(PipeFile(data, (kind[1],)), source="<pipe>")


def at(stream, address, size):
    try:
        return stream.read(address, size)[1]
    except ReadStreamError:     # nothing there
        return b""


def content_of(stream, n, mode):
    """The bytes of the stream, asked in the given way."""
    out = []
    if mode == "bytes":            # one by one, to the end
        i = 0
        while True:
            d = at(stream, 8 * i, 8)
            if not d:
                break
            out.append(d)
            i += 1
            if i > n + 5:
                break
    elif mode == "file":
        f = stream.file()
        f.seek(0)
        return f.read()
    elif mode == "file-chunks":
        f = stream.file()
        f.seek(0)
        while True:
            d = f.read(7)
            if not d:
                break
            out.append(d)
            if len(out) > n + 5:
                break
    elif mode == "back":           # the end first
        if n:
            last = stream.read(8 * (n - 1), 8)[1]
            first = stream.read(0, 8 * n)[1]
            if first[-1:] != last:
                raise lib.Violation("last byte %r, then %r" % (last, first[-1:]))
            out.append(first)
        if at(stream, 8 * n, 8):
            raise lib.Violation("a byte behind the end")
    else:                          # all and more
        out.append(at(stream, 0, 8 * (n + 3)) or at(stream, 0, 8 * n))
    return b"".join(out)


MODES = ["bytes", "file", "file-chunks", "back", "more"]


# -- compressed fields -------------------------------------------------------------------------
def text(n, k):
    """Compressible (0), constant (1) or hard to compress (2) bytes."""
    if k == 0:
        return bytes((i // 5 * 3 + (i & 3)) & 0xff for i in range(n))
    if k == 1:
        return b"a" * n
    x, out = 12345, bytearray()
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(x >> 16 & 0xff)
    return bytes(out)


class Copy(object):
    """Gives its input, as much as wanted, the rest later."""

    def __init__(self, stream):
        self.rest = b""

    def __call__(self, size, data=b""):
        d = self.rest + (data or b"")
        self.rest = d[size:]
        return d[:size]


class Greedy(object):
    """Gives all it can, more than asked for: each byte three times."""

    def __init__(self, stream):
        pass

    def __call__(self, size, data=b""):
        return b"".join(bytes([b]) * 3 for b in data or b"")


class Half(object):
    """Gives one byte for two."""

    def __init__(self, stream):
        self.rest, self.out = b"", b""

    def __call__(self, size, data=b""):
        self.rest += data or b""
        n = len(self.rest) // 2
        self.out += self.rest[0:2 * n:2]
        self.rest = self.rest[2 * n:]
        d, self.out = self.out[:size], self.out[size:]
        return d


class Late(object):
    """Gives nothing before the mark at the end of the data."""

    def __init__(self, stream):
        self.buf, self.done = b"", None

    def __call__(self, size, data=b""):
        if self.done is None:
            self.buf += data or b""
            if b"\xff\xff" not in self.buf:
                return b""
            self.done = self.buf.replace(b"\xff\xff", b"")
        d, self.done = self.done[:size], self.done[size:]
        return d


def raw_deflate(d):
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    return c.compress(d) + c.flush()


CODECS = {
    "zlib": (zlib.compress, lambda f: Deflate(f, False)),
    "deflate": (raw_deflate, lambda f: Deflate(f)),
    "stored": (lambda d: zlib.compress(d, 0), lambda f: Deflate(f, False)),
    "copy": (lambda d: d, lambda f: F.CompressedField(f, Copy)),
    "greedy": (lambda d: d[::3], lambda f: F.CompressedField(f, Greedy)),
    "half": (lambda d: b"".join(bytes([b, 0x11]) for b in d), lambda f: F.CompressedField(f, Half)),
    "late": (lambda d: d.replace(b"\xff", b"\xfe") + b"\xff\xff", lambda f: F.CompressedField(f, Late)),
}


def compressed(case, ctx):
    n, codec, kind, mode = case["n"], case["codec"], case["kind"], case["mode"]
    enc, dec = CODECS[codec]
    for variety in (0, 1, 2):
        plain = text(n, variety)
        if codec == "late":
            plain = plain.replace(b"\xff", b"\xfe")
        packed = enc(plain)
        if codec == "greedy":
            plain = b"".join(bytes([b]) * 3 for b in packed)
        if not packed:
            continue
        for head in (0, 2):
            for cut in ((0,) if codec == "late" else (0, 1, len(packed) // 2)):
                k = len(packed) - cut
                if k < 1:
                    continue
                want = plain
                if cut:       # what the codec gives of the first bytes
                    if codec in ("zlib", "stored"):
                        want = zlib.decompressobj().decompress(packed[:k])
                    elif codec == "deflate":
                        want = zlib.decompressobj(-15).decompress(packed[:k])
                    elif codec == "copy":
                        want = packed[:k]
                    elif codec == "half":
                        want = plain[:k // 2]
                    elif codec == "greedy":
                        want = plain[:3 * k]
                if not want:
                    continue    # a stream without data is refused

                class P(F.Parser):
                    endian = E["BIG"]

                    def createFields(self):
                        if head:
                            yield F.Bytes(self, "head", head)
                        yield dec(F.RawBytes(self, "data", k))
                        yield F.UInt8(self, "tail")
                data = b"\x55" * head + packed[:k] + b"\x78\x9c"
                p = P(root(data, kind))
                s = p["data"].getSubIStream()
                got = content_of(s, len(want), mode)
                ctx.count("transitions")
                if got != want:
                    raise lib.Violation("%s of %d bytes (%d of %d packed), %r root, read by %s: %d bytes, first difference at %s" % (
                        codec, n, k, len(packed), kind, mode, len(got),
                        next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))))
                if p["data"].value != packed[:k] or p["tail"].value != 0x78:
                    raise lib.Violation("%s: raw data changed" % codec)
                if mode != "back" and s.size is not None and s.size != 8 * len(want):
                    raise lib.Violation("%s: size %r instead of %d bytes" % (codec, s.size, len(want)))
                ctx.count("traces")
                ctx.seen("states", (codec, n, variety, head, k, kind, mode))


# -- fragments ---------------------------------------------------------------------------------
def chain_parser(sizes, order, via_links):
    """A file of pieces: 'order' gives the order of the pieces in the chain."""
    pos = {}
    k = len(order)

    class Piece(F.Fragment):
        def __init__(self, parent, name, number, size):
            F.Fragment.__init__(self, parent, name, None, 8 * (size + 1))
            self.number, self.n = number, size
            if not via_links:
                self.join()

        def join(self):
            at = order.index(self.number)
            first = None if at == 0 else (lambda: self.parent["piece[%d]" % order[0]])()
            nxt = None
            if at + 1 < k:
                def nxt():
                    return self.parent["piece[%d]" % order[at + 1]]
            self.setLinks(first, nxt)

        def _getData(self):
            if not self.n:
                return self["mark"]
            return self["data"]

        def createFields(self):
            yield F.UInt8(self, "mark")
            if via_links:
                self.join()
            if self.n:
                yield F.RawBytes(self, "data", self.n)

    class P(F.Parser):
        endian = E["BIG"]

        def createFields(self):
            yield F.UInt8(self, "head")
            for i, n in enumerate(sizes):
                yield Piece(self, "piece[]", i, n)
            yield F.UInt8(self, "tail")
    return P


def fragments(case, ctx):
    sizes, kind = case["sizes"], case["kind"]
    k = len(sizes)
    pieces = [bytes((0x20 * (i + 1) + j) & 0xff for j in range(n)) for i, n in enumerate(sizes)]
    marks = [0xe0 + i for i in range(k)]
    data = b"\x01" + b"".join(bytes([m]) + d for m, d in zip(marks, pieces)) + b"\x7f"
    for order in itertools.permutations(range(k)):
        # the first piece of the chain must not need a later one to be made
        for via_links in (False, True):
            if not via_links and order[0] != 0:
                continue
            want = b"".join(pieces[i] or bytes([marks[i]]) for i in order)
            for before in ("nothing", "all", "last", "links"):
                P = chain_parser(sizes, order, via_links)
                p = P(root(data, kind))
                if before == "all":
                    for f in p:
                        for g in f if f.is_field_set else ():
                            g.value
                elif before == "last":
                    p["piece[%d]" % (k - 1)].value
                elif before == "links":
                    for i in range(k):
                        q = p["piece[%d]" % i]
                        q.first, q.next
                what = "pieces %r, chain %r, %s, after %s" % (sizes, order, "late" if via_links else "early", before)
                first = p["piece[%d]" % order[0]]
                ctx.count("transitions")
                for mode in MODES:
                    s = first.getSubIStream()
                    got = content_of(s, len(want), mode)
                    if got != want:
                        raise lib.Violation("%s: %s instead of %s (%s)" % (what, got.hex(), want.hex(), mode))
                    if s.packets is None or list(s.packets) != [8 * len(pieces[i] or b"x") for i in order]:
                        raise lib.Violation("%s: packets %r" % (what, list(s.packets)))
                    del s
                for at, i in enumerate(order):
                    q = p["piece[%d]" % i]
                    if q.first is not first:
                        raise lib.Violation("%s: first of %s is %r" % (what, q.path, q.first))
                    nxt = p["piece[%d]" % order[at + 1]] if at + 1 < k else None
                    if q.next is not nxt:
                        raise lib.Violation("%s: next of %s is %r" % (what, q.path, q.next))
                    if ("first" in q) != (at > 0) or ("next" in q) != (nxt is not None):
                        raise lib.Violation("%s: links of %s: %r" % (what, q.path, [f.name for f in q]))
                    if at and (q["first"].value is not first or q["first"].display != first.path or q["first"].size != 0):
                        raise lib.Violation("%s: link first of %s is %r (%s)" % (what, q.path, q["first"].value, q["first"].display))
                    if nxt is not None and (q["next"].value is not nxt or q["next"].display != nxt.path):
                        raise lib.Violation("%s: link next of %s is %r (%s)" % (what, q.path, q["next"].value, q["next"].display))
                    if at and q["first/mark"] is not first["mark"]:
                        raise lib.Violation("%s: a path through the link of %s" % (what, q.path))
                    if [f.name for f in q if f.size] != ["mark"] + (["data"] if sizes[i] else []):
                        raise lib.Violation("%s: fields of %s: %r" % (what, q.path, [f.name for f in q]))
                    if at:
                        got = content_of(q.getSubIStream(), sizes[i] + 1, "more")
                        if got != bytes([marks[i]]) + pieces[i]:
                            raise lib.Violation("%s: stream of %s: %s" % (what, q.path, got.hex()))
                if p["tail"].value != 0x7f:
                    raise lib.Violation("%s: tail" % what)
                ctx.count("traces")
                ctx.seen("states", (tuple(sizes), order, kind, via_links, before))


# -- groups of blocks --------------------------------------------------------------------------
def groups(case, ctx):
    sizes, kind = case["sizes"], case["kind"]
    k = len(sizes)
    blocks = [bytes((0x11 * (i + 1) + j) & 0xff for j in range(n)) for i, n in enumerate(sizes)]
    data = b"".join(blocks) + b"\x7f"
    for assign in itertools.product((0, 1), repeat=k):
        class Inner(F.Parser):
            endian = E["BIG"]

            def createFields(self):
                yield F.UInt8(self, "x")

        class P(F.Parser):
            endian = E["BIG"]

            def createFields(self):
                group = {}
                for i, n in enumerate(sizes):
                    b = F.CustomFragment(self, "block[]", 8 * n, Inner, "a block", group.get(assign[i]))
                    if assign[i] not in group:
                        b.group.args["which"] = assign[i]
                    group[assign[i]] = b.group
                    yield b
                yield F.UInt8(self, "tail")
        p = P(root(data, kind))
        len(p)
        for i in range(k):
            want = b"".join(blocks[j] for j in range(k) if assign[j] == assign[i])
            f = p["block[%d]" % i]
            ctx.count("transitions")
            if f.value != blocks[i] or f["rawdata"].value != blocks[i]:
                raise lib.Violation("blocks %r, block %d: value %r" % (sizes, i, f.value))
            for mode in MODES:
                s = f.getSubIStream()
                got = content_of(s, len(want), mode)
                if got != want or s.size != 8 * len(want):
                    raise lib.Violation("blocks %r in groups %r, block %d: %s instead of %s" % (sizes, assign, i, got.hex(), want.hex()))
            tags = dict(s.tags)
            if tags.get("class") is not Inner or tags.get("args") != {"which": assign[i]}:
                raise lib.Violation("blocks %r: tags %r" % (sizes, s.tags))
            ctx.count("traces")
            ctx.seen("states", (tuple(sizes), assign, kind, i))


# -- embedded files ----------------------------------------------------------------------------
class Known(F.Parser):
    PARSER_TAGS = {"id": "known"}
    endian = E["BIG"]

    def createFields(self):
        yield F.UInt8(self, "x")


def subfiles(case, ctx):
    n, at, kind = case["n"], case["at"], case["kind"]
    content = text(n, 2)
    data = b"\x33" * at + content + b"\x99\x98"
    for filename, mime, parser, cls, desc, twice in itertools.product((None, "a.txt", "d\xe9j\xe0"), (None, "text/plain"), (None, Known), (None, Known), (None, "a file"), (False, True)):
        class P(F.Parser):
            endian = E["BIG"]

            def createFields(self):
                if at:
                    yield F.Bytes(self, "head", at)
                yield F.SubFile(self, "file", n, desc, parser, filename, mime, cls)
                yield F.UInt8(self, "tail")
        p = P(root(data, kind))
        f = p["file"]
        what = "file of %d bytes at %d, filename=%r mime=%r parser=%r class=%r" % (n, at, filename, mime, parser, cls)
        ctx.count("transitions")
        want = ([("class", cls)] if cls else []) + ([("id", "known")] if parser else []) + ([("mime", mime)] if mime else []) + ([("filename", filename)] if filename else [])
        for i in range(2 if twice else 1):
            s = f.getSubIStream()
            if [t for t in s.tags] != want:
                raise lib.Violation("%s: tags %r instead of %r" % (what, s.tags, want))
            if f.getSubIStream() is not s:
                raise lib.Violation("%s: another stream while the first one is in use" % what)
            for mode in MODES:
                got = content_of(s, n, mode)
                if got != content:
                    raise lib.Violation("%s: content %s (%s)" % (what, got.hex(), mode))
            if s.size != 8 * n:
                raise lib.Violation("%s: size %r" % (what, s.size))
            del s
        if f.value != content or p["tail"].value != 0x99 or f.size != 8 * n:
            raise lib.Violation("%s: value" % what)
        if desc is None and filename and filename.isascii() and filename not in f.description or desc and f.description != desc:
            raise lib.Violation("%s: description %r" % (what, f.description))
        ctx.count("traces")
        ctx.seen("states", (n, at, kind, filename, mime, parser is None, cls is None, desc))


def main():
    c = lib.Check("F09", "model_checking",
                  "every size around the internal block, codec, root stream and way of reading; every chain of pieces in every order and history; "
                  "every grouping of blocks; a state is a distinct combination",
                  bounds={"chains": "1-4 pieces", "groups": "1-4 blocks in 2 groups", "sizes": "0..9 and around 512, 4096 bytes"})
    ns = [0, 1, 2, 3, 8, 9, 255, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 4095, 4096, 4097, 5000]
    if not c.quick:
        ns += list(range(10, 1100, 7)) + [16384, 65535, 65536, 65537, 131073]
    kinds = ["memory", ("pipe", 0)] + ([] if c.quick else [("pipe", 1)])
    c.domain("compressed", [{"n": n, "codec": k, "kind": r, "mode": m} for n in ns for k in CODECS for r in kinds for m in MODES
                            if n <= 600 or m in ("file", "file-chunks", "more") and (n <= 5000 or m != "file-chunks")], compressed, cpu_limit=60)
    sz = []
    for k in range(1, 5):
        sz += [list(x) for x in itertools.product((1, 3) if k == 4 else (0, 1, 3), repeat=k)]
    if not c.quick:
        sz += [list(x) for x in itertools.product((0, 2), repeat=5)]
    c.domain("fragments", [{"sizes": x, "kind": r} for x in sz for r in kinds[:2]], fragments)
    gs = [list(x) for k in range(1, 5 if c.quick else 6) for x in itertools.product((1, 2, 4), repeat=k)]
    c.domain("groups", [{"sizes": x, "kind": r} for x in gs for r in kinds[:2]], groups)
    c.domain("subfiles", [{"n": n, "at": at, "kind": r} for n in (1, 2, 7, 8, 9) for at in (0, 1, 5) for r in kinds[:2]], subfiles)
    c.main()


if __name__ == "__main__":
    main()
