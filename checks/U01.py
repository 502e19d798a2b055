"""U01: searching subfiles reports every file with a magic of the chosen parsers, at its offset, wherever it lies."""
import contextlib, glob, io, itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config as core_config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import UInt8
from hachoir.parser import HachoirParserList, Parser, guessParser
from hachoir.parser.parser_list import ParserList
from hachoir.stream import StringInputStream
from hachoir.subfile import search as search_module
from hachoir.subfile.search import SearchSubfile

core_config.quiet = True
FILES = os.path.join(lib.REPO, "tests", "files")


class Stub(Parser):
    """Magic at self.at; the byte behind the magic is 'z' (not valid), a digit (size in bytes) or anything else (size not known)."""
    endian = BIG_ENDIAN
    at = 0

    def after(self):
        try:
            return self.stream.readBytes((self.at + self.length) * 8, 1)
        except Exception:
            return b""

    def validate(self):
        return self.after() != b"z"

    def createFields(self):
        yield UInt8(self, "a")

    def createContentSize(self):
        c = self.after()
        return int(c) * 8 if c.isdigit() else None


def tags(name, **kw):
    return dict({"id": name, "category": "misc", "file_ext": (name,), "min_size": 8, "description": "Parser " + name}, **kw)


class aaa(Stub):
    length = 2
    PARSER_TAGS = tags("aaa", magic=((b"AB", 0),), subfile="skip")


class bbb(Stub):
    at, length = 2, 1
    PARSER_TAGS = tags("bbb", magic=((b"C", 16),))


class ccc(Stub):
    at, length = 1, 4
    PARSER_TAGS = tags("ccc", category="image", magic_regex=((b"Q.{2}[RS]", 8),), subfile="skip")


STUBS = [aaa, bbb, ccc]
MAGICS = [(re.compile(b"AB"), 0, aaa), (re.compile(b"C"), 2, bbb), (re.compile(b"Q..[RS]", re.S), 1, ccc)]


def reference(data, start, stop, classes):
    """[(offset in bytes, class, size in bytes or None)]"""
    hits = []
    for rx, at, cls in MAGICS:
        if cls in classes:
            hits += [(m.start(), at, cls) for m in rx.finditer(data, start, stop)]
    out, nxt = [], None
    for pos, at, cls in sorted(hits, key=lambda h: h[0]):
        off = pos - at
        if off < 0 or (nxt is not None and off < nxt):
            continue
        after = data[pos + cls.length:pos + cls.length + 1]
        if after == b"z":
            continue
        size = int(after) if after.isdigit() else None
        out.append((off, cls, size))
        if size is not None and cls.PARSER_TAGS.get("subfile") == "skip":
            nxt = off + size
    return out


def search(data, slice_size=None, offset=0, size=None, categories=None, ids=None, how="main"):
    stream = StringInputStream(data, source="text")
    out, err = io.StringIO(), io.StringIO()
    if hasattr(search_module, "stderr"):
        search_module.stderr = err
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        s = SearchSubfile(stream, offset, size)
        s.verbose = False
        if slice_size:
            s.slice_size = slice_size * 8
        if how != "default":
            s.loadParsers(categories, ids)
        if how == "steps":   # the steps of main() without the memory limit, which is slow
            s.mainHeader()
            s.searchSubfiles()
        elif not s.main():
            raise lib.Violation("search of %r fails: %s" % (data[:40], err.getvalue()[-300:]))
    res = []
    for line in out.getvalue().splitlines():
        m = re.match(r"\[\+\] File at (\d+)(?: size=(\d+) \([^)]*\))?: (.*)$", line)
        if not m:
            raise lib.Violation("search of %r prints %r" % (data[:40], line))
        res.append((int(m.group(1)), m.group(3), None if m.group(2) is None else int(m.group(2))))
    return res


def use_stubs():
    db = ParserList()
    for c in STUBS:
        db.add(c)
    HachoirParserList._instance = db


def compare(ctx, data, got, want, what):
    ctx.count("traces")
    want = [(off, "Parser " + cls.__name__, size) for off, cls, size in want]
    ctx.seen("states", tuple(want))
    if got != want:
        ctx.report("%r: %s found, %s expected (%s)" % (data if len(data) < 60 else (data[:20], len(data)), got, want, what))


def texts(case, ctx):
    use_stubs()
    alphabet = [bytes([c]) for c in case["alphabet"]]
    for tail in itertools.product(alphabet, repeat=case["n"]):
        data = case["head"].encode("latin1") + b"".join(tail)
        if not data:
            continue
        n = len(data)
        for sl in case["slices"]:
            for off, size in case["ranges"]:
                if off >= n:
                    continue
                ctx.count("transitions")
                stop = n if size is None else min(n, off + size)
                want = reference(data, off, stop, STUBS)
                compare(ctx, data, search(data, sl, off, size, how="steps"), want, "slices of %s, offset %s, size %s" % (sl, off, size))


def chosen(case, ctx):
    """The parsers asked by category and identifier, through main()."""
    use_stubs()
    data = b"AB3AB..C2Q\nARQQQS.ABzC"
    for cats, ids in ((None, None), (["misc"], None), (["image"], None), (None, ["aaa"]), (None, ["bbb", "ccc"]), (["image"], ["aaa"]), (["misc"], ["ccc"]), (["none"], None)):
        if cats or ids:
            classes = [c for c in STUBS if c.PARSER_TAGS["category"] in (cats or ()) or c.__name__ in (ids or ())]
        else:
            classes = STUBS
        for off, size in ((0, None), (3, None), (0, 12), (2, 9), (0, 1000)):
            for how in ("main", "default"):
                if how == "default" and (cats or ids):
                    continue
                ctx.count("transitions")
                want = reference(data, off, len(data) if size is None else min(len(data), off + size), classes)
                compare(ctx, data, search(data, None, off, size, cats, ids, how), want, "categories %s, parsers %s, offset %s, size %s, %s" % (cats, ids, off, size, how))


def boundary(case, ctx):
    """Files around the boundaries of the slices of the default size."""
    use_stubs()
    total = case["total"]
    for at in case["at"]:
        for magic in (b"AB", b"AB5", b"..C", b".QxyR", b"Q\n\nS5", b"ABz"):
            if at + len(magic) > total:
                continue
            data = bytearray(b"." * total)
            data[at:at + len(magic)] = magic
            data = bytes(data)
            ctx.count("transitions")
            compare(ctx, data, search(data, how="steps"), reference(data, 0, total, STUBS), "%r at %s" % (magic, at))


class Real:
    cache = {}

    @classmethod
    def candidates(cls):
        HachoirParserList._instance = None
        out = []
        for name in sorted(os.listdir(FILES)):
            path = os.path.join(FILES, name)
            if not os.path.isfile(path) or os.path.getsize(path) > 300000:
                continue
            out.append(name)
        return out


def real(case, ctx):
    """A sample file inside other data is found by its parser (when the parser has a magic and validates it without name)."""
    HachoirParserList._instance = None
    with open(os.path.join(FILES, case["file"]), "rb") as f:
        data = f.read()
    p = guessParser(StringInputStream(data, source="text"))
    if p is None:
        return
    cls = type(p)
    t = cls.getParserTags()
    hit = any(data[o // 8:o // 8 + len(m)] == m for m, o in t.get("magic", ())) or any(re.match(r, data[o // 8:], re.S) for r, o in t.get("magic_regex", ()))
    if not hit:
        ctx.count("files without magic")
        return
    ctx.seen("parsers", cls.__name__)
    for before in case["before"]:
        for after in (0, 7):
            ctx.count("transitions")
            ctx.count("traces")
            whole = b"\xaa" * before + data + b"\xaa" * after
            got = [g[0] for g in search(whole, ids=[t["id"]], how="steps")]
            if before not in got:
                ctx.report("%s (%s) is not found at %s, followed by %s bytes: %s" % (case["file"], cls.__name__, before, after, got[:10]))


def newline(case, ctx):
    """Each regular expression of a magic matches any byte where it has a dot."""
    HachoirParserList._instance = None
    from hachoir.subfile.pattern import HachoirPatternMatching
    for fill in range(256):
        b = bytes([fill])
        for pid, data in (("gzip", b"\x1f\x8b\x08" + b * 5 + b"\0\3"), ("aiff", b"FORM" + b * 4 + b"AIFC"), ("bmp", b"BM" + b * 12 + b"\x28\0\0\0"),
                          ("exe", b"MZ" + b + b"\1" + b * 4 + b"\x40"), ("pifv", b"\0" * 16 + b * 24 + b"_FVH")):
            ctx.count("transitions")
            ctx.count("traces")
            got = [(c.getParserTags()["id"], off) for c, off in HachoirPatternMatching(None, [pid]).search(b"...." + data + b"....")]
            if (pid, 32) not in got and not (pid == "pifv" and fill == 0):
                ctx.report("the magic of %s with bytes %#x is not found: %s" % (pid, fill, got))


def main():
    c = lib.Check("U01", "model_checking",
                  "all texts up to the length over magics, sizes and bad marks of three stand-in parsers x slice sizes, offsets, limits; magics at all positions around the boundaries of slices; "
                  "all small sample files inside other data",
                  assumptions=["the magics do not overlap each other", "the sample file is one which its parser accepts without its name"],
                  bounds={"text": "length 6 (thorough 8)", "slices": "4, 5, 6 bytes and 64 KB"})
    n = 6 if c.quick else 8
    cases = []
    slices = [4, 5, 7] if c.quick else [4, 5, 6, 7, 9, None]
    ranges = [[0, None], [1, 4]] if c.quick else [[0, None], [1, None], [0, 5], [2, 3], [3, 100]]
    for alphabet in ("AB4C.", "QR3\n.", "AB3z"):
        for k in range(0, n + (1 if len(alphabet) == 4 or not c.quick else 0)):
            heads = [""] if k < 4 else ["".join(h) for h in itertools.product(alphabet, repeat=2)]
            for h in heads:
                cases.append({"alphabet": [ord(x) for x in alphabet], "head": h, "n": k - len(h) + 1, "slices": slices, "ranges": ranges})
    c.domain("texts", cases, texts, batch=1)
    c.domain("chosen", [{}], chosen, batch=1)
    edge = 65536
    for total in (edge + 40, 2 * edge, 2 * edge + 3):
        at = [x for e in (edge, 2 * edge) for x in range(e - 12, e + 8) if 0 <= x < total]
        for a in at:
            c.domain("boundary %s %s" % (total, a), [{"total": total, "at": [a]}], boundary, batch=1)
    c.domain("real", [{"file": f, "before": [0, 1, 65530, 65536] if c.quick else [0, 1, 2, 9] + list(range(65500, 65540, 1))} for f in Real.candidates()], real, batch=1, cpu_limit=240)
    c.domain("newline", [{}], newline, batch=1)
    c.main()


if __name__ == "__main__":
    main()
