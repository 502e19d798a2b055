"""G01: hachoir-grep finds each text field which contains the pattern, once, in order, at its address, whatever the options; a closed pipe ends it quietly."""
import contextlib, errno, glob, io, itertools, os, sys, tempfile, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config
from hachoir.core.i18n import getTerminalCharset
from hachoir.core.tools import makePrintable
from hachoir.field import CString, Field, FieldSet, Float32, GenericString, NullBits, PascalString8, RawBytes, String, UInt8, UnixLine, Bits
from hachoir.core.endian import BIG_ENDIAN
from hachoir.grep import ConsoleGrep, Grep, runGrep
from hachoir import grep as grep_module
from hachoir.parser import Parser, createParser
from hachoir.stream import StringInputStream

config.quiet = True
FILES = os.path.join(lib.REPO, "tests", "files")
LIMIT = 1 << 20


def strings(fs, out, limit, budget):
    for f in fs:
        budget[0] -= 1
        if budget[0] < 0:
            raise Enough
        if f.is_field_set:
            strings(f, out, limit, budget)
        elif isinstance(f, GenericString):
            out.append((f.absolute_address, f.path, f.value))
            if len(out) > limit:
                raise Enough


class Enough(Exception):
    pass


class Collect(Grep):
    limit = None

    def __init__(self, limit=None):
        Grep.__init__(self)
        self.found = []
        self.limit = limit

    def onMatch(self, field):
        self.found.append((field.absolute_address, field.path, field.value))
        if len(self.found) == self.limit:
            raise Enough


def expected(fields, pattern, case):
    out = []
    for f in fields:
        v = f[2]
        if not v:
            continue
        if pattern and (pattern not in v if case else pattern.lower() not in v.lower()):
            continue
        out.append(f)
    return out


def lines(found, name, values, many):
    out = []
    for addr, path, value in found:
        t = []
        if many:
            t.append(makePrintable(name, getTerminalCharset()))
        if not values.no_addr:
            t.append("%s" % (addr // 8) if addr % 8 == 0 else "%s.%s" % (addr // 8, addr % 8))
        if values.path:
            t.append(path)
        if not values.no_value:
            t.append(makePrintable(value, getTerminalCharset()))
        if t:
            out.append(":".join(t) + "\n")
    return "".join(out)


OPTIONS = [types.SimpleNamespace(no_addr=a, no_value=v, path=p, percent=c, case=s, bench=b)
           for a in (False, True) for v in (False, True) for p in (False, True) for c in (False, True) for s in (False, True) for b in (False, True) if not (b and (a or v or p or c))]


def console(ctx, what, make, name, fields, patterns, options, size):
    """runGrep() on one or two files, with each of the options"""
    old = grep_module.createParser
    grep_module.createParser = make
    try:
        for pattern in patterns:
            for o in options:
                for many in (False, True):
                    ctx.count("transitions")
                    out, err = io.StringIO(), io.StringIO()
                    names = [name, name] if many else [name]
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                        runGrep(o, pattern, names)
                    found = expected(fields, pattern, o.case)
                    want = "" if o.bench else lines(found, name, o, many) * len(names)
                    if out.getvalue() != want:
                        ctx.report("%s, pattern %r, %s: prints %s, expected %s" % (what, pattern, vars(o), lib.short(out.getvalue(), 200), lib.short(want, 200)))
                    percent = "".join("[%02.1f%%] " % (f[0] * 100.0 / size) for f in found) * len(names) if o.percent and not o.bench and (want or many) else ""
                    if err.getvalue() != percent:
                        ctx.report("%s, pattern %r, %s: prints %s as percent, expected %s" % (what, pattern, vars(o), lib.short(err.getvalue(), 200), lib.short(percent, 200)))
    finally:
        grep_module.createParser = old


# ---- all small trees ------------------------------------------------------------------------

TEXTS = ["", "a", "A", "ab", "\xe9b", "b\0a\n"]


def leafs():
    out = []
    for t in TEXTS:
        out.append(("string", t))
    out += [("cstring", "aB"), ("pascal", "bA"), ("pascal", ""), ("line", "Ab"), ("raw", "aaa"), ("int", "a"), ("bits", ""), ("fixed", "ab\0\0")]
    return out


class Tree(FieldSet):
    def __init__(self, parent, name, nodes):
        FieldSet.__init__(self, parent, name)
        self.nodes = nodes

    def createFields(self):
        yield from make(self, self.nodes)


def make(fs, nodes):
    for n in nodes:
        if isinstance(n, list):
            yield Tree(fs, "set[]", n)
            continue
        kind, t = n
        if kind == "string":
            if t:
                yield String(fs, "s[]", len(t), charset="ISO-8859-1")
        elif kind == "fixed":
            yield String(fs, "f[]", len(t), strip="\0", charset="ASCII")
        elif kind == "cstring":
            yield CString(fs, "c[]", charset="ASCII")
        elif kind == "pascal":
            yield PascalString8(fs, "p[]", charset="ASCII")
        elif kind == "line":
            yield UnixLine(fs, "l[]", charset="ASCII", strip="\n")
        elif kind == "raw":
            yield RawBytes(fs, "r[]", len(t))
        elif kind == "int":
            yield UInt8(fs, "i[]")
        else:
            yield Bits(fs, "b[]", 4)


class Root(Parser):
    PARSER_TAGS = {"id": "g01", "category": "misc", "min_size": 0, "description": "x", "file_ext": (), "mime": ()}
    endian = BIG_ENDIAN
    nodes = []

    def validate(self):
        return True

    def createFields(self):
        yield from make(self, self.nodes)


def build(nodes, pos, path, counts, out):
    """bits (a text of 0 and 1) of the nodes; the string fields"""
    data = ""
    counts = {}
    for n in nodes:
        def name(stem):
            k = counts.get(stem, 0)
            counts[stem] = k + 1
            return "%s%s[%s]" % (path, stem, k)

        def bits(raw):
            return "".join("{:08b}".format(b) for b in raw)

        if isinstance(n, list):
            inner = build(n, pos + len(data), name("set") + "/", {}, out)
            data += inner
            continue
        kind, t = n
        raw = t.encode("latin-1")
        where = pos + len(data)
        if where % 8 and kind in ("cstring", "pascal", "line"):
            raise Enough
        if kind == "string":
            if t:
                # a text is only read from whole bytes
                out.append((where, name("s"), None if where % 8 else t))
                data += bits(raw)
        elif kind == "fixed":
            out.append((pos + len(data), name("f"), None if where % 8 else t.strip("\0")))
            data += bits(raw)
        elif kind == "cstring":
            out.append((pos + len(data), name("c"), t))
            data += bits(raw + b"\0")
        elif kind == "pascal":
            out.append((pos + len(data), name("p"), t))
            data += bits(bytes([len(raw)]) + raw)
        elif kind == "line":
            out.append((pos + len(data), name("l"), t))
            data += bits(raw + b"\n")
        elif kind in ("raw", "int"):
            data += bits(raw)
        else:
            data += "0110"
    return data


def trees(case, ctx):
    items = leafs() + [[("string", "a"), ("int", "a")], [("int", "A"), [("cstring", "xa"), ("bits", "")]], [("bits", ""), ("fixed", "ab\0\0")]]
    for seq in itertools.product(items, repeat=case["n"]):
        if seq[:1] != (items[case["first"]],):
            continue
        nodes = list(seq)
        fields = []
        try:
            text = build(nodes, 0, "/", {}, fields)
        except Enough:
            continue
        if not text:
            continue
        text += "0" * (-len(text) % 8) + "01000001"
        data = int(text, 2).to_bytes(len(text) // 8, "big")
        # grep of the strings only needs the fields it shows; a padding is added behind them
        what = "fields %s" % (nodes,)
        ctx.count("traces")
        ctx.seen("states", data)
        Root.nodes = nodes
        for pattern, sensitive in itertools.product((None, "a", "A", "ab", "\xe9", "\n", "zz"), (True, False)):
            ctx.count("transitions")
            g = Collect()
            g.pattern, g.case_sensitive = (pattern if sensitive or not pattern else pattern.lower()), sensitive
            g.grep(Root(StringInputStream(data)))
            want = expected(fields, pattern, sensitive)
            if g.found != want:
                ctx.report("%s, pattern %r, case sensitive %s: %s, expected %s" % (what, pattern, sensitive, g.found, want))
        if case["n"] == 1 or case["n"] == 2 and case["console"]:
            console(ctx, what, lambda name: Root(StringInputStream(data)), "name\1", fields, (None, "a", "B"), OPTIONS, len(data) * 8)


# ---- sample files ---------------------------------------------------------------------------

def samples(case, ctx):
    path = os.path.join(FILES, case["file"])
    parser = createParser(path)
    if parser is None:
        return
    fields = []
    with parser:
        size = parser.size
        try:
            strings(parser, fields, 300 if ctx.quick else 3000, [3000 if ctx.quick else 30000])
            whole = True
        except Enough:
            whole = False
    ctx.count("traces")
    ctx.count("fields", len(fields))
    words = sorted({w for f in fields[:60] for w in f[2].split()[:2] if w})[:4 if ctx.quick else 20]
    for pattern, sensitive in [(None, True)] + [(w, s) for w in words for s in (True, False)] + [(w[:3].swapcase(), s) for w in words[:2] for s in (True, False)]:
        ctx.count("transitions")
        ctx.seen("states", (case["file"], pattern, sensitive))
        g = Collect()
        g.pattern, g.case_sensitive = (pattern if sensitive or not pattern else pattern.lower()), sensitive
        want = expected(fields, pattern, sensitive)
        if not whole:
            # the first matches of a large file
            g.limit = len(want)
            if not want:
                continue
        with createParser(path) as p:
            try:
                g.grep(p)
            except Enough:
                pass
        if g.found != want:
            d = [k for k, (a, b) in enumerate(itertools.zip_longest(g.found, want)) if a != b][0]
            ctx.report("%s, pattern %r, case sensitive %s: %s matches, expected %s; match %s: %s, expected %s"
                       % (case["file"], pattern, sensitive, len(g.found), len(want), d, g.found[d:d + 1], want[d:d + 1]))
    if whole:
        console(ctx, case["file"], createParser, path, fields, [None] + words[:1], OPTIONS[::5], size)


# ---- faults of the output -------------------------------------------------------------------

class Pipe(io.StringIO):
    def __init__(self, left, error):
        io.StringIO.__init__(self)
        self.left, self.error = left, error

    def write(self, text):
        self.left -= 1
        if self.left < 0:
            raise self.error
        return io.StringIO.write(self, text)


def faults(case, ctx):
    Root.nodes = [("string", "ab"), [("string", "a"), ("int", "a")], ("cstring", "xa"), ("string", "A")]
    fields = []
    text = build(Root.nodes, 0, "/", {}, fields)
    data = int(text, 2).to_bytes(len(text) // 8, "big")
    old = grep_module.createParser
    grep_module.createParser = lambda name: Root(StringInputStream(data))
    try:
        for k in range(0, 10):
            for error in (OSError(errno.EPIPE, "broken pipe"), BrokenPipeError(errno.EPIPE, "broken pipe"), OSError(errno.ENOSPC, "no space"), OSError(errno.EIO, "error")):
                for many in (1, 2):
                    ctx.count("transitions")
                    ctx.count("traces")
                    ctx.seen("states", (k, error.errno, many))
                    out = Pipe(k, error)
                    o = OPTIONS[0]
                    raised = None
                    with contextlib.redirect_stdout(out):
                        try:
                            runGrep(o, None, ["n"] * many)
                        except Exception as e:
                            raised = e
                    whole = lines(fields, "n", o, many > 1) * many
                    if not whole.startswith(out.getvalue()):
                        ctx.report("output which breaks at call %s: %r is not a prefix of %r" % (k, out.getvalue(), whole))
                    if out.left >= 0 or error.errno == errno.EPIPE:
                        if raised is not None:
                            ctx.report("output which breaks at call %s with %r: %r is raised" % (k, error, raised))
                    elif raised is not error:
                        ctx.report("output which breaks at call %s with %r: %r is raised" % (k, error, raised))
    finally:
        grep_module.createParser = old


def main():
    c = lib.Check("G01", "model_checking",
                  "all trees of text and other fields up to the length x all patterns x all options, all sample files x words, all points where the output breaks, against a direct walk",
                  assumptions=["of sample files with more than 300 texts or 3000 fields (thorough ten times more) these first ones are compared"],
                  bounds={"trees": "2 nodes of 17 kinds, one level of nesting more (thorough 3)", "options": len(OPTIONS)})
    q = c.quick
    for n in range(1, 3 if q else 4):
        c.domain("trees %s" % n, [{"n": n, "first": k, "console": not q} for k in range(17)], trees, batch=1, cpu_limit=600)
    names = sorted(os.path.basename(f) for f in glob.glob(os.path.join(FILES, "*")) if os.path.isfile(f) and os.path.getsize(f) < (LIMIT if q else 1 << 24))
    c.domain("samples", [{"file": n} for n in names], samples, batch=1, cpu_limit=300)
    c.domain("faults", [{}], faults, batch=1)
    c.main()


if __name__ == "__main__":
    main()
