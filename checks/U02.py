"""U02: the files found by a search are written, each with its exact content, and nothing else; the memory limit is put back."""
import contextlib, io, itertools, os, re, resource, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config as core_config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import memory
from hachoir.field import UInt8
from hachoir.parser import HachoirParserList, Parser, guessParser
from hachoir.parser.parser_list import ParserList
from hachoir.stream import StringInputStream
from hachoir.subfile import search as search_module
from hachoir.subfile.output import Output
from hachoir.subfile.search import SearchSubfile

core_config.quiet = True
FILES = os.path.join(lib.REPO, "tests", "files")


class Stub(Parser):
    """Magic, then a letter and a number: S12. is a file of 12 bytes, U. a file of unknown size, E. one whose size gives an error, Z. a file of size zero"""
    endian = BIG_ENDIAN

    def head(self):
        return self.stream.readBytes(len(self.MAGIC) * 8, min(10, self.stream.size // 8 - len(self.MAGIC)))

    def validate(self):
        return re.match(rb"(S\d+|U|E|Z)\.", self.head()) is not None

    def createFields(self):
        yield UInt8(self, "a")

    def createContentSize(self):
        h = self.head()
        if h[:1] == b"E":
            raise ValueError("no size")
        if h[:1] == b"U":
            return None
        if h[:1] == b"Z":
            return 0
        return int(re.match(rb"S(\d+)\.", h).group(1)) * 8


def stub(name, magic, **kw):
    return type(name, (Stub,), {"MAGIC": magic, "PARSER_TAGS": dict({"id": name, "category": "misc", "min_size": 8, "description": "Parser " + name, "magic": ((magic, 0),)}, **kw)})


KEEP = stub("keep", b"#K", file_ext=("kee", "other"))
SKIP = stub("skip", b"#S", subfile="skip", file_ext=("ski",))
NONE = stub("none", b"#N", subfile="skip")
STUBS = {"K": KEEP, "S": SKIP}


def use_stubs(extra=()):
    db = ParserList()
    for c in [KEEP, SKIP] + list(extra):
        db.add(c)
    HachoirParserList._instance = db


def run(data, folder, filter_=None, stream=None, slice_size=None):
    out, err = io.StringIO(), io.StringIO()
    if hasattr(search_module, "stderr"):
        search_module.stderr = err
    stream = stream or StringInputStream(data, source="text")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        s = SearchSubfile(stream)
        s.verbose = False
        if folder is not None:
            s.setOutput(folder)
        if filter_:
            s.filter = filter_
        s.loadParsers()
        if slice_size:
            s.slice_size = slice_size * 8
        s.mainHeader()
        s.searchSubfiles()
    return out.getvalue()


def contents(folder):
    res = {}
    if os.path.isdir(folder):
        for name in os.listdir(folder):
            with open(os.path.join(folder, name), "rb") as f:
                res[name] = f.read()
    return res


def reference(data, keep=lambda c: True):
    """{name: content}"""
    files, nxt, n = {}, 0, 1
    for m in re.finditer(rb"#([KS])(?=(S(\d+)|U|E|Z)\.)", data):
        off = m.start()
        if off < nxt:
            continue
        cls = STUBS[m.group(1).decode()]
        size = int(m.group(3)) if m.group(3) else {b"Z": 0}.get(m.group(2))
        if size and not (off == 0 and size == len(data)) and keep(cls):
            files["file-%04d.%s" % (n, "kee" if cls is KEEP else "ski")] = data[off:off + size]
            n += 1
        if size is not None and cls is SKIP:
            nxt = off + size
    return files


ITEMS = ["#KS5.", "#SS9.", "#KU.", "#SE.", "#SZ.", "..", "#KS12.", "#SS4099."]


def fits(data):
    """Every file ends inside the data."""
    return all(m.start() + int(m.group(1)) <= len(data) for m in re.finditer(rb"#[KS]S(\d+)\.", data))


def sequences(case, ctx):
    """All sequences of files; each with the filling which makes it long enough."""
    use_stubs()
    top = tempfile.mkdtemp(prefix="hachoir-u02-")
    try:
        k = 0
        for seq in itertools.product(ITEMS, repeat=case["n"]):
            if seq[:1] != (case["first"],):
                continue
            for end in (0, 12, 4100, 9000):
                data = "".join(seq).encode() + b"-" * end
                if not fits(data):
                    continue
                for mode in ("new", "there", "skip only"):
                    k += 1
                    folder = os.path.join(top, "out%s" % k)
                    if mode == "there":
                        os.mkdir(folder)
                    keep = (lambda c: c is SKIP) if mode == "skip only" else (lambda c: True)
                    ctx.count("transitions")
                    ctx.count("traces")
                    text = run(data, folder, (lambda p: type(p) is SKIP) if mode == "skip only" else None, slice_size=case["slice"])
                    want, got = reference(data, keep), contents(folder)
                    ctx.seen("states", (tuple(sorted(want.items())), mode))
                    what = "%r + %s bytes (%s)" % ("".join(seq), end, mode)
                    if got != want:
                        ctx.report("%s: %s written, %s expected" % (what, {n: (len(c), c[:20]) for n, c in got.items()}, {n: (len(c), c[:20]) for n, c in want.items()}))
                    elif [m for m in re.findall(r" => (.*)$", text, re.M)] != [os.path.join(folder, n) for n in sorted(want)]:
                        ctx.report("%s: output %r" % (what, text))
                    elif mode == "new" and os.path.isdir(folder) != bool(want):
                        ctx.report("%s: the folder is %s" % (what, "there" if os.path.isdir(folder) else "missing"))
                    shutil.rmtree(folder, ignore_errors=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def whole(case, ctx):
    """The input itself is not copied; a file without extension has no suffix; a file of 100 MB or more is not copied."""
    use_stubs([NONE])
    top = tempfile.mkdtemp(prefix="hachoir-u02-")
    try:
        for data, want in ((b"#KS19.-------------", {}), (b"#KS18.-------------", {"file-0001.kee": b"#KS18.------------"}),
                           (b".#KS18.------------", {"file-0001.kee": b"#KS18.------------"}),
                           (b"..#NS6.-#NS9.----#KS7.--", {"file-0001": b"#NS6.-", "file-0002": b"#NS9.----", "file-0003.kee": b"#KS7.--"})):
            ctx.count("transitions")
            ctx.count("traces")
            folder = os.path.join(top, "out")
            run(data, folder)
            got = contents(folder)
            if got != want:
                ctx.report("%r: %s written, %s expected" % (data, got, want))
            shutil.rmtree(folder, ignore_errors=True)
        limit = 100 * 1024 * 1024
        old = search_module.FILE_MAX_SIZE
        if old != limit:
            ctx.report("the maximum size of files is %s" % old)
        search_module.FILE_MAX_SIZE = 20
        try:
            for size in (18, 19, 20, 21):
                ctx.count("transitions")
                ctx.count("traces")
                data = b"..#KS%d." % size + b"-" * 30
                folder = os.path.join(top, "out")
                run(data, folder)
                want = {"file-0001.kee": data[2:2 + size]} if size < 20 else {}
                if contents(folder) != want:
                    ctx.report("a file of %s bytes with a limit of 20: %s written" % (size, contents(folder)))
                shutil.rmtree(folder, ignore_errors=True)
        finally:
            search_module.FILE_MAX_SIZE = old
    finally:
        shutil.rmtree(top, ignore_errors=True)


def real(case, ctx):
    """A sample file inside other data is written as it was, when its parser knows its size."""
    HachoirParserList._instance = None
    with open(os.path.join(FILES, case["file"]), "rb") as f:
        data = f.read()
    p = guessParser(StringInputStream(data, source="text"))
    if p is None or p.content_size is None:
        return
    size = p.content_size // 8
    longer = type(p)(StringInputStream(data + bytes(5000), source="text"))
    if longer.content_size != p.content_size:   # it depends on the size of the input
        return
    t = type(p).getParserTags()
    if not (t.get("magic") or t.get("magic_regex")) or size > len(data):
        return
    if not (any(data[o // 8:o // 8 + len(m)] == m for m, o in t.get("magic", ())) or any(re.match(r, data[o // 8:], re.S) for r, o in t.get("magic_regex", ()))):
        return
    ctx.seen("parsers", type(p).__name__)
    for before, after in ((3, 0), (3, 5), (70000, 5000)):
        ctx.count("transitions")
        ctx.count("traces")
        top = tempfile.mkdtemp(prefix="hachoir-u02-")
        try:
            out, err = io.StringIO(), io.StringIO()
            if hasattr(search_module, "stderr"):
                search_module.stderr = err
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                s = SearchSubfile(StringInputStream(b"\xaa" * before + data + b"\xaa" * after, source="text"))
                s.verbose = False
                s.setOutput(os.path.join(top, "out"))
                s.loadParsers(None, [t["id"]])
                s.mainHeader()
                s.searchSubfiles()
            got = contents(os.path.join(top, "out"))
            if data[:size] not in got.values():
                ctx.report("%s (%s, %s bytes) at %s: written %s" % (case["file"], type(p).__name__, size, before, {n: len(c) for n, c in list(got.items())[:5]}))
        finally:
            shutil.rmtree(top, ignore_errors=True)


def in_child(fn):
    """Result of fn() in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                text = repr(fn())
            except BaseException as e:
                text = "%s: %s" % (type(e).__name__, e)
            os.write(w, text.encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode()


def limits(case, ctx):
    """limitedMemory() calls the function with its arguments under the limit, gives its result or error, and puts the limits of the process back."""
    soft0, hard0 = resource.getrlimit(resource.RLIMIT_AS)
    for soft in (-1, 3 << 30, (3 << 30) + 4096):
        for hard in (-1, 4 << 30):
            if hard != -1 and soft == -1:
                continue
            if hard0 != -1 and hard == -1:
                continue
            for user in (0, 12345) if os.getuid() == 0 else (os.getuid(),):
                for what in ("value", "error", "memory", "nested", "small"):
                    for limit in (1 << 20, 50 << 20, 400 << 20):
                        ctx.count("transitions")
                        ctx.count("traces")

                        def child():
                            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
                            if user and os.getuid() == 0:
                                os.setuid(user)
                            seen = []

                            def fn(*a, **k):
                                now = resource.getrlimit(resource.RLIMIT_AS)
                                size = memory.getMemorySize()
                                seen.append((a, k, now[0] > 0 and abs(now[0] - size - limit) < (96 << 20), now[1]))
                                if what == "error":
                                    raise KeyError("error")
                                if what == "memory":
                                    bytearray(limit + (200 << 20))
                                if what == "nested":
                                    return memory.limitedMemory(1 << 20, lambda: 5)
                                if what == "small" and limit > (20 << 20):
                                    return len(bytearray(limit // 2))
                                return 5
                            try:
                                res = memory.limitedMemory(limit, fn, 1, "x", key=2)
                            except Exception as e:
                                res = type(e).__name__
                            return res, seen, resource.getrlimit(resource.RLIMIT_AS)
                        res = {"error": "KeyError", "memory": "MemoryError"}.get(what, 5)
                        if what == "small" and limit > (20 << 20):
                            res = limit // 2
                        want = repr((res, [((1, "x"), {"key": 2}, True, hard)], (soft, hard)))
                        got = in_child(child)
                        if got != want:
                            ctx.report("limits %s, %s bytes, user %s, %s: %s, expected %s" % ((soft, hard), limit, user, what, got, want))
    for given in (None, -1, 1 << 30, 2 << 30, 5 << 30):
        def child():
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 4 << 30))
            if os.getuid() == 0:
                os.setuid(12345)
            res = memory.setMemoryLimit(given)
            return res, memory.getMemoryLimit(), resource.getrlimit(resource.RLIMIT_AS)
        # no limit, or one over the limit of the process, is refused
        ok = given is not None and 0 < given <= 4 << 30
        now = given if ok else 3 << 30
        ctx.count("transitions")
        got = in_child(child)
        if got != repr((ok, now, (now, 4 << 30))):
            ctx.report("setMemoryLimit(%s): %s" % (given, got))
    if hard0 == -1:
        def child():
            return memory.setMemoryLimit(2 << 30), memory.getMemoryLimit(), memory.setMemoryLimit(None), memory.getMemoryLimit()
        got = in_child(child)
        if got != repr((True, 2 << 30, True, -1)):
            ctx.report("setMemoryLimit(2 GB), then None: %s" % got)
    ctx.seen("states", "limits")


def main():
    c = lib.Check("U02", "model_checking",
                  "all sequences of stand-in files (known size, unknown, wrong, zero, nested, bigger than the buffer of a copy) x output folders and filters; sample files inside other data; "
                  "limitedMemory() under all limits of the process, users and results",
                  assumptions=["every file found ends inside the input"],
                  bounds={"sequences": "length 3 (thorough 4)"})
    n = 4 if c.quick else 5
    c.domain("sequences", [{"n": k, "first": f, "slice": s} for k in range(1, n + 1) for f in ITEMS for s in ((None, 20))], sequences, batch=1, cpu_limit=600)
    c.domain("whole", [{}], whole, batch=1)
    c.domain("limits", [{}], limits, batch=1)
    c.domain("real", [{"file": f} for f in sorted(os.listdir(FILES)) if os.path.isfile(os.path.join(FILES, f)) and os.path.getsize(os.path.join(FILES, f)) < (300000 if c.quick else 4000000)],
             real, batch=1)
    c.main()


if __name__ == "__main__":
    main()
