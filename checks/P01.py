"""P01: the parser chosen for a file is the first of the asked order which validates it; nothing a parser does makes the choice fail."""
import errno, io, itertools, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config as core_config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import UInt8
from hachoir.parser import HachoirParserList, Parser, QueryParser, ValidateError, createParser, guessParser
from hachoir.parser.parser_list import ParserList
from hachoir.stream import InputIOStream, StringInputStream

core_config.quiet = True
OUTCOMES = [True, False, "reason", "raise", "small", "init", None, 1, b"x"]
TRIED = []


class Stub(Parser):
    endian = BIG_ENDIAN

    def __init__(self, stream, **args):
        TRIED.append(type(self).__name__)
        Parser.__init__(self, stream, **args)
        if self.outcome == "init":
            raise RuntimeError("constructor")

    def validate(self):
        if self.outcome == "raise":
            raise RuntimeError("validate")
        return self.outcome if self.outcome not in ("small", "init") else True

    def createFields(self):
        yield UInt8(self, "a")


def stub(name, outcome, ext=(), mime=(), min_size=8):
    return type(name, (Stub,), {"outcome": outcome, "PARSER_TAGS": {
        "id": name, "category": "misc", "file_ext": ext, "mime": mime, "min_size": 1 << 40 if outcome == "small" else min_size, "description": "Parser " + name}})


def valid(cls, validate):
    if not validate:
        return cls.outcome != "init"
    return cls.outcome is True


def database(classes):
    db = ParserList()
    for c in classes:
        db.add(c)
    return db


TAGS = [None, ("id", "aaa"), ("id", "ccc"), ("id", "unknown"), ("file_ext", "x"), ("file_ext", "nothing"), ("filename", "dir.y/name.X"), ("filename", "name"), ("filename", "a.x.y"),
        ("mime", "m/1"), ("mime", None), ("category", "misc"), ("bbb or ccc",), ("class",), ("args",)]


def order(classes, tags, extern):
    """(list of parsers to try in order, are they validated, arguments)"""
    left = list(classes)
    out, validate, args = [], True, None
    for t in tags:
        if not left:
            break
        if t is None:
            left = []
        elif t == ("class",):
            out.append(extern)
            validate = False
        elif t == ("args",):
            args = {"special": 5}
        else:
            if t == ("bbb or ccc",):
                match = [c for c in left if c.__name__ in ("bbb", "ccc")]
            else:
                name, value = t
                if name == "filename":
                    base = value.split("/")[-1]
                    name, value = "file_ext", base.split(".")[-1].lower() if "." in base else ""
                match = []
                for c in left:
                    have = c.PARSER_TAGS[name]
                    have = have if isinstance(have, tuple) else (have,)
                    if value in have or (value is None and have):
                        match.append(c)
                if name == "id" and match:
                    validate = False
            out += match
            left = [c for c in left if c not in match]
    return out + left, validate, args


def choose(case, ctx):
    outs = case["outs"]
    classes = [stub("aaa", outs[0], ("x", "y"), ("m/1",)), stub("bbb", outs[1], ("x",), ("m/2",)), stub("ccc", outs[2], ("z",), ("m/1", "m/3")), stub("ddd", outs[3])]
    extern = stub("extern", True)
    lib_tags = {("bbb or ccc",): lambda c: c.__name__ in ("bbb", "ccc"), ("class",): ("class", extern), ("args",): ("args", {"special": 5})}
    for data in (b"abc",):
        for n in range(case["n"] + 1):
            for tags in itertools.product(TAGS, repeat=n):
                HachoirParserList._instance = database(classes)
                ctx.count("transitions")
                want_order, validate, args = order(classes, tags, extern)
                win = [c for c in want_order if valid(c, validate)][:1]
                real = [lib_tags.get(t, t) for t in tags]
                what = "%s, outcomes %s, %s bytes" % (tags, outs, len(data))
                stream = StringInputStream(data, source="text", tags=list(real))
                del TRIED[:]
                try:
                    q = QueryParser(real)
                    got_order = list(q)
                    got = guessParser(stream)
                except Exception as e:
                    ctx.report("%s: %s: %s" % (what, type(e).__name__, e))
                    continue
                if got_order != want_order and not any(t == ("mime", None) for t in tags):
                    ctx.report("%s: the parsers are tried in the order %s instead of %s" % (what, [c.__name__ for c in got_order], [c.__name__ for c in want_order]))
                    continue
                if any(t == ("mime", None) for t in tags):      # all parsers with a MIME type: their order is not stated
                    if sorted(c.__name__ for c in got_order) != sorted(c.__name__ for c in want_order):
                        ctx.report("%s: the parsers are %s instead of %s" % (what, [c.__name__ for c in got_order], [c.__name__ for c in want_order]))
                    win = [c for c in got_order if valid(c, validate)][:1]
                if not win:
                    if got is not None:
                        ctx.report("%s: parsed by %s" % (what, type(got).__name__))
                elif got is None or type(got) is not win[0]:
                    ctx.report("%s: parsed by %s instead of %s" % (what, type(got).__name__, win[0].__name__))
                    continue
                else:
                    if args and getattr(got, "special", None) != 5:
                        ctx.report("%s: arguments" % what)
                    names = [c.__name__ for c in got_order]
                    if TRIED != names[:names.index(win[0].__name__) + 1]:
                        ctx.report("%s: tried %s" % (what, TRIED))
                    del TRIED[:]
                    again = guessParser(stream)
                    if again is not got or TRIED:
                        ctx.report("%s: asked again, another parser is made" % what)
                    ext, mime = win[0].PARSER_TAGS["file_ext"], win[0].PARSER_TAGS["mime"]
                    suffix = got.filename_suffix if ext else None
                    if suffix != ("." + ext[0] if ext else None) or mime and got.mime_type != mime[0] or got.description != "Parser " + win[0].__name__:
                        ctx.report("%s: suffix %s, type %s, description %s" % (what, suffix, mime and got.mime_type, got.description))
                    if data and got["a"].value != 97:
                        ctx.report("%s: value" % what)
                if [lib_tags.get(t, t) for t in tags] != real:
                    ctx.report("%s: the tags are changed" % what)
                ctx.count("traces")
    ctx.seen("states", str(outs))
    HachoirParserList._instance = None


def validation(case, ctx):
    """Parser(stream, validate=True): minimum size in bits, result of validate(), reason of the refusal."""
    for outcome in OUTCOMES:
        if outcome == "small":
            continue
        for nbytes in range(0, 6):
            for nbits in range(1, 41):
                for kind in ("bytes", "pipe"):
                    if not nbytes:
                        continue        # there is no stream of nothing
                    cls = stub("aaa", outcome, min_size=nbits)
                    data = b"\x01" * nbytes
                    s = StringInputStream(data) if kind == "bytes" else InputIOStream(Pipe(data))
                    ctx.count("transitions")
                    big = nbytes * 8 >= nbits
                    what = "validate() is %r, %s bytes (%s), minimum %s bits" % (outcome, nbytes, kind, nbits)
                    try:
                        p = cls(s, validate=True)
                        res = p
                    except ValidateError as e:
                        res = e
                    except RuntimeError as e:
                        res = e
                    if big and outcome is True:
                        if not isinstance(res, cls):
                            ctx.report("%s: refused: %s" % (what, res))
                    elif big and outcome in ("raise", "init"):
                        if not isinstance(res, RuntimeError) or isinstance(res, ValidateError):
                            ctx.report("%s: %r" % (what, res))
                    elif not isinstance(res, ValidateError):
                        ctx.report("%s: accepted" % what)
                    else:
                        text = str(res)
                        if big and outcome == "reason" and text != "reason" or not text:
                            ctx.report("%s: the reason is %r" % (what, text))
                        if not big and str(nbits // 8) not in text:
                            ctx.report("%s: the reason is %r" % (what, text))
                    if outcome not in ("init",):
                        try:
                            p = cls(StringInputStream(data or b"x"))       # not asked to validate
                        except Exception as e:
                            ctx.report("%s: without validation: %s" % (what, e))
                    ctx.count("traces")


def answers(case, ctx):
    """Description, MIME type, size of the content and suffix of a parser, whichever of them fails."""
    def fail(self):
        raise RuntimeError("no answer")
    for bad in itertools.product((False, True, None), repeat=3):
        body = {"PARSER_TAGS": {"id": "xyz", "category": "misc", "file_ext": ("x", "y"), "mime": ("m/1", "m/2"), "min_size": 8, "description": "Text of the tags"}}
        for name, value, b in zip(("createDescription", "createMimeType", "createContentSize"), ("own text", "own/type", 24), bad):
            if b is not None:
                body[name] = fail if b else (lambda value: lambda self: value)(value)
        cls = type("Some", (Stub,), dict(body, outcome=True))
        for order in itertools.permutations(range(3)):
            p = cls(StringInputStream(b"abcdef"), validate=True)
            got = {}
            for _ in range(2):
                for k in order:
                    got[k] = getattr(p, ("description", "mime_type", "content_size")[k])
            ctx.count("transitions")
            want = {0: "own text" if bad[0] is False else "Text of the tags", 1: "own/type" if bad[1] is False else "m/1", 2: 24 if bad[2] is False else None}
            if got != want:
                ctx.report("answers %s: %s instead of %s" % (bad, got, want))
            if p.filename_suffix != ".x" or p["a"].value != 97:
                ctx.report("answers %s: suffix or value" % (bad,))
            ctx.count("traces")
        ctx.seen("states", str(bad))


class Pipe(io.RawIOBase):
    def __init__(self, data):
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        return self.f.read(n)

    def readable(self):
        return True

    def seek(self, *a):
        raise OSError(errno.ESPIPE, "seek")

    def tell(self):
        raise OSError(errno.ESPIPE, "seek")

    def seekable(self):
        return False


def missing(case, ctx):
    """Files which cannot be opened: an InputStreamError naming the file, whatever the tags."""
    from hachoir.stream import InputStreamError, FileInputStream
    tmp = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(tmp, "folder"))
        for name in ("none.x", "none/none.x", "folder", "n\u00e9ant"):
            path = os.path.join(tmp, name)
            for real_ in (None, path):
                for given in (None, [("file_ext", "y")]):
                    for fn in (createParser, FileInputStream):
                        ctx.count("transitions")
                        kw = {} if given is None else {"tags": given}
                        try:
                            got = fn("a name" if real_ else path, real_, **kw)
                            ctx.report("%s(%r, tags=%s) of a file which is not there: %r" % (fn.__name__, name, given, got))
                        except InputStreamError as e:
                            if ("a name" if real_ else name) not in str(e):
                                ctx.report("%s(%r): the error does not name the file: %s" % (fn.__name__, name, e))
                        except Exception as e:
                            ctx.report("%s(%r, tags=%s): %s: %s" % (fn.__name__, name, given, type(e).__name__, e))
                        ctx.count("traces")
    finally:
        shutil.rmtree(tmp)


def files(case, ctx):
    """createParser() on files: names, tags, closing; the tags of the caller stay as they are."""
    tmp = tempfile.mkdtemp()
    try:
        for outs in itertools.product((True, False, "raise"), repeat=2):
            classes = [stub("aaa", outs[0], ("x",)), stub("bbb", outs[1], ("y",))]
            for name in ("n.x", "n.y", "n", "n.Y", "x", ".y", "n.x.y", "d.x/n.y"):
                path = os.path.join(tmp, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(b"abc")
                for tags in (None, [], [("id", "bbb")], [("id", "zzz")], [("file_ext", "y"), None], [None]):
                    for how in ("name", "file"):
                        HachoirParserList._instance = database(classes)
                        ctx.count("transitions")
                        full = list(tags or []) + [("filename", path)]
                        want, validate, args = order(classes, full, None)
                        win = [c for c in want if valid(c, validate)][:1]
                        given = None if tags is None else list(tags)
                        f = open(path, "rb") if how == "file" else path
                        what = "%s %s, outcomes %s, tags %s" % (how, name, outs, tags)
                        try:
                            p = createParser(f, tags=given) if tags is not None else createParser(f)
                        except Exception as e:
                            ctx.report("%s: %s: %s" % (what, type(e).__name__, e))
                            continue
                        if given != (None if tags is None else list(tags)):
                            ctx.report("%s: the tags of the caller become %s" % (what, given))
                        if (type(p) is not win[0]) if win else (p is not None):
                            ctx.report("%s: parsed by %s instead of %s" % (what, type(p).__name__, [c.__name__ for c in win]))
                        if p is not None:
                            with p:
                                if p["a"].value != 97 or list(p.stream.tags) != full or p.stream.size != 24:
                                    ctx.report("%s: value %s, tags %s" % (what, p["a"].value, p.stream.tags))
                        if how == "file" and not f.closed:
                            ctx.report("%s: the file stays open" % what)
                            f.close()
                        left = [n for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + n) and os.readlink("/proc/self/fd/" + n).startswith(tmp)]
                        if left:
                            ctx.report("%s: %s descriptors stay open" % (what, len(left)))
                        ctx.count("traces")
    finally:
        shutil.rmtree(tmp)
        HachoirParserList._instance = None


BASE = {"id": "abc", "category": "misc", "file_ext": ("x",), "mime": ("m/m",), "min_size": 8, "description": "text", "magic": ((b"M", 0),)}
CHANGES = {"id": ["ab", "ABC", "a-b", 5, "abc", "xyz", "9ab", "_ab", "a_b", "abcd ", "DEL"], "category": ["misc", "none", 5, "image", "DEL"], "file_ext": ["x", (), ["x"], ("x", "y"), "DEL"],
           "mime": ["m/m", (5,), (), ("m/m", "n/n"), "DEL"], "min_size": [0, -1, 1, "DEL"], "description": ["", 5, None, "d", "DEL"], "magic": [(), "DEL"]}
import re


def accept(tags, ids):
    if "id" not in tags or type(tags["id"]) is not str or not re.fullmatch("[a-z0-9][a-z0-9_]{2,}", tags["id"]) or tags["id"] in ids:
        return False
    if not isinstance(tags.get("description"), str) or not tags["description"]:
        return False
    if not isinstance(tags.get("file_ext", ()), (tuple, list)) or not isinstance(tags.get("mime", ()), tuple) or not all(isinstance(m, str) for m in tags.get("mime", ())):
        return False
    if "min_size" in tags and tags["min_size"] <= 0:
        return False
    return "category" not in tags or tags["category"] in ParserList.VALID_CATEGORY


def registry(case, ctx):
    """ParserList.add(): what is refused, and the index of what is accepted."""
    keys = list(CHANGES)
    singles = [[(k, v)] for k in keys for v in CHANGES[k]]
    pairs = [[(k, v), (l, w)] for k, l in itertools.combinations(keys, 2) for v in CHANGES[k] for w in CHANGES[l]]
    for change in [[]] + singles + pairs:
        tags = dict(BASE)
        for k, v in change:
            if v == "DEL":
                tags.pop(k)
            else:
                tags[k] = v
        db = ParserList()
        first = type("First", (Parser,), {"PARSER_TAGS": {"id": "xyz", "category": "misc", "description": "d", "min_size": 8, "file_ext": ("x",)}})
        db.add(first)
        cls = type("New", (Parser,), {"PARSER_TAGS": tags})
        ctx.count("transitions")
        try:
            db.add(cls)
        except Exception as e:
            ctx.report("%s: %s: %s" % (change, type(e).__name__, e))
            continue
        want = accept(tags, ["xyz"])
        if list(db) != [first] + ([cls] if want else []):
            ctx.report("%s: the list is %s" % (change, list(db)))
            continue
        for name in ("id", "category", "file_ext", "mime"):
            index = db.bytag.get(name, {})
            for c in (first, cls):
                vals = c.getParserTags().get(name, ())
                vals = tuple(vals) if isinstance(vals, (list, tuple)) else (vals,)
                have = [v for v in index if c in index[v]]
                if sorted(map(str, have)) != sorted(map(str, vals if c is first or want else ())):
                    ctx.report("%s: %s is found by %s %s" % (change, c.__name__, name, have))
        ctx.count("traces")
        ctx.seen("states", str(change))


SHOWN = [{"id": "xyz", "category": "misc", "description": "An XyzFile of OtherWords", "file_ext": ("x", "abc"), "mime": ("a/b",)},
         {"id": "abc", "category": "image", "description": "picture", "file_ext": ("", "zz"), "mime": ("a/b", "image/x-y")},
         {"id": "mno", "category": "misc", "description": "TwoWords here"},
         {"id": "nop", "category": "file_system", "description": "no extension", "file_ext": ("",)},
         {"id": "aaa", "category": "program", "description": "The last of them", "mime": ("c/d",)}]


def listing(case, ctx):
    """ParserList.print_(): each parser once, in its category"""
    import io, re
    for count in range(1, len(SHOWN) + 1):
        for order in itertools.permutations(range(len(SHOWN)), count):
            db = ParserList()
            shown = [dict(SHOWN[k], min_size=8) for k in order]
            for t in shown:
                db.add(type("P" + t["id"], (Parser,), {"PARSER_TAGS": t}))
            cats = sorted({t["category"] for t in shown})
            lists = [(k, sorted((t for t in shown if t["category"] == k), key=lambda t: t["id"])) for k in cats]
            total = "Total: %s parsers" % count
            for fmt, title, verbose in itertools.product((None, "one_line", "rest", "trac", "file-ext", "mime"), (None, "The title"), (False, True)):
                out = io.StringIO()
                db.print_(title, out, verbose, **({} if fmt is None else {"format": fmt}))
                got = out.getvalue().split("\n")
                ctx.count("transitions")
                want = []
                if fmt in ("file-ext", "mime"):
                    vals = sorted({v for t in shown for v in t.get(fmt.replace("-", "_"), ()) if v})
                    name = {"file-ext": "file extensions", "mime": "MIME types"}[fmt]
                    want = ["%s: %s." % (name[0].upper() + name[1:], ", ".join(vals)), "", "Total: %s %s." % (len(vals), name)]
                elif fmt == "one_line":
                    want = [title or "List of Hachoir parsers.", ""] + ["- %s: %s" % (k.title(), ", ".join(t["id"] for t in ts)) for k, ts in lists] + [total]
                elif fmt == "rest":
                    for k, ts in lists:
                        want += [k.replace("_", " ").title(), "-" * len(k), ""] + ["* %s: %s" % (t["id"], t["description"]) for t in ts] + [""]
                    want += [total]
                elif fmt == "trac":
                    want = ["== List of parsers ==", "", total, ""]
                    for k, ts in lists:
                        want += ["=== %s ===" % k.replace("_", " ").title(), ""] + [" * %s: %s" % (t["id"], re.sub("([A-Z][a-z]+[A-Z][^ ]+)", r"!\1", t["description"])) for t in ts] + [""]
                else:
                    for k, ts in lists:
                        want += ["[%s]" % k]
                        for t in ts:
                            want += ["- %s: %s" % (t["id"], t["description"])]
                            if verbose:
                                want += ["  MIME type: " + ", ".join(t.get("mime", ()))] * ("mime" in t) + ["  File extension: " + ", ".join("." + e for e in t.get("file_ext", ()))] * ("file_ext" in t)
                        want += [""]
                    want += [total]
                if got != want + [""]:
                    ctx.report("list of %s, format %s, title %r, verbose %s: %s, expected %s" % ([t["id"] for t in shown], fmt, title, verbose, got, want))
            ctx.count("traces")
            ctx.seen("states", str(order))


def real(case, ctx):
    """The parsers of the library: distinct, indexed by their identifiers, with valid tags, found by them."""
    db = HachoirParserList.getInstance()
    classes = list(db)
    ids = [c.getParserTags()["id"] for c in classes]
    if len(set(ids)) != len(ids) or len(set(classes)) != len(classes):
        ctx.report("parsers are listed twice")
    for c in classes:
        tags = c.getParserTags()
        ctx.count("transitions")
        if not accept(tags, []):
            ctx.report("%s: tags %s" % (c.__name__, tags))
        if list(QueryParser([("id", tags["id"]), None])) != [c]:
            ctx.report("%s is not found by its identifier" % c.__name__)
        for name, value in [("file_ext", e) for e in tags.get("file_ext", ()) if e] + [("mime", m) for m in tags.get("mime", ())] + ([("category", tags["category"])] if "category" in tags else []):
            got = list(QueryParser([(name, value), None]))
            want = [d for d in classes if value == d.getParserTags().get(name) or value in (d.getParserTags().get(name) or ())] if name != "category" else [d for d in classes if d.getParserTags().get("category") == value]
            if got != want:
                ctx.report("%s %s: %s instead of %s" % (name, value, got, want))
        for ext in tags.get("file_ext", ()):
            if ext:
                for name in ("a." + ext, "dir.x/A." + ext.upper()):
                    if c not in list(QueryParser([("filename", name), None])):
                        ctx.report("%s: the file %s is not found by its extension" % (c.__name__, name))
        for magic in list(tags.get("magic", ())) + list(tags.get("magic_regex", ())):
            if len(magic) != 2 or not isinstance(magic[0], bytes) or not isinstance(magic[1], int):
                ctx.report("%s: magic %r is not a text and its offset" % (c.__name__, magic))
        ctx.count("traces")
    # every parser class of the package with an identifier is in the list
    for modname, mod in sorted(sys.modules.items()):
        if not modname.startswith("hachoir.parser.") or modname.endswith("template"):
            continue
        for name, cls in vars(mod).items():
            if isinstance(cls, type) and issubclass(cls, Parser) and "PARSER_TAGS" in vars(cls) and cls.__module__ == modname:
                ctx.count("listed")
                if cls not in classes and "id" in cls.getParserTags():
                    ctx.count("not listed: %s" % cls.__name__)


def main():
    c = lib.Check("P01", "model_checking",
                  "all combinations of the outcomes of 4 parsers (valid, refused with and without reason, failing, too small) x all sequences of tags up to the length; all results of validate() and sizes around the "
                  "minimum; all file names, tags and ways to open; all single and double changes of the tags of a parser; the list of the library: order of the tries, parser chosen, nothing raised or left open",
                  bounds={"tags": 3})
    outs = [list(o) for o in itertools.product((True, False, "raise", "init"), repeat=4)] if not c.quick else \
        [list(o) for o in itertools.product((True, False), repeat=4)] + [[o if i == j else b for j in range(4)] for i in range(4) for o in ("reason", "raise", "small", "init", None, 1) for b in (True, False)]
    c.domain("choose", [{"outs": o, "n": 3} for o in outs], choose)
    c.domain("validation", [{}], validation)
    c.domain("answers", [{}], answers)
    c.domain("files", [{}], files)
    c.domain("missing", [{}], missing)
    c.domain("registry", [{}], registry)
    c.domain("listing", [{}], listing)
    c.domain("real", [{}], real)
    c.main()


if __name__ == "__main__":
    main()
