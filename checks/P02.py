"""P02: a truncated or corrupted file is parsed as far as possible: no error, no endless loop, fields which follow each other inside the file."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config
from hachoir.field import MissingField
from hachoir.field.seekable_field_set import RootSeekableFieldSet, SeekableFieldSet
from hachoir.metadata import extractMetadata
from hachoir.parser import HachoirParserList, Parser, guessParser
from hachoir.stream import StringInputStream

config.quiet = True
FILES = os.path.join(lib.REPO, "tests", "files")
BUDGET = 1200


class Data:
    cache = {}

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            cls.cache.clear()
            with open(os.path.join(FILES, name), "rb") as f:
                data = f.read()
            p = guessParser(StringInputStream(data, source="file:" + name, tags=[("filename", name)]))
            cls.cache[name] = (data, type(p) if p is not None else None)
        return cls.cache[name]


def walk(fs, what, ctx, budget, depth=0):
    """Visit the fields in order; True when the whole set was visited."""
    seekable = isinstance(fs, (SeekableFieldSet, RootSeekableFieldSet))
    done = True
    for f in fs:
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if f.parent is not fs:
            raise lib.Violation("%s: the parent of %s is %s" % (what, f.path, f.parent))
        if f.size is None or f.size < 0:
            raise lib.Violation("%s: %s has a size of %r" % (what, f.path, f.size))
        if not f.is_field_set and f.hasValue():
            f.value
        f.display
        f.description
        if f.is_field_set and depth < 60 and not walk(f, what, ctx, budget, depth + 1):
            done = False
            break
    # a set is repaired while it is parsed: its layout is looked at afterwards
    fields = list(fs._fields.values)
    pos = 0
    names = set()
    for f in fields:
        if f.name in names:
            raise lib.Violation("%s: %s is there twice" % (what, f.path))
        names.add(f.name)
        if not seekable and f.address != pos:
            raise lib.Violation("%s: %s is at %s, the previous field ends at %s" % (what, f.path, f.address, pos))
        pos = f.address + f.size
        if f.absolute_address + f.size > fs.stream.size:
            raise lib.Violation("%s: %s ends at %s, the file at %s" % (what, f.path, f.absolute_address + f.size, fs.stream.size))
    if not seekable and done and fs.size != pos and (fields or fs.size):
        raise lib.Violation("%s: the fields of %s end at %s, its size is %s" % (what, fs.path, pos, fs.size))
    return done


def parse(data, cls, what, ctx, valid=False, name="text"):
    ctx.count("transitions")
    try:
        p = cls(StringInputStream(data, source="file:" + name, tags=[]), validate=valid)
    except Exception:
        ctx.count("refused")
        return
    budget = [BUDGET]
    try:
        if walk(p, what, ctx, budget):
            ctx.count("whole trees")
        if not isinstance(p.description, str) or not isinstance(p.mime_type, str):
            raise lib.Violation("%s: description %r, MIME type %r" % (what, p.description, p.mime_type))
        if p.content_size is not None and not isinstance(p.content_size, int):
            raise lib.Violation("%s: content size %r" % (what, p.content_size))
        p.filename_suffix
        m = extractMetadata(p)
        if m is not None:
            ctx.count("metadata")
            for human in (True, False):
                lines = m.exportPlaintext(human=human)
                if lines is not None and not all(isinstance(x, str) for x in lines):
                    raise lib.Violation("%s: metadata %r" % (what, lines))
            m.exportDictionary()
    except lib.Violation as e:
        ctx.report(e.msg)
    except RecursionError:
        ctx.report("%s: endless recursion" % what)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.report("%s: %s: %s (%s:%s)" % (what, type(e).__name__, e, os.path.basename(tb.filename), tb.name))
    ctx.count("traces")
    ctx.count("fields", BUDGET - budget[0])


def cuts(name, data, cls, limit):
    """Truncations: all the first ones, and around the end of the fields."""
    out = set(range(1, min(len(data), limit) + 1))
    p = cls(StringInputStream(data, source="file:text"))
    todo, n = [p], 0
    while todo and n < 150:
        fs = todo.pop(0)
        for k, f in enumerate(fs):
            n += 1
            if k > 40 or n > 150:
                break
            end = (f.absolute_address + f.size) // 8 if fs.stream is p.stream else 0
            out |= {c for c in (end - 1, end, end + 1) if 0 < c < len(data)}
            if f.is_field_set:
                todo.append(f)
    return sorted(out)


def truncated(case, ctx):
    data, cls = Data.get(case["file"])
    if cls is None:
        return
    all_cuts = cuts(case["file"], data, cls, 24 if ctx.quick else 400)
    if ctx.quick and len(all_cuts) > 90:
        all_cuts = all_cuts[:60] + all_cuts[60::(len(all_cuts) - 60) // 30 + 1]
    for c in all_cuts[case["part"]::case["parts"]]:
        parse(data[:c], cls, "%s cut at %s" % (case["file"], c), ctx, name=case["file"])


def corrupted(case, ctx):
    data, cls = Data.get(case["file"])
    if cls is None:
        return
    for i in range(case["lo"], min(case["hi"], len(data))):
        old = data[i]
        for new in sorted({v for v in (0, 255, old ^ 1, old ^ 128, (old + 1) & 255, 127)[:case["n"]] if v != old}):
            changed = data[:i] + bytes([new]) + data[i + 1:]
            parse(changed, cls, "%s with byte %s at %s" % (case["file"], new, i), ctx, name=case["file"])
            if case["cut"] and i + 9 < len(data):
                parse(changed[:i + 9], cls, "%s with byte %s at %s, cut at %s" % (case["file"], new, i, i + 9), ctx, name=case["file"])
    ctx.seen("states", (case["file"], case["lo"]))


def whole(case, ctx):
    data, cls = Data.get(case["file"])
    if cls is None:
        ctx.report("%s is not parsed" % case["file"])
        return
    global BUDGET
    old, BUDGET = BUDGET, 20000
    try:
        parse(data, cls, case["file"], ctx, valid=True, name=case["file"])
    finally:
        BUDGET = old


def junk(case, ctx):
    """Every parser on streams which are not of its format."""
    cls = [c for c in HachoirParserList.getInstance() if c.__name__ == case["parser"]][0]
    # these compute 1 << N for a 32-bit N of the file, which they limit in validate()
    valid = case["parser"] in ("EXT2_FS", "MachoFatFile")
    base = [b"\0" * 300, b"\xff" * 300, bytes(range(256)), b"\x01\0" * 200, b"\0\0\0\x01" * 100, b"\x80" * 300, b"A" * 300, b"0" * 600, b"\x7f\xff\xff\xff" * 80]
    magics = [(m, o) for m, o in cls.getParserTags().get("magic", ())]
    for data in base:
        for n in (1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, len(data)):
            parse(data[:n], cls, "%s on %r..., %s bytes" % (cls.__name__, data[:4], n), ctx, valid)
            for m, o in magics[:3]:
                at = o // 8
                if 0 <= at < 4000:
                    d = (data * (1 + at // len(data)))[:at] + m + data[:n]
                    parse(d, cls, "%s on %r...+%r+%s bytes" % (cls.__name__, data[:4], m, n), ctx, valid)


def main():
    c = lib.Check("P02", "model_checking",
                  "all sample files x all truncations (the first ones and around the end of each of the first 150 fields) and all changes of one byte of the header; all parsers on constant streams with their "
                  "magic: iteration ends without error, fields follow each other up to the size, metadata are extracted and exported",
                  assumptions=["at most %s fields of each damaged file are visited" % BUDGET, "a constructor may refuse a file"],
                  bounds={"cuts": "first 24 bytes + field ends (thorough: 400)", "corruption": "first 40 bytes, 2 values (thorough: 256 bytes, 6 values, also cut behind)"})
    names = sorted(os.path.basename(f) for f in glob.glob(os.path.join(FILES, "*")) if os.path.isfile(f))
    c.domain("whole", [{"file": n} for n in names], whole, batch=1, cpu_limit=240)
    q = c.quick
    small = [n for n in names if os.path.getsize(os.path.join(FILES, n)) < (1 << 21)]
    parts = 4 if q else 8
    c.domain("truncated", [{"file": n, "part": k, "parts": parts} for n in small for k in range(parts)], truncated, batch=1, cpu_limit=240)
    top, step, vals = (40, 8, 2) if q else (256, 16, 6)
    c.domain("corrupted", [{"file": n, "lo": k, "hi": min(k + step, top), "n": vals, "cut": not q} for n in small for k in range(0, min(top, os.path.getsize(os.path.join(FILES, n))), step)],
             corrupted, batch=1, cpu_limit=240)
    c.domain("junk", [{"parser": p.__name__} for p in HachoirParserList.getInstance()], junk, batch=1, cpu_limit=240)
    c.main()


if __name__ == "__main__":
    main()
