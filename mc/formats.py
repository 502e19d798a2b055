"""Helpers of the checks which write a file and compare what is parsed from it"""
import re
from mc import lib
from hachoir.core import config
from hachoir.metadata import extractMetadata
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream

config.quiet = True
ANY = object()


COMPLAINTS = ("[Autofix]", "Error getting", "Unable to create", "Fix address", "Duplicate field")
ALLOW = []      # (class, path, text): expressions of the messages which are no failure (the reason is told where they are added)
STRICT = {"ctx": None, "name": "", "on": False}


def listen(ctx, name, strict):
    """From now on, a repair or a failure while a field is read is a violation: the files written here are well-formed"""
    from hachoir.core.log import log
    if STRICT["ctx"] is None:
        def newMessage(level, text, ctxt=None):
            if STRICT["ctx"] is not None and text.startswith(COMPLAINTS) and STRICT["on"] and "found unparsed segment" not in text:
                where = (STRICT["name"], str(getattr(ctxt, "path", None)), text)
                if any(all(re.search(a, b) for a, b in zip(rule, where)) for rule in ALLOW):
                    return
                STRICT["ctx"].report("%s: %s on a well-formed file: %s" % where)
        log.newMessage = newMessage
    STRICT["ctx"] = ctx
    STRICT["name"] = name
    STRICT["on"] = strict


def opened(ctx, data, cls, strict=True):
    """The parser which hachoir chooses; its class is checked"""
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", data)
    STRICT["on"] = False
    p = guessParser(StringInputStream(data, source="file:x", tags=[]))
    listen(ctx, cls.__name__, strict)
    if type(p) is not cls and type(p).__name__ != "ASN1File":   # (no signature, only a length which may fit)
        ctx.report("%s bytes are opened by %s, not %s" % (len(data), type(p).__name__, cls.__name__))
    if type(p) is not cls:
        p = cls(StringInputStream(data, source="file:x", tags=[]), validate=True)
    return p


def direct(ctx, data, cls, strict=True):
    """The parser of this class (for formats without a signature)"""
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", data)
    listen(ctx, cls.__name__, strict)
    return cls(StringInputStream(data, source="file:x", tags=[]), validate=True)


def expect(ctx, what, got, want):
    if got != want:
        ctx.report("%s: %s, expected %s" % (what, lib.short(got, 150), lib.short(want, 150)))
        return False
    return True


def get(p, path):
    """Value of the field, or None"""
    try:
        return p[path].value
    except lookup_errors:
        return "no field"


lookup_errors = (LookupError,)


def fields(ctx, what, p, **want):
    for path, v in want.items():
        got = get(p, path.replace("__", "/"))
        if got != v or type(got) is not type(v) and isinstance(got, bool) != isinstance(v, bool):
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


def contiguous(ctx, what, p, size, depth=1):
    pos = 0
    for f in p:
        if f.address != pos:
            ctx.report("%s: %s is at %s, expected %s" % (what, f.path, f.address, pos))
            return
        pos += f.size
        if depth and f.is_field_set and f.size:
            contiguous(ctx, what, f, f.size, depth - 1)
    if size is not None and pos != size:
        ctx.report("%s: the fields of %s end at bit %s of %s" % (what, p.path, pos, size))


def metadata(p):
    return extractMetadata(p, 1.0)


def plain(m, key):
    if m is None or not m.has(key):
        return None
    v = m.getValues(key)
    return v[0] if len(v) == 1 else v


def check_meta(ctx, what, m, **want):
    for key, v in want.items():
        got = plain(m, key)
        same = abs(got - v) < 1e-6 * max(1, abs(v)) if isinstance(v, float) and isinstance(got, (int, float)) else got == v
        if not same:
            ctx.report("%s: %s of the metadata is %r, expected %r" % (what, key, got, v))


def groups(m):
    """Names of the groups of the metadata"""
    d = m.exportDictionary(human=False)
    return [k for k in d if k in m]
