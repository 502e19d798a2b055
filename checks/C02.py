"""C02: the texts made for people and the small tools say what their argument is."""
import itertools, os, re, stat, sys
from datetime import datetime, timedelta, timezone
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.stream import StringInputStream, guessStreamCharset
from hachoir.core import i18n, tools

EDGES = sorted({v for k in range(0, 66) for d in (-2, -1, 0, 1, 2) for v in ((1 << k) + d, 10 ** (k // 3) * (1 + k % 3 * 2) + d, 999 * 10 ** (k // 4) + d, 86400 * k + d, 3600 * k + d, 1024 ** (k // 12) * 1023 + d) if v >= 0})


def same(ctx, what, got, want):
    ctx.count("transitions")
    if got != want or type(got) is not type(want):
        ctx.report("%s: %s, expected %s" % (what, lib.short(got), lib.short(want)))


def scaled(text, size, units, divisor, top):
    """The text shows the size in the unit which gives less than the divisor."""
    m = re.match(r"^(\d+(?:\.\d+)?) (\w+)$", text)
    if not m or m.group(2) not in units:
        return "no number and unit"
    k = units.index(m.group(2)) + 1
    exact = Fraction(size, divisor ** k)
    if exact >= divisor and k < len(units):
        return "the unit is too small"
    if k > 1 and Fraction(size, divisor ** (k - 1)) < divisor:
        return "the unit is too large"
    limit = Fraction(1, 20) if exact < divisor else Fraction(1)
    if abs(Fraction(m.group(1)) - exact) > limit + exact / 10 ** 12:
        return "the number is not %s" % float(exact)
    if exact < divisor and not re.match(r"^\d+\.\d ", text):
        return "not one digit behind the point"


def amounts(case, ctx):
    for v in itertools.chain(range(case["lo"], case["hi"]), EDGES[case["part"]::case["parts"]]):
        ctx.count("traces")
        ctx.seen("states", v)
        if v < 10000:
            same(ctx, "humanFilesize(%s)" % v, tools.humanFilesize(v), "%s bytes" % v)
        else:
            bad = scaled(tools.humanFilesize(v), v, ["KB", "MB", "GB", "TB"], 1024, None)
            if bad:
                ctx.report("humanFilesize(%s) is %r: %s" % (v, tools.humanFilesize(v), bad))
        if v < 1000:
            same(ctx, "humanBitSize(%s)" % v, tools.humanBitSize(v), "%s bits" % v)
            same(ctx, "humanFrequency(%s)" % v, tools.humanFrequency(v), "%s Hz" % v)
        else:
            for f, units in ((tools.humanBitSize, ["Kbit", "Mbit", "Gbit", "Tbit"]), (tools.humanFrequency, ["kHz", "MHz", "GHz", "THz"])):
                bad = scaled(f(v), v, units, 1000, None)
                if bad and v < 10 ** 18:
                    ctx.report("%s(%s) is %r: %s" % (f.__name__, v, f(v), bad))
        same(ctx, "humanBitRate(%s)" % v, tools.humanBitRate(v), tools.humanBitSize(v) + "/sec")
        if v < 86400 * 365 * 9000 * 1000:
            same(ctx, "humanDuration(%s)" % v, tools.humanDuration(v), duration(v))
            same(ctx, "humanDuration(timedelta of %s ms)" % v, tools.humanDuration(timedelta(milliseconds=v)), duration(v))
            text = tools.humanDurationNanosec(v)
            if v < 1000:
                want = "%s nsec" % v
            elif v < 10 ** 9:
                unit, div = ("usec", 1000) if v < 10 ** 6 else ("ms", 10 ** 6)
                m = re.match(r"^(\d+\.\d\d) %s$" % unit, text)
                # the milliseconds are made of whole microseconds
                want = text if m and abs(Fraction(m.group(1)) - Fraction(v // (div // 1000) * (div // 1000), div)) <= Fraction(1, 200) + Fraction(1, 10 ** 9) else "a text near %s %s" % (v / div, unit)
            else:
                want = duration(v // 10 ** 6)
            same(ctx, "humanDurationNanosec(%s)" % v, text, want)
        d = timedelta(microseconds=v) if v < 1 << 55 else None
        if d is not None and v < 1 << 50:
            if abs(tools.timedelta2seconds(d) - v / 1e6) > 1e-6 * max(1, v / 1e9):
                ctx.report("timedelta2seconds(%r) is %r" % (d, tools.timedelta2seconds(d)))
        for align in (1, 2, 3, 4, 7, 8, 16, 512):
            up = -(-v // align) * align
            same(ctx, "alignValue(%s, %s)" % (v, align), tools.alignValue(v, align), up)
            same(ctx, "paddingSize(%s, %s)" % (v, align), tools.paddingSize(v, align), up - v)


def duration(ms):
    parts = []
    for name, unit in (("years", 365 * 86400000), ("days", 86400000), ("hours", 3600000), ("min", 60000), ("sec", 1000), ("ms", 1)):
        n, ms = divmod(ms, unit)
        if n:
            parts.append("%s %s" % (n, name))
    return " ".join(parts[:3]) or "0 ms"


# ---- dates ----------------------------------------------------------------------------------

EPOCHS = {"timestampUNIX": (datetime(1970, 1, 1), 10 ** 6, 0), "timestampMac32": (datetime(1904, 1, 1), 10 ** 6, 0),
          "timestampWin64": (datetime(1601, 1, 1), Fraction(1, 10), 2), "timestampUUID60": (datetime(1582, 10, 15), Fraction(1, 10), 2)}


def dates(case, ctx):
    name = case["name"]
    f = getattr(tools, name)
    epoch, unit, error = EPOCHS[name]
    step = int(86400 * 10 ** 6 / unit)
    values = {d * step + s for d in range(case["lo"], case["hi"]) for s in (-1, 0, 1, step // 2, int(3723 * 10 ** 6 / unit))}
    values |= set(EDGES) | {-1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1}
    if name in ("timestampUNIX", "timestampMac32"):
        values |= {v + 0.5 for v in list(values)[:2000] if v < 1 << 33} | {-0.5}
    for v in sorted(values):
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", (name, v))
        top = {"timestampUNIX": 2 ** 31 - 1, "timestampMac32": 2 ** 32 - 1}.get(name)
        us = Fraction(v) * unit
        try:
            want = epoch + timedelta(microseconds=int(us)) if 0 <= v and (top is None or v <= top) else None
        except OverflowError:
            want = None
        try:
            got = f(v)
        except ValueError:
            got = None
        if name == "timestampMac32" and isinstance(got, str):
            if got != "invalid Mac timestamp (%s)" % v:
                ctx.report("timestampMac32(%s) is %r" % (v, got))
            got = None
        if (got is None) != (want is None):
            if want is None or want < datetime(9999, 12, 31, 23, 59, 59):
                ctx.report("%s(%s): %r, expected %r" % (name, v, got, want))
        elif got is not None and abs(got - want) > timedelta(microseconds=error and int(error + us / (1 << 52))):
            ctx.report("%s(%s): %r, expected %r" % (name, v, got, want))
        if got is not None:
            same(ctx, "humanDatetime(%r)" % got, tools.humanDatetime(got), got.strftime("%%04d-%m-%d %H:%M:%S") % got.year)
            same(ctx, "humanDatetime(%r, False)" % got, tools.humanDatetime(got, False), got.strftime("%%04d-%m-%d %H:%M:%S") % got.year + (".%06d" % got.microsecond if got.microsecond else ""))


def durations(case, ctx):
    for name, unit in (("durationWin64", Fraction(1, 10)), ("durationMillisWin64", 1000)):
        f = getattr(tools, name)
        for v in EDGES + [-1, 5, 15, 123456789]:
            if v * unit >= 86400 * 10 ** 6 * 999999999:
                continue
            ctx.count("transitions")
            ctx.count("traces")
            try:
                got = f(v)
            except ValueError:
                got = None
            if v < 0:
                if got is not None:
                    ctx.report("%s(%s): %r" % (name, v, got))
            elif got is None or abs(got - timedelta(microseconds=int(v * unit))) > timedelta(microseconds=1 + v * unit // (1 << 52)):
                ctx.report("%s(%s): %r" % (name, v, got))
    for name in list(EPOCHS) + ["durationWin64", "durationMillisWin64"]:
        for v in ("1", None, b"1", datetime(2000, 1, 1)):
            try:
                got = getattr(tools, name)(v)
            except TypeError:
                continue
            ctx.report("%s(%r): %r" % (name, v, got))


# ---- printable texts ------------------------------------------------------------------------

NAMES = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\a": "\\a", "\b": "\\b"}


def printable(data, charset, quote, smart):
    if not data:
        return "(empty)" if quote else ""
    if isinstance(data, bytes):
        data = "".join(map(chr, data))
        charset = "ASCII"
    top = {"ASCII": 128, "ISO-8859-1": 256, "UTF-8": 0x110000}[charset]
    text = ""
    for c in data:
        if c in NAMES:
            text += NAMES[c]
        elif ord(c) < 32 or ord(c) == 127:
            text += "\\x%02x" % ord(c)
        elif quote is not None and quote in "\"'" and c == quote:
            text += "\\" + c
        elif ord(c) >= top:
            text += "\\x%02x" % ord(c) if ord(c) < 256 else "\\u%04x" % ord(c)
        else:
            text += c
    if quote:
        text = quote + text + quote
    if smart:
        out, k = "", 0
        while k < len(text):
            if text[k:k + 3] == "\\x0" and text[k + 3:k + 4] in set("01234567") and text[k + 4:k + 5] not in set("01234567"):
                out += "\\" + text[k + 3]
                k += 4
            else:
                out += text[k]
                k += 1
        text = out
    return text


ALPHA = "a07\0\7\x01\n\x1f\x7f\"'\\x\xe9\u20ac"


def printables(case, ctx):
    letters = ALPHA
    for seq in itertools.product(letters, repeat=case["n"]):
        if case["n"] and seq[0] != case["first"]:
            continue
        text = "".join(seq)
        ctx.count("traces")
        ctx.seen("states", text)
        values = [text] if "\u20ac" in text else [text, text.encode("latin-1")]
        for v in values:
            for charset in ("ASCII", "ISO-8859-1", "UTF-8")[:3 if isinstance(v, str) else 1]:
                for quote in (None, '"', "'", "|")[:4 if case["n"] < 4 else 2]:
                    for smart in (True, False):
                        same(ctx, "makePrintable(%r, %s, quote=%r, smart=%s)" % (v, charset, quote, smart), tools.makePrintable(v, charset, quote, smart), printable(v, charset, quote, smart))
            want = printable(text, "UTF-8", None, True)
            same(ctx, "makeUnicode(%r)" % (v,), tools.makeUnicode(v), want)


def lines(case, ctx):
    for seq in itertools.product("a\r\n ", repeat=case["n"]):
        text = "".join(seq)
        ctx.count("traces")
        ctx.seen("states", text)
        want, last = "", False
        for c in text:
            if c in "\r\n":
                if not last:
                    want += "\n"
                last = True
            else:
                want += c
                last = False
        same(ctx, "normalizeNewline(%r)" % text, tools.normalizeNewline(text), want)


# ---- searches, modes, charsets --------------------------------------------------------------

def searches(case, ctx):
    for seq in itertools.combinations_with_replacement(range(6), case["n"]):
        for key in range(-1, 7):
            ctx.count("traces")
            ctx.seen("states", (seq, key))
            ctx.count("transitions", 2)
            got = tools.binarySearch(seq, lambda x: key - x)
            if (got is None) != (key not in seq) or got is not None and seq[got] != key:
                ctx.report("binarySearch(%s) for %s: %r" % (seq, key, got))
            got = tools.binarySearch(seq[::-1], lambda x: x - key)
            if (got is None) != (key not in seq) or got is not None and seq[::-1][got] != key:
                ctx.report("binarySearch(%s) for %s, descending: %r" % (seq[::-1], key, got))
            same(ctx, "lowerBound(%s) for less than %s" % (seq, key), tools.lowerBound(seq, lambda x: x < key), sum(x < key for x in seq))
            same(ctx, "lowerBound(%s) for at most %s" % (seq, key), tools.lowerBound(seq, lambda x: x <= key), sum(x <= key for x in seq))


def modes(case, ctx):
    for mode in range(case["lo"], case["hi"]):
        ctx.count("traces")
        ctx.seen("states", mode)
        text = stat.filemode(mode)
        kind = stat.S_IFMT(mode)
        known = {0: "-", stat.S_IFREG: "-", stat.S_IFBLK: "b", stat.S_IFCHR: "c", stat.S_IFDIR: "d", stat.S_IFIFO: "p", stat.S_IFLNK: "l", stat.S_IFSOCK: "s"}
        same(ctx, "humanUnixAttributes(%o)" % mode, tools.humanUnixAttributes(mode), "%s%s (%o)" % (known.get(kind, "?"), text[1:], mode))


CHARS = [(set("©®éêè\xE0ç".encode("ISO-8859-1")), "ISO-8859-1"), (set("©®éêè\xE0ç€".encode("ISO-8859-15")), "ISO-8859-15"), (set("©®".encode("MacRoman")), "MacRoman"),
         (set("εδηιθκμοΡσςυΈί".encode("ISO-8859-7")), "ISO-8859-7")]


def charset(data, default):
    for bom, name in ((b"\xef\xbb\xbf", "UTF-8"), (b"\xff\xfe", "UTF-16-LE"), (b"\xfe\xff", "UTF-16-BE")):
        if data[:len(bom)] == bom:
            return name
    if all(b < 128 for b in data):
        return "ASCII"
    try:
        data.decode("UTF-8")
        return "UTF-8"
    except UnicodeDecodeError:
        pass
    high = {b for b in data if b >= 128}
    for chars, name in CHARS:
        if not high - chars:
            return name
    return default


HIGH = [0x41, 0xa9, 0xae, 0xe9, 0xea, 0xe0, 0xe7, 0xa4, 0xa8, 0xe5, 0xd1, 0xc3, 0xef, 0xbb, 0xbf, 0xff, 0xfe, 0xe2, 0x80, 0x00]


def charsets(case, ctx):
    alphabet = range(256) if case["n"] <= 2 else HIGH
    for seq in itertools.product(alphabet, repeat=case["n"]):
        if case["n"] > 2 and seq[0] != case["first"]:
            continue
        data = bytes(seq)
        ctx.count("traces")
        ctx.seen("states", data)
        for default in (None, "x"):
            ctx.count("transitions")
            got = i18n.guessBytesCharset(data, default=default)
            if got != charset(data, default):
                ctx.report("guessBytesCharset(%r, %r): %r, expected %r" % (data, default, got, charset(data, default)))
        for before, after in ((b"", b""), (b"\xe9", b"\xa4\xff")) if case["n"] else ():
            ctx.count("transitions")
            got = guessStreamCharset(StringInputStream(before + data + after), 8 * len(before), 8 * len(data), "x")
            if got != charset(data, "x"):
                ctx.report("guessStreamCharset(%r before, %r after), %r: %r, expected %r" % (before, after, data, got, charset(data, "x")))


def charsets_long(case, ctx):
    """Only the first 1024 bytes of a stream are looked at"""
    for n in (1, 1023, 1024, 1025, 1026, 5000):
        for last in (b"a", b"\xe9", b"\xa9", b"\xff"):
            for at in (n - 1, min(n, 1024) - 1, 0):
                data = b"a" * at + last + b"a" * (n - 1 - at)
                got = guessStreamCharset(StringInputStream(data), 0, 8 * n, "x")
                ctx.count("transitions")
                if got != charset(data[:1024], "x"):
                    ctx.report("guessStreamCharset of %s bytes, %r at %s: %r, expected %r" % (n, last, at, got, charset(data[:1024], "x")))


def main():
    c = lib.Check("C02", "model_checking",
                  "all amounts up to the limit and around powers, all days, all texts over the alphabet, all sorted sequences, all file modes, all short byte strings, against direct definitions",
                  assumptions=["dates of 100 ns units are exact up to 53 bits (float)"],
                  bounds={"amounts": "2^14 (thorough 2^20) and powers", "texts": "length 3 (4) over %s characters" % len(ALPHA), "modes": "all 16 bits", "byte strings": "all of 2 bytes, 20 values up to length 3 (4)"})
    q = c.quick
    top = 1 << (14 if q else 20)
    n = 16 if q else 64
    c.domain("amounts", [{"lo": top // n * k, "hi": top // n * (k + 1), "part": k, "parts": n} for k in range(n)], amounts, batch=1, cpu_limit=600)
    days = 25000 if q else 50000
    c.domain("dates", [{"name": m, "lo": k, "hi": k + 2500} for m in sorted(EPOCHS) for k in range(0, days, 2500)], dates, batch=1, cpu_limit=300)
    c.domain("durations", [{}], durations, batch=1)
    for n in range(0, 4 if q else 5):
        c.domain("texts %s" % n, [{"n": n, "first": f} for f in (ALPHA if n else "a")], printables, batch=1, cpu_limit=600)
    for n in range(0, 7 if q else 9):
        c.domain("lines %s" % n, [{"n": n}], lines, batch=1, cpu_limit=300)
    for n in range(0, 6 if q else 8):
        c.domain("searches %s" % n, [{"n": n}], searches, batch=1, cpu_limit=300)
    c.domain("modes", [{"lo": k, "hi": k + 8192} for k in range(0, 65536, 8192)], modes, batch=1)
    for n in range(0, 4 if q else 5):
        c.domain("charsets %s" % n, [{"n": n, "first": f} for f in (HIGH if n > 2 else [0])], charsets, batch=1, cpu_limit=300)
    c.domain("long texts", [{}], charsets_long)
    c.main()


if __name__ == "__main__":
    main()
