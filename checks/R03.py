"""R03: the text of a regular expression is read back as the same expression, and texts are read as Python reads them."""
import itertools, os, re, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, rx

lib.quiet()
from hachoir import regex as R
warnings.simplefilter("ignore")
LANG = {}


def lang(sigma, n):
    if (sigma, n) not in LANG:
        LANG[sigma, n] = rx.Lang(sigma, n)
    return LANG[sigma, n]


def same_text(L, text, want, what, ctx):
    try:
        got = L.text(text)
    except re.error as e:
        ctx.report("%s: Python refuses %r: %s" % (what, text, e))
        return
    if got != want:
        s, has = L.diff(got, want)
        ctx.report("%s: text %r %s %r" % (what, text, "matches" if has else "does not match", s))


def trip(L, r, want, what, ctx):
    ctx.count("transitions")
    for text in (str(r), r.__str__(python=True)):
        same_text(L, text, want, what, ctx)
        try:
            back = R.parse(text)
        except (SyntaxError, NotImplementedError, ValueError, IndexError, TypeError, AttributeError, AssertionError) as e:
            ctx.report("%s: its text %r is refused: %s %s" % (what, text, type(e).__name__, e))
            continue
        same_text(L, back.__str__(python=True), want, "%s: text %r read back" % (what, text), ctx)
    got = r.compile(python=True)
    if sum(1 << i for i, s in enumerate(L.strings) if got.fullmatch(s)) != want:
        ctx.report("%s: compiled, its language is another" % what)
    ctx.count("traces")
    ctx.seen("states", str(r))


def terms(case, ctx):
    L = lang("ab\nc", 3)
    t = tuple_(case["t"])
    for u in itertools.chain([None], TERMS[0] if not case["deep"] else TERMS[1]):
        for op in "&|":
            for x in ((op, t, u), (op, u, t)) if u is not None else (t,):
                if rx.known(x):
                    continue
                trip(L, rx.build(x), L.term(x), "%s" % (x,), ctx)


SPECIAL = "]^-\\[a.|$)("


def ranges(case, ctx):
    """Ranges of characters which are special in a range or in an expression."""
    first = case["first"]
    L = lang(SPECIAL + "bd", 1)
    for n in range(0, 4 if ctx.quick else 5):
        for rest in itertools.combinations(SPECIAL, n):
            chars = (first,) + rest
            for excl in (False, True):
                want = sum(1 << i for i, s in enumerate(L.strings) if len(s) == 1 and ((s in chars) != excl))
                trip(L, R.createRange(*chars, exclude=excl), want, "range of %r%s" % ("".join(chars), " excluded" if excl else ""), ctx)


def intervals(case, ctx):
    lo = case["lo"]
    L = lang("".join(chr(c) for c in range(0x24, 0x62)), 1)
    for hi in range(lo, 0x61):
        for extra in [None] + list("]^-\\["):
            for excl in (False, True):
                items = [R.RegexRangeItem(lo, hi)] + ([R.RegexRangeCharacter(extra)] if extra else [])
                want = sum(1 << i for i, s in enumerate(L.strings) if len(s) == 1 and ((lo <= ord(s) <= hi or s == extra) != excl))
                trip(L, R.RegexRange(items, excl), want, "range %r-%r and %r%s" % (chr(lo), chr(hi), extra, " excluded" if excl else ""), ctx)


def strings(case, ctx):
    """Every string matches itself only."""
    special = "a.^$*+?{}[]\\|()-, 1\n'\"#b\0\xe9"
    for n in range(1, 3 if ctx.quick else 4):
        for s in itertools.product(special, repeat=n - 1):
            s = case["first"] + "".join(s)
            ctx.count("transitions")
            r = R.createString(s)
            for text in (str(r), r.__str__(python=True)):
                m = re.compile(text)
                if not m.fullmatch(s) or any(m.fullmatch(t) for t in (s[:-1], s + "a", "x" + s[1:] if s[0] != "x" else "y", s[::-1]) if t != s):
                    ctx.report("string %r: text %r" % (s, text))
                try:
                    back = R.parse(text)
                except (SyntaxError, NotImplementedError, ValueError, IndexError, TypeError, AttributeError, AssertionError) as e:
                    ctx.report("string %r: its text %r is refused: %s %s" % (s, text, type(e).__name__, e))
                    continue
                if back != r:
                    ctx.report("string %r: text %r is read back as %r" % (s, text, back))
            ctx.count("traces")


ALPHA = "ab.|()[]^$*+?{}\\-2,"
REFUSED = (SyntaxError, NotImplementedError, ValueError)


def texts(case, ctx):
    L = lang("ab-|2", 3)
    for n in range(0, case["n"]):
        for rest in itertools.product(ALPHA, repeat=n):
            text = case["head"] + "".join(rest)
            ctx.count("transitions")
            try:
                r = R.parse(text)
            except REFUSED:
                ctx.count("refused")
                continue
            except Exception as e:
                if isinstance(e, TypeError) and str(e).startswith("Regex"):     # refused by the class: [b-a]
                    ctx.count("refused")
                    continue
                ctx.report("text %r: %s: %s" % (text, type(e).__name__, e))
                continue
            try:
                want = L.text(text)
            except (re.error, OverflowError):
                ctx.count("accepted, refused by Python")
                continue
            same_text(L, r.__str__(python=True), want, "text %r" % text, ctx)
            ctx.count("traces")
            ctx.seen("states", str(r))


def supported(case, ctx):
    """Texts of the supported grammar are accepted, and read as Python reads them."""
    L = lang("ab\nc", 3)
    t = tuple_(case["t"])

    def esc(s):
        return re.sub(r"([][^.+*?{}|()\\$])", r"\\\1", s)

    def text(t, inner=False):
        k = t[0]
        if k == "e":
            return "" if not inner else "()"
        if k == "s":
            return esc(t[1]) if not inner or len(t[1]) == 1 else "(%s)" % esc(t[1])
        if k == "r":
            return "[%s%s]" % ("^" if t[2] else "", t[1])
        if k in ".^$":
            return t[0] if not inner or k == "." else "(%s)" % k
        if k == "w":
            return "\\b" if not inner else "(\\b)"
        if k == "&":
            s = "".join(text(x) if x[0] != "|" else text(x) for x in t[1:])
            return "(%s)" % s if inner else s
        if k == "|":
            return "(%s|%s)" % (text(t[1]), text(t[2]))
        s = text(t[1], True)
        r = {(0, 1): "?", (0, None): "*", (1, None): "+"}.get((t[2], t[3]))
        r = r or ("{%d}" % t[2] if t[2] == t[3] else "{%d,%s}" % (t[2], "" if t[3] is None else t[3]))
        s += r
        return "(%s)" % s if inner else s
    for u in itertools.chain([None], TERMS[0] if not case["deep"] else TERMS[1]):
        for op in "&|":
            for x in ((op, t, u), (op, u, t)) if u is not None else (t, ("*", t, 2, 3), ("*", t, 0, 1)):
                if rx.known(x):
                    continue
                ctx.count("transitions")
                s = text(x)
                want = L.text(s)
                try:
                    r = R.parse(s)
                except Exception as e:
                    ctx.report("text %r is refused: %s: %s" % (s, type(e).__name__, e))
                    continue
                same_text(L, r.__str__(python=True), want, "text %r" % s, ctx)
                ctx.count("traces")


def tuple_(x):
    return tuple(tuple_(i) if isinstance(i, (list, tuple)) else i for i in x)


TERMS = {}


def main():
    c = lib.Check("R03", "model_checking",
                  "all expressions up to the number of operations, all sets and intervals of special characters, all strings and all texts up to the length: language of the text, "
                  "of the text read back and of the compiled expression; a state is a resulting expression",
                  bounds={"texts": "19 characters, length 4 (thorough: 5)", "operations": 2})
    TERMS[0] = rx.level(0)
    TERMS[1] = rx.level(1)
    c.domain("terms", [{"t": t, "deep": False} for t in TERMS[1]], terms)
    c.domain("ranges", [{"first": ch} for ch in SPECIAL + "b"], ranges)
    c.domain("intervals", [{"lo": lo} for lo in range(0x28, 0x61)], intervals)
    c.domain("strings", [{"first": ch} for ch in "a.^$*+?{}[]\\|()-, 1\n'\"#b\0\xe9"], strings)
    c.domain("texts", [{"head": "", "n": 1}] + [{"head": ch, "n": 1} for ch in ALPHA] + [{"head": a + b, "n": 3 if c.quick else 4} for a in ALPHA for b in ALPHA], texts)
    c.domain("supported", [{"t": t, "deep": not c.quick} for t in TERMS[1]], supported)
    c.main()


if __name__ == "__main__":
    main()
