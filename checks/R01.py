"""R01: concatenation, alternative and repetition of regular expressions give the language they mean, and leave their operands alone."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, rx

lib.quiet()
from hachoir import regex as R

LANG = {}


def lang(quick):
    if quick not in LANG:
        LANG[quick] = rx.Lang("ab\nc", 3 if quick else 4)
    return LANG[quick]


def text_of(r):
    # the text is rendered again: a cached text would hide a changed operand
    return r._str(python=True)


def judge(L, t, r, what, ctx):
    want = L.term(t)
    text = r.__str__(python=True)
    try:
        got = L.text(text)
    except re.error as e:
        raise lib.Violation("%s is %s: %s" % (what, text, e))
    if got != want:
        s, has = L.diff(got, want)
        raise lib.Violation("%s is %r: %s %r" % (what, text, "matches" if has else "does not match", s))
    ctx.seen("states", text)


def pairs(case, ctx):
    L = lang(ctx.quick or case["deep"])
    left = tuple_(case["t"])
    others = TERMS[case["others"]]
    for u in others:
        for op in "&|":
            for x, y in ((left, u), (u, left)):
                if rx.known((op, x, y)):
                    continue
                ctx.count("transitions")
                try:
                    a, b = rx.build(x), rx.build(y)
                    r = (a & b) if op == "&" else (a | b)
                    term = (op, x, y)
                    judge(L, term, r, "%s" % (term,), ctx)
                    judge(L, x, a, "after %s, its operand %s" % (term, x), ctx)
                    judge(L, y, b, "after %s, its operand %s" % (term, y), ctx)
                    # used again, in another expression
                    judge(L, ("&", x, ("s", "c")), a & R.createString("c"), "after %s, %s again" % (term, ("&", x, ("s", "c"))), ctx)
                    if not rx.known(y):
                        judge(L, ("|", y, ("s", "c")), b | R.createString("c"), "after %s, %s again" % (term, ("|", y, ("s", "c"))), ctx)
                    judge(L, term, r, "later, %s" % (term,), ctx)
                except lib.Violation as e:
                    ctx.report(e.msg)
                ctx.count("traces")


def repeats(case, ctx):
    L = lang(ctx.quick or case["deep"])
    t = tuple_(case["t"])
    for lo, hi in rx.REPEATS + [(0, 3), (3, 4), (3, None), (1, 3)]:
        term = ("*", t, lo, hi)
        if rx.known(term):
            continue
        ctx.count("transitions")
        a = rx.build(t)
        try:
            judge(L, term, R.RegexRepeat(a, lo, hi), "%s" % (term,), ctx)
            judge(L, t, a, "after %s, its operand" % (term,), ctx)
        except lib.Violation as e:
            ctx.report(e.msg)
        ctx.count("traces")


def matching(case, ctx):
    """match(): when it tells that an expression contains another, it does; equal expressions have equal languages."""
    L = lang(True)
    t = tuple_(case["t"])
    for u in TERMS[case["others"]]:
        if rx.known(t) or rx.known(u):
            continue
        a, b = rx.build(t), rx.build(u)
        la, lb = L.term(t), L.term(u)
        ctx.count("transitions")
        if a.match(b) and lb & ~la:
            ctx.report("%s matches %s, but not %r" % (t, u, L.diff(lb & ~la, 0)[0]))
        if a == b and la != lb:
            ctx.report("%s == %s, but they differ on %r" % (t, u, L.diff(la, lb)[0]))
        ctx.count("traces")


def ranges(case, ctx):
    """All [x-y] of a few characters: the characters between, or a refusal when there are none, never another language."""
    from hachoir.regex.regex import RegexRangeItem
    L = lang(True)
    chars = "\n\\]^-abc~\u00e9"
    for x in chars:
        for y in chars:
            for text in (None, "[%s-%s]", "[^%s-%s]"):
                ctx.count("transitions")
                ctx.count("traces")
                what = "RegexRangeItem(%r, %r)" % (x, y) if text is None else repr(text % (x, y))
                if text and (x in "\\]^" or y in "\\]-" or x == "-"):
                    continue
                try:
                    if text is None:
                        got = RegexRangeItem(ord(x), ord(y))
                    else:
                        got = R.parse(text % (x, y))
                except Exception as e:
                    if x <= y:
                        ctx.report("%s: %s: %s" % (what, type(e).__name__, e))
                    continue
                if x > y:
                    ctx.report("%s, a range without characters, is accepted: %r" % (what, got))
                elif text is None and (len(got) != ord(y) - ord(x) + 1 or [c for c in chars if (RegexRangeItem(ord(c)) in got) != (x <= c <= y)]):
                    ctx.report("%s: %d characters" % (what, len(got)))


def findings(case, ctx):
    L = lang(True)
    for name, t, now in rx.KNOWN:
        r = rx.build(t)
        got, want = L.text(text_of(r)), L.term(t)
        ctx.count("transitions")
        ctx.count("traces")
        if got != want:
            s, has = L.diff(got, want)
            ctx.report("%s is %r: %s %r" % (t, text_of(r), "matches" if has else "does not match", s), key=name if got == L.term(now) else None)


def tuple_(x):
    return tuple(tuple_(i) if isinstance(i, (list, tuple)) else i for i in x)


TERMS = {}


def main():
    c = lib.Check("R01", "model_checking",
                  "all expressions of the atoms up to the number of operations; the language of the result on all strings up to the length is compared with the one "
                  "Python gives to the unoptimised expression; a state is a distinct resulting expression",
                  bounds={"strings": "alphabet of 4 characters, length 3 (thorough: 4)", "operations": "1 + 1 (thorough: also pairs of expressions with one operation)"})
    TERMS[0] = rx.level(0)
    TERMS[1] = rx.level(1)
    c.domain("pairs", [{"t": t, "others": 0, "deep": False} for t in TERMS[1]], pairs)
    c.domain("repeats", [{"t": t, "deep": False} for t in (rx.level(1) + [("|", a, b) for a in rx.level(1) for b in rx.ATOMS] if c.quick else rx.level(2))], repeats)
    c.domain("matching", [{"t": t, "others": 1 if not c.quick else 0} for t in TERMS[1]], matching)
    if not c.quick:
        c.domain("pairs2", [{"t": t, "others": 1, "deep": True} for t in TERMS[1]], pairs)
    c.domain("ranges", [{}], ranges)
    c.domain("findings", [{}], findings)
    c.main()


if __name__ == "__main__":
    main()
