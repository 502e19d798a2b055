"""R04: searching several patterns at once finds their occurrences, and says which pattern each is."""
import itertools, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.regex import PatternMatching

STRINGS = ["a", "b", "ab", "ba", "aa", "abc", "c", "bc", "aba", "."]
REGEXES = ["[ab]c", "ab?", "a(b|c)", "a{2,3}", "[^a]b", "(ab|ba)c", "b{1,2}", "a.", "(a|ab)", "c[ab]{0,2}", "(ab){2}", "b?a", "(a|b|c)c", "a{0,2}c"]
ITEMS = [("s", s) for s in STRINGS] + [("r", r) for r in REGEXES]


def texts(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


_whole = {}


def whole(kind, p, s):
    """Does the pattern match the whole string? (Python's regex of that text, or equality)"""
    key = (kind, p, s)
    r = _whole.get(key)
    if r is None:
        r = _whole[key] = (s == p) if kind == "s" else bool(re.fullmatch(p, s))
    return r


def verify(pm, users, text, what, ctx):
    """pm.search(text) against the patterns added so far: users is a list of (kind, pattern, user)."""
    ctx.count("transitions")
    try:
        found = list(pm.search(text))
    except Exception as e:
        ctx.report("%s: search in %r: %s: %s" % (what, text, type(e).__name__, e))
        return
    last = 0
    covered = []
    for start, end, item in found:
        if not (last <= start <= end <= len(text)):
            ctx.report("%s: in %r: (%s, %s) after %s" % (what, text, start, end, last))
            return
        last = end
        part = text[start:end]
        mine = [u for u in users if u[2] is item.user]
        if len(mine) != 1:
            ctx.report("%s: in %r: item %r of nobody" % (what, text, item))
            return
        if not whole(mine[0][0], mine[0][1], part):
            ctx.report("%s: in %r: %r at %s is given to %r" % (what, text, part, start, mine[0][:2]))
            return
        if end > start:
            covered.append((start, end))
        if not (pm.max_length >= end - start):
            ctx.report("%s: in %r: %r is longer than the maximum %s" % (what, text, part, pm.max_length))
            return
    for i in range(len(text)):
        for j in range(i + 1, len(text) + 1):
            if any(s < j and i < e for s, e in covered):
                continue
            for u in users:
                if whole(u[0], u[1], text[i:j]):
                    ctx.report("%s: in %r: %r at %s is not found" % (what, text, u[1], i))
                    return
    # an occurrence of the only string possible is found where it is, whole
    if len(users) == 1 and users[0][0] == "s" and found != []:
        want = [(m.start(), m.end()) for m in re.finditer(re.escape(users[0][1]), text)]
        if [f[:2] for f in found] != want:
            ctx.report("%s: in %r: %s" % (what, text, [f[:2] for f in found]))
    ctx.count("traces")


def whom(pm, users, what, ctx):
    """getPattern() of every short text."""
    for s in texts("abc", 3):
        ctx.count("transitions")
        may = [u for u in users if whole(u[0], u[1], s)]
        try:
            item = pm.getPattern(s)
        except KeyError:
            if may:
                ctx.report("%s: getPattern(%r) finds nothing" % (what, s))
            continue
        if not any(item.user is u[2] for u in may):
            ctx.report("%s: getPattern(%r) is %r" % (what, s, item))
        if s in [u[1] for u in users if u[0] == "s"] and not any(u[0] == "s" and u[1] == s and u[2] is item.user for u in users):
            ctx.report("%s: getPattern(%r) is %r, not the string" % (what, s, item))
        ctx.count("traces")


def add(pm, users, kind, p, n):
    user = ["user %s" % n]
    if kind == "s":
        pm.addString(p, user)
        if not any(u[0] == "s" and u[1] == p for u in users):
            users.append((kind, p, user))
    else:
        pm.addRegex(p, user)
        users.append((kind, p, user))


def sets(case, ctx):
    n = case["n"]
    first = tuple(case["first"])
    for rest in itertools.product(ITEMS, repeat=n - 1):
        pm, users = PatternMatching(), []
        for k, (kind, p) in enumerate((first,) + rest):
            add(pm, users, kind, p, k)
        what = " + ".join(p for k, p, u in users)
        whom(pm, users, what, ctx)
        for text in texts("abc", case["len"]):
            verify(pm, users, text, what, ctx)
        ctx.seen("states", what)


OPS = [("s", "ab"), ("s", "b"), ("s", "abc"), ("r", "b?c"), ("r", "a."), ("r", "[ac]b"), ("search",), ("max",)]


def histories(case, ctx):
    """Patterns added between two searches count for the next one."""
    for ops in itertools.product(OPS, repeat=case["n"] - 1):
        ops = (OPS[case["first"]],) + ops
        pm, users = PatternMatching(), []
        for k, op in enumerate(ops):
            if op[0] == "search":
                for text in ("abcab", "cbaba.c", "", "xbx"):
                    verify(pm, users, text, str(ops[:k + 1]), ctx)
            elif op[0] == "max":
                for text in ("ab", "abc", "b"):
                    if any(whole(u[0], u[1], text) for u in users) and pm.max_length < len(text):
                        ctx.report("%s: the maximum length is %s" % (ops[:k + 1], pm.max_length))
            else:
                add(pm, users, op[0], op[1], k)
            ctx.count("transitions")
        for text in ("abcab", "cbaba.c", "xbx"):
            verify(pm, users, text, str(ops), ctx)
        ctx.seen("states", str(ops))


def latin(case, ctx):
    """Strings of special and non ASCII characters are found as they are (magic strings are read as Latin-1)."""
    alpha = "\0\n\r.\xff[\\("
    for n in range(1, 3):
        for p in itertools.product(alpha, repeat=n):
            p = "".join(p)
            pm, users = PatternMatching(), []
            add(pm, users, "s", case["first"], 0)
            add(pm, users, "s", p, 1)
            for text in texts(alpha, 3):
                verify(pm, users, text, repr(sorted([case["first"], p])), ctx)
            ctx.seen("states", p)


def main():
    c = lib.Check("R04", "model_checking",
                  "all sequences of patterns up to the length (%d strings and %d regular expressions), all texts over 3 letters up to the length, all histories of additions and searches: "
                  "each part found is an occurrence of its pattern, in order, and no other occurrence is left; a state is a set of patterns" % (len(STRINGS), len(REGEXES)),
                  bounds={"patterns": "2 on texts of 5 letters, 3 on texts of 4 (thorough: 6, 5)", "history": "4 (thorough: 6)"})
    for n, q, t in ((1, 6, 8), (2, 5, 6), (3, 3, 5)):
        c.domain("sets%d" % n, [{"first": it, "n": n, "len": q if c.quick else t} for it in ITEMS], sets)
    c.domain("histories", [{"first": i, "n": 4 if c.quick else 6} for i in range(len(OPS))], histories)
    c.domain("latin", [{"first": ch} for ch in "\0\n\r.\xff[\\("], latin)
    c.main()


if __name__ == "__main__":
    main()
