"""R02: the minimum and maximum lengths of a regular expression are those of its strings."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, rx

lib.quiet()
LANG = {}


def check(t, ctx, L=None):
    if rx.known(t):
        return
    ctx.count("transitions")
    lo, hi = rx.lengths(t)
    r = rx.build(t)
    got = r.minLength(), r.maxLength()
    # a repetition of nothing may have no limit
    if got[0] != lo or (got[1] != hi and not (got[1] is None and any(x[0] == "*" and rx.lengths(x[1])[1] == 0 for x in rx.walk(t)))):
        ctx.report("%s, which is %s: minimum and maximum lengths are %r instead of %r" % (t, r, got, (lo, hi)))
    if L:
        mask = L.term(t)
        sizes = {len(s) for i, s in enumerate(L.strings) if mask >> i & 1}
        if any(n < got[0] or (got[1] is not None and got[1] < n) for n in sizes):
            ctx.report("%s, which is %s: matches strings of lengths %r, the limits are %r" % (t, r, sorted(sizes), got))
    ctx.seen("states", (str(r), got))
    ctx.count("traces")


def lengths(case, ctx):
    L = LANG.setdefault(0, rx.Lang("ab\nc", 3))
    t = tuple_(case["t"])
    for lo, hi in rx.REPEATS:
        check(("*", t, lo, hi), ctx, L)
    for u in TERMS[0] if ctx.quick else TERMS[1]:
        for op in "&|":
            check((op, t, u), ctx, L if ctx.quick else None)
            check((op, u, t), ctx)


def tuple_(x):
    return tuple(tuple_(i) if isinstance(i, (list, tuple)) else i for i in x)


TERMS = {}


def main():
    c = lib.Check("R02", "model_checking",
                  "all expressions of the atoms up to the number of operations, with the lengths which follow from their construction and those of the strings they match; "
                  "a state is a resulting expression with its limits",
                  bounds={"operations": "2 (thorough: 3)"})
    TERMS[0] = rx.level(0)
    TERMS[1] = rx.level(1)
    c.domain("lengths", [{"t": t} for t in TERMS[1]], lengths)
    c.main()


if __name__ == "__main__":
    main()
