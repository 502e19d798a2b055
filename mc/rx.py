"""Regular expression terms: naive rendering for Python's re (the oracle), languages on all short strings."""
import functools, itertools, re



def esc(c):
    return "\\x%02x" % ord(c)


def naive(t):
    k = t[0]
    if k == "e":
        return "(?:)"
    if k == "s":
        return "".join(esc(c) for c in t[1])
    if k == "r":
        return "[%s%s]" % ("^" if t[2] else "", "".join(esc(c) for c in t[1]))
    if k in (".", "^", "$"):
        return k
    if k == "w":
        return r"\b"
    if k == "&":
        return "(?:%s)(?:%s)" % (naive(t[1]), naive(t[2]))
    if k == "|":
        return "(?:%s|%s)" % (naive(t[1]), naive(t[2]))
    if k == "*":
        return "(?:%s){%d,%s}" % (naive(t[1]), t[2], "" if t[3] is None else t[3])
    raise AssertionError(t)


def build(t):
    from hachoir import regex as R
    k = t[0]
    if k == "e":
        return R.RegexEmpty()
    if k == "s":
        return R.createString(t[1])
    if k == "r":
        return R.createRange(*t[1], exclude=t[2])
    if k == ".":
        return R.RegexDot()
    if k == "^":
        return R.RegexStart()
    if k == "$":
        return R.RegexEnd()
    if k == "w":
        return R.RegexWord()
    if k == "&":
        return build(t[1]) & build(t[2])
    if k == "|":
        return build(t[1]) | build(t[2])
    if k == "*":
        return R.RegexRepeat(build(t[1]), t[2], t[3])
    raise AssertionError(t)


class Lang(object):
    """Languages as bit masks on all strings over the alphabet up to a length."""

    def __init__(self, sigma, length):
        self.strings = ["".join(s) for n in range(length + 1) for s in itertools.product(sigma, repeat=n)]
        self.text = functools.lru_cache(maxsize=200000)(self._text)
        self.term = functools.lru_cache(maxsize=200000)(lambda t: self._text(naive(t)))

    def _text(self, text):
        m = re.compile(text).fullmatch
        return sum(1 << i for i, s in enumerate(self.strings) if m(s))

    def diff(self, a, b):
        """A shortest string on which two languages differ."""
        for i, s in enumerate(self.strings):
            if (a ^ b) >> i & 1:
                return s, bool(a >> i & 1)


def lengths(t):
    """(minimum, maximum or None) length of the strings of the language, anchors left aside; None if it has none."""
    k = t[0]
    if k in ("e", "^", "$", "w"):
        return 0, 0
    if k == "s":
        return len(t[1]), len(t[1])
    if k in ("r", "."):
        return 1, 1
    a = lengths(t[1])
    if k == "*":
        return a[0] * t[2], (a[1] * t[3] if t[3] is not None and a[1] is not None else 0 if a[1] == 0 else None)
    b = lengths(t[2])
    if k == "&":
        return a[0] + b[0], None if None in (a[1], b[1]) else a[1] + b[1]
    return min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1])


def anchored(t):
    return t[0] in ("^", "$", "w") or any(isinstance(x, tuple) and x and isinstance(x[0], str) and len(x[0]) == 1 and anchored(x) for x in t[1:] if isinstance(x, tuple))


ATOMS = [("e",), ("s", "a"), ("s", "b"), ("s", "ab"), ("s", "ac"), ("s", "bab"), ("s", "\n"), ("r", "a", False), ("r", "ab", False), ("r", "bc", False),
         ("r", "a", True), ("r", "ab", True), ("r", "bc\n", True), (".",), ("^",), ("$",), ("w",)]
REPEATS = [(0, 1), (0, None), (1, None), (2, 3), (0, 2), (2, None), (2, 2), (1, 2)]


def level(n, atoms=ATOMS):
    """All terms with n operations or less, where one side of an operation is an atom."""
    if n == 0:
        return list(atoms)
    prev = level(n - 1, atoms)
    out = list(prev)
    seen = set(out)
    for t in prev:
        for u in ([("*", t, a, b) for a, b in REPEATS] + [(o, t, x) for o in "&|" for x in atoms] + [(o, x, t) for o in "&|" for x in atoms]):
            if u not in seen:
                seen.add(u)
                out.append(u)
    return out


def walk(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            for y in walk(x):
                yield y


def known(t):
    """Is it one of the two wrong simplifications which the tests of the library require (known findings)?"""
    for x in walk(t):
        if x[0] == "|" and all(any(y[0] == "r" and y[2] for y in walk(z)) for z in x[1:3]):
            return True
        if x[0] == "*" and x[3] is None:
            inner = list(walk(x[1]))
            if any(y[0] == "|" for y in inner) and any(y[0] == "*" and y[2] >= 2 and y[3] is None for y in inner):
                return True
    return False


# (name, term, the language which it gets)
KNOWN = [("excluded-union", ("|", ("r", "ab", True), ("r", "ac", True)), ("r", "abc", True)),
         ("repeat-of-two-or-more", ("*", ("|", ("*", ("s", "a"), 2, None), ("s", "b")), 0, None), ("*", ("|", ("*", ("s", "a"), 2, 2), ("s", "b")), 0, None))]
