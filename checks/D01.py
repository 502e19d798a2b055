"""D01: the ordered dictionary behaves as a list of (key, value) pairs with distinct keys."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core.dict import Dict, UniqKeyError

KEYS = "abc"


class Model(object):
    def __init__(self, pairs=()):
        self.l = []
        for k, v in pairs:
            self.append(k, v)

    def pos(self, k):
        for i, (x, v) in enumerate(self.l):
            if x == k:
                return i
        return None

    def append(self, k, v):
        if self.pos(k) is not None:
            raise UniqKeyError()
        self.l.append((k, v))

    def set(self, k, v):
        i = self.pos(k)
        if i is None:
            raise KeyError(k)
        self.l[i] = (k, v)

    def replace(self, k, n, v):
        i = self.pos(k)
        if i is None:
            raise KeyError(k)
        if n != k and self.pos(n) is not None:
            raise UniqKeyError()
        self.l[i] = (n, v)

    def delete(self, i):
        if not -len(self.l) <= i < len(self.l):
            raise IndexError(i)
        del self.l[i]

    def insert(self, i, k, v):
        if self.pos(k) is not None:
            raise UniqKeyError()
        if not -len(self.l) <= i <= len(self.l):
            raise IndexError(i)
        self.l.insert(i, (k, v))


def apply(d, op, v, model):
    k = op[0]
    if k == "append":
        d.append(op[1], v)
    elif k == "set":
        if model:
            d.set(op[1], v)
        else:
            d[op[1]] = v
    elif k == "replace":
        d.replace(op[1], op[2], v)
    elif k == "del":
        if model:
            d.delete(op[1])
        else:
            del d[op[1]]
    elif k == "insert":
        d.insert(op[1], op[2], v)


OPS = ([("append", k) for k in KEYS] + [("set", k) for k in KEYS] + [("replace", k, n) for k in KEYS for n in KEYS + "d"]
       + [("del", i) for i in (-4, -3, -2, -1, 0, 1, 2, 3)] + [("insert", i, k) for k in KEYS for i in (-4, -2, -1, 0, 1, 2, 4)])


def compare(d, m, what):
    l = m.l
    got = (len(d), list(d), list(d.values), list(d.items()), list(d.iterkeys()), list(d.itervalues()), repr(d))
    want = (len(l), [v for k, v in l], [v for k, v in l], l, [k for k, v in l], [v for k, v in l],
            "{%s}" % ", ".join("%r: %r" % x for x in l))
    if got != want:
        raise lib.Violation("after %s: %r instead of %r" % (what, got, want))
    for k in KEYS + "dz":
        i = m.pos(k)
        if d.index(k) != i or (k in d) != (i is not None):
            raise lib.Violation("after %s: index of %r is %r instead of %r, membership %r" % (what, k, d.index(k), i, k in d))
        try:
            v = d[k]
        except KeyError:
            if i is not None:
                raise lib.Violation("after %s: key %r is not found" % (what, k))
        else:
            if i is None or v != l[i][1]:
                raise lib.Violation("after %s: d[%r] is %r" % (what, k, v))


def step(d, m, op, n, hist):
    a = lib.outcome(apply, d, op, n, False, errors=(KeyError, IndexError, UniqKeyError))
    b = lib.outcome(apply, m, op, n, True, errors=(KeyError, IndexError, UniqKeyError))
    if a != b:
        raise lib.Violation("%r: %r instead of %r (history %r)" % (op, a, b, hist))
    compare(d, m, "%r" % (hist,))


def explore(case, ctx):
    """Breadth-first: every distinct dictionary (as an ordered list of keys) reached within the depth, every
    operation from each; then every sequence of the rest of the depth."""
    for rest in itertools.product(OPS, repeat=case["depth"] - len(case["prefix"])):
        hist = [tuple(o) for o in case["prefix"]] + list(rest)
        d, m = Dict(), Model()
        for n, op in enumerate(hist):
            if n < len(hist) - 1 and n >= 2:
                # compared when this prefix was the last operation of a shorter sequence: apply only
                lib.outcome(apply, d, op, n, False, errors=(KeyError, IndexError, UniqKeyError))
                lib.outcome(apply, m, op, n, True, errors=(KeyError, IndexError, UniqKeyError))
            else:
                step(d, m, op, n, hist[:n + 1])
        ctx.count("transitions", len(hist))
        ctx.count("traces")
        ctx.seen("states", tuple(m.l))
    ctx.sample(case)


def states(case, ctx):
    """From every dictionary with up to 4 of 5 keys, in every order: every pair of operations."""
    keys = case["keys"]
    for a in OPS:
        for b in OPS:
            pairs = [(k, 10 + i) for i, k in enumerate(keys)]
            d, m = Dict(pairs), Model(pairs)
            compare(d, m, "creation with %r" % keys)
            step(d, m, a, 100, (keys, a))
            step(d, m, b, 200, (keys, a, b))
            ctx.count("transitions", 2)
            ctx.count("traces")
            ctx.seen("states", tuple(m.l))


def main():
    c = lib.Check("D01", "model_checking",
                  "every sequence of operations up to the depth from the empty dictionary, and every pair of operations from every ordered choice "
                  "of keys; a state is a distinct list of (key, value)", bounds={"depth": 3 if os.environ.get("VERIF_TIER") != "thorough" else 4, "keys": 4})
    c.domain("sequences", [{"prefix": [list(o)], "depth": d} for d in ((1, 2, 3) if c.quick else (1, 2, 3, 4)) for o in OPS], explore)
    c.domain("from every dictionary", [{"keys": list(p)} for k in range(5) for p in itertools.permutations("abcdz", k)], states)
    c.main()


if __name__ == "__main__":
    main()
