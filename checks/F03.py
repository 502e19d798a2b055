"""F03: every field has one path, names are unique, and every way to write a path leads to its field."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.grammar import build
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir.field import MissingField
E = endians()
DATA = bytes((i * 37 + 11) & 0xff for i in range(64))


# -- the tree shapes: nested lists of names; a name with children is a field set ----------------
def trees(depth, width, names=("a", "b[]")):
    """Every tree with at most `width` children per set and `depth` levels, names from a small set."""
    if depth == 0:
        yield []
        return
    subs = list(trees(depth - 1, width, names))
    for k in range(1, width + 1):
        for combo in itertools.product(range(len(names)), repeat=k):
            for kids in itertools.product([None] + [s for s in subs if s], repeat=k):
                yield [(names[c], kid) for c, kid in zip(combo, kids)]


def to_items(tree):
    out = []
    for name, kids in tree:
        if kids:
            out.append(["s", name, None, to_items(kids)])
        else:
            out.append(["b", name, 2])
    return out


def expected_names(declared):
    """Numbering of "x[]" names, and of repeated names."""
    counts, used, out = {}, set(), []
    for n in declared:
        if n.endswith("[]"):
            key = n[:-2]
            counts[key] = counts.get(key, -1) + 1
            n = "%s[%d]" % (key, counts[key])
        if n in used:
            key = n
            counts[key] = counts.get(key, -1) + 1
            n = "%s[%d]" % (key, counts[key])
        used.add(n)
        out.append(n)
    return out


def all_fields(p):
    out = [(p, [])]

    def rec(s, path):
        for f in s:
            out.append((f, path + [f.name]))
            if f.is_field_set:
                rec(f, path + [f.name])
    rec(p, [])
    return out


def names_of(tree, s):
    want = expected_names([n for n, k in tree])
    got = [f.name for f in s]
    if got != want:
        raise lib.Violation("declared %r: names %r instead of %r" % ([n for n, k in tree], got, want))
    for (n, k), f in zip(tree, s):
        if k:
            names_of(k, f)


def paths(case, ctx):
    for tree in case["trees"]:
        p = build(to_items(tree))(StringInputStream(DATA))
        total = sum(1 for _ in flat(tree))
        # keep the raw field which completes the data out of the way
        sub = build([["s", "top", None, to_items(tree)]])(StringInputStream(DATA))["top"]
        names_of(tree, sub)
        fields = all_fields(sub.parent)
        if len(fields) != total + 3:
            raise lib.Violation("%d fields instead of %d" % (len(fields) - 3, total))
        seen = set()
        byid = dict((id(f), path) for f, path in fields)
        for f, path in fields:
            want = "/" + "/".join(path)
            if f.path != want:
                raise lib.Violation("path of %r is %s" % (want, f.path))
            if f.path in seen:
                raise lib.Violation("path %s twice" % f.path)
            seen.add(f.path)
            if f.parent is not None:
                if f.parent.path != ("/" + "/".join(path[:-1])):
                    raise lib.Violation("%s: parent is %s" % (want, f.parent.path))
                if list(f.parent)[f.index] is not f:
                    raise lib.Violation("%s: index %r" % (want, f.index))
        for f, fp in fields:
            for g, gp in fields:
                for key in spellings(f, fp, g, gp):
                    ctx.count("transitions")
                    for get in (lambda: f[key], lambda: f.getField(key), lambda: f.getField(key, const=False)):
                        try:
                            got = get()
                        except MissingField:
                            raise lib.Violation("%s[%r] is not found (%s exists)" % (f.path, key, g.path))
                        if got is not g:
                            raise lib.Violation("%s[%r] is %s instead of %s" % (f.path, key, got.path, g.path))
                    if (key in f) is not True:
                        raise lib.Violation("%r in %s is not True" % (key, f.path))
            # paths which lead nowhere
            for key in ("zz", "/zz", "./zz", "a/zz", "b[7]", "." * (len(fp) + 2), "/" + "." * 2, "../" * (len(fp) + 1) + "top", "zz/..", "a.", ".a"):
                if leads(f, fp, key, fields) is not None:
                    continue
                ctx.count("transitions")
                try:
                    got = f[key]
                except MissingField as e:
                    str(e)
                else:
                    raise lib.Violation("%s[%r] is %s" % (f.path, key, got.path))
                if key in f:
                    raise lib.Violation("%r in %s is True" % (key, f.path))
        ctx.count("traces")
        ctx.seen("states", repr(tree))
    ctx.sample(case["trees"][0])


def leads(f, fp, key, fields):
    """Reference resolution on the list of (field, path)."""
    table = dict(("/".join(p), g) for g, p in fields)
    cur = [] if key[0] == "/" else list(fp)
    for part in (key[1:] if key[0] == "/" else key).split("/"):
        if not part.strip("."):
            up = len(part) - 1
            if up > len(cur):
                return None
            if up > 0:
                cur = cur[:-up]
        else:
            cur = cur + [part]
            if "/".join(cur) not in table:
                return None
    return table["/".join(cur)]


def flat(tree):
    for n, k in tree:
        yield n
        if k:
            for x in flat(k):
                yield x


def spellings(f, fp, g, gp):
    yield "/" + "/".join(gp)
    # relative: up to the common ancestor and down
    c = 0
    while c < len(fp) and c < len(gp) and fp[c] == gp[c]:
        c += 1
    up, down = len(fp) - c, gp[c:]
    parts = [".."] * up + down
    if parts:
        yield "/".join(parts)
        yield "./" + "/".join(parts)
    else:
        yield "."
    if up:
        yield "/".join(["." * (up + 1)] + down)
    if down and f.is_field_set and not up:
        yield "/".join(down[:1] + [".", ".."] + down)
    if gp:
        yield "/" + "/".join(gp) + "/../" + gp[-1]


# -- names ---------------------------------------------------------------------------------------
def naming(case, ctx):
    pool = ["a", "b", "a[]", "b[]", "a[0]", "a[1]", "a[0][]", "raw[]"]
    for tail in itertools.product(pool, repeat=case["len"] - 1):
        declared = [pool[case["first"]]] + list(tail)
        p = build([["b", n, 8] for n in declared])(StringInputStream(DATA[:len(declared)]))
        got = [f.name for f in p]
        ctx.count("transitions", len(declared))
        if len(got) != len(declared):
            raise lib.Violation("%r: fields %r" % (declared, got))
        if len(set(got)) != len(got):
            raise lib.Violation("%r: names %r are not unique" % (declared, got))
        for i, (d, g) in enumerate(zip(declared, got)):
            if g != d and not g.startswith(d[:-2] if d.endswith("[]") else d):
                raise lib.Violation("%r: field %d is named %s" % (declared, i, g))
            if p[g] is not p.getField(i):
                raise lib.Violation("%r: %s is not field %d" % (declared, g, i))
            if p[g].value != DATA[i]:
                raise lib.Violation("%r: value of %s" % (declared, g))
        # without clashes, numbers follow the order
        if not any("[" in d and not d.endswith("[]") for d in declared) and len(set(x for x in declared if not x.endswith("[]"))) == len([x for x in declared if not x.endswith("[]")]):
            if got != expected_names(declared):
                raise lib.Violation("%r: names %r instead of %r" % (declared, got, expected_names(declared)))
        ctx.count("traces")
        ctx.seen("states", tuple(declared))
    ctx.sample(case)


# -- arrays --------------------------------------------------------------------------------------
def arrays(case, ctx):
    n, at = case["n"], case["where"]
    items = [["b", "x", 8]] + [["b", "item[]", 8]] * n + [["b", "y", 8], ["b", "other[]", 8]]
    if at:
        items = [["s", "sub", None, items], ["b", "z", 8]]
    key = at + "/item" if at else "item"
    ops = ["len", "iter", "bool", "in0", "inlast", "inn", "infar", "get0", "getlast", "getn", "getfar", "get1", "iter2"]
    first = ops[case["op"]]
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        p = build(items)(StringInputStream(DATA[:len(items) + n + 5]))
        base = p[at] if at else p
        want = ["%s" % f for f in ("item[%d]" % i for i in range(n))]
        seq = (first,) + rest
        for op in seq:
            arr = p.array(key)
            if p.array(key) is not arr:
                raise lib.Violation("two arrays for %s" % key)
            ctx.count("transitions")
            bad = None
            if op == "len":
                if len(arr) != n:
                    bad = "len is %d" % len(arr)
            elif op == "bool":
                if bool(arr) != (n > 0):
                    bad = "bool is %r" % bool(arr)
            elif op == "iter":
                if [f.name for f in arr] != want or [f.value for f in arr] != list(DATA[1:1 + n]):
                    bad = "iteration gives %r" % [f.name for f in arr]
            elif op == "iter2":
                a, b = iter(arr), iter(arr)
                if [(x.name, y.name) for x, y in zip(a, b)] != [(w, w) for w in want]:
                    bad = "two iterations differ"
            elif op[:2] == "in":
                i = {"0": 0, "last": n - 1, "n": n, "far": n + 5}[op[2:]]
                if i >= 0 and (i in arr) != (i < n):
                    bad = "%d in array: %r" % (i, i in arr)
            else:
                i = {"0": 0, "1": 1, "last": n - 1, "n": n, "far": n + 5}[op[3:]]
                if i < 0:
                    continue
                try:
                    f = arr[i]
                except MissingField:
                    if i < n:
                        bad = "[%d] is not found" % i
                else:
                    if i >= n or f is not base["item[%d]" % i] or f.value != DATA[1 + i]:
                        bad = "[%d] is %r" % (i, f)
            if bad:
                raise lib.Violation("array of %d: %s after %r" % (n, bad, seq))
        ctx.count("traces")
        ctx.seen("states", (n, at, seq))
    ctx.sample(case)


def main():
    c = lib.Check("F03", "model_checking",
                  "every tree shape within the bounds with every pair of fields and every spelling of the path between them; every sequence of "
                  "declared names up to the bound; every sequence of array accesses; states are the distinct trees, declarations and sequences",
                  bounds={"tree depth": 3, "width": 2, "names": 5, "array ops": 3})
    if c.quick:
        ts = list(trees(2, 2)) + list(trees(2, 3, ("b[]",))) + list(trees(3, 2, ("a",))) + list(trees(4, 1))
    else:
        ts = list(trees(2, 3)) + list(trees(3, 2, ("b[]",))) + list(trees(4, 1))
    c.bounds["trees"] = len(ts)
    b = 5
    c.domain("paths", [{"trees": ts[i:i + b]} for i in range(0, len(ts), b)], paths)
    c.domain("names", [{"first": f, "len": k} for k in ((1, 2, 3, 4, 5) if c.quick else (1, 2, 3, 4, 5, 6)) for f in range(8)], naming)
    c.domain("arrays", [{"n": n, "where": w, "op": o, "depth": 3 if c.quick else 4} for n in (0, 1, 2, 3) for w in ("", "sub") for o in range(13)], arrays)
    c.main()


if __name__ == "__main__":
    main()
