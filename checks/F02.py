"""F02: what a field tree answers does not depend on what was asked before.

For every program of a list and every length of data, all sequences of accesses up to a depth are run
on a fresh tree (accesses by name, by path, by index, by bit address, membership, iteration in two
interleaved iterators, lengths, sizes, values, reads of the first n fields).  Each answer is compared
with the reference tree, whatever the order; an access never parses more of a field set than it needs.
"""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.grammar import build, model, ideal, shape, real_shape, norm, walk
from mc.streams import ref_bits, endians, PipeFile

lib.quiet()
from hachoir.stream import StringInputStream, InputIOStream
from hachoir.field import MissingField
E = endians()

A, N, X = ["b", "a", 3], ["u", "n[]", 1], ["r", "x", 1]
PROGRAMS = [
    [A, ["b", "b", 5], N, N, X],
    [N, N, N, ["b", "c", 4]],
    [["s", "s", None, [A, N]], X, N],
    [["s", "s", 16, [A, N]], X, N],
    [["s", "s", 8, [A, ["b", "b", 3], ["b", "d", 3]]], N],
    [A, ["s", "s", 21, [["b", "p", 5], ["s", "t", None, [X, A]], ["b", "q", 5]]], X],
    [A, ["s", "s", 21, [["b", "p", 5], ["s", "t", 11, [X, A]], ["b", "q", 5]]], X],
    [["s", "l[]", 8, [A]], ["s", "l[]", None, [A, ["b", "b", 2]]], ["eof", ["b", "e[]", 3]]],
    [N, ["!", "parser"], X],
    [["s", "s", 16, [A, ["!", "value"], X]], N, X],
    [["s", "s", None, [A, ["!", "value"]]], N],
    [N, ["s", "s", None, [X, ["!", "missing"]]], X],
    [A, A, A, X],
    [["u", "count", 1], ["cnt", "count", ["b", "i[]", 2]], X],
    [N, ["seek", 20], X],
    [X, ["s", "s", 24, [["seek", 12], N]], N],
    [["eof", ["s", "e[]", None, [["b", "x", 4], ["b", "y", 3]]]]],
    [["eof", ["s", "e[]", 12, [["b", "x", 4], ["b", "y", 3]]]]],
    [["s", "s", None, [["s", "t", None, [["s", "u", 8, [A]]]]]], X],
    [N, ["s", "s", 40, [X, ["s", "t", 16, [A]], X]], X],
    [["s", "s", 16, [["s", "t", 24, [X, X, X]]]], N],
    [X, ["s", "s", None, [["eof", ["b", "e[]", 5]]]]],
    [["u", "n[]", 2], ["s", "s", None, [["u", "n[]", 2], ["u", "n[]", 2]]]],
    [["peek", "a"], X], [X, ["peek", "x"], N],
]


class World(object):
    """The reference tree of one (program, length)."""

    def __init__(self, top, T, endian):
        self.content = bytes((3 + i * 71) & 0xff for i in range(T)) if not any(i[0] == "cnt" for i in top) else bytes([2] + [(3 + i * 71) & 0xff for i in range(T - 1)])
        self.endian = endian
        self.T = T
        self.top = top
        vo = lambda a, s: ref_bits(self.content, a, s, endian)
        self.nodes = model(top, 8 * T, vo)
        self.paths = dict((p[1:], n) for p, n in walk(self.nodes))
        self.kids = {"": self.nodes}
        for p, n in self.paths.items():
            if n.children is not None:
                self.kids[p] = n.children

    def value(self, n):
        return ref_bits(self.content, n.abs, n.size, self.endian)

    def ops(self, rich):
        names = [n.name for n in self.nodes]
        out = [("get", names[0]), ("get", names[-1]), ("get", "nosuch"), ("idx", "", len(names) - 1), ("idx", "", len(names)),
               ("next", 0), ("next", 1), ("len", ""), ("addr", "", 8 * self.T - 1), ("read", "", 2), ("const", names[-1]), ("in", names[-1])]
        if len(names) > 2:
            out += [("get", names[1]), ("idx", "", 1)]
        subs = [p for p in self.kids if p]
        for p in subs[:2 if rich else 1]:
            k = self.kids[p]
            out += [("get", p + "/" + k[-1].name), ("idx", p, 0), ("len", p), ("size", p), ("in", p + "/nosuch"), ("addr", p, k[0].addr)]
            if rich:
                out += [("get", p + "/" + k[0].name), ("list", p), ("read", p, 1)]
        if rich:
            out += [("list", ""), ("addr", "", 0), ("in", "nosuch/x"), ("idx", "", 0)]
        return out


class Run(object):
    def __init__(self, world, kind):
        self.w = world
        cls = build(world.top, E[world.endian])
        if kind == "string":
            self.p = cls(StringInputStream(world.content))
        else:
            self.p = cls(InputIOStream(PipeFile(world.content)))
        self.iters = [None, None]
        self.pos = [0, 0]
        self.objects = {}

    def check(self, f, path, why):
        """The field f is the one of the reference at this path."""
        w = self.w
        n = w.paths[path]
        if f.name != n.name or f.path != "/" + path:
            raise lib.Violation("%s: got field %s instead of /%s" % (why, f.path, path))
        if self.objects.setdefault(path, f) is not f:
            raise lib.Violation("%s: a second object for /%s" % (why, path))
        if f.address != n.addr or f.size != n.size or f.absolute_address != n.abs:
            raise lib.Violation("%s: /%s at %d+%r instead of %d+%d" % (why, path, f.address, f.size, n.addr, n.size))
        if n.children is None:
            v = f.value
            if n.abs % 8 and f.__class__.__name__ == "RawBytes" and not n.name.startswith("raw"):
                pass    # whole bytes are only read at a byte address: no value
            elif isinstance(v, bytes):
                if v != w.content[n.abs // 8:(n.abs + n.size) // 8]:
                    raise lib.Violation("%s: /%s has bytes %r" % (why, path, v))
            elif v != w.value(n):
                raise lib.Violation("%s: /%s has value %r instead of %r" % (why, path, v, w.value(n)))

    def base(self, path):
        return self.p[path] if path else self.p

    def step(self, op):
        w, p = self.w, self.p
        k = op[0]
        before = p.current_length
        need = None      # fields of the root this access may read
        if k in ("get", "in", "const"):
            path = op[1]
            exists = path in w.paths
            head = path.split("/")[0]
            index = [n.name for n in w.nodes].index(head) if head in w.paths else None
            if k == "get":
                try:
                    f = p[path]
                except MissingField:
                    if exists:
                        raise lib.Violation("/%s is not found" % path)
                else:
                    if not exists:
                        raise lib.Violation("/%s is found: %r" % (path, f))
                    self.check(f, path, "p[%r]" % path)
                need = None if index is None else index + 1
            elif k == "in":
                if (path in p) != exists:
                    raise lib.Violation("%r in the parser: %r" % (path, not exists))
                need = None if index is None else index + 1
            else:
                try:
                    f = p.getField(path)
                except MissingField:
                    if index is not None and index < before:
                        raise lib.Violation("field %s already read is not found" % path)
                else:
                    if index >= before:
                        raise lib.Violation("field %s found without reading although only %d fields are read" % (path, before))
                    self.check(f, path, "getField")
                need = 0
        elif k == "idx":
            s = self.base(op[1])
            kids = w.kids[op[1]]
            had = s.current_length
            try:
                f = s.getField(op[2], const=False)
            except MissingField:
                if op[2] < len(kids):
                    raise lib.Violation("field %d of /%s is not found" % (op[2], op[1]))
            else:
                if op[2] >= len(kids):
                    raise lib.Violation("field %d of /%s is found" % (op[2], op[1]))
                self.check(f, (op[1] + "/" if op[1] else "") + kids[op[2]].name, "by index")
            if op[1]:
                if op[2] < len(kids):
                    self.lazy(s, kids, had, op[2] + 1, w.paths[op[1]].lazy, op)
                need = [n.name for n in w.nodes].index(op[1].split("/")[0]) + 1
            else:
                need = op[2] + 1
        elif k == "next":
            i = op[1]
            if self.iters[i] is None:
                self.iters[i] = iter(p)
            try:
                f = next(self.iters[i])
            except StopIteration:
                if self.pos[i] < len(w.nodes):
                    raise lib.Violation("an iteration ends after %d of %d fields" % (self.pos[i], len(w.nodes)))
            else:
                if self.pos[i] >= len(w.nodes):
                    raise lib.Violation("an iteration gives more than %d fields" % len(w.nodes))
                self.check(f, w.nodes[self.pos[i]].name, "iteration")
                self.pos[i] += 1
            need = self.pos[i]
        elif k == "len":
            if len(self.base(op[1])) != len(w.kids[op[1]]):
                raise lib.Violation("len(/%s) is %d instead of %d" % (op[1], len(self.base(op[1])), len(w.kids[op[1]])))
            if op[1]:
                need = [n.name for n in w.nodes].index(op[1].split("/")[0]) + 1
        elif k == "size":
            if self.base(op[1]).size != w.paths[op[1]].size:
                raise lib.Violation("size of /%s is %r" % (op[1], self.base(op[1]).size))
            need = [n.name for n in w.nodes].index(op[1].split("/")[0]) + 1
        elif k == "addr":
            s = self.base(op[1])
            f = s.getFieldByAddress(op[2])
            hit = [n for n in w.kids[op[1]] if n.addr <= op[2] < n.addr + n.size]
            self.check(f, (op[1] + "/" if op[1] else "") + hit[0].name, "by address")
        elif k == "read":
            s = self.base(op[1])
            kids = w.kids[op[1]]
            had = s.current_length
            got = s.readFirstFields(op[2])
            now = s.current_length
            if got != now - had:
                raise lib.Violation("readFirstFields(%d) says %d fields added, not %d" % (op[2], got, now - had))
            if now < min(op[2], len(kids)):
                raise lib.Violation("readFirstFields(%d): only %d fields are read" % (op[2], now))
            if op[1]:
                need = [n.name for n in w.nodes].index(op[1].split("/")[0]) + 1
            else:
                need = op[2]
        elif k == "list":
            s = self.base(op[1])
            kids = w.kids[op[1]]
            fs = list(s)
            if len(fs) != len(kids):
                raise lib.Violation("iterating on /%s gives %d fields instead of %d" % (op[1], len(fs), len(kids)))
            for f, n in zip(fs, kids):
                self.check(f, (op[1] + "/" if op[1] else "") + n.name, "list")
            if op[1]:
                need = [n.name for n in w.nodes].index(op[1].split("/")[0]) + 1
        self.lazy(p, w.nodes, before, need, True, op)

    def lazy(self, s, kids, before, need, is_lazy, op):
        now = s.current_length
        if now < before:
            raise lib.Violation("%r lost fields of %s" % (op, s.path))
        if need is not None and is_lazy and now > max(before, need):
            # the repair of a set adds its raw field at the same time
            if not (s.done and now == len(kids)):
                raise lib.Violation("%r read %d fields of %s, %d are enough" % (op, now, s.path, max(before, need)))


def explore(case, ctx):
    w = World(PROGRAMS[case["prog"]], case["T"], case["endian"])
    want = shape(w.nodes)
    if case["kind"] == "pipe":
        if not exact(w):
            return
    ops = w.ops(case["rich"])
    for first in ops[case["op"]:case["op"] + 1]:
        for rest in itertools.product(ops, repeat=case["depth"] - 1):
            r = Run(w, case["kind"])
            seq = (first,) + rest
            i = 0
            try:
                for i, op in enumerate(seq):
                    r.step(op)
                    ctx.count("transitions")
                    ctx.seen("states", (case["prog"], case["T"], case["kind"], r.p.current_length, tuple(r.pos), seq[:i + 1] if case["depth"] < 3 else op))
                if real_shape(r.p) != want:
                    raise lib.Violation("final tree %r instead of %r" % (real_shape(r.p), want))
            except lib.Violation as e:
                raise lib.Violation("%s (program %r, %d bytes of %s, accesses %r)" % (e.msg, w.top, w.T, case["kind"], seq[:i + 1]))
            except Exception as e:
                raise lib.Violation("%s escapes: %s (program %r, %d bytes of %s, accesses %r)" % (type(e).__name__, e, w.top, w.T, case["kind"], seq[:i + 1]))
            ctx.count("traces")
    ctx.sample(case)


def exact(w):
    import F01
    vo = lambda a, s: ref_bits(w.content, a, s, w.endian)
    return F01.fits(w.top, w.T, vo)


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    c = lib.Check("F02", "model_checking",
                  "every sequence of accesses up to the depth, on every program of the list and length of data; a state is a distinct (tree, "
                  "fields read, iterator positions, access)",
                  assumptions=["the field set is not asked for its own fields while its generator runs"],
                  bounds={"depth": 3 if c_quick() else 4, "programs": len(PROGRAMS), "bytes": 7})
    cases = []
    depth = 3
    for i in range(len(PROGRAMS)):
        for T in ((2, 3, 5, 7) if c.quick else (1, 2, 3, 4, 5, 6, 7, 8)):
            w = World(PROGRAMS[i], T, "BIG")
            for kind in ("string", "pipe"):
                for o in range(len(w.ops(False))):
                    cases.append({"prog": i, "T": T, "kind": kind, "endian": "BIG", "op": o, "rich": False, "depth": depth})
    c.domain("sequences", cases, explore)
    cases = []
    for i in range(len(PROGRAMS)):
        for T in (1, 2, 3, 4, 5, 6, 7, 8):
            w = World(PROGRAMS[i], T, "LITTLE")
            for kind in ("string", "pipe"):
                for o in range(len(w.ops(True))):
                    cases.append({"prog": i, "T": T, "kind": kind, "endian": "LITTLE", "op": o, "rich": True, "depth": 2 if c.quick else 3})
    c.domain("more accesses", cases, explore)
    if not c.quick:
        cases = []
        for i in range(len(PROGRAMS)):
            for T in (3, 5):
                w = World(PROGRAMS[i], T, "BIG")
                for o in range(len(w.ops(False))):
                    cases.append({"prog": i, "T": T, "kind": "string", "endian": "BIG", "op": o, "rich": False, "depth": 4})
        c.domain("deeper", cases, explore)
    c.main()


def c_quick():
    return os.environ.get("VERIF_TIER") != "thorough"


if __name__ == "__main__":
    main()
