"""S05: the file-like view of a stream behaves as a read-only binary file."""
import os, sys, io, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import make, KINDS

lib.quiet()
from hachoir.stream import StreamError


def alphabet(n):
    ops = [("read", None), ("read", 0), ("read", 1), ("read", n - 1), ("read", n + 5), ("tell",),
           ("seek", 0, 0), ("seek", 1, 0), ("seek", n, 0), ("seek", n + 3, 0), ("seek", 1, 1), ("seek", 2, 1),
           ("seek", 0, 2), ("seek", -1, 2), ("seek", -n, 2), ("seek", 2, 2), ("stream", 0, 1), ("stream", n - 1, 1), ("seek", -1, 1)]
    return ops


def close(s):
    try:
        s.close()
    except Exception:
        pass


def run_seq(kind, content, seq, ctx, views=1):
    s, keep = make(kind, content)
    if s is None:
        return False
    refs = [io.BytesIO(content) for _ in range(views)]
    fs = [s.file() for _ in range(views)]
    hist = []
    for v, op in seq:
        f, r = fs[v], refs[v]
        ctx.count("transitions")
        if op[0] == "stream":
            want = content[op[1]:op[1] + op[2]]
            got = s.readBytes(8 * op[1], op[2])
        elif op[0] == "read":
            want = r.read(op[1]) if op[1] is not None else r.read()
            got = f.read(op[1]) if op[1] is not None else f.read()
        elif op[0] == "tell":
            want, got = r.tell(), f.tell()
        else:
            p = {0: 0, 1: r.tell(), 2: len(content)}[op[2]] + op[1]
            if p < 0:
                return False       # seeking before the start is not defined
            r.seek(op[1], op[2])
            f.seek(op[1], op[2])
            want = got = None
        hist.append((v, op, got))
        if got != want:
            raise lib.Violation("file view of a %s stream of %d bytes: %r gives %s instead of %s after %r" % (
                kind, len(content), op, lib.short(repr(got), 100), lib.short(repr(want), 100), [h[:2] for h in hist[:-1]]),
                content=content)
    for v in range(views):
        if fs[v].tell() != refs[v].tell():
            raise lib.Violation("file view of a %s stream of %d bytes: position %r instead of %r after %r" % (
                kind, len(content), fs[v].tell(), refs[v].tell(), seq))
        if fs[v].read() != refs[v].read():
            raise lib.Violation("file view of a %s stream of %d bytes: rest of the file after %r" % (kind, len(content), seq))
    ctx.seen("states", (kind, len(content), repr(hist)))
    ctx.count("traces")
    for f in fs:
        if hasattr(f, "close"):
            close(f)
    return True


def one(case, ctx):
    content = bytes.fromhex(case["content"])
    ops = alphabet(len(content))
    for tail in itertools.product(ops, repeat=case["tail"]):
        seq = [(0, ops[i]) for i in case["prefix"]] + [(0, o) for o in tail]
        run_seq(case["kind"], content, seq, ctx)
    ctx.sample({"kind": case["kind"], "sequence": repr(seq)})


def two(case, ctx):
    """Two views of one stream and the stream itself, requests interleaved, on a longer content."""
    n = case["n"]
    content = bytes((i * 61 + (i >> 8) * 7) & 0xff for i in range(n))
    ops = [("read", 4), ("read", 5000), ("seek", 7, 0), ("seek", n - 10, 0), ("seek", -20, 2), ("stream", n // 2, 40), ("stream", 5, 3), ("read", None)]
    al = [(v, o) for v in (0, 1) for o in ops if not (v and o[0] == "stream")]
    for tail in itertools.product(al, repeat=case["tail"]):
        run_seq(case["kind"], content, (al[case["first"]],) + tail, ctx, 2)


def main():
    c = lib.Check("S05", "model_checking",
                  "every sequence of seek/tell/read on the file view, alone and interleaved with a second view and reads of the stream, "
                  "for every kind of stream, against io.BytesIO; a state is a distinct (kind, history)",
                  assumptions=["seeks before the start of the file and the value returned by seek() are not covered"],
                  bounds={"depth": 3 if os.environ.get("VERIF_TIER") != "thorough" else 4})
    cases = []
    contents = ["00112233445566778899", "5a", "0102"] if c.quick else ["00112233445566778899", "5a", "010203"]
    for kind in KINDS:
        for h in contents:
            na = len(alphabet(len(h) // 2))
            for i in range(na):
                cases.append({"kind": kind, "content": h, "prefix": [i], "tail": 2 if c.quick else 3})
    c.domain("view", cases, one)
    n_al = 14
    kinds2 = KINDS
    c.domain("interleaved", [{"kind": k, "n": n, "first": f, "tail": 1 if c.quick else 2} for k in kinds2 for n in (20000, 70000) for f in range(n_al)], two)
    c.main()


if __name__ == "__main__":
    main()
