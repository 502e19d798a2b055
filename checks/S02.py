"""S02: every kind of stream over the same content answers every sequence of requests alike."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import ref_bits, endians, make, KINDS

lib.quiet()
from hachoir.stream import InputStreamError, StreamError
from hachoir.stream.input import NullStreamError

E = endians()


def ref(content, op):
    """Expected answer; None = must be refused with a stream error."""
    n = len(content)
    k = op[0]
    if k == "bits":
        return ref_bits(content, op[1], op[2], op[3])
    if k == "bytes":
        a = op[1] // 8
        return content[a:a + op[2]] if a + op[2] <= n else None
    if k == "read":
        a, e = op[1] // 8, (op[1] + op[2] + 7) // 8
        return (op[1] % 8, content[a:e]) if e <= n else None
    if k == "ge":
        return 8 * n >= op[1]
    if k == "search":
        start, end = op[2] // 8, n if op[3] is None else min(n, op[3] // 8)
        i = content[:end].find(op[1], start) if start <= end else -1
        return 8 * i if i >= 0 else False
    if k == "slen":
        i = content.find(op[1])
        return (i + (len(op[1]) if op[2] else 0)) if i >= 0 else False
    raise lib.HarnessError(op)


def do(s, op):
    k = op[0]
    try:
        if k == "bits":
            return s.readBits(op[1], op[2], E[op[3]])
        if k == "bytes":
            return s.readBytes(op[1], op[2])
        if k == "read":
            shift, data, missing = s.read(op[1], op[2])
            return None if missing else (shift, data)
        if k == "ge":
            return bool(s.sizeGe(op[1]))
        if k == "search":
            r = s.searchBytes(op[1], op[2], op[3])
            return False if r is None else r
        if k == "slen":
            r = s.searchBytesLength(op[1], op[2])
            return False if r is None else r
    except StreamError:
        return None


def alphabet(content, full):
    n = len(content)
    T = 8 * n
    ops = []
    mid = 8 * (n // 2)
    ops += [("bytes", 0, n), ("bytes", 8 * (n - 1), 1), ("bytes", 8 * (n - 1), 2), ("bytes", mid, 1), ("bytes", T, 1),
            ("bytes", 0, n + 1), ("bytes", mid, n - n // 2)]
    ops += [("bits", max(0, mid - 3), 6, "BIG"), ("bits", 0, T, "LITTLE"), ("bits", T - 1, 1, "BIG"), ("bits", T - 1, 2, "LITTLE"),
            ("bits", 1, T - 1, "BIG")]
    ops += [("read", max(0, mid - 8), 13), ("read", 3, T - 4), ("read", T + 16, 8)]
    ops += [("ge", T), ("ge", T + 1), ("ge", 1), ("ge", mid + 5)]
    ops += [("search", content[-2:], 0, None), ("search", content[-1:], mid, None), ("search", b"\xee\xee", 0, None),
            ("search", content[:1], 8, None), ("search", content[n // 2:n // 2 + 2], 0, mid + 8),
            ("search", content[n // 2:n // 2 + 2], 0, mid + 16), ("slen", content[n // 2:n // 2 + 1], True),
            ("slen", content[-3:], False), ("search", content[-2:], 0, T + 80)]
    return ops


def check_size(s, content, kind, seq):
    size = s.size
    if size is not None and size != 8 * len(content):
        raise lib.Violation("%s stream of %d bytes reports size %r after %r" % (kind, len(content), size, seq))


def run_seq(kind, content, seq, ctx):
    try:
        s, keep = make(kind, content)
    except NullStreamError:
        if content:
            raise lib.Violation("%s stream: refused as empty" % kind, content=content)
        return
    if s is None:
        return
    check_size(s, content, kind, ())
    hist = []
    ended = False
    for op in seq:
        want = ref(content, op)
        got = do(s, op)
        hist.append((op, got))
        ctx.count("transitions")
        if got != want or type(got) is not type(want):
            raise lib.Violation("%s stream: %r gives %s instead of %s (after %d other requests)" % (
                kind, op, lib.short(repr(got), 120), lib.short(repr(want), 120), len(hist) - 1),
                kind=kind, content=content, sequence=list(seq), answers=[repr(h) for h in hist])
        check_size(s, content, kind, seq)
        if (want is None or want is False) and op[0] != "search" and op[0] != "slen":
            ended = True
    if ended and s.size is None:
        raise lib.Violation("%s stream: the size is still unknown after a request past the end" % kind, sequence=list(seq))
    ctx.seen("states", (kind, len(content), s.size, tuple(map(repr, hist))))
    ctx.count("traces")


def case(c, ctx):
    content = bytes.fromhex(c["content"])
    ops = alphabet(content, not ctx.quick)
    first = [ops[i] for i in c["prefix"]]
    for tail in itertools.product(ops, repeat=c["tail"]):
        run_seq(c["kind"], content, tuple(first) + tail, ctx)
    ctx.sample({"kind": c["kind"], "content": c["content"], "sequence": repr(tuple(first) + tail)})


def search_case(c, ctx):
    """Every start/end on a small content with repeats, and needles across chunk boundaries."""
    content = bytes.fromhex(c["content"])
    n = len(content)
    needles = sorted({content[i:i + k] for i in range(n) for k in (1, 2, 3)} | {b"\xff\xfe", content + b"\x00"})
    for needle in needles:
        for a in range(n + 1):
            for b in [None] + list(range(0, n + 2)):
                op = ("search", needle, 8 * a, None if b is None else 8 * b)
                run_seq(c["kind"], content, (op,), ctx)


def boundary_case(c, ctx):
    """A needle placed at each offset around a multiple of the reading unit."""
    base, unit, kind = c["len"], c["unit"], c["kind"]
    for needle in (b"\xaa", b"\xaa\xbb", b"\xaa\xbb\xcc\xaa\xbb\xdd", b"\xaa" * 5, bytes(range(160, 160 + 33)),
                   bytes((i * 7 + 129) & 0x7f | 0x80 for i in range(1500))):
        L = len(needle)
        for start in (0, 8 * 3):
            for off in sorted(set(list(range(-L - 1, 3)) if L < 50 else [-L - 1, -L, -L + 1, -L // 2, -1, 0, 1])):
                for mult in (1, 2):
                    p = unit * mult + off + start // 8
                    if p < start // 8 or p + L > base:
                        continue
                    content = bytearray(base)
                    if L > 1:      # near misses before
                        content[p // 2:p // 2 + L - 1] = needle[:-1]
                        if p // 2 + L - 1 > p:
                            continue
                    content[p:p + L] = needle
                    content = bytes(content)
                    for end in (None, 8 * (p + L), 8 * (p + L - 1)):
                        run_seq(kind, content, (("search", needle, start, end),), ctx)
                    run_seq(kind, content, (("slen", needle, True), ("bytes", 8 * p, L)), ctx)


def main():
    c = lib.Check("S02", "model_checking",
                  "all sequences of requests (bits, bytes, raw reads, size tests, searches) up to the depth, on every "
                  "kind of stream built over the same content, compared with a reference over the plain bytes; a state "
                  "is a distinct (kind, history of answers)",
                  assumptions=["pipe sources answer with at least one byte before their end",
                               "windows lie inside their parent stream"],
                  bounds={"depth": 2 if os.environ.get("VERIF_TIER") != "thorough" else 3, "kinds": len(KINDS)})
    contents = [bytes.fromhex("00112233445566778899"), b"\x5a", b"\x01\x02", bytes.fromhex("c0ffee00c0ffee01ab")]
    cases = []
    for kind in KINDS:
        for ct in contents:
            na = len(alphabet(ct, True))
            for i in range(na):
                if c.quick:
                    cases.append({"kind": kind, "content": ct.hex(), "prefix": [i], "tail": 1})
                else:
                    cases.append({"kind": kind, "content": ct.hex(), "prefix": [i], "tail": 2})
            cases.append({"kind": kind, "content": ct.hex(), "prefix": [], "tail": 1})
    c.domain("sequences", cases, case)
    sc = [{"kind": k, "content": h} for k in KINDS for h in ("0102010201030102", "00000001", "ff", "abab")]
    c.domain("search_grid", sc, search_case)
    bc = [{"kind": k, "len": n, "unit": u} for k in KINDS for n, u in ((9000, 4096), (12288, 4096))]
    if not c.quick:
        bc += [{"kind": k, "len": n, "unit": u} for k in KINDS for n, u in ((8200, 4096), (140000, 65536), (13000, 6000), (10000, 4500))]
    c.domain("boundaries", bc, boundary_case, batch=1)
    c.main()


if __name__ == "__main__":
    main()
