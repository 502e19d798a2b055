"""S03: the cache which makes a forward-only source seekable."""
import os, sys, copy, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import deque
from mc import lib
from mc.streams import PipeFile, EspipeFile, ref_bits, endians

lib.quiet()
from hachoir.stream.input import InputPipe
from hachoir.stream import InputStreamError, InputIOStream
E = endians()


class Model(object):
    """What the documentation of the cache promises.  mem: block indices, least recently used first."""

    def __init__(self, n, bs, keep):
        self.n, self.bs, self.keep = n, bs, keep
        self.read_blocks = 0
        self.mem = []
        self.size = None

    def state(self):
        return (self.read_blocks, tuple(self.mem), self.size)

    def read(self, content, addr, size):
        """bytes, or None when a discarded block is needed."""
        B = 1 << self.bs
        end = addr + size
        while self.read_blocks <= end // B and self.size is None:
            lo = self.read_blocks * B
            got = min(B, self.n - lo)
            if got < B:
                self.size = self.n
            if got > 0:
                self.mem.append(self.read_blocks)
                self.read_blocks += 1
        need = [i for i in range(addr // B, (end - 1) // B + 1) if i < self.read_blocks]
        if any(i not in self.mem for i in need):
            return None
        for i in need:
            self.mem.remove(i)
            self.mem.append(i)
        while len(self.mem) > self.keep and self.mem[0] == min(self.mem):
            self.mem.pop(0)
        return content[addr:end]


class Told(object):
    """Receives the size announced by the pipe; copied along with it."""

    def __init__(self):
        self.sizes = []

    def __call__(self, size):
        self.sizes.append(size)


def new_pipe(content, bs, keep, sizes=(0,), src=None):
    told = Told()
    p = InputPipe(src or PipeFile(content, sizes), told)
    p.buffer_size = bs
    p.buffer_nb_min = keep
    p.told = told
    return p


def do(p, op):
    try:
        p.seek(op[0])
        return p.read(op[1])
    except InputStreamError:
        return None


def content_of(n):
    return bytes((i * 37 + 11) & 0xff for i in range(n))


def check(p, m, op, content, hist):
    want = m.read(content, *op)
    got = do(p, op)
    if got != want:
        raise lib.Violation("read(%d, %d) after %r gives %r instead of %r" % (op[0], op[1], hist, got, want),
                            blocks=m.bs, keep=m.keep, history=hist + [op])
    told = list(p.told.sizes)
    if any(t != m.n for t in told) or (m.size is not None and not told):
        raise lib.Violation("size announced %r for %d bytes after %r" % (told, m.n, hist + [op]))
    return want


def probe(p, m, content, hist, ctx):
    """Every block, each on its own copy: kept ones readable with the right data, others refused."""
    B = 1 << m.bs
    for i in range(m.read_blocks):
        q, k = copy.deepcopy(p), copy.deepcopy(m)
        check(q, k, (i * B, min(B, m.n - i * B)), content, hist)
        ctx.count("transitions")


def bfs(case, ctx):
    """All reachable states of the cache model; each transition is taken by the real cache."""
    n, bs, keep = case["n"], case["bs"], case["keep"]
    content = content_of(n)
    B = 1 << bs
    nb = (n + B - 1) // B
    ops = sorted({(a, s) for i in range(nb + 1) for a in (i * B, i * B + 1, i * B + B - 1)
                  for s in case["sizes"]})
    m0 = Model(n, bs, keep)
    seen = {m0.state()}
    todo = deque([(new_pipe(content, bs, keep), m0, [])])
    while todo:
        p, m, hist = todo.popleft()
        for op in ops:
            q, k = copy.deepcopy(p), copy.deepcopy(m)
            r = check(q, k, op, content, hist)
            ctx.count("transitions")
            if r is None:
                continue
            st = k.state()
            if st not in seen:
                seen.add(st)
                ctx.seen("states", (n, bs, keep, st))
                probe(q, k, content, hist + [op], ctx)
                if len(hist) < case["depth"]:
                    todo.append((q, k, hist + [op]))
                ctx.count("traces")
    ctx.sample({"n": n, "keep": keep, "states": len(seen), "last": repr(hist)})


def plain(case, ctx):
    """Every sequence (no merging of states) of block reads up to the depth."""
    n, bs, keep = case["n"], case["bs"], case["keep"]
    content = content_of(n)
    B = 1 << bs
    nb = (n + B - 1) // B
    ops = [(i * B, B) for i in range(nb)] + [(0, n), (n - 1, 2), (B - 1, 2)]
    for tail in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
        p, m = new_pipe(content, bs, keep), Model(n, bs, keep)
        hist = []
        for i in (case["first"],) + tail:
            ctx.count("transitions")
            if check(p, m, ops[i], content, hist) is None:
                break
            hist.append(ops[i])
        ctx.seen("states", (n, bs, keep, m.state()))
        ctx.count("traces")


def short_reads(case, ctx):
    """Every pattern of answers of the source (bounded departures from 'as much as asked')."""
    n, bs, keep = case["n"], case["bs"], case["keep"]
    content = content_of(n)
    reads = case["reads"]

    def run(choose):
        class Src(object):
            pos = 0

            def read(self, size):
                left = n - self.pos
                k = min(size, left)
                if k > 1:
                    # full answer first, then every shorter one
                    c = choose(k)
                    k -= c
                d = content[self.pos:self.pos + k]
                self.pos += k
                return d
        p = new_pipe(content, bs, keep, src=Src())
        m = Model(n, bs, keep)
        hist = []
        for op in reads:
            if check(p, m, tuple(op), content, hist) is None:
                break
            hist.append(tuple(op))
        return tuple(p.told.sizes), len(hist)
    for ch, res in lib.explore_choices(run, bound=case["bound"]):
        ctx.count("traces")
        ctx.count("transitions", res[1])
        ctx.seen("states", (n, bs, keep, "short", ch, res))


def stream_level(case, ctx):
    """The real parameters (64 KB blocks, 256 kept): a stream over a long pipe."""
    nblocks, extra = case["blocks"], case["extra"]
    n = nblocks * 65536 + extra
    unit = bytes(range(251))
    content = (unit * (n // 251 + 1))[:n]
    src = PipeFile(content, tuple(case["sizes"]))
    s = InputIOStream(src)

    def rd(a, k):
        ctx.count("transitions")
        try:
            return s.readBytes(8 * a, k)
        except InputStreamError:
            return None
    last = (n - 1) // 65536
    # forward, one read in each block, always re-reading the recent past
    for i in range(last + 1):
        a = i * 65536
        k = min(65536, n - a)
        if rd(a, k) != content[a:a + k]:
            raise lib.Violation("forward read of block %d of a pipe is wrong" % i)
        if i >= 2 and rd((i - 2) * 65536 + 65530, 12) != content[(i - 2) * 65536 + 65530:][:12]:
            raise lib.Violation("re-reading across blocks %d/%d of a pipe is wrong" % (i - 2, i - 1))
    # the last 255 blocks are always available
    for i in range(max(0, last - 250), last + 1):
        a = i * 65536
        if rd(a + 7, 3 if a + 10 <= n else 0) != content[a + 7:a + 10 if a + 10 <= n else a + 7]:
            raise lib.Violation("block %d of %d is not available any more" % (i, last))
    if rd(n, 1) is not None or s.size != 8 * n:
        raise lib.Violation("end of pipe: size %r for %d bytes" % (s.size, n))
    if rd(n - 1, 1) != content[-1:]:
        raise lib.Violation("last byte of the pipe")
    if last > 600:
        if rd(0, 1) is not None:
            raise lib.Violation("the whole pipe stays in memory: block 0 still there after %d blocks" % last)
    elif last < 256 and rd(0, 5) != content[:5]:
        raise lib.Violation("block 0 discarded although only %d blocks were read" % last)
    s.close()
    if not src.closed:
        raise lib.Violation("closing the stream does not close its source")
    ctx.count("traces")
    ctx.seen("states", ("stream", nblocks, extra))


def main():
    c = lib.Check("S03", "model_checking",
                  "breadth-first search of the cache model (blocks kept and their order of use); every transition is "
                  "executed by the real cache and every block is then probed; all short-read patterns of the source "
                  "within the deviation bound",
                  assumptions=["block size and number of kept blocks are reduced for the search; the real values are run on long pipes"],
                  bounds={"blocks": 7})
    q = c.quick
    cfg = [(n, 2, keep) for n in (19, 20, 21) for keep in (1, 2, 3)] + [(23, 2, 2), (24, 2, 4)]
    if not q:
        cfg += [(27, 2, 2), (28, 2, 4), (27, 2, 3), (29, 2, 3), (24, 2, 5), (17, 1, 3), (14, 1, 2), (13, 1, 6)]
    c.domain("states", [{"n": n, "bs": b, "keep": k, "sizes": [1, 4, 5, 9], "depth": 99} for n, b, k in cfg], bfs, batch=1)
    pl = []
    for n, keep in ((12, 1), (15, 2), (16, 2), (19, 3), (23, 2)):
        for f in range((n + 3) // 4 + 3):
            pl.append({"n": n, "bs": 2, "keep": keep, "first": f, "depth": 5 if q else 6})
    c.domain("sequences", pl, plain, batch=1)
    rs = [[[0, 9]], [[5, 2], [0, 3]], [[0, 4], [8, 4], [4, 4]], [[7, 1], [12, 3], [3, 9]], [[20, 1], [0, 1]]]
    c.domain("short_reads", [{"n": n, "bs": 2, "keep": k, "reads": r, "bound": 2 if q else 4}
                             for n in (8, 9, 11, 13) for k in (1, 4) for r in rs], short_reads, batch=1)
    c.domain("real_size", [{"blocks": b, "extra": e, "sizes": z} for b, e, z in
                           ((3, 0, [0]), (3, 1, [0]), (3, 65535, [30000]), (200, 5, [0]), (256, 0, [65536]), (620, 77, [0]))], stream_level, batch=1)
    c.main()


if __name__ == "__main__":
    main()
