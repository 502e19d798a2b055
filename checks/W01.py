"""W01: the hex view of the graphical program shows the bytes of the file at their addresses, and the selected field, whatever the window, the scrolling and the history."""
import io, itertools, os, sys, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, wxstub

lib.quiet()
wxstub.install()
from mc.formats import expect
from hachoir.wx.dispatcher import dispatcher_t
from hachoir.wx.hex_view import hex_view_t
from hachoir.wx.hex_view.file_cache import FileCache

PRINT = set(b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~ ')


def visit(ctx, state):
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", state)


def content(n):
    return bytes((i * 7 + i // 256 * 3) % 256 for i in range(n))


def cache(case, ctx):
    """All ranges near the limits of the chunks, in all orders of the requests"""
    size = case["size"]
    data = content(size)
    step = FileCache.CHUNKSIZE if isinstance(getattr(FileCache, "CHUNKSIZE", None), int) else 4096
    points = sorted({max(0, p) for base in (0, step, 2 * step, 3 * step, size) for p in (base - 2, base - 1, base, base + 1, base + 2)})
    ranges = [(s, e) for s in points for e in points if s <= e]
    one = FileCache(io.BytesIO(data))
    expect(ctx, "size of a file of %s bytes" % size, one.filesize, size)
    for s, e in ranges:
        visit(ctx, (size, s, e))
        expect(ctx, "bytes %s to %s of a file of %s bytes" % (s, e, size), one.get(s, e) == data[s:e], True)
    for a, b in itertools.product(ranges[::5], repeat=2):
        visit(ctx, (size, a, b))
        f = io.BytesIO(data)
        two = FileCache(f)
        f.seek(min(3, size))
        if (a[0] + b[0]) % 2:
            two.hint(*b)
        got = two.get(*a), two.get(*b), two.get(*a)
        expect(ctx, "bytes %s then %s of a file of %s bytes" % (a, b, size), got == (data[a[0]:a[1]], data[b[0]:b[1]], data[a[0]:a[1]]), True)
        expect(ctx, "position in the file", f.tell(), min(3, size))
    # more chunks than are kept
    if case["big"]:
        data = content(step * 130)
        many = FileCache(io.BytesIO(data))
        for turn in range(2):
            for i in range(130):
                expect(ctx, "chunk %s of many" % i, many.get(i * step, i * step + 10) == data[i * step:i * step + 10], True)


class View:
    def __init__(self, ctx, what, size, window, char, early=None):
        self.ctx, self.what, self.data, self.char = ctx, what, content(size), char
        wxstub.PaintDC.CHAR = char
        wxstub.ScrolledWindow.SIZE = window
        v = self.v = hex_view_t()
        d = self.d = dispatcher_t()
        d.add_sender(v)
        d.add(v)
        d.add_receiver(v)
        d.trigger("file_ready", io.BytesIO(self.data))
        v.ready()
        self.hex, self.span, self.last, self.top = True, None, None, None
        self.paint()

    def paint(self):
        v, ctx, (cw, ch) = self.v, self.ctx, self.char
        what = self.what
        v.OnPaint(None)
        visit(ctx, (len(self.data), v.view, v.size, self.char, self.hex, self.span, self.last))
        dc = wxstub.PaintDC.last
        tc = len(dc.texts) and (dc.texts[1][0].count(" ") + 1 if len(self.data) > 4096 and v.view == 0 else v.layout.textcols)
        w, h = v.size
        row0, offset = divmod(v.view, ch)
        rows = len(dc.texts) // 3
        if not expect(ctx, what + ": texts of three panes", (len(dc.texts) % 3, rows * ch - offset >= h), (0, True)):
            return
        digits = max(len(("%x" if self.hex else "%d") % max(len(self.data) - 1, 0)), 2)
        boxes = [b for b in dc.boxes if "HOTLIGHT" not in b[0]]
        marks = [b for b in dc.boxes if "HOTLIGHT" in b[0]]
        expect(ctx, what + ": boxes", len(boxes), 2)
        xs = set()
        for r in range(rows):
            at = (row0 + r) * tc
            line = self.data[at:at + tc]
            (a, ax, ay), (b, bx, by), (t, tx, ty) = dc.texts[3 * r:3 * r + 3]
            y = r * ch - offset
            xs.add((ax, bx, tx))
            want = ("%x" % at).zfill(digits) if self.hex else ("%d" % at).rjust(digits)
            if (a, b, t, ay, by, ty) != (want, " ".join("%02x" % c for c in line), "".join(chr(c) if c in PRINT else "." for c in line), y, y, y):
                ctx.report("%s: row %s at address %s, view %s: %s" % (what, r, at, v.view, lib.short((a, b, t, ay, by, ty), 200)))
                return
        (ax, bx, tx), = xs or {(0, 0, 0)}
        fits = ax + (digits + 4) * cw + 60 < w
        if fits:
            ok = ax + digits * cw <= boxes[0][1] and boxes[0][1] <= bx and bx + (3 * tc - 1) * cw <= boxes[0][1] + boxes[0][3] <= boxes[1][1] <= tx and tx + tc * cw <= boxes[1][1] + boxes[1][3] <= w
            expect(ctx, what + ": panes side by side", ok, True)
        # the selected field and only it
        s, e = self.span or (0, 0)
        for r in range(rows):
            for c in range(tc):
                at = (row0 + r) * tc + c
                y = r * ch - offset + ch / 2
                inside = lambda x: any(bx0 <= x <= bx0 + bw and by0 <= y <= by0 + bh for _, bx0, by0, bw, bh in marks)
                if (inside(bx + (3 * c + 1) * cw), inside(tx + (c + .5) * cw)) != (s <= at < e,) * 2:
                    ctx.report("%s: mark of byte %s (field from %s to %s, view %s)" % (what, at, s, e, v.view))
                    return
        self.tc = tc

    def visible(self, at):
        ch = self.char[1]
        y = at // self.v.layout.textcols * ch - self.v.view
        return 0 <= y and y + ch <= max(self.v.size[1], ch)

    def do(self, op):
        kind, arg = op
        v = self.v
        if kind == "select":
            s, e = arg
            self.d.trigger("field_selected", types.SimpleNamespace(absolute_address=s, size=e - s))
            self.span = (s // 8, (e + 7) // 8)
            self.last = "jump"
        elif kind == "scroll":
            v.Scroll(0, arg)
            v.OnScrolled(types.SimpleNamespace(Skip=lambda: None))
            wxstub.run_queue()
            self.last = "scroll"
            self.top = v.view // self.char[1] * v.layout.textcols
        elif kind == "resize":
            v.size = arg
            v.view = max(0, min(v.view, v.virtual[1] - arg[1]))
            v.OnResized(None)
        elif kind == "base":
            self.hex = arg == 16
            self.d.trigger("address_hexadecimal" if self.hex else "address_decimal")
        self.what += ", %s %s" % op
        if kind == "select" or kind == "resize" and self.last == "jump":
            s, e = self.span
            rows, high = (e - 1) // v.layout.textcols - s // v.layout.textcols + 1, v.size[1] // self.char[1]
            if high:
                expect(self.ctx, self.what + ": start of the field is visible", self.visible(s), True)
                if rows <= high:
                    expect(self.ctx, self.what + ": end of the field is visible", self.visible(e - 1), True)
        if kind == "resize" and self.last == "scroll" and self.top < len(self.data) and v.size[1] > 2 * self.char[1]:
            y = self.top // v.layout.textcols * self.char[1] - v.view
            expect(self.ctx, self.what + ": the first byte stays visible", -self.char[1] < y < v.size[1], True)
        self.paint()


def histories(case, ctx):
    size, char = case["size"], tuple(case["char"])
    end = size * 8
    spans = sorted({(s, e) for s, e in ((0, 8), (3, 12), (end // 2, end // 2 + 800), (end - 8, end), (0, end), (80, 80 + 8 * 40)) if 0 <= s < e <= end})
    ops = [("select", x) for x in spans] + [("scroll", y) for y in (0, char[1] * 5, char[1] * 9 + 3, 10 ** 6)] + [("resize", x) for x in ((300, 200), (700, 120), (260, 61), (1200, 400))] + [("base", 10), ("base", 16)]
    for n in range(case["n"], case["n"] + 1):
        for k, seq in enumerate(itertools.product(range(len(ops)), repeat=n)):
            if seq[0] % case["of"] != case["i"]:
                continue
            w = View(ctx, "file of %s bytes, characters %s" % (size, char), size, tuple(case["window"]), char)
            for i in seq:
                w.do(ops[i])


def layouts(case, ctx):
    """All sizes of windows and of characters"""
    for w, h, size in itertools.product(range(case["w"], 1300, 97), (20, 45, 200, 333), (1, 16, 255, 257, 5000, 70000)):
        for char in ((8, 16), (7, 13), (6.5, 15), (10, 10)):
            x = View(ctx, "window of %s x %s, characters %s, file of %s bytes" % (w, h, char, size), size, (w, h), char)
            for op in (("select", (max(0, size * 8 - 20), size * 8)), ("base", 10), ("scroll", 77)):
                x.do(op)


if __name__ == "__main__":
    c = lib.Check("W01", "model_checking", "all ranges at the limits of the chunks of the cache, all pairs; all sizes of windows and characters; all histories of selections, scrolling, new sizes and bases: the bytes, addresses, texts and marks which are drawn",
                  bounds={"histories": "3 actions (thorough: 4) of 16", "window": "widths from 60 to 1300"})
    q = c.quick
    c.domain("cache", [{"size": s, "big": s == 1} for s in (0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12290)], cache, batch=1)
    c.domain("layouts", [{"w": w} for w in range(60, 157, 13 if q else 3)], layouts, batch=1)
    c.domain("histories", [{"size": s, "char": ch, "window": win, "n": 3 if q else 4, "i": i, "of": 8} for s, ch, win in ((5000, (8, 16), (400, 200)), (300, (7, 13), (700, 130))) for i in range(8)], histories, batch=1)
    c.main()
