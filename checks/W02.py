"""W02: the field list and the tree of the graphical program show each field once with its address, size and value, whatever is opened, selected or converted before."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib, wxstub

lib.quiet()
wxstub.install()
from mc.formats import ALLOW, expect, listen
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import Bits, FieldSet, UInt8, UInt16, UInt32, UInt64, RawBytes
from hachoir.parser import Parser
from hachoir.stream import StringInputStream
from hachoir.wx.dispatcher import dispatcher_t
from hachoir.wx.field_view.field_view import field_view_t
from hachoir.wx.field_view.field_view_imp import field_view_imp_t
from hachoir.wx.field_view.field_view_fwd import field_view_fwd_t
from hachoir.wx.field_view.core_type_menu import core_type_menu_t
from hachoir.wx.field_view.core_type_menu_imp import core_type_menu_imp_t
from hachoir.wx.field_view.core_type_menu_fwd import core_type_menu_fwd_t
from hachoir.wx.tree_view import tree_view_t

# a number may not be a date
ALLOW.append(("File", "", "Unable to create value"))
INNER = {"Float32", "Float64", "DateTimeMSDOS32", "TimeDateMSDOS32"}  # these types have fields in them
KINDS = {"1": (UInt8, 8), "2": (UInt16, 16), "4": (UInt32, 32), "8": (UInt64, 64)}
SAME = {8: {"Int8", "UInt8", "Character"}, 16: {"Int16", "UInt16"}, 32: {"Int32", "UInt32", "Float32", "TimestampUnix32", "TimestampMac32", "DateTimeMSDOS32", "TimeDateMSDOS32"}, 64: {"Int64", "UInt64", "Float64", "TimestampWin64", "TimedeltaMillisWin64"},
        24: {"Int24", "UInt24"}, 1: {"Bit"}}
READ = {"Int8": ">b", "UInt8": ">B", "Int16": ">h", "UInt16": ">H", "Int32": ">i", "UInt32": ">I", "Int64": ">q", "UInt64": ">Q"}


class Item:
    """What the model knows of a field"""

    def __init__(self, name, parent, address, kind, description=""):
        self.name, self.parent, self.address, self.kind, self.description, self.children, self.size = name, parent, address, kind, description, [], 0

    @property
    def path(self):
        return "/" if self.parent is None else self.parent.path.rstrip("/") + "/" + self.name

    @property
    def absolute(self):
        return self.address + (self.parent.absolute if self.parent else 0)


def model(spec, name="root", parent=None, address=0):
    m = Item(name, parent, address, "set", "" if parent is None else "A set")
    at = 0
    for i, x in enumerate(spec):
        if isinstance(x, (list, tuple)):
            c = model(x, "set_%s" % i, m, at)
        else:
            c = Item("f%s" % i, m, at, KINDS[x][0].__name__, "Number %s" % i if i % 2 else "")
            c.size = KINDS[x][1]
        m.children.append(c)
        at += c.size
    m.size = at
    return m


class Node(FieldSet):
    def __init__(self, parent, name, spec):
        FieldSet.__init__(self, parent, name, "A set")
        self.spec = spec

    def createFields(self):
        for i, x in enumerate(self.spec):
            if isinstance(x, (list, tuple)):
                yield Node(self, "set_%s" % i, x)
            else:
                yield KINDS[x][0](self, "f%s" % i, "Number %s" % i if i % 2 else "")


class File(Parser):
    PARSER_TAGS = {"id": "w02", "category": "misc", "description": "A file", "min_size": 8}
    endian = BIG_ENDIAN
    spec = ()

    def validate(self):
        return True
    createFields = Node.createFields


class Recorder:
    def __init__(self):
        self.events = []

    def on_unhandled(self, dispatcher, name, *args):
        self.events.append((name, args))


class Window:
    def __init__(self, ctx, what, spec):
        self.ctx, self.what = ctx, what
        self.root = self.cur = model(spec)
        self.data = bytes((i * 37 + 200) % 256 for i in range(self.root.size // 8))
        File.spec = spec
        listen(ctx, "File", True)
        self.parser = File(StringInputStream(self.data))
        d = self.d = dispatcher_t()
        self.rec = Recorder()
        d.add_receiver(self.rec)
        self.view = field_view_t()
        d.add_sender(self.view)
        imp = field_view_imp_t()
        d.add(imp)
        d.add(field_view_fwd_t(imp))
        self.menu = wxstub.Menu()
        menu = core_type_menu_t(self.menu)
        mimp = core_type_menu_imp_t()
        d.add(mimp)
        d.add_receiver(core_type_menu_fwd_t(mimp))
        d.trigger("core_type_menu_ready", menu)
        d.trigger("field_menu_ready", menu)
        t = self.tree = tree_view_t()
        d.add_sender(t)
        d.add(t)
        d.add_receiver(t)
        self.abs, self.hex, self.selected, self.converted = True, True, None, False
        d.trigger("field_set_ready", self.parser)
        t.fire("EVT_WINDOW_CREATE")
        self.view.fire("EVT_WINDOW_CREATE")

    def rows(self):
        up = self.cur.parent is not None
        return ([None] if up else []) + self.cur.children

    def text(self, m):
        address = m.absolute if self.abs else m.address
        at = m.absolute // 8
        if m.kind in READ:
            data = str(struct.unpack(READ[m.kind], self.data[at:at + m.size // 8])[0])
        else:
            data = "" if m.kind == "set" else None
        return [("%08x.%d" if self.hex else "%08d.%d") % divmod(address, 8), m.name + "/" * (m.kind == "set" or m.kind in INNER), "Node" if m.kind == "set" else m.kind, "%08d.%d" % divmod(m.size, 8), data, m.description]

    def check(self):
        ctx, what, view = self.ctx, self.what, self.view
        ctx.count("transitions")
        ctx.count("traces")
        ctx.seen("states", what)
        rows = self.rows()
        # the list grows while it is read
        for _ in range(1 + len(rows) // 500):
            view.OnGetItemText(view.count - 1, 1)
        if not expect(ctx, what + ": rows of the list", view.count, len(rows)):
            return
        ask = range(len(rows)) if len(rows) < 60 else sorted({0, 1, 2, 500, 997, 998, 999, 1000, 1001, 1002, 1999, 2000, 2001, len(rows) - 2, len(rows) - 1} & set(range(len(rows))))
        widths = [len(x) for x in ("address", "name", "type", "size", "data", "description")]
        for r in ask:
            want = ["", "../", "", "", "", ""] if rows[r] is None else self.text(rows[r])
            got = [view.OnGetItemText(r, c) for c in range(6)]
            if rows[r] is not None:
                widths = [max(a, len(b)) for a, b in zip(widths, got)]
            if want[4] is None:
                got[4] = None
            expect(ctx, "%s: row %s" % (what, r), got, want)
        if len(rows) <= 20:
            expect(ctx, what + ": widths", [view.widths[c] for c in range(6)], [7 * (w + 1) for w in widths])
        if not self.converted:
            node = self.tree.selected
            path = []
            while node is not None:
                path.insert(0, node.text)
                node = node.parent
            expect(ctx, what + ": selected node", "/" + "/".join(path[1:]), self.cur.path)
            for node in self.tree.expanded[-1:]:
                sets = [c.name for c in self.cur.children if c.kind == "set"]
                if len(self.cur.children) < 1000:
                    expect(ctx, what + ": children of the node", [x.text for x in node.children], sets)

    def do(self, op):
        kind, arg = op
        rows = self.rows()
        self.what += ", %s %s" % op
        view, ctx = self.view, self.ctx
        if kind in ("open", "select"):
            if arg >= len(rows):
                return False
            m = rows[arg] or self.cur.parent
            if kind == "open" and m.kind in INNER:
                return False
            view.focus = arg
            before = len(self.rec.events)
            view.fire("EVT_LIST_ITEM_SELECTED" if kind == "select" else "EVT_LIST_ITEM_ACTIVATED")
            got = [(n, a[0].path) for n, a in self.rec.events[before:]]
            name = "field_selected" if kind == "select" else "field_activated"
            expect(ctx, self.what + ": events", got, [(name, m.path)] if kind == "select" or m.kind == "set" else [])
            if kind == "open" and m.kind == "set":
                self.cur = m
            if kind == "select":
                self.selected = m if rows[arg] else None
                own = type(self.parser[m.path]).__name__ if m.parent else "File"
                types = {t for _, t in self.menu.items}
                expect(ctx, self.what + ": types to convert to", (types <= SAME.get(m.size, set()) - {own}, {t for t in SAME.get(m.size, ()) if t in READ and t != own} <= types), (True, True))
        elif kind == "address":
            self.abs = arg == "absolute"
            self.d.trigger("address_" + arg)
        elif kind == "base":
            self.hex = arg == "hexadecimal"
            self.d.trigger("address_" + arg)
        elif kind == "convert":
            if self.selected is None or self.selected.kind == "set" or not self.menu.items:
                return False
            id, name = sorted(self.menu.items, key=lambda x: x[1])[arg % len(self.menu.items)]
            self.menu.bound["EVT_MENU"](type("E", (), {"GetId": lambda s: id, "Skip": lambda s: None})())
            self.selected.kind = name
            f = self.parser[self.selected.path]
            expect(ctx, self.what + ": converted field", (type(f).__name__, f.absolute_address, f.size), (name, self.selected.absolute, self.selected.size))
        elif kind == "tree":
            node = self.tree.root
            sets = [self.root]
            for _ in range(arg):
                self.tree.OnExpand(type("E", (), {"Item": node})())
                inside = [x for x in node.children if x.data]
                if not inside:
                    return False
                node = inside[arg % len(inside)]
                sets.append([c for c in sets[-1].children if c.kind == "set"][arg % len(inside)])
            self.tree.OnActivate(type("E", (), {"Item": node})())
            self.cur = sets[-1]
        self.check()
        return True


SPECS = [["1", "2", "4"], ["1", ["2", "1"], "8"], [["1", ["4", "1"]], "2", ["1", "1"]], [[["2"], ["1", ["8"]]], "1", [["4"]]]]
OPS = [("open", r) for r in range(4)] + [("select", r) for r in range(4)] + [("address", "relative"), ("address", "absolute"), ("base", "decimal"), ("base", "hexadecimal"), ("convert", 0), ("convert", 1), ("tree", 0), ("tree", 1), ("tree", 2)]


def histories(case, ctx):
    spec = SPECS[case["spec"]]

    def go(seq, n):
        w = Window(ctx, "fields %s" % (spec,), spec)
        w.check()
        for i in seq:
            if not w.do(OPS[i]):
                return
        if len(seq) < n:
            for i in range(len(OPS)):
                go(seq + (i,), n)
    go((case["first"],), case["n"])


def conversions(case, ctx):
    """Every field to every type, twice"""
    for kind in KINDS:
        for a, b, row in itertools.product(range(7), range(7), range(3)):
            w = Window(ctx, "convert field %s of %s bytes" % (row, kind), [kind, "1", [kind], kind])
            for op in (("select", 0 if row == 0 else 3), ("convert", a), ("base", "decimal"), ("select", 0 if row == 0 else 3), ("convert", b), ("open", 2)):
                if not w.do(op):
                    break


def large(case, ctx):
    """Lists and nodes with many fields"""
    for n, sets, where in itertools.product(case["sizes"], (1, 2, 7), ("top", "inside")):
        spec = [["1", "1"] if i % (n // sets + 1) == 0 else "1" for i in range(n)]
        if where == "inside":
            spec = ["1", spec, "2"]
        w = Window(ctx, "%s fields, %s sets, %s" % (n, sets, where), spec)
        w.check()
        w.cur = w.root
        if where == "inside":
            w.do(("open", 1))
        up = w.cur.parent is not None
        # nodes of the tree: the first 1000 fields, then more
        node = w.tree.selected
        w.tree.OnExpand(type("E", (), {"Item": node})())
        shown = [c.name for c in w.cur.children if c.kind == "set"]
        for turn in range(1, 5):
            names = [x.text for x in node.children]
            want = [c.name for c in w.cur.children[:1000 * turn] if c.kind == "set"] + ["more..."] * (n >= 1000 * turn)
            expect(ctx, "%s: nodes, turn %s" % (w.what, turn), names, want)
            if names[-1:] != ["more..."]:
                break
            w.tree.OnActivate(type("E", (), {"Item": node.children[-1]})())
        expect(ctx, w.what + ": nodes in the end", [x.text for x in node.children], shown)
        last = max(i for i, c in enumerate(w.cur.children) if c.kind == "set")
        w.do(("open", last + up))
        w.do(("open", 0))
        # a set which the tree has not shown yet
        w2 = Window(ctx, "%s fields, %s sets, %s, open the last" % (n, sets, where), spec)
        if where == "inside":
            w2.do(("open", 1))
        w2.check()
        w2.do(("open", last + up))
        w2.do(("open", 0))


if __name__ == "__main__":
    c = lib.Check("W02", "model_checking", "all histories of opening, selecting and converting fields, of the modes of addresses and of the tree, all conversions, all sizes of lists near the limits: every cell of the list, events, types, nodes",
                  bounds={"histories": "up to 3 actions (thorough: 4) of 17 on 4 trees", "lists": "up to 2500 fields"})
    q = c.quick
    c.domain("histories", [{"spec": s, "first": i, "n": 3 if q else 4} for s in range(len(SPECS)) for i in range(len(OPS))], histories, batch=1)
    c.domain("conversions", [{}], conversions, batch=1)
    c.domain("large", [{"sizes": s} for s in ([5, 20, 21], [998, 999], [1000, 1001], [1002, 1999], [2000, 2001], [2500])], large, batch=1)
    c.main()
