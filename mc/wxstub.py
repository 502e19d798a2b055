"""A stand-in for the wx toolkit: windows without a screen, which record what is drawn and what they contain."""
import sys, types

queue = []


def run_queue():
    while queue:
        f, args = queue.pop(0)
        f(*args)


class Window:
    def __init__(self, *args, **kw):
        pass

    def Bind(self, event, handler, id=None, **kw):
        self.__dict__.setdefault("bound", {})[event if id is None else (event, id)] = handler

    def Unbind(self, event):
        self.__dict__.setdefault("bound", {}).pop(event, None)

    def fire(self, event, arg=None, id=None):
        self.bound[event if id is None else (event, id)](arg)
        run_queue()

    def __getattr__(self, name):
        if name[:1].isupper():  # what only changes the look
            return lambda *a, **k: None
        raise AttributeError(name)


def whole(*numbers):
    for n in numbers:
        if not isinstance(n, int):
            raise TypeError("wx asks for whole numbers, not %r" % (n,))


class ScrolledWindow(Window):
    SIZE = (300, 200)

    def __init__(self, *args):
        self.view, self.virtual, self.size = 0, (0, 0), self.SIZE

    def GetSize(self):
        return self.size

    GetClientSize = GetSize

    def GetViewStart(self):
        return (0, self.view)

    def Scroll(self, x, y):
        whole(x, y)
        self.view = max(0, min(y, self.virtual[1] - self.size[1]))

    def SetScrollbars(self, px, py, nx, ny, *args):
        whole(px, py, nx, ny)
        self.virtual, self.view = (px * nx, py * ny), 0

    def SetVirtualSize(self, size):
        whole(*size)
        self.virtual = tuple(size)
        self.view = max(0, min(self.view, self.virtual[1] - self.size[1]))


class PaintDC:
    CHAR = (8, 16)
    last = None

    def __init__(self, window):
        PaintDC.last = self
        self.texts, self.boxes, self.brush = [], [], None

    def GetTextExtent(self, text):
        w, h = self.CHAR
        return (int(w * len(text)), h)

    def SetPen(self, pen):
        pass

    def SetBrush(self, brush):
        self.brush = brush

    def DrawRectangle(self, x, y, w, h):
        whole(x, y, w, h)
        self.boxes.append((self.brush, x, y, w, h))

    def DrawText(self, text, x, y):
        whole(x, y)
        self.texts.append((text.decode("ascii") if isinstance(text, bytes) else text, x, y))


class ListCtrl(Window):
    """A list which asks for its texts"""

    def __init__(self, *args):
        self.columns, self.count, self.focus, self.widths = [], 0, 0, {}

    def GetColumnCount(self):
        return len(self.columns)

    def InsertColumn(self, col, heading):
        self.columns.insert(col, heading)

    def SetItemCount(self, n):
        self.count = n

    def GetItemCount(self):
        return self.count

    def DeleteAllItems(self):
        self.count = 0

    def GetFocusedItem(self):
        return self.focus

    def GetItem(self, row, col):
        return types.SimpleNamespace(GetText=lambda: self.OnGetItemText(row, col))

    def GetCharWidth(self):
        return 7

    def SetColumnWidth(self, col, width):
        self.widths[col] = width


class Node:
    def __init__(self, parent, text):
        self.parent, self.text, self.data, self.children = parent, text, None, []


class TreeCtrl(Window):
    def __init__(self, *args):
        self.selected = self.focused = None
        self.expanded = []

    def AddRoot(self, text):
        return Node(None, text)

    def AppendItem(self, node, text):
        node.children.append(Node(node, text))
        return node.children[-1]

    def GetItemData(self, node):
        return node.data

    def SetItemData(self, node, data):
        node.data = data

    def GetLastChild(self, node):
        return node.children[-1]

    def Delete(self, node):
        node.parent.children.remove(node)
        if self.focused is node:
            self.focused = None

    def SetItemText(self, node, text):
        node.text = text

    def GetItemParent(self, node):
        return node.parent

    def _beside(self, node, step):
        around = node.parent.children
        i = around.index(node) + step
        return around[i] if 0 <= i < len(around) else None

    def GetPrevSibling(self, node):
        return self._beside(node, -1)

    def GetNextSibling(self, node):
        return self._beside(node, 1)

    def SetFocusedItem(self, node):
        self.focused = node

    def GetFocusedItem(self):
        return self.focused

    def Expand(self, node):
        self.expanded.append(node)

    def SelectItem(self, node):
        self.selected = node

    def ScrollTo(self, node):
        self.shown = node


class Menu(Window):
    def __init__(self):
        self.items = []

    def Append(self, id, text):
        self.items.append((id, text))

    def GetMenuItems(self):
        return list(self.items)

    def Delete(self, item):
        self.items.remove(item)


def install():
    if "wx" in sys.modules:
        return
    wx = types.ModuleType("wx")
    wx.__path__ = []
    ids = iter(range(100, 10 ** 9))
    known = dict(Window=Window, ScrolledWindow=ScrolledWindow, AutoBufferedPaintDC=PaintDC, ListCtrl=ListCtrl, TreeCtrl=TreeCtrl, Menu=Menu, Frame=Window, App=Window, NewId=lambda: next(ids), Brush=lambda c: c,
                 SystemSettings=types.SimpleNamespace(GetColour=lambda c: c), CallAfter=lambda f, *a: queue.append((f, a)))
    for k, v in known.items():
        setattr(wx, k, v)
    wx.__getattr__ = lambda name: name if name.isupper() or name.startswith(("EVT_", "Null", "SYS_", "ID_", "BG_", "FD_")) else (_ for _ in ()).throw(AttributeError(name))
    xrc = types.ModuleType("wx.xrc")
    xrc.XRCID, xrc.XmlResource = (lambda name: name), Window
    wx.xrc = xrc
    lib, mixins, listctrl = types.ModuleType("wx.lib"), types.ModuleType("wx.lib.mixins"), types.ModuleType("wx.lib.mixins.listctrl")

    class ListCtrlAutoWidthMixin:
        def __init__(self):
            pass
    listctrl.ListCtrlAutoWidthMixin = ListCtrlAutoWidthMixin
    for m in (wx, xrc, lib, mixins, listctrl):
        sys.modules[m.__name__] = m
