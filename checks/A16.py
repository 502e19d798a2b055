"""A16: Windows shortcuts are shown as they were written: flags, dates, items, paths, texts and extra blocks."""
import datetime, itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct as opened, expect, get
from hachoir.parser.misc import LnkFile, MSTaskFile

GUID = b"\x01\x14\x02\0\0\0\0\0\xc0\0\0\0\0\0\0\x46"
FLAGS = "has_shell_id target_is_file has_description has_rel_path has_working_dir has_cmd_line_args has_custom_icon has_unicode_names force_no_linkinfo has_exp_sz run_in_separate has_logo3id has_darwinid runas_user has_exp_icon_sz no_pidl_alias force_unc_name run_with_shim_layer".split()
ATTRS = {0: "read_only", 1: "hidden", 2: "system", 4: "directory", 5: "archive", 6: "device", 7: "normal", 8: "temporary", 9: "sparse_file", 10: "reparse_file", 11: "compressed", 12: "offline", 13: "dont_index_content", 14: "encrypted"}


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


def names(ctx, what, f, want):
    got = [x.name for x in f]
    if got != want:
        ctx.report("%s: fields are %r, expected %r" % (what, got, want))


def header(flags=0, attrs=0, created=0, modified=0, accessed=0, size=0, icon=0, show=1, key=0, mods=0):
    return struct.pack("<I", 76) + GUID + struct.pack("<IIQQQIiIBBHQ", flags, attrs, created, modified, accessed, size, icon, show, key, mods, 0, 0)


def filetime(d):
    return int((d - datetime.datetime(1601, 1, 1)).total_seconds()) * 10 ** 7


def dos(d):
    return struct.pack("<HH", (d.year - 1980) << 9 | d.month << 5 | d.day, d.hour << 11 | d.minute << 5 | d.second // 2)


D = [datetime.datetime(1999, 12, 31, 23, 59, 58), datetime.datetime(2007, 3, 1, 1, 2, 4), datetime.datetime(2020, 2, 29, 12, 0, 0)]
SHOW = ("Hide", "Show Normal", "Show Minimized", "Show Maximized", "Show Normal, not activated", "Show", "Minimize", "Show Minimized, not activated", "Show, not activated", "Restore", "Show Default")
KEYS = {0: "None", 0x13: "Pause", 0x14: "Caps Lock", 0x21: "Page Up", 0x22: "Page Down", 0x23: "End", 0x24: "Home", 0x25: "Left", 0x26: "Up", 0x27: "Right", 0x28: "Down", 0x2D: "Insert", 0x2E: "Delete", 0x90: "Num Lock", 0x91: "Scroll Lock"}
KEYS.update({i: chr(i) for i in list(range(0x30, 0x3A)) + list(range(0x41, 0x5B))})
KEYS.update({0x60 + i: "Numpad %d" % i for i in range(10)})
KEYS.update({0x70 + i: "F%d" % (i + 1) for i in range(24)})


def headers(case, ctx):
    cases = [dict(attrs=1 << i) for i in ATTRS] + [dict(attrs=a) for a in (0, 0x21, 0x10 | 0x20 | 4, 0x7FF7)]
    cases += [dict(key=k, mods=m) for k in range(256) for m in (range(8) if k in (0x41, 0x70) else (k % 8,))]
    cases += [dict(show=s) for s in range(12)] + [dict(icon=i) for i in (0, 1, -1, -101, 2 ** 31 - 1, -2 ** 31)] + [dict(size=s) for s in (0, 1, 1023, 2048, 2 ** 32 - 1)]
    cases += [dict(created=filetime(a), modified=filetime(b), accessed=filetime(c)) for a, b, c in itertools.product(D, repeat=3)]
    cases += [dict(flags=1 << i) for i in range(8, 18)] + [dict(flags=1 << i | 1 << j) for i in range(7, 18) for j in range(i)if j >= 7]
    for options in cases:
        data = header(**options) + bytes(4)
        what = "shortcut with %s" % options
        p = opened(ctx, data, LnkFile)
        contiguous(ctx, what, p, len(data) * 8, 3)
        flags, attrs = options.get("flags", 0), options.get("attrs", 0)
        fields(ctx, what, p, signature=76, guid="00021401-0000-0000-C000-000000000046", **{n: bool(flags >> i & 1) for i, n in enumerate(FLAGS)})
        fields(ctx, what, p["target_attr"], **{n: bool(attrs >> i & 1) for i, n in ATTRS.items()})
        order = [n for n in ("directory", "read_only", "compressed", "hidden", "system", "normal", "device", "temporary", "archive") if n in [ATTRS[i] for i in ATTRS if attrs >> i & 1]]
        expect(ctx, what + ": attributes", p["target_attr"].value, ", ".join(order if len(order) <= 4 else order[:4] + ["..."]) or "(none)")
        for name, k in (("creation_time", "created"), ("modification_time", "modified"), ("last_access_time", "accessed")):
            v = options.get(k)
            if v:
                expect(ctx, what + ": " + name, p[name].value, datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=v // 10))
        key, mods, show = options.get("key", 0), options.get("mods", 0), options.get("show", 1)
        fields(ctx, what, p, target_filesize=options.get("size", 0), icon_number=options.get("icon", 0), show_window=show, hot_key=key, hot_key_shift=bool(mods & 1), hot_key_ctrl=bool(mods & 2), hot_key_alt=bool(mods & 4))
        if key in KEYS:
            expect(ctx, what + ": hot key", p["hot_key"].display, KEYS[key])
        if show < len(SHOW):
            expect(ctx, what + ": window", p["show_window"].display, SHOW[show])
        ctx.seen("states", repr(options))
        ctx.count("traces")
        ctx.count("transitions")


TEXTS = ("description", "relative_path", "working_dir", "cmd_line_args", "custom_icon")


def texts(case, ctx):
    """All sets of texts, in both kinds of characters, with every set of the options around them"""
    for present in itertools.product((False, True), repeat=5):
        for n, (unicode, values, around) in enumerate(itertools.product((False, True), (("a", "bc", "..\\def", "%x% -y", "C:\\ico.dll"), ("", "", "", "", ""), ("x", "", "y" * 255, "", "z" * 300)), range(8))):
            flags = unicode << 7 | sum(1 << (i + 2) for i, b in enumerate(present) if b)
            if unicode and values[0] == "a":
                values = ("\xe9t\xe9", "\u20ac", "..\\\u3042", "\U0001F600!", "C:\\ico.dll")
            data, order = b"", []
            if around & 1:
                flags |= 1
                data += struct.pack("<H", 2) + bytes(2)
                order.append("item_idlist")
            if around & 2:
                flags |= 2
                data += location(None, None, "x", False)[0]
                order.append("file_location_info")
            for name, v, b in zip(TEXTS, values, present):
                if b:
                    order.append(name)
                    raw = v.encode("utf-16-le" if unicode else "ascii")
                    data += struct.pack("<H", len(raw) // (2 if unicode else 1)) + raw
            if around & 4:
                data += struct.pack("<III", 12, 0xA0000004, 850)
                order.append("extra_info[0]")
                data += bytes(4)
                order.append("extra_info[1]")
            data = header(flags) + data
            what = "shortcut with texts %s%s, around %s" % ([v for v, b in zip(values, present) if b], " in Unicode" if unicode else "", around)
            p = opened(ctx, data, LnkFile)
            contiguous(ctx, what, p, len(data) * 8, 2)
            names(ctx, what, list(p)[list(p).index(p["reserved[1]"]) + 1:], order)
            for name, v, b in zip(TEXTS, values, present):
                if b:
                    fields(ctx, what, p, **{name: v, name + "__length": len(v.encode("utf-16-le")) // 2})
            ctx.seen("states", repr((present, n)))
            ctx.count("traces")
            ctx.count("transitions", len(order))


def volume(kind, serial, label, unicode):
    if unicode:
        body = struct.pack("<IIII", kind, serial, 0x14, 0x14) + (label + "\0").encode("utf-16-le")
    else:
        body = struct.pack("<III", kind, serial, 0x10) + label.encode() + b"\0"
    return struct.pack("<I", len(body) + 4) + body


def location(local, net, suffix, unicode, gap=0, order=0):
    """local: (type, serial, label, unicode label, base path); returns the data and the places of the parts"""
    size = 0x24 if unicode else 0x1C
    parts = []
    if local:
        parts += [("local_volume_table", volume(*local[:4])), ("local_base_pathname", local[4].encode("latin-1", "replace") + b"\0")]
    if net:
        parts.append(("network_volume_table", struct.pack("<5I", 0x14 + len(net) + 1, 2, 0x14, 0, 0x20000) + net.encode() + b"\0"))
    parts.append(("final_pathname", suffix.encode("latin-1", "replace") + b"\0"))
    if unicode:
        if local:
            parts.append(("local_base_pathname_unicode", (local[4] + "\0").encode("utf-16-le")))
        parts.append(("final_pathname_unicode", (suffix + "\0").encode("utf-16-le")))
    if order == 1:
        parts.reverse()
    if order == 2:
        parts = parts[1:] + parts[:1]
    body, at = b"", {}
    for name, d in parts:
        body += bytes(gap)
        at[name] = size + len(body)
        body += d
    body += bytes(gap)
    out = struct.pack("<7I", size + len(body), size, bool(local) | bool(net) << 1, at.get("local_volume_table", 0), at.get("local_base_pathname", 0), at.get("network_volume_table", 0), at["final_pathname"])
    if unicode:
        out += struct.pack("<II", at.get("local_base_pathname_unicode", 0), at["final_pathname_unicode"])
    return out + body, [(n, at[n], len(d)) for n, d in parts]


VOLUMES = ("No root directory", "Removable (Floppy, Zip, etc.)", "Fixed (Hard disk)", "Remote (Network drive)", "CD-ROM", "Ram drive")


def locations(case, ctx):
    locals_ = [None] + [(k, s, label, u, path) for k, (s, label, u, path) in zip(itertools.cycle(range(1, 7)), itertools.product((0, 0x12345678, 0xFFFF0001), ("", "DISK"), (False, True), ("C:\\", "C:\\a\\b.txt")))]
    if case["unicode"]:
        locals_ += [(3, 1, "\xe9\u20ac", True, "C:\\\xe9t\xe9\u20ac")]
    for local, net, suffix, gap, order in itertools.product(locals_, (None, "\\\\server\\share"), ("", "file.txt") + (("\xe9\u20ac\u3042",) if case["unicode"] else ()), (0, 1, 4), (0, 1, 2)):
        block, parts = location(local, net, suffix, case["unicode"], gap, order)
        data = header(2) + block + bytes(4)
        what = "shortcut to %s, share %s, suffix %r%s, gap %s, order %s" % (local, net, suffix, " with Unicode paths" if case["unicode"] else "", gap, order)
        p = opened(ctx, data, LnkFile)
        contiguous(ctx, what, p, len(data) * 8, 3)
        f = p["file_location_info"]
        fields(ctx, what, f, length=len(block), first_offset_pos=0x24 if case["unicode"] else 0x1C, on_local_volume=bool(local), on_network_volume=bool(net), final_pathname=suffix.encode("latin-1", "replace").decode("latin-1"))
        got = [(x.name, x.address // 8, x.size // 8) for x in f if x.name in [n for n, a, s in parts]]
        expect(ctx, what + ": places", got, parts)
        expect(ctx, what + ": size", f.size // 8, len(block))
        if case["unicode"]:
            fields(ctx, what, f, final_pathname_unicode=suffix)
        if local:
            kind, serial, label, u, path = local
            fields(ctx, what, f, local_volume_table__volume_type=kind, local_volume_table__volume_serial=serial, local_volume_table__drive=label, local_base_pathname=path.encode("latin-1", "replace").decode("latin-1"))
            expect(ctx, what + ": volume", (f["local_volume_table/volume_type"].display, f["local_volume_table/volume_serial"].display), (VOLUMES[kind - 1], "%04X-%04X" % (serial >> 16, serial & 0xFFFF)))
            if case["unicode"]:
                fields(ctx, what, f, local_base_pathname_unicode=path)
        if net:
            fields(ctx, what, f, network_volume_table__share_name=net, network_volume_table=net)
        ctx.seen("states", repr((local, net, suffix, gap, order)))
        ctx.count("traces")
        ctx.count("transitions", len(parts))


G1, G2 = bytes(range(16)), bytes(range(100, 116))
T1, T2 = "03020100-0504-0706-0809-0A0B0C0D0E0F", "67666564-6968-6B6A-6C6D-6E6F70717273"


def entries(unicode):
    """Items: name: (type, display, data, fields)"""
    def text(s):
        return s.encode("latin-1") + b"\0"
    out = {
        "computer": (0x1F, "GUID", b"\x50" + G1, {"dummy": b"\x50", "guid": T1}),
        "printer": (0x70, "Printer/RAS Connection", b"\x50" + G2, {"guid": T2}),
        "drive": (0x2F, "Drive", b"C:\\".ljust(22, b"\0"), {"drive": "C:\\"}),
        "drive 23": (0x23, "Drive", b"D:\\", {"drive": "D:\\"}),
        "shell": (0x2E, "Shell Extension", b"\x50" + G1, {"dummy": b"\x50", "guid": T1}),
        "shell data": (0x2E, "Shell Extension", b"\0" + struct.pack("<H", 3) + b"abc" + G1 + G2, {"dummy": b"\0", "length_data": 3, "data": b"abc", "handler_guid": T1, "guid": T2}),
        "shell no data": (0x2E, "Shell Extension", b"\0" + struct.pack("<H", 0) + G2 + G1, {"length_data": 0, "handler_guid": T2, "guid": T1}),
        "workgroup": (0x41, "Workgroup", b"\1\2" + text("GROUP") + text("Microsoft") + b"\0\0", {"name": "GROUP", "protocol": "Microsoft"}),
        "server": (0x42, "Computer", b"\1\2" + text("PC") + text("") + b"\0\0", {"name": "PC", "protocol": ""}),
        "network": (0x47, "Whole Network", b"\0\0" + text("Entire Network"), {"name": "Entire Network"}),
        "share": (0xC3, "Network Share", b"\0\0" + text("\\\\s\\d") + text("p") + text("comment") + b"\1\0", {"name": "\\\\s\\d", "protocol": "p", "description": "comment"}),
        "other": (0x99, "Unknown", b"raw data", {"raw": b"raw data"}),
    }
    for kind, display in ((0x30, "Dir/File"), (0x31, "Directory"), (0x32, "File"), (0xB1, "History/Favorite")):
        for name, long in (("A", "a"), ("NAME~1", "long name")):
            head = b"\0" + struct.pack("<I", kind * 1000) + dos(D[0]) + struct.pack("<H", 0x10 if kind == 0x31 else 0x20) + text(name)
            want = {"size": kind * 1000, "date_time": D[0], "attribs__directory": kind == 0x31, "attribs__archive": kind != 0x31, "name": name}
            if unicode:
                head += bytes((len(head) + 3) % 2)
                for local in ("", "local name"):
                    tail = b"\3\0\4\0\xef\xbe" + dos(D[1]) + dos(D[2]) + b"\x14\0" + struct.pack("<H", 1 if local else 0) + (long + "\0").encode("utf-16-le") + (text(local) if local else b"") + b"\x1c\0"
                    w = dict(want, length_w=len(tail) + 2, creation_date_time=D[1], access_date_time=D[2], unicode_name=long, length_next=1 if local else 0)
                    if local:
                        w["localized_name"] = local
                    out["file %x %s %s" % (kind, name, local)] = (kind, display, head + struct.pack("<H", len(tail) + 2) + tail, w)
            else:
                out["file %x %s" % (kind, name)] = (kind, display, head + text(long), dict(want, name_short=long))
    return out


def items(case, ctx):
    table = entries(case["unicode"])
    keys = sorted(table)
    short = keys if case["n"] < 3 else [k for k in keys if k in ("computer", "drive", "other", "shell data") or k.startswith("file 31 A") or k.startswith("file 32 N")]
    for choice in itertools.product(short, repeat=case["n"]):
        body = b"".join(struct.pack("<HB", len(table[k][2]) + 3, table[k][0]) + table[k][2] for k in choice) + bytes(2)
        data = header(1 | case["unicode"] << 7) + struct.pack("<H", len(body)) + body + bytes(4)
        what = "shortcut with items %s%s" % (choice, " in Unicode" if case["unicode"] else "")
        p = opened(ctx, data, LnkFile)
        contiguous(ctx, what, p, len(data) * 8, 3)
        f = p["item_idlist"]
        fields(ctx, what, f, size=len(body))
        names(ctx, what, f, ["size"] + ["itemid[%d]" % i for i in range(len(choice) + 1)])
        for i, k in enumerate(choice):
            kind, display, d, want = table[k]
            x = f["itemid[%d]" % i]
            expect(ctx, what + ": size of item %s" % i, x.size // 8, len(d) + 3)
            fields(ctx, "%s: item %s" % (what, i), x, length=len(d) + 3, type=kind, **want)
            expect(ctx, what + ": description", x.description, "Item ID Entry: " + display)
        expect(ctx, what + ": end", (f["itemid[%d]" % len(choice)].size, f["itemid[%d]" % len(choice)].description), (16, "End of Item ID List"))
        ctx.seen("states", repr((case["unicode"], choice)))
        ctx.count("traces")
        ctx.count("transitions", len(choice))


def padded(s, size, codec):
    return (s + "\0").encode(codec).ljust(size, b"\0")


def blocks():
    out = {}
    for sig, name, display in ((0xA0000001, "target", "Link Target Information"), (0xA0000006, "darwinID", "DarwinID (Windows Installer ID) Information"), (0xA0000007, "icon_path", "Custom Icon Details")):
        for s, u in (("%a%\\b", "%a%\\b"), ("", "\u20ac"), ("x" * 259, "x" * 259)):
            out["%s %s" % (name, len(s))] = (sig, padded(s, 260, "latin-1") + padded(u, 520, "utf-16-le"), {name: s, name + "_unicode": u}, {}, display)
    out["host"] = (0xA0000003, struct.pack("<II", 0x58, 0) + b"machine".ljust(16, b"\0") + bytes(range(64)), {"remaining_length": 0x58, "hostname": "machine", "unknown__1": bytes(range(32)), "unknown__2": bytes(range(32, 64))}, {}, "Hostname and Other Stuff")
    for c in (0, 437, 65001):
        out["codepage %d" % c] = (0xA0000004, struct.pack("<I", c), {"codepage": c}, {}, "Console Codepage Information")
    for i, n in ((0, "DESKTOP"), (2, "PROGRAMS"), (36, "WINDOWS"), (61, "COMPUTERSNEARME")):
        out["folder %d" % i] = (0xA0000005, struct.pack("<II", i, 20 + i), {"special_folder_id": i, "offset": 20 + i}, {"special_folder_id": n}, "Special Folder Info")
    for bg, text in itertools.product((0, 5, 15), (0, 7, 14)):
        colors = [(16 * i, 255 - i, i) for i in range(16)]
        body = bytes([bg << 4 | text, 0, text << 4 | bg, 0]) + struct.pack("<6HIIHHII", 80, 300, 81, 25, 10, 20, 3, 4, 8, 12, 0x36, 400) + padded("Lucida Console", 64, "utf-16-le") + struct.pack("<8I", 25, 0, 1, 1, 0, 50, 4, 1) + b"".join(bytes(c) + b"\0" for c in colors)
        want = dict(color_text=text, color_bg=bg, color_popup_text=bg, color_popup_bg=text, buffer_width=80, buffer_height=300, window_width=81, window_height=25, position_left=10, position_top=20, font_number=3, input_buffer_size=4, font_width=8, font_height=12, font_family=0x36, font_weight=400,
                    font_name_unicode="Lucida Console", cursor_size=25, full_screen=0, quick_edit=1, insert_mode=1, auto_position=0, history_size=50, history_count=4, history_no_dup=1)
        for i, c in enumerate(colors):
            want.update({"color__%d__red" % i: c[0], "color__%d__green" % i: c[1], "color__%d__blue" % i: c[2]})
        out["console %d %d" % (bg, text)] = (0xA0000002, body, want, {"full_screen": "False", "quick_edit": "True"}, "Console Window Properties")
    out["other"] = (0xA0000009, b"property store", {"raw": b"property store"}, {}, "0xa0000009")
    return out


def extra(case, ctx):
    table = blocks()
    keys = sorted(table)
    if case["n"] > 1:
        keys = [k for k in keys if not k.startswith(("console", "codepage", "folder")) or k in ("console 5 7", "codepage 437", "folder 36")]
    for choice in itertools.product(keys, repeat=case["n"]):
        data = header(0) + b"".join(struct.pack("<II", len(table[k][1]) + 8, table[k][0]) + table[k][1] for k in choice) + bytes(4)
        what = "shortcut with blocks %s" % (choice,)
        p = opened(ctx, data, LnkFile)
        contiguous(ctx, what, p, len(data) * 8, 3)
        names(ctx, what, [x for x in p if x.name.startswith("extra")], ["extra_info[%d]" % i for i in range(len(choice) + 1)])
        for i, k in enumerate(choice):
            sig, d, want, displays, display = table[k]
            x = p["extra_info[%d]" % i]
            fields(ctx, "%s: block %s" % (what, i), x, length=len(d) + 8, signature=sig, **want)
            expect(ctx, what + ": description", x.description, "Extra Info Entry: " + display)
            for n, v in displays.items():
                expect(ctx, "%s: display of %s" % (what, n), x[n].display, v)
            if sig == 0xA0000002:
                for n, prefix in (("color_text", "Screen text color index"), ("color_bg", "Screen background color index"), ("color_popup_text", "Pop-up text color index"), ("color_popup_bg", "Pop-up background color index")):
                    v = want[n]
                    expect(ctx, what + ": " + n, x[n].description, "%s: RGB Color: #%02X%02X%02X" % (prefix, 16 * v, 255 - v, v))
        expect(ctx, what + ": end", p["extra_info[%d]" % len(choice)].description, "End of Extra Info")
        ctx.seen("states", repr(choice))
        ctx.count("traces")
        ctx.count("transitions", len(choice))


PRODUCTS = {0x400: "Windows NT 4.0", 0x500: "Windows 2000", 0x501: "Windows XP", 0x600: "Windows Vista", 0x601: "Windows 7"}
BITS = "Interactive DeleteWhenDone Disabled StartOnlyIfIdle KillOnIdleEnd DontStartIfOnBatteries KillIfGoingOnBatteries RunOnlyIfDocked HiddenTask RunIfConnectedToInternet RestartOnIdleResume SystemRequired OnlyIfUserLoggedOn ApplicationNameExists".split()
TRIGGERS = ("ONCE", "DAILY", "WEEKLY", "MONTHLYDATE", "MONTHLYDOW", "EVENT_ON_IDLE", "EVENT_AT_SYSTEMSTART", "EVENT_AT_LOGON")
NAMES = ("AppNameLength", "Parameters", "WorkingDirectory", "Author", "Comment")


def trigger(kind, flags=0, begin=(2010, 11, 9), end=(0, 0, 0), start=(23, 59), duration=60, interval=5, specific=(1, 2, 3)):
    return struct.pack("<HH8HIIII3HHHH", 48, 0, *begin, *end, *start, duration, interval, flags, kind, *specific, 0, 0, 0)


def task(texts, triggers=(), version=0x501, flags=0, user=b"", reserved=struct.pack("<II", 0x41301, 7), status=0x41303, run=(2010, 11, 2, 9, 23, 58, 59, 999), signature=b"", count=0):
    def text(s):
        return struct.pack("<H", len(s) + 1) + (s + "\0").encode("utf-16-le") if s else struct.pack("<H", 0)
    head = struct.pack("<HH", version, 1) + G1
    body = struct.pack("<HHHHIIIII", 3, 10, 60, 15, 0x20, 259200000, 5, status, flags) + struct.pack("<8H", *run)
    strings = struct.pack("<H", count) + b"".join(text(s) for s in texts) + struct.pack("<H", len(user)) + user + struct.pack("<H", len(reserved)) + reserved
    start = len(head) + 4 + len(body)
    return head + struct.pack("<HH", start + 2, start + len(strings)) + body + strings + struct.pack("<H", len(triggers)) + b"".join(triggers) + signature, start + len(strings)


def tasks(case, ctx):
    words = ("", "a", "C:\\WINDOWS\\notepad.exe", "\xe9\u20ac")
    if case["what"] == "texts":
        cases = [(t, (), {}) for t in itertools.product(words[:3], repeat=5)] + [((w,) * 5, (), {}) for w in words]
    elif case["what"] == "triggers":
        kinds = [(k, f) for k in range(8) for f in (0, 1 << k % 3)]
        cases = [(words[:1] * 5, t, {}) for n in range(4) for t in itertools.product(kinds if n < 3 else kinds[::5], repeat=n)]
    else:
        cases = [(words[1:2] * 5, ((1, 7),), o) for o in [dict(flags=1 << i) for i in range(14)] + [dict(flags=f) for f in (0, 0x2AAA, 0x1555, 0x3FFF)] + [dict(version=v) for v in PRODUCTS] + [dict(user=bytes(n), reserved=r) for n in (0, 1, 7) for r in (b"", b"x", struct.pack("<II", 0x41300, 1))]
                 + [dict(status=s) for s in range(0x41300, 0x41310)] + [dict(signature=bytes(range(68))), dict(run=(0,) * 8), dict(count=65535)]]
    for texts, triggers, options in cases:
        data, at = task(texts, [trigger(k, f, begin=(2000 + i, 12 - i, 31 - k), specific=(k, i, f)) for i, (k, f) in enumerate(triggers)], **options)
        what = "task with texts %s, triggers %s, %s" % (texts, triggers, options)
        p = opened(ctx, data, MSTaskFile)
        contiguous(ctx, what, p, len(data) * 8, 3)
        flags, version, user = options.get("flags", 0), options.get("version", 0x501), options.get("user", b"")
        reserved, status, run = options.get("reserved", struct.pack("<II", 0x41301, 7)), options.get("status", 0x41303), options.get("run", (2010, 11, 2, 9, 23, 58, 59, 999))
        fields(ctx, what, p, WindowsVersion=version, FileVersion=1, JobUUID=T1, TriggerOffset=at, ErrorRetryCount=3, ErrorRetryInterval=10, IdleDeadline=60, IdleWait=15, Priority=0x20, MaxRunTime=259200000, ExitCode=5, Status=status, RunningInstanceCount=options.get("count", 0),
               UserDataSize=len(user), ReservedDataSize=len(reserved), TriggerCount=len(triggers), **{n: bool(flags >> i & 1) for i, n in enumerate(BITS)})
        fields(ctx, what, p, **dict(zip(("LastRunYear", "LastRunMonth", "LastRunWeekday", "LastRunDay", "LastRunHour", "LastRunMinute", "LastRunSecond", "LastRunMillisecond"), run)))
        fields(ctx, what, p, **{n: t or None for n, t in zip(NAMES, texts)})
        expect(ctx, what + ": version", p["WindowsVersion"].display, PRODUCTS[version])
        if status == 0x41303:
            expect(ctx, what + ": status", p["Status"].display, "Task has not run")
        if user:
            fields(ctx, what, p, UserData=user)
        if len(reserved) == 8:
            fields(ctx, what, p, StartError=int.from_bytes(reserved[:4], "little"), TaskFlags=int.from_bytes(reserved[4:], "little"))
        elif reserved:
            fields(ctx, what, p, Reserved=reserved)
        expect(ctx, what + ": triggers", [x.name for x in p if x.name.startswith("Trigger[")], ["Trigger[%d]" % i for i in range(len(triggers))])
        expect(ctx, what + ": place of the triggers", p["TriggerCount"].address // 8, at)
        for i, (k, f) in enumerate(triggers):
            t = p["Trigger[%d]" % i]
            fields(ctx, "%s: trigger %s" % (what, i), t, TriggerSize=48, BeginYear=2000 + i, BeginMonth=12 - i, BeginDay=31 - k, EndYear=0, EndMonth=0, EndDay=0, StartHour=23, StartMinute=59, MinutesDuration=60, MinutesInterval=5, HasEndDate=bool(f & 1), KillAtDurationEnd=bool(f & 2),
                   TriggerDisabled=bool(f & 4), TriggerType=k, TriggerSpecific0=k, TriggerSpecific1=i, TriggerSpecific2=f)
            expect(ctx, what + ": trigger", t["TriggerType"].display, TRIGGERS[k])
        ctx.seen("states", repr((texts, triggers, options)))
        ctx.count("traces")
        ctx.count("transitions", 1 + len(triggers))


if __name__ == "__main__":
    c = lib.Check("A16", "model_checking",
                  "all values of the header (flags, attributes, hot keys, windows, dates), all sets of texts in both kinds of characters with or without items, paths and blocks around them, local and network paths in three orders with gaps, sequences of items and of extra blocks of all kinds: place and value of each field",
                  bounds={"items": "sequences up to 2 of all kinds, 3 of six kinds", "extra blocks": "sequences up to 2 (thorough: 3)"})
    q = c.quick
    c.domain("headers", [{}], headers)
    c.domain("texts", [{}], texts)
    c.domain("locations", [{"unicode": u} for u in (False, True)], locations, batch=1)
    c.domain("items", [{"n": n, "unicode": u} for n in range(0, 4) for u in (False, True)], items, batch=1)
    c.domain("extra", [{"n": n} for n in range(0, 3 if q else 4)], extra, batch=1)
    c.domain("tasks", [{"what": w} for w in ("texts", "triggers", "options")], tasks, batch=1)
    c.main()
