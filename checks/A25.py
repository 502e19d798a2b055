"""A25: Mach-O programs are shown as they were written: header, load commands, segments, sections, libraries, architectures of fat files."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get, opened
from hachoir.parser.program.macho import MachoFatFile, MachoFile

KINDS = list(itertools.product((0, 1), "<>"))
MAGIC = 0xfeedface
CPU = {-1: "Any", 1: "VAX", 6: "MC680x0", 7: "i386", 0x1000007: "x86_64", 8: "MIPS", 10: "MC98000", 11: "HPPA", 12: "ARM", 0x100000c: "ARM64", 13: "MC88000", 14: "SPARC", 15: "I860", 16: "Alpha", 18: "PowerPC", 0x1000012: "PowerPC64", 99: "99"}
TYPES = {1: "Relocatable object", 2: "Demand-paged executable", 3: "Fixed VM shared library", 4: "Core file", 5: "Preloaded executable", 6: "Dynamically bound shared library", 7: "Dynamic link editor", 8: "Dynamically bound bundle",
         9: "Shared library stub for static linking only", 10: "Companion file with only debug sections", 11: "x86_64 kext", 77: "77"}
FLAGS = ("NOUNDEFS INCRLINK DYLDLINK BINDATLOAD PREBOUND SPLIT_SEGS LAZY_INIT TWOLEVEL FORCE_FLAT NOMULTIDEFS NOFIXPREBINDING PREBINDABLE ALLMODSBOUND SUBSECTIONS_VIA_SYMBOLS CANONICAL WEAK_DEFINES BINDS_TO_WEAK"
         " ALLOW_STACK_EXECUTION ROOT_SAFE SETUID_SAFE NO_REEXPORTED_DYLIBS PIE DEAD_STRIPPABLE_DYLIB HAS_TLV_DESCRIPTORS NO_HEAP_EXECUTION").split()
NAMES = {1: "Segment", 2: "Symbol table", 3: "Symbol segment", 4: "Thread", 5: "UNIX thread", 6: "Load fixed VM library", 7: "Fixed VM library identification", 8: "Object identification", 9: "Fixed VM file inclusion", 10: "Prepage",
         11: "Dynamic symbol table", 12: "Load dynamic library", 13: "Dynamic library identification", 14: "Load dynamic linker", 15: "Dynamic linker identification", 16: "Prebound modules", 17: "Image routines", 18: "Sub-framework",
         19: "Sub-umbrella", 20: "Sub-client", 21: "Sub-library", 22: "Two-level lookup hints", 23: "Prebind checksum", 0x80000018: "Load dynamic library weakly", 25: "64-bit segment", 26: "64-bit image routines", 27: "UUID",
         0x8000001c: "Runpath additions", 29: "Code signature", 30: "Segment split info", 0x8000001f: "Load and re-export dylib", 32: "Lazy load dynamic library", 33: "Encrypted segment information", 34: "Compressed dyld info",
         0x80000022: "Compressed dyld info", 0x80000023: "Load upward dylib", 36: "Minimum macOS version", 37: "Minimum iOS version", 38: "Compressed function start address table", 39: "dyld environment variables",
         0x80000028: "Main thread info", 41: "Table of non-instructions in text segment", 42: "Source code version info", 43: "Code signing info from linked dylibs"}


class Cmd:
    """want: path below the command -> value; shown: end of its display"""

    def __init__(self, code, body, shown=None, text=None, **want):
        self.code, self.body, self.shown, self.text, self.want = code, body, shown, text, want


def pad(body, bits64):
    n = 8 if bits64 else 4
    return body + bytes(-(len(body)) % n)


def string(s, n=16):
    return s.encode("ascii").ljust(n, b"\0")


def section(e, wide, seg, name, values):
    """values: addr size offset align reloff nreloc flags reserved1 reserved2"""
    b = string(name) + string(seg) + struct.pack(e + ("QQ" if wide else "II") + "7I", *values)
    want = {"sectname": name, "segname": seg}
    want.update(zip(("addr", "size", "offset", "align", "reloff", "nreloc", "flags", "reserved1", "reserved2"), values))
    return b + (b"\1\2\3\4" if wide else b""), want


def segment(e, wide, name, values, sections=()):
    """values: vmaddr vmsize fileoff filesize maxprot initprot flags"""
    b = string(name) + struct.pack(e + ("4Q" if wide else "4I") + "IIII", *values[:6], len(sections), values[6])
    want = {"segname": name, "nsects": len(sections)}
    want.update(zip(("vmaddr", "vmsize", "fileoff", "filesize", "maxprot", "initprot", "flags"), values))
    for i, (s, v) in enumerate(sections):
        x, w = section(e, wide, name, s, v)
        b += x
        want.update({"section[%s]/%s" % (i, k): y for k, y in w.items()})
        want["section[%s]" % i] = "%s,%s" % (name, s)
    want["section[%s]" % len(sections)] = "no field"
    return Cmd(25 if wide else 1, b, name, "Load segment " + name, **{"data": name, **{"data/" + k: v for k, v in want.items()}})


def numbers(e, code, names, values, shown=None):
    return Cmd(code, struct.pack(e + "%sI" % len(names), *values), shown, None, **{"data/" + k: v for k, v in zip(names, values)})


DYSYM = "ilocalsym nlocalsym iextdefsym nextdefsym iundefsym nundefsym tocoff ntoc modtaboff nmodtab extrefsymoff nextrefsyms indirectsymoff nindirectsyms extreloff nextrel locreloff nlocrel".split()
DYLD = "rebase_off rebase_size bind_off bind_size weak_bind_off weak_bind_size lazy_bind_off lazy_bind_size export_off export_size".split()


def library(e, wide, name, values=(2, 0x10203, 0x10000), gap=0, code=12):
    off = 24 + gap
    b = struct.pack(e + "4I", off, *values) + b"G" * gap + name.encode() + b"\0"
    return Cmd(code, pad(b, wide), name, None, data=name, **dict(zip(("data/offset", "data/timestamp", "data/current_version", "data/compatibility_version"), (off, *values))), **{"data/name": name})


def linker(e, wide, name, gap=0):
    b = struct.pack(e + "I", 12 + gap) + b"G" * gap + name.encode() + b"\0"
    return Cmd(14, pad(b, wide), name, None, data=name, **{"data/offset": 12 + gap, "data/name": name})


def version(e, code, v, sdk):
    pack = [a << 16 | b << 8 | c for a, b, c in (v, sdk)]
    return Cmd(code, struct.pack(e + "II", *pack), "%d.%d.%d sdk %d.%d.%d" % (*v, *sdk), None, **{"data/version": pack[0], "data/sdk": pack[1]})


def uuid(b):
    h = b.hex()
    return Cmd(27, b, "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])), "UUID for corresponding dSYM file", data=b)


def raw(code, body):
    return Cmd(code, body, None, "Raw data" if body else None, **{"data": body or "no field"})


def program(kind, cpu, sub, typ, flags, cmds, tail=b"", e_tail=0):
    """Bytes of the file, place of each command"""
    wide, e = kind
    body, places = b"", []
    size = 32 if wide else 28
    for c in cmds:
        places.append(size + len(body))
        body += struct.pack(e + "II", c.code, 8 + len(c.body)) + c.body
    head = struct.pack(e + "IiiIIII", MAGIC + wide, cpu, sub, typ, len(cmds), len(body), flags) + (struct.pack(e + "I", 0x55) if wide else b"")
    return head + body + tail, places


def check(ctx, what, p, kind, cpu, sub, typ, flags, cmds, places, size, base=0):
    wide, e = kind
    header = p["header"]
    for k, v in (("magic", struct.pack(e + "I", MAGIC + wide)), ("cputype", cpu), ("cpusubtype", sub), ("filetype", typ), ("ncmds", len(cmds)), ("sizeofcmds", sum(8 + len(c.body) for c in cmds)), ("reserved", 0x55 if wide else "no field")):
        expect(ctx, what + ": header, " + k, get(header, k), v)
    expect(ctx, what + ": size of the header", header.size, (32 if wide else 28) * 8)
    expect(ctx, what + ": flags", [f for f in FLAGS if header["flags_" + f.lower()].value], [f for i, f in enumerate(FLAGS) if flags >> i & 1])
    expect(ctx, what + ": processor and type", (header["cputype"].display, header["filetype"].display), (CPU[cpu], TYPES[typ]))
    expect(ctx, what + ": description of the header", header.description, "%s %s, %d load commands, <%s>" % (CPU[cpu], TYPES[typ], len(cmds), "|".join(f for i, f in enumerate(FLAGS) if flags >> i & 1)))
    expect(ctx, what + ": description", p.description, "Mach-O program/library: " + CPU[cpu])
    list(p)
    got = list(p.array("load_command"))
    expect(ctx, what + ": number of commands", len(got), len(cmds))
    for i, (f, c) in enumerate(zip(got, cmds)):
        w = "%s: command %s (%#x)" % (what, i, c.code)
        expect(ctx, w + ": place and size", (f.absolute_address // 8 - base, f.size // 8), (places[i], 8 + len(c.body)))
        name = NAMES.get(c.code, str(c.code))
        expect(ctx, w + ": kind, size", (f["cmd"].value, f.value, f["cmd"].display, f["cmdsize"].value), (c.code, c.code, name, 8 + len(c.body)))
        for k, v in c.want.items():
            x = get(f, k)
            expect(ctx, w + ": " + k, x, v)
        if c.shown is not None:
            expect(ctx, w + ": display", f.display, name + ": " + c.shown)
        elif not f.display.startswith(name):
            ctx.report("%s: displayed as %r" % (w, f.display))
        if c.text is not None:
            expect(ctx, w + ": description", f.description, c.text)
        contiguous(ctx, w, f, f.size, 3)


def run(ctx, what, kind, cpu, sub, typ, flags, cmds, tail=bytes(64)):
    data, places = program(kind, cpu, sub, typ, flags, cmds, tail)
    p = direct(ctx, data, MachoFile)     # (without tags, an MPEG audio file may be found in 0xFF bytes)
    check(ctx, what, p, kind, cpu, sub, typ, flags, cmds, places, len(data))
    return p


def headers(case, ctx):
    kind = case["kind"]
    wide, e = kind
    seg = [segment(e, wide, "__TEXT", (0x1000, 0x2000, 0, 0x2000, 7, 5, 0))]
    for cpu, typ in itertools.product(CPU, TYPES):
        run(ctx, "%s processor %s type %s" % (kind, cpu, typ), kind, cpu, 3, typ, 0x85, seg)
    for i, j in itertools.combinations_with_replacement(range(len(FLAGS)), 2):
        for sub in (3, -2):
            run(ctx, "%s flags %s %s" % (kind, i, j), kind, 7, sub, 2, 1 << i | 1 << j, seg)
            run(ctx, "%s flags but %s %s" % (kind, i, j), kind, 7, sub, 2, ((1 << len(FLAGS)) - 1) & ~(1 << i | 1 << j), seg)
    run(ctx, "%s no flag" % (kind,), kind, 7, 3, 2, 0, seg)


def pool(e, wide):
    big = 1 << 32 if wide else 0
    return [
        segment(e, wide, "__PAGEZERO", (0, 0x1000 + big, 0, 0, 0, 0, 0)),
        segment(e, wide, "__TEXT", (0x1000 + big, 0x2000, 0, 0x2001 + big, 7, 5, 4), [("__text", (0x1100 + big, 0x11, 0x100, 4, 0x777, 9, 0x80000400, 1, 2)), ("__sixteen_letters"[:16], (0x1200, 0x12 + big, 0x200, 0, 0, 0, 0, 0, 0))]),
        numbers(e, 2, ("symoff", "nsyms", "stroff", "strsize"), (0x3000, 7, 0x4000, 0x99)),
        numbers(e, 11, DYSYM, range(101, 119)),
        linker(e, wide, "/usr/lib/dyld"),
        library(e, wide, "/usr/lib/libSystem.B.dylib"),
        uuid(bytes(range(1, 17))),
        version(e, 36, (10, 12, 3), (10, 13, 255)),
        raw(0x80000028, struct.pack(e + "QQ", 0xf60, 0)),
        raw(42, b""),
        numbers(e, 0x80000022, DYLD, range(201, 211)),
    ]


def sequences(case, ctx):
    kind = case["kind"]
    wide, e = kind
    items = pool(e, wide)
    for n in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(items)), repeat=n):
            if seq[0] != case["first"]:
                continue
            cmds = [items[i] for i in seq]
            # the parser wants the size of one segment command
            tail = bytes(64)
            run(ctx, "%s commands %s" % (kind, seq), kind, 7, 3, 2, 1, cmds, tail)


def contents(case, ctx):
    kind = case["kind"]
    wide, e = kind
    one = lambda what, c, extra=b"": run(ctx, "%s %s" % (kind, what), kind, 18, 0, 2, 1, [c, uuid(bytes(range(16)))])
    # each code
    for code in list(NAMES) + [0x7f, 0x8000007f]:
        for body in (b"", b"body", b"longer body."):
            if code in (1, 25, 2, 3, 11, 12, 14, 27, 34, 0x80000022, 36, 37):
                continue
            one("raw %#x %s" % (code, len(body)), raw(code, body))
    one("symbol segment", numbers(e, 3, ("offset", "size"), (0x12345678, 0x9abcdef0)))
    one("dyld info", numbers(e, 34, DYLD, range(1, 11)))
    # each number alone
    top = 0xffffffff
    for code, names in ((2, ("symoff", "nsyms", "stroff", "strsize")), (11, DYSYM), (0x80000022, DYLD)):
        for i in range(len(names)):
            for v in (1, 0x80000000, top):
                one("%#x number %s" % (code, i), numbers(e, code, names, [v if k == i else 0 for k in range(len(names))]))
                one("%#x number %s" % (code, i), numbers(e, code, names, [0 if k == i else v for k in range(len(names))]))
    # names: each length, with each distance to the name
    for n, gap in itertools.product(range(0, case["n"]), (0, 4, 8)):
        name = "/usr/lib/lib%s.dylib" % ("x" * n) if n else "L"
        one("library of %s letters after %s bytes" % (n, gap), library(e, wide, name, (n, 0x10000 + n, 0xffffffff - n), gap))
        one("linker of %s letters after %s bytes" % (n, gap), linker(e, wide, name, gap))
    for v in itertools.product((0, 10, 0x7fff), (0, 12, 255), (0, 1, 255)):
        for w in itertools.product((0, 11, 0xffff), (3, 255), (0, 254)):
            one("version %s %s" % (v, w), version(e, 36 if sum(v) % 2 else 37, v, w))
    for i in range(16):
        one("uuid %s" % i, uuid(bytes(255 if k == i else k for k in range(16))))
        one("uuid %s" % i, uuid(bytes(0 if k != i else 0xa5 for k in range(16))))
    # segments: each number alone, each number of sections, each length of the names
    limit = (1 << 64) - 1 if wide else top
    for i in range(7):
        for v in (1, 0x80000000, limit if i < 4 else top):
            one("segment, number %s" % i, segment(e, wide, "__DATA", [v if k == i else 0 for k in range(7)]))
    for i in range(9):
        for v in (1, 0x80000000, limit if i < 2 else top):
            one("section, number %s" % i, segment(e, wide, "__DATA", (1,) * 7, [("__a", [v if k == i else 0 for k in range(9)]), ("__b", [0 if k == i else min(v, top) for k in range(9)])]))
    for n in range(case["n"]):
        one("%s sections" % n, segment(e, wide, "__DATA", (1, 2, 3, 4, 5, 6, 7), [("s%s" % k, range(k, k + 9)) for k in range(n)]))
    for a, b in itertools.product(range(0, 17), repeat=2):
        one("names of %s and %s letters" % (a, b), segment(e, wide, "S" * a, (1, 2, 3, 4, 5, 6, 7), [("t" * b, range(9))]))


def fat(case, ctx):
    """Files of several architectures: each one is shown with its own order of bytes and size of words"""
    for n in range(1, case["n"] + 1):
        for kinds in itertools.product(range(4), repeat=n):
            if kinds[0] != case["first"]:
                continue
            for gap in (0, 32):
                pos, out, archs, progs = 4096, b"", [], []
                for i, k in enumerate(kinds):
                    wide, e = KINDS[k]
                    items = pool(e, wide)
                    cmds = [items[1], items[4 + i % 2], items[6], items[2 + (k + i) % 2], items[9]]
                    cpu = [7, 18, 0x1000007, 0x1000012][k]
                    data, places = program(KINDS[k], cpu, i, 2 + i, 1 << i, cmds, bytes([65 + i]) * 24)
                    archs.append((cpu, i - 1, pos, len(data), 12 + i))
                    progs.append((KINDS[k], cpu, i, 2 + i, 1 << i, cmds, places, len(data), pos))
                    out += data + b"G" * gap
                    pos += len(data) + gap
                head = struct.pack(">II", 0xcafebabe, n) + b"".join(struct.pack(">iiIII", *a) for a in archs)
                what = "fat file %s, gap %s" % (kinds, gap)
                p = opened(ctx, head.ljust(4096, b"\0") + out, MachoFatFile)
                expect(ctx, what + ": header", (get(p, "header/magic"), get(p, "header/nfat_arch"), p["header"].size), (b"\xca\xfe\xba\xbe", n, 64 + 160 * n))
                files = []
                list(p)
                for i, (a, g) in enumerate(zip(archs, progs)):
                    f = p["header/arch[%s]" % i]
                    expect(ctx, what + ": architecture %s" % i, (*[f[k].value for k in ("cputype", "cpusubtype", "offset", "size", "align")], f["cputype"].display, f["align"].description), (*a, CPU[a[0]], str(1 << a[4])))
                    q = p["file[%s]" % i]
                    expect(ctx, what + ": place of file %s" % i, (q.absolute_address // 8, q.size // 8), (a[2], a[3]))
                    check(ctx, "%s: file %s" % (what, i), q, *g)
                expect(ctx, what + ": files", len(list(p.array("file"))), n)


if __name__ == "__main__":
    c = lib.Check("A25", "model_checking",
                  "all processors, types and flags, all sequences of load commands, all numbers, names and lengths of the commands, segments and sections of Mach-O files in both word sizes and byte orders, and all sets of these in fat files: place, size and value of each field, display and description of each command",
                  bounds={"load commands": "up to 3 of 11 (thorough: 4)", "architectures": "up to 3 (thorough: 5)", "sections": "up to 11 (thorough: 39)"})
    q = c.quick
    c.domain("headers", [{"kind": k} for k in KINDS], headers, batch=1)
    c.domain("sequences", [{"kind": k, "first": i, "n": 3 if q else 4} for k in KINDS for i in range(11)], sequences, batch=1)
    c.domain("contents", [{"kind": k, "n": 12 if q else 40} for k in KINDS], contents, batch=1)
    c.domain("fat files", [{"first": k, "n": 3 if q else 5} for k in range(4)], fat, batch=1)
    c.main()
