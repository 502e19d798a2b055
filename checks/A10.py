"""A10: programs (ELF, Windows executables with their resources, Java classes) are shown as they were written."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import check_meta, contiguous, direct, expect, fields, get, metadata
from hachoir.parser.program import ElfFile, ExeFile, JavaCompiledClassFile
formats.ALLOW.append(("ElfFile", "/name$", "Unable to create display"))     # sections without a table of names
formats.ALLOW.append(("ExeFile", "^/pe_opt_header$", "add padding"))       # (an optional header longer than its fields)


# --- ELF ---

EHDR = {1: "HHIIIIIHHHHHH", 2: "HHIQQQIHHHHHH"}
E_NAMES = "type machine version entry phoff shoff flags ehsize phentsize phnum shentsize shnum shstrndx".split()
P_NAMES = {1: "type offset vaddr paddr file_size mem_size flags align".split(), 2: "type flags offset vaddr paddr file_size mem_size align".split()}
PHDR = {1: "IIIIIIII", 2: "IIQQQQQQ"}
S_NAMES = "name type flags VMA LMA size link info addr_align entry_size".split()
SHDR = {1: "I" * 10, 2: "IIQQQQIIQQ"}
S_FLAGS = {0: "is_writable", 1: "is_alloc", 2: "is_exec", 4: "is_merged", 5: "is_strings", 6: "is_info_link", 7: "preserve_link_order", 8: "os_nonconforming", 9: "is_group", 10: "is_tls", 11: "is_compressed"}
S_TYPES = {0: "Inactive", 1: "Program defined information", 2: "Symbol table section", 3: "String table section", 4: "Relocation section with addends", 5: "Symbol hash table section", 6: "Dynamic section", 7: "Note section",
           8: "Block started by symbol (BSS) or No space section", 9: "Relocation section without addends", 11: "Dynamic symbol table section"}


def elf(cls, e, order, segs, sects, strndx, over=None, gap=0):
    """order: places of "P" (program headers), "S" (section headers) and of the data of the sections (numbers)"""
    at = {}
    pos = ehsize = 16 + struct.calcsize(e + EHDR[cls])
    psize, ssize = struct.calcsize(e + PHDR[cls]), struct.calcsize(e + SHDR[cls])
    for x in order:
        pos += gap
        at[x] = pos
        pos += len(segs) * psize if x == "P" else len(sects) * ssize if x == "S" else len(sects[x]["data"])
    data = bytearray(pos)
    head = dict(type=2, machine=3 if cls == 1 else 62, version=1, entry=0x8048123, phoff=at["P"] if segs else 0, shoff=at["S"] if sects else 0, flags=0x81020304, ehsize=ehsize,
                phentsize=psize if segs else 0, phnum=len(segs), shentsize=ssize, shnum=len(sects), shstrndx=strndx)
    head.update(over or {})
    data[:16] = b"\x7fELF" + bytes((cls, {"<": 1, ">": 2}[e], 1, (over or {}).get("osabi", 0), 0)) + bytes(7)
    data[16:ehsize] = struct.pack(e + EHDR[cls], *[head[n] for n in E_NAMES])
    for k, s in enumerate(segs):
        p = at["P"] + k * psize
        data[p:p + psize] = struct.pack(e + PHDR[cls], *[s[n] for n in P_NAMES[cls]])
    for k, s in enumerate(sects):
        if k in at:
            s["LMA"] = at[k]
            data[at[k]:at[k] + len(s["data"])] = s["data"]
        p = at["S"] + k * ssize
        data[p:p + ssize] = struct.pack(e + SHDR[cls], *[s[n] for n in S_NAMES])
    return bytes(data), head, at


def segment(k, flags=5, type=1):
    return dict(type=type, offset=0x1000 * k, vaddr=0x8048000 + k, paddr=0x10000 + k, file_size=0x234 + k, mem_size=0x345 + k, flags=flags, align=4096)


def section(k, data, type=1, name=0, flags=0, size=None):
    return dict(name=name, type=type, flags=flags, VMA=0x8049000 + k * 256, LMA=0, size=len(data) if size is None else size, link=k + 1, info=2 * k, addr_align=16, entry_size=k + 3, data=data)


def check_elf(ctx, what, data, cls, e, head, segs, sects, at, names=None):
    p = direct(ctx, data, ElfFile)
    ctx.seen("states", (cls, e, len(segs), len(sects)))
    h = p["header"]
    fields(ctx, what, h, **{n: head[n] for n in E_NAMES})
    expect(ctx, what + ": description", p.description, "ELF Unix/BSD program/library: %s bits" % (32 * cls))
    expect(ctx, what + ": entry point", h["entry"].display, "0x%0*x" % (8 * cls, head["entry"]))
    if segs or "prg_header[0]" in p:
        got = p.array("prg_header")
        if expect(ctx, what + ": program headers", len(got), len(segs)):
            for k, s in enumerate(segs):
                f = got[k]
                expect(ctx, "%s: place of %s" % (what, f.path), f.address, (at["P"] + k * struct.calcsize(e + PHDR[cls])) * 8)
                fields(ctx, what, f, **{n: v for n, v in s.items() if n != "flags"})
                fields(ctx, what, f["flags"], pf_x=bool(s["flags"] & 1), pf_w=bool(s["flags"] & 2), pf_r=bool(s["flags"] & 4))
                expect(ctx, what + ": flags", f["flags"].description, "Segment is " + ", ".join(n for b, n in ((4, "readable"), (2, "writable"), (1, "executable")) if s["flags"] & b))
    got = p.array("section_header")
    if not expect(ctx, what + ": section headers", len(got), len(sects)):
        return
    for k, s in enumerate(sects):
        f = got[k]
        expect(ctx, "%s: place of %s" % (what, f.path), f.address, (at["S"] + k * struct.calcsize(e + SHDR[cls])) * 8)
        fields(ctx, what, f, **{n: v for n, v in s.items() if n not in ("flags", "data")})
        fields(ctx, what, f["flags"], **{n: bool(s["flags"] >> b & 1) for b, n in S_FLAGS.items()}, os_specific=s["flags"] >> 20 & 255, processor_specific=s["flags"] >> 28 & 15)
        expect(ctx, what + ": type", f["type"].display, S_TYPES.get(s["type"], "0x%08x" % s["type"]))
        name = names[k] if names else ""
        expect(ctx, "%s: name of %s" % (what, f.path), f["name"].display, name)
        expect(ctx, "%s: description of %s" % (what, f.path), f.description, "Section header (name: %s, type: %s)" % (name, S_TYPES.get(s["type"], "0x%08x" % s["type"])))
        g = "section[%s]" % k
        if s["size"] and s["type"] != 8:
            if g not in p:
                ctx.report("%s: %s is missing" % (what, g))
            else:
                expect(ctx, "%s: %s" % (what, g), (p[g].absolute_address, p[g].size, p[g].value), (s["LMA"] * 8, len(s["data"]) * 8, s["data"]))
        elif g in p:
            ctx.report("%s: %s has no data in the file" % (what, g))
    contents = [f for f in p if not f.name.startswith(("section", "prg_header", "header"))]
    used = sorted([(f.address, f.address + f.size) for f in p if f.size])
    pos = 0
    for a, b in used:
        if a > pos:
            ctx.report("%s: no field shows bits %s to %s" % (what, pos, a))
        if a < pos:
            ctx.report("%s: two fields show bit %s" % (what, a))
        pos = max(pos, b)
    expect(ctx, what + ": end of the fields", pos, len(data) * 8)


def elf_layouts(case, ctx):
    """Any order of the tables and of the sections in the file"""
    cls, e = case["cls"], case["e"]
    table = b"\0.text\0.shstrtab\0.bss\0.d\xc3\xa9bug\0"
    for nseg in (0, 1, 2):
        for extra in range(4 if ctx.quick else 5):
            for strndx in range(1, extra + 2):
                kinds = [section(0, b"", 0)]
                names = [""]
                others = [(1, b"\x90\xc3text", ".text", 1), (8, b"", ".bss", 17), (1, b"d" * 5, ".débug", 22), (7, b"nn", "text", 2)]
                j = 0
                for k in range(1, extra + 2):
                    if k == strndx:
                        kinds.append(section(k, table, 3, 7))
                        names.append(".shstrtab")
                    else:
                        t, d, nm, off = others[j]
                        j += 1
                        kinds.append(section(k, d, t, off, size=77 if t == 8 else None))
                        names.append(nm)
                places = [k for k, s in enumerate(kinds) if s["data"]]
                for order in itertools.permutations((["P"] if nseg else []) + ["S"] + places):
                    for gap in (0, 3):
                        segs = [segment(k) for k in range(nseg)]
                        data, head, at = elf(cls, e, order, segs, kinds, strndx, gap=gap)
                        check_elf(ctx, "ELF %s%s with %s, %s between" % (cls * 32, e, order, gap), data, cls, e, head, segs, kinds, at, names)


def elf_values(case, ctx):
    """Types, machines, flags of segments and sections, numbers; files without sections or names"""
    cls, e = case["cls"], case["e"]
    types = {0: "No file type", 1: "Relocatable file", 2: "Executable file", 3: "Shared object file", 4: "Core file", 5: "5", 0xFFFF: "Processor-specific (0xFFFF)"}
    machines = {2: "SPARC", 3: "Intel 80386", 8: "MIPS I Architecture", 20: "PowerPC 32-bit", 40: "Advanced RISC Machines (ARM)", 62: "Advanced Micro Devices x86-64", 50: "Intel Merced (IA-64) Processor", 999: "999"}
    for t, m, abi in itertools.product(types, machines, (0, 3, 9, 77)):
        data, head, at = elf(cls, e, "P", [segment(1)], [], 0, dict(type=t, machine=m, osabi=abi))
        what = "ELF %s%s of type %s, machine %s" % (cls * 32, e, t, m)
        check_elf(ctx, what, data, cls, e, head, [segment(1)], [], at)
        p = direct(ctx, data, ElfFile)
        expect(ctx, what, (p["header/type"].display, p["header/machine"].display, p["header/osabi_ident"].display, p["header/class"].display, p["header/endian"].display),
               (types[t], machines[m], {0: "UNIX System V ABI", 3: "GNU/Linux", 9: "FreeBSD", 77: "77"}[abi], "%s bits" % (cls * 32), {"<": "Little endian", ">": "Big endian"}[e]))
    for flags in range(8):
        for t in (0, 1, 2, 3, 4, 6, 7, 0x6474e551, 0x12345):
            segs = [segment(k, (flags + k) % 8, t) for k in range(2)]
            data, head, at = elf(cls, e, "P", segs, [], 0)
            check_elf(ctx, "ELF %s%s with segments of flags %s, type %s" % (cls * 32, e, flags, t), data, cls, e, head, segs, [], at)
    for bits in itertools.chain(itertools.combinations(list(S_FLAGS), 1), itertools.combinations(list(S_FLAGS), 2), [(), tuple(S_FLAGS)], [(20,), (27,), (28,), (31,), (20, 31)]):
        flags = sum(1 << b for b in bits)
        sects = [section(0, b"", 0), section(1, b"\0one\0", 3, 1), section(2, b"xyz", 1, 2, flags=flags)]
        data, head, at = elf(cls, e, [1, 2, "S"], [], sects, 1)
        check_elf(ctx, "ELF %s%s with a section of flags %#x" % (cls * 32, e, flags), data, cls, e, head, [], sects, at, ["", "one", "ne"])
    for t in list(S_TYPES) + [0x6ffffff6]:
        for size in (0, 1, 300):
            sects = [section(0, b"", 0), section(1, b"\0one\0", 3, 1), section(2, b"" if t == 8 else b"z" * size, t, 2, size=size)]
            data, head, at = elf(cls, e, ["S", 1, 2], [], sects, 1)
            check_elf(ctx, "ELF %s%s with a section of type %s, %s bytes" % (cls * 32, e, t, size), data, cls, e, head, [], sects, at, ["", "one", "ne"])
    # no string table
    for n in (0, 1, 2):
        sects = [section(k, b"data"[k:], 1, k + 3) for k in range(n)]
        segs = [segment(0)]
        data, head, at = elf(cls, e, ["P", "S"] + list(range(n)), segs, sects, 0xFFF1 if n == 2 else 0)
        if n:
            sects[0].update(type=0, size=0, data=b"")
            data, head, at = elf(cls, e, ["P", "S"] + list(range(n)), segs, sects, 0)
        check_elf(ctx, "ELF %s%s with %s sections without names" % (cls * 32, e, n), data, cls, e, head, segs, sects, at)
    for v in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF) + ((0x123456789ABCDEF0, 2 ** 64 - 1) if cls == 2 else ()):
        s = segment(0)
        s.update(vaddr=v, paddr=v, mem_size=v, align=v, offset=v, file_size=v)
        x = section(2, b"", 8, 2)
        x.update(VMA=v, size=v, addr_align=v, entry_size=v)
        sects = [section(0, b"", 0), section(1, b"\0one\0", 3, 1), x]
        data, head, at = elf(cls, e, ["P", 1, "S"], [s], sects, 1, dict(entry=v))
        check_elf(ctx, "ELF %s%s with values %#x" % (cls * 32, e, v), data, cls, e, head, [s], sects, at, ["", "one", "ne"])


# --- Windows executables ---

C_FLAGS = {0: "reloc_stripped", 1: "exec_image", 2: "line_nb_stripped", 3: "local_sym_stripped", 4: "aggr_ws", 5: "large_addr", 7: "reverse_lo", 8: "32bit", 9: "is_stripped", 10: "swap", 12: "is_system", 13: "is_dll", 14: "up", 15: "reverse_hi"}
SEC_FLAGS = {5: "has_code", 6: "has_init_data", 7: "has_uninit_data", 9: "has_comment", 11: "remove", 12: "has_comdata", 14: "no_defer_spec_exc", 15: "gp_rel", 24: "ext_reloc", 25: "discarded", 26: "is_not_cached", 27: "is_not_paged",
             28: "is_shareable", 29: "is_executable", 30: "is_readable", 31: "is_writable"}
OPT = ("maj_lnk_ver B 2 min_lnk_ver B 25 size_code I 512 size_init_data I 1024 size_uninit_data I 77 entry_point I 4660 base_code I 4096 base_data W 8192 image_base V 4194304 sect_align I 4096 file_align I 512 maj_os_ver H 4 min_os_ver H 1 "
       "maj_img_ver H 2 min_img_ver H 3 maj_subsys_ver H 5 min_subsys_ver H 6 reserved R 0 size_img I 16384 size_hdr I 1024 checksum I 3735928559 subsystem H 2 dll_flags H 33088 size_stack_reserve V 1048576 size_stack_commit V 4096 "
       "size_heap_reserve V 2097152 size_heap_commit V 8192 loader_flags I 0 nb_directory I 16").split()
DIRS = ["export", "import", "resource", "exception", "certificate", "relocation", "debug", "description", "global_ptr", "tls", "load_config", "bound_import", "import_address", "data_dir[13]", "data_dir[14]", "data_dir[15]"]
CPUS = {0x014C: "Intel 80386", 0x014D: "Intel 80486", 0x014E: "Intel Pentium", 0x0160: "R3000 (MIPS), big endian", 0x0162: "R3000 (MIPS), little endian", 0x0166: "R4000 (MIPS), little endian", 0x0168: "R10000 (MIPS), little endian", 0x0184: "DEC Alpha AXP",
        0x01A2: "Hitachi SH3", 0x01A6: "Hitachi SH4", 0x01C0: "ARM", 0x01F0: "IBM Power PC, little endian", 0x0200: "Intel IA64", 0x0266: "MIPS", 0x0268: "Motorola 68000", 0x0284: "Alpha AXP 64 bits", 0x0366: "MIPS with FPU", 0x0466: "MIPS16 with FPU"}
SUBSYSTEMS = {1: "Native", 2: "Windows GUI", 3: "Windows CUI", 5: "OS/2 CUI", 7: "POSIX CUI", 9: "Windows CE GUI", 10: "EFI application", 14: "XBOX", 16: "Windows boot application", 4: "4"}


def dos_header(next_offset, **over):
    h = dict(size_mod_512=0x90, size_div_512=3, reloc_entries=0, code_offset=4, needed_memory=0, max_memory=0xFFFF, init_ss_sp=0xB80000, checksum=0, init_cs_ip=0, reloc_offset=64, overlay_number=0, oem_id=0, oem_info=0)
    h.update(over)
    return b"MZ" + struct.pack("<HHHHHHIHIHH", *list(h.values())[:11]) + bytes(8) + struct.pack("<HH", h["oem_id"], h["oem_info"]) + bytes(20) + struct.pack("<I", next_offset), h


def opt_header(plus, dirs, **over):
    values = dict(signature=0x20B if plus else 0x10B)
    out = struct.pack("<H", values["signature"])
    for n, f, v in zip(OPT[::3], OPT[1::3], OPT[2::3]):
        if n == "nb_directory":
            v = len(dirs)
        v = over.get(n, int(v))
        if f == "W" and plus:
            continue
        out += struct.pack("<" + {"W": "I", "R": "I", "V": "Q" if plus else "I"}.get(f, f), v)
        if f != "R":
            values[n] = v
    return out + b"".join(struct.pack("<II", *d) for d in dirs), values


def pe(sects, plus=False, dirs=None, next_offset=128, cpu=0x14C, flags=0x102, stamp=1163000000, opt_over={}, align=16, opt=True, pad=0):
    """sects: dicts name, data, flags, rva, place in the file"""
    dos, h = dos_header(next_offset)
    if dirs is None:
        dirs = [(0, 0)] * 16
    o, values = opt_header(plus, dirs, **opt_over) if opt else (b"", {})
    o += bytes(pad)
    head = dos + b"stub!".ljust(next_offset - 64, b"\xCC") + b"PE\0\0" + struct.pack("<HHIIIHH", cpu, len(sects), stamp, 0x11, 0x22, len(o), flags) + o
    pos = len(head) + 40 * len(sects)
    out = bytearray()
    for s in sorted(sects, key=lambda s: s.get("place", 0)):
        pos += -pos % align
        s["phys_off"] = pos if s["data"] else 0
        if s["data"]:
            out = out.ljust(pos - len(head) - 40 * len(sects), b"\0") + s["data"]
        pos += len(s["data"])
    for s in sects:
        head += s["name"].ljust(8, b"\0") + struct.pack("<IIIIIIHHI", s.get("mem_size", len(s["data"])), s["rva"], len(s["data"]), s["phys_off"], 0, 0, 0, 0, s["flags"])
    return head + bytes(out), h, values


def sect(name, data, rva, flags=0x60000020, place=0):
    return dict(name=name, data=data, rva=rva, flags=flags, place=place)


def field_names(sects):
    """Names of the fields of the sections, in the order of the file"""
    used, out = {}, []
    for s in sorted(sects, key=lambda s: s["phys_off"]):
        if not s["data"]:
            continue
        n = s["name"].decode("ascii").strip("\0 ").strip(".").replace("/", "_")
        out.append((s, "section_" + n if n else None))
    return out


def check_pe(ctx, what, data, h, values, sects, plus, dirs, flags=0x102, cpu=0x14C, stamp=1163000000, opt=True):
    p = direct(ctx, data, ExeFile)
    fields(ctx, what, p["msdos"], **h)
    ph = p["pe_header"]
    fields(ctx, what, ph, cpu=cpu, nb_section=len(sects), creation_date=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=stamp), ptr_to_sym=0x11, nb_symbols=0x22, **{n: bool(flags >> b & 1) for b, n in C_FLAGS.items()})
    if opt:
        fields(ctx, what, p["pe_opt_header"], **values)
        for n, (rva, size) in zip(DIRS, dirs):
            fields(ctx, what, p["pe_opt_header/" + n], rva=rva, size=size)
        expect(ctx, what + ": directories", sum(f.is_field_set for f in p["pe_opt_header"]), len(dirs))
    subsystem = [SUBSYSTEMS[values["subsystem"]]] if opt else []
    expect(ctx, what + ": description", p.description, "%s: %s" % ("Microsoft Windows DLL" if flags >> 13 & 1 else "Microsoft Windows Portable Executable", ", ".join([CPUS.get(cpu, str(cpu))] + subsystem + (["stripped"] if flags >> 9 & 1 else []))))
    hdrs = p.array("section_hdr")
    if not expect(ctx, what + ": section headers", len(hdrs), len(sects)):
        return p
    for f, s in zip(hdrs, sects):
        fields(ctx, what, f, name=s["name"].decode("ascii").strip("\0 "), mem_size=s.get("mem_size", len(s["data"])), rva=s["rva"], phys_size=len(s["data"]), phys_off=s["phys_off"], **{n: bool(s["flags"] >> b & 1) for b, n in SEC_FLAGS.items()})
    got = [f for f in p if f.name.startswith("section") and not f.name.startswith("section_hdr")]
    want = field_names(sects)
    if expect(ctx, what + ": sections", len(got), len(want)):
        for f, (s, n) in zip(got, want):
            expect(ctx, "%s: %s" % (what, n), (f.absolute_address, f.size, f.parent.stream.readBytes(f.absolute_address, len(s["data"]))), (s["phys_off"] * 8, len(s["data"]) * 8, s["data"]))
            if n and sum(x == n for _, x in want) == 1:
                expect(ctx, what + ": name of the section", f.name, n)
            if "/" in f.name or p[f.name] is not f:
                ctx.report("%s: the name %r does not find the section" % (what, f.name))
    end = max([s["phys_off"] + len(s["data"]) for s in sects if s["data"]] or [0])
    expect(ctx, what + ": size of the content", p.content_size, end * 8 if end else None)
    m = metadata(p)
    check_meta(ctx, what, m, creation_date=datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=stamp), format_version="Portable Executable: %s" % ("Dynamic-link library (DLL)" if flags >> 13 & 1 else "Windows application"))
    c = m.getValues("comment") if m else []
    for text in ["CPU: " + CPUS.get(cpu, str(cpu))] + ["Subsystem: " + x for x in subsystem]:
        if text not in c:
            ctx.report("%s: the metadata do not say %r: %r" % (what, text, c))
    return p


def pe_sections(case, ctx):
    """Sequences of sections, in any order of the file"""
    plus = case["plus"]
    kinds = [(b".text", b"\xC3" * 5), (b".data", b"data"), (b".bss", b""), (b".rdata", b"r" * 33), (b"/4", b"debug"), (b"LONGNAME", b"8"), (b"", b"no name"), (b".text", b"again")]
    n = 0
    for k in range(case["n"] + 1):
        for seq in itertools.product(range(len(kinds)), repeat=k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            for perm in itertools.permutations(range(k)) if k <= 3 else [tuple(range(k)), tuple(range(k))[::-1]]:
                sects = [sect(kinds[x][0], kinds[x][1], 0x1000 * (j + 1), [0x60000020, 0xC0000040, 0xC0000080][j % 3], perm[j]) for j, x in enumerate(seq)]
                for s in sects:
                    if not s["data"]:
                        s["mem_size"] = 99
                data, h, values = pe(sects, plus)
                check_pe(ctx, "PE%s with sections %s, in the file %s" % ("+" * plus, [kinds[x][0] for x in seq], perm), data, h, values, sects, plus, [(0, 0)] * 16)


def pe_values(case, ctx):
    """Headers: flags, numbers of directories, places, processors, subsystems, dates"""
    plus = case["plus"]
    base = [sect(b".text", b"code", 0x1000), sect(b".data", b"some data", 0x2000, 0xC0000040)]
    variants = [dict(flags=1 << b) for b in list(C_FLAGS)] + [dict(flags=(1 << a) | 1 << b) for a, b in itertools.combinations(list(C_FLAGS), 2)] + [dict(flags=sum(1 << b for b in C_FLAGS)), dict(flags=0)]
    variants += [dict(dirs=[(0x1000 * k + 4, 10 * k) for k in range(1, n + 1)]) for n in range(17) if n < 3]
    variants += [dict(dirs=[(0x10000 * k + 4, 10 * k) for k in range(1, n + 1)]) for n in range(3, 17)]
    variants += [dict(next_offset=n) for n in (80, 84, 200, 256, 1024)] + [dict(cpu=c) for c in list(CPUS) + [0x8664]] + [dict(opt_over=dict(subsystem=s)) for s in SUBSYSTEMS]
    variants += [dict(stamp=s) for s in (1, 2 ** 31 - 1, 2 ** 31, 1700000000, 2 ** 32 - 1) if s < 1893456000 and s > 1]
    variants += [dict(opt=False), dict(pad=8)] + [dict(align=a) for a in (1, 4, 512)]
    wide = [0, 1, 2 ** 32 - 1] + ([2 ** 40, 2 ** 64 - 1] if plus else [])
    variants += [dict(opt_over={n: v}) for n in ("image_base", "size_stack_reserve", "size_stack_commit", "size_heap_reserve", "size_heap_commit") for v in wide]
    variants += [dict(opt_over={n: v}) for n in ("entry_point", "checksum", "size_code", "size_img") for v in (0, 1, 2 ** 32 - 1)]
    for v in variants:
        data, h, values = pe(base, plus, **v)
        check_pe(ctx, "PE%s with %s" % ("+" * plus, lib.short(v, 100)), data, h, values, base, plus, v.get("dirs", [(0, 0)] * 16), v.get("flags", 0x102), v.get("cpu", 0x14C), v.get("stamp", 1163000000), v.get("opt", True))
    for bits in itertools.chain([()], itertools.combinations(list(SEC_FLAGS), 1), itertools.combinations(list(SEC_FLAGS), 2)):
        base[1]["flags"] = sum(1 << b for b in bits)
        data, h, values = pe(base, plus)
        p = check_pe(ctx, "PE%s with a section of flags %s" % ("+" * plus, bits), data, h, values, base, plus, [(0, 0)] * 16)
        d = p["section_hdr[1]"].description
        want = 'Section ".data": rva=0x%08x..0x%08x, size=9 bytes' % (0x2000, 0x2009) + "".join(", " + n for b, n in ((29, "exec"), (30, "read"), (31, "write")) if b in bits)
        expect(ctx, "description of the section", d, want)


def dos_programs(case, ctx):
    """Programs for MS-DOS: their size from the pages"""
    for div in (4, 5, 100, 3, 1):
        for mod in (0, 1, 2, 511):
            for code in (4, 5, 32):
                for nxt in (0, 90):
                    if div < 4 and not 80 <= nxt:
                        continue
                    size = div * 512 - (512 - mod if mod else 0)
                    head, h = dos_header(nxt, size_mod_512=mod, size_div_512=div, code_offset=code, checksum=0 if div < 4 else 0x55AA, oem_id=1, oem_info=2, reloc_entries=3)
                    data = head + bytes(max(0, size + 20 - len(head)))
                    p = direct(ctx, data, ExeFile)
                    what = "MS-DOS program of %s pages, %s bytes in the last" % (div, mod)
                    fields(ctx, what, p["msdos"], **h)
                    fields(ctx, what, p, msdos__next_offset=nxt)
                    expect(ctx, what, (p.description, p.content_size), ("MS-DOS executable", size * 8))


NE_NUMBERS = [("link_ver", "B"), ("link_rev", "B"), ("entry_table_ofst", "H"), ("entry_table_size", "H"), (None, "I"), ("flags", "H"), ("auto_data_seg", "H"), ("local_heap_size", "H"), ("stack_size", "H"), ("cs_ip", "I"), ("ss_sp", "I"),
              ("nb_entry_seg_tab", "H"), ("nb_entry_modref_tab", "H"), ("size_nonres_name_tab", "H"), ("seg_tab_ofs", "H"), ("rsrc_ofs", "H"), ("res_name_tab_ofs", "H"), ("mod_ref_tab_ofs", "H"), ("import_tab_ofs", "H"),
              ("non_res_name_tab_ofs", "I"), ("nb_mov_ent_pt", "H"), ("log2_sector_size", "H"), ("nb_rsrc_seg", "H"), ("os", "H"), ("fastload_ofs", "H"), ("fastload_size", "H"), (None, "H"), ("win_version", "H")]
NE_FLAGS = {"is_dll": 0, "is_win_app": 1, "first_seg_code": 11, "link_error": 13, "is_lib": 15}
NE_OS = {"unknown_os_format": 0, "os_windows": 2, "is_win20_prot": 9, "is_win20_font": 10, "fast_load": 11}


def ne_node(key, value=b"", children=(), length=None):
    body = align4(struct.pack("<HH", 0, len(value) if length is None else length) + key.encode("latin-1") + b"\0") + value
    for c in children:
        body = align4(body) + c
    return struct.pack("<H", len(body)) + body[2:]


def ne_program(ctx, what, next_offset=128, strings=None, gap=0, var=None, **over):
    v = {k: 0x1234 + 77 * i & (0xFF if f == "B" else 0xFFFF) for i, (k, f) in enumerate(NE_NUMBERS) if k}
    v.update(flags=2, os=4)
    v.update(over)
    head, h = dos_header(next_offset)
    data = head + b"\x90" * (next_offset - len(head)) + b"NE" + b"".join(struct.pack("<" + f, v.get(k, 0)) for k, f in NE_NUMBERS)
    info = None
    if strings is not None:
        fixed, x = fixed_info()
        kids = [ne_node("StringFileInfo", b"", [ne_node("040904E4", b"", [ne_node(k, t.encode("latin-1") + b"\0") for k, t in strings])])]
        if var is not None:
            kids.insert(var, ne_node("VarFileInfo", b"", [ne_node("Translation", b"\x09\x04\xe4\x04")]))
        data += bytes(gap)
        info = len(data)
        data += align4(ne_node("VS_VERSION_INFO", fixed, kids)) + b"tail"
    p = direct(ctx, data, ExeFile)
    for k, n in NE_NUMBERS:
        if k not in (None, "flags", "os"):
            expect(ctx, what + ": " + k, p["ne_header/" + k].value, v[k])
    for names, word in ((NE_FLAGS, v["flags"]), (NE_OS, v["os"])):
        expect(ctx, what + ": flags", {k: p["ne_header/" + k].value for k in names}, {k: bool(word >> b & 1) for k, b in names.items()})
    expect(ctx, what + ": place", (p["ne_header"].absolute_address, p["ne_header"].size), (next_offset * 8, 512))
    m = metadata(p)
    kind = "New-style executable: Dynamic-link library (DLL)" if v["flags"] & 1 else "New-style executable: Windows 3.x application" if v["flags"] & 2 else "New-style executable for Windows 3.x"
    expect(ctx, what + ": metadata", m and m.get("format_version", None), kind)
    if info is None:
        expect(ctx, what + ": no version information", "info" in p, False)
        return
    top = p["info"]
    expect(ctx, what + ": version information", (top.absolute_address, top["name"].value, top["data_size"].value, top["value/file_ver_ms/major"].value), (info * 8, "VS_VERSION_INFO", 52, 1))
    nodes = {n["name"].value: n for n in top.array("node")}
    expect(ctx, what + ": nodes", sorted(nodes), sorted(["StringFileInfo"] + ["VarFileInfo"] * (var is not None)))
    got = [(n["name"].value, n["value"].value.rstrip("\0")) for n in nodes["StringFileInfo"]["node[0]"].array("node")]
    expect(ctx, what + ": texts", got, list(strings))
    d = {k: t for k, t in strings if t}
    for key, attr in (("LegalCopyright", "copyright"), ("CompanyName", "author")):
        if key in d:
            expect(ctx, what + ": " + attr, m.getValues(attr), [d[key]])


def ne_programs(case, ctx):
    """Programs for Windows 3: each bit of the flags, places, all sequences of texts of the version information"""
    for b in range(16):
        ne_program(ctx, "NE flags, bit %s" % b, flags=1 << b)
        ne_program(ctx, "NE system, bit %s" % b, os=1 << b)
        ne_program(ctx, "NE flags without bit %s" % b, flags=0xFFFF ^ 1 << b, os=0xFFFF ^ 1 << b)
    for at in range(80, 200):
        ne_program(ctx, "NE header at %s" % at, next_offset=at)
    for k, f in NE_NUMBERS:
        if k not in (None, "flags", "os"):
            for n in (0, 1, 256 ** struct.calcsize(f) - 1):
                ne_program(ctx, "NE %s=%s" % (k, n), **{k: n})
    keys, values = ["ProductName", "FileDescription", "CompanyName", "LegalCopyright", "MyKey"], ["Ab", "Word", "\xdcn\xefcode", "A text of some length", "xyz"]
    for n in range(1, case["n"] + 1):
        for j, seq in enumerate(itertools.permutations(keys, n)):
            for shift in range(5):
                for var in (None, 0, 1):
                    ne_program(ctx, "NE texts %s %s" % (seq, shift), strings=[(k, values[(i + shift) % 5]) for i, k in enumerate(seq)], gap=(j + shift) % 8, var=var)


# --- resources ---

def u16(s):
    return s.encode("utf-16-le")


def align4(b):
    return b + bytes(-len(b) % 4)


def version_node(key, value, kind, children=(), padded=True):
    """One node of the version information; value: text, bytes or None"""
    raw = u16(value + "\0") if isinstance(value, str) else value or b""
    count = len(raw) // 2 if isinstance(value, str) else len(raw)
    body = align4(struct.pack("<HHH", 0, count, kind) + u16(key + "\0"))
    if not raw and not children:
        body = struct.pack("<HHH", 0, count, kind) + u16(key + "\0")
    body += raw
    for k, c in enumerate(children):
        body = align4(body) + c
    return struct.pack("<H", len(body)) + body[2:]


def fixed_info(**over):
    v = dict(magic=0xFEEF04BD, sv=(0, 1), fvm=(2, 1), fvl=(4, 3), pvm=(6, 5), pvl=(8, 7), mask=0x3F, flags=0, os_minor=4, os_major=4, file_type=1, subtype=0, ms=0, ls=0)
    v.update(over)
    return struct.pack("<IHHHHHHHHHHIIHHIIII", v["magic"], *v["sv"], *v["fvm"], *v["fvl"], *v["pvm"], *v["pvl"], v["mask"], v["flags"], v["os_minor"], v["os_major"], v["file_type"], v["subtype"], v["ms"], v["ls"]), v


def resource_section(tree, rva, extra_gap=0):
    """tree: {type: {id: {lang: bytes}}} with numbers or texts; returns the data and the leaves [(path, place of the data, data)]"""
    dirs, leaves, strings = [], [], []

    def walk(node, path):
        dirs.append((path, node))
        for k in order(node):
            if isinstance(node[k], dict):
                walk(node[k], path + (k,))
            else:
                leaves.append((path + (k,), node[k]))

    def order(node):
        return sorted([k for k in node if isinstance(k, str)]) + sorted(k for k in node if not isinstance(k, str))
    walk(tree, ())
    dirs.sort(key=lambda d: len(d[0]))
    pos, at = 0, {}
    for path, node in dirs:
        at[path] = pos
        pos += 16 + 8 * len(node)
    for path, d in leaves:
        at[path] = pos
        pos += 16
    names = {}
    for path, node in dirs:
        for k in order(node):
            if isinstance(k, str) and k not in names:
                names[k] = pos
                pos += 2 + 2 * len(k)
    pos += -pos % 4
    places = {}
    for path, d in leaves:
        pos += -pos % 4 + extra_gap
        places[path] = pos
        pos += len(d)
    out = bytearray(pos)
    for path, node in dirs:
        ks = order(node)
        b = struct.pack("<IIHHHH", 0, 0, 4, 0, sum(isinstance(k, str) for k in ks), sum(not isinstance(k, str) for k in ks))
        for k in ks:
            b += struct.pack("<II", names[k] | 0x80000000 if isinstance(k, str) else k, at[path + (k,)] | (0x80000000 if isinstance(node[k], dict) else 0))
        out[at[path]:at[path] + len(b)] = b
    for path, d in leaves:
        out[at[path]:at[path] + 16] = struct.pack("<IIII", rva + places[path], len(d), 1252, 0)
        out[places[path]:places[path] + len(d)] = d
    for k, a in names.items():
        out[a:a + 2 + 2 * len(k)] = struct.pack("<H", len(k)) + u16(k)
    return bytes(out), [(path, places[path], d, at[path]) for path, d in leaves], at


def with_resources(tree, name=b".rsrc", plus=False, before=True, gap=0):
    rva = 0x3000
    rsrc, leaves, at = resource_section(tree, rva, gap)
    sects = ([sect(b".text", b"code", 0x1000)] if before else []) + [sect(name, rsrc, rva, 0x40000040)] + ([] if before else [sect(b".text", b"code", 0x8000)])
    dirs = [(0, 0)] * 2 + [(rva, len(rsrc))] + [(0, 0)] * 13
    data, h, values = pe(sects, plus, dirs)
    return data, h, values, sects, dirs, leaves, at


def check_tree(ctx, what, data, info, name="section_rsrc"):
    d, h, values, sects, dirs, leaves, at = info
    p = check_pe(ctx, what, data, h, values, sects, False, dirs)
    if name not in p:
        ctx.report("%s: no %s" % (what, name))
        return p, None
    r = p[name]
    base = [s for s in sects if s["rva"] == 0x3000][0]["phys_off"]
    entries = r.array("entry")
    if not expect(ctx, what + ": entries", len(entries), len(leaves)):
        return p, r
    got = sorted((f.address // 8, f["rva"].value, f["size"].value, f["codepage"].value) for f in entries)
    want = sorted((a, 0x3000 + place, len(x), 1252) for path, place, x, a in leaves)
    expect(ctx, what + ": entries", got, want)
    directories = [f for f in r if f.is_field_set and "header/nb_index" in f]
    expect(ctx, what + ": directories", sorted(f.address // 8 for f in directories), sorted(a for q, a in at.items() if q not in [l[0] for l in leaves]))
    sized = [(place, x) for path, place, x, a in leaves if x]
    contents = sorted((f.absolute_address // 8 - base, f.size // 8) for f in r if hasattr(f, "getResID"))
    expect(ctx, what + ": contents", contents, sorted((place, len(x)) for place, x in sized))
    return p, r


def resource_trees(case, ctx):
    """Types, names and languages of resources, as numbers and as texts"""
    keys = [1, 10, "NAME", "AB", 300]
    blobs = [b"raw data", b"x", b"12345678" * 4]
    n = 0
    shapes = []
    for ntypes in (1, 2):
        for types in itertools.permutations(keys, ntypes):
            for nids in itertools.product((1, 2), repeat=ntypes):
                for first in range(len(keys)):
                    for nlang in (1, 2):
                        shapes.append((types, nids, first, nlang))
    for types, nids, first, nlang in shapes:
        n += 1
        if n % case["of"] != case["i"]:
            continue
        for gap in (0, 5):
            b = itertools.cycle(blobs)
            tree = {t: {keys[(first + j) % len(keys)]: {1033 + 3 * l: next(b) for l in range(nlang)} for j in range(k)} for t, k in zip(types, nids)}
            info = with_resources(tree, gap=gap, before=bool(n % 2))
            what = "resources %s" % lib.short(tree, 120)
            p, r = check_tree(ctx, what, info[0], info)
            if r is None:
                continue
            texts = sorted(f.value for f in r if f.name.startswith("name["))
            want = sorted(k for q, a in info[6].items() for k in q[-1:] if isinstance(k, str))
            expect(ctx, what + ": names", texts, want)


def resource_kinds(case, ctx):
    """String tables, icons and unknown types"""
    texts = ["", "a", "Ünï", "a longer text", "\u20ac"]
    for k in range(1, 4):
        for seq in itertools.product(texts, repeat=k):
            blob = b"".join(struct.pack("<H", len(t)) + u16(t) for t in seq)
            info = with_resources({6: {7: {1033: blob}}})
            what = "string table %r" % (seq,)
            p, r = check_tree(ctx, what, info[0], info)
            if r is None or not expect(ctx, what, "string_table[0]" in r, True):
                continue
            f = r["string_table[0]"]
            expect(ctx, what, [s.value for s in f.array("string")], list(seq))
            expect(ctx, what + ": displays", [s.display for s in f.array("string")], ['"%s"' % t if t else '""' if False else s.display for t, s in zip(seq, f.array("string"))])
    icon = struct.pack("<IiiHHIIiiII", 40, 32, 64, 1, 8, 0, 0, 0, 0, 0, 0)
    for extra in (b"", b"pixels"):
        info = with_resources({3: {1: {1033: icon + extra}}})
        p, r = check_tree(ctx, "icon", info[0], info)
        f = r["icon[0]"]
        fields(ctx, "icon", f["bmp_header"], hdr_size=40, width=32, height=64, bpp=8)
        expect(ctx, "icon", get(f, "raw"), extra or "no field")
    for t, n in {1: "cursor[0]", 2: "bitmap[0]", 4: "menu[0]", 5: "dialog[0]", 9: "accelerators[0]", 10: "raw_res[0]", 12: "group_cursor[0]", 14: "group_icon[0]", 24: "content[0]"}.items():
        for blob in (b"z", b"some bytes of it"):
            info = with_resources({t: {1: {1033: blob}}})
            p, r = check_tree(ctx, "resource of type %s" % t, info[0], info)
            if expect(ctx, "resource of type %s" % t, n in r, True):
                expect(ctx, "resource of type %s" % t, r[n]["content"].value, blob)


def version_blob(strings, fixed, lang="040904B0", var=True, order=0, tables=1):
    table = [version_node(lang, None, 1, [version_node(k, v, 1) for k, v in strings])] * tables
    info = [version_node("StringFileInfo", None, 1, table)]
    if var:
        info.append(version_node("VarFileInfo", None, 1, [version_node("Translation", struct.pack("<HH", 0x409, 1200), 0)]))
    if order:
        info.reverse()
    return version_node("VS_VERSION_INFO", fixed, 0, info)


KEY = {"ProductName": "title", "LegalCopyright": "copyright", "LegalTrademarks": "copyright", "CompanyName": "author", "FileDescription": "title", "ProductVersion": "version"}


def version_info(case, ctx):
    """The texts of the version information"""
    values = ["Ab", "Word", "Ünïcode", "A text of some length", ""]
    keys = ["ProductName", "FileDescription", "CompanyName", "LegalCopyright", "ProductVersion", "InternalName", "MyKey", "LegalTrademarks", "OriginalFilename"]
    n = 0
    for k in range(case["n"] + 1):
        for seq in itertools.permutations(keys, k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            for shift in range(5 if k < 3 else 2):
                strings = [(key, values[(j + shift) % 5]) for j, key in enumerate(seq)]
                for var, order in ((True, 0), (True, 1), (False, 0)) if k < 3 else ((True, n % 2),):
                    fixed, v = fixed_info()
                    blob = version_blob(strings, fixed, var=var, order=order)
                    name = b".rsrc" if n % 5 else b"other"
                    info = with_resources({16: {1: {1033: blob}}}, name=name)
                    what = "version information %s" % lib.short(strings, 160)
                    p, r = check_tree(ctx, what, info[0], info, "section_rsrc" if n % 5 else "section_other")
                    if r is None or not expect(ctx, what, "version_info/node[0]" in r, True):
                        continue
                    top = r["version_info/node[0]"]
                    fields(ctx, what, top, name="VS_VERSION_INFO", data_size=52, type=0)
                    fields(ctx, what, top["value"], **{"struct_ver/major": 1, "struct_ver/minor": 0, "file_ver_ms/major": 1, "file_ver_ms/minor": 2, "file_ver_ls/major": 3, "file_ver_ls/minor": 4,
                                                       "product_ver_ms/major": 5, "product_ver_ms/minor": 6, "product_ver_ls/major": 7, "product_ver_ls/minor": 8})
                    nodes = top.array("node")
                    want = (["StringFileInfo"] + ["VarFileInfo"] * var)[::-1 if order else 1]
                    if not expect(ctx, what + ": nodes", [f["name"].value for f in nodes], want):
                        continue
                    f = nodes[want.index("StringFileInfo")]
                    expect(ctx, what + ": table", [x["name"].value for x in f.array("node")], ["040904B0"])
                    got = [(x["name"].value, x["value"].value if "value" in x else "") for x in f["node[0]"].array("node")]
                    expect(ctx, what + ": texts", got, strings)
                    if var:
                        expect(ctx, what + ": translation", nodes[want.index("VarFileInfo")]["node[0]/value"].value, b"\x09\x04\xb0\x04")
                    m = metadata(p)
                    wanted = {}
                    for key, t in strings:
                        if t and key in KEY:
                            wanted.setdefault(KEY[key], set()).add(t)
                    for attr in set(KEY.values()):
                        got = set(m.getValues(attr)) if m.has(attr) else set()
                        expect(ctx, "%s: %s of the metadata" % (what, attr), got, wanted.get(attr, set()))
                    comments = [x for x in m.getValues("comment") if "=" in x]
                    expect(ctx, what + ": comments", comments, ["%s=%s" % (key, t) for key, t in strings if key == "MyKey" and t])
    if case["i"]:
        return
    # the fixed part
    flags = ["debug", "prerelease", "patched", "private_build", "info_inferred", "special_build"]
    for bits in itertools.product((0, 1), repeat=6):
        fixed, v = fixed_info(flags=sum(b << k for k, b in enumerate(bits)))
        info = with_resources({16: {1: {1033: version_blob([], fixed)}}})
        p, r = check_tree(ctx, "version information", info[0], info)
        fields(ctx, "flags of the version information %s" % (bits,), r["version_info/node[0]/value"], **{n: bool(b) for n, b in zip(flags, bits)})
    majors = {0: "0x0000", 1: "DOS", 2: "OS/2 16-bit", 3: "OS/2 32-bit", 4: "Windows NT"}
    minors = {0: "Base", 1: "Windows 16-bit", 2: "Presentation Manager 16-bit", 3: "Presentation Manager 32-bit", 4: "Windows 32-bit"}
    drivers = {1: "Printer", 2: "Keyboard", 3: "Language", 4: "Display", 5: "Mouse", 6: "Network", 7: "System", 8: "Installable", 9: "Sound", 10: "Communications"}
    fonts = {1: "Raster", 2: "Vector", 3: "TrueType"}
    types = {1: "Application", 2: "DLL", 3: "Driver", 4: "Font", 5: "VXD", 7: "Static library"}
    for a, b in itertools.product(majors, minors):
        fixed, v = fixed_info(os_major=a, os_minor=b)
        info = with_resources({16: {1: {1033: version_blob([], fixed)}}})
        p, r = check_tree(ctx, "version information", info[0], info)
        x = r["version_info/node[0]/value"]
        expect(ctx, "system %s.%s of the version information" % (a, b), (x["file_os_major"].value, x["file_os_major"].display, x["file_os_minor"].value, x["file_os_minor"].display), (a, majors[a], b, minors[b]))
    for t, s in itertools.product(types, range(12)):
        fixed, v = fixed_info(file_type=t, subtype=s)
        info = with_resources({16: {1: {1033: version_blob([], fixed)}}})
        p, r = check_tree(ctx, "version information", info[0], info)
        x = r["version_info/node[0]/value"]
        expect(ctx, "file of type %s.%s" % (t, s), (x["file_type"].display, x["file_subfile"].value, x["file_subfile"].display), (types[t], s, {3: drivers, 4: fonts}.get(t, {}).get(s, "0x%08x" % s)))


# --- Java ---

class Pool:
    def __init__(self):
        self.items, self.index, self.n = [], {}, 1

    def add(self, kind, *args):
        key = (kind,) + args
        if kind == "Utf8" or key in self.index:
            if key in self.index:
                return self.index[key]
        tag, fmt = {"Utf8": (1, None), "Integer": (3, "i"), "Float": (4, "f"), "Long": (5, "q"), "Double": (6, "d"), "Class": (7, "H"), "String": (8, "H"), "Fieldref": (9, "HH"), "Methodref": (10, "HH"), "InterfaceMethodref": (11, "HH"),
                    "NameAndType": (12, "HH"), "MethodHandle": (15, "BH"), "MethodType": (16, "H"), "Dynamic": (17, "HH"), "InvokeDynamic": (18, "HH"), "Module": (19, "H"), "Package": (20, "H")}[kind]
        if fmt is None:
            raw = args[0].encode("utf-8")
            b = struct.pack(">BH", tag, len(raw)) + raw
        else:
            b = struct.pack(">B" + fmt, tag, *args)
        i = self.n
        self.items.append((i, kind, args, b))
        self.index[key] = i
        self.n += 2 if kind in ("Long", "Double") else 1
        return i

    def utf(self, s):
        return self.add("Utf8", s)

    def cls(self, s):
        return self.add("Class", self.utf(s))

    def nat(self, name, descr):
        return self.add("NameAndType", self.utf(name), self.utf(descr))

    def ref(self, kind, cls, name, descr):
        return self.add(kind, self.cls(cls), self.nat(name, descr))

    def data(self):
        return struct.pack(">H", self.n) + b"".join(b for i, k, a, b in self.items)


def attribute(pool, name, body):
    return struct.pack(">HI", pool.utf(name), len(body)) + body


def java(pool, fields_=(), methods=(), attributes=(), flags=0x21, this="a/B", super="java/lang/Object", interfaces=(), version=(52, 0)):
    """fields_, methods: (flags, name, descriptor, [attributes])"""
    t, s = pool.cls(this), pool.cls(super) if super else 0
    inter = [pool.cls(i) for i in interfaces]
    body = struct.pack(">HHHH", flags, t, s, len(inter)) + b"".join(struct.pack(">H", i) for i in inter)
    for group in (fields_, methods):
        body += struct.pack(">H", len(group))
        for f, n, d, at in group:
            body += struct.pack(">HHHH", f, pool.utf(n), pool.utf(d), len(at)) + b"".join(at)
    body += struct.pack(">H", len(attributes)) + b"".join(attributes)
    return struct.pack(">IHH", 0xCAFEBABE, version[1], version[0]) + pool.data() + body


BASES = {"B": "byte", "C": "char", "D": "double", "F": "float", "I": "int", "J": "long", "S": "short", "Z": "boolean", "La;": "a", "La/b/Cd;": "a.b.Cd"}


def types_upto(dims):
    return [("[" * k + d, n + "[]" * k) for k in range(dims + 1) for d, n in BASES.items()]


def java_class(ctx, data, what):
    p = direct(ctx, data, JavaCompiledClassFile)
    contiguous(ctx, what, p, len(data) * 8, 3)
    return p


def descriptors(case, ctx):
    """All types of fields, all sequences of types of parameters"""
    types = types_upto(2)
    pool = Pool()
    fs = [(0, "f%s" % k, d, []) for k, (d, n) in enumerate(types)]
    p = java_class(ctx, java(pool, fs), "class with fields")
    got = p.array("fields/fields")
    if expect(ctx, "fields", len(got), len(fs)):
        for f, (d, n), (_, name, _, _) in zip(got, types, fs):
            expect(ctx, "field of type %s" % d, (f["name_index"].display, f["descriptor_index"].display, f.description), ('"%s"' % name, n, "%s %s" % (n, name)))
    some = types_upto(1)
    methods = []
    for k in range(case["n"] + 1):
        for seq in itertools.product(some if k < 3 else some[::3], repeat=k):
            for d, n in (some + [("V", "void")] if k < 2 else [("V", "void"), some[-1]]):
                methods.append(("(%s)%s" % ("".join(x for x, _ in seq), d), n, ", ".join(y for _, y in seq)))
    for i in range(0, len(methods), 500):
        pool = Pool()
        part = methods[i:i + 500]
        p = java_class(ctx, java(pool, (), [(0, "m%s" % k, d, []) for k, (d, n, a) in enumerate(part)]), "class with methods")
        got = p.array("methods/methods")
        if expect(ctx, "methods", len(got), len(part)):
            for k, (f, (d, n, a)) in enumerate(zip(got, part)):
                ctx.count("transitions")
                expect(ctx, "method of type %s" % d, (f["name_index"].display, f["descriptor_index"].display, f.description), ('"m%s"' % k, "%s (%s)" % (n, a), "%s m%s(%s)" % (n, k, a)))


def java_flags(case, ctx):
    """Flags of classes, fields and methods; versions; super classes; interfaces"""
    cf = {0: "public", 4: "final", 5: "super", 9: "interface", 10: "abstract", 12: "synthetic", 13: "annotation", 14: "enum"}
    ff = {0: "public", 1: "private", 2: "protected", 3: "static", 4: "final", 6: "volatile", 7: "transient", 12: "synthetic", 14: "enum"}
    mf = {0: "public", 1: "private", 2: "protected", 3: "static", 4: "final", 5: "synchronized", 6: "bridge", 7: "varargs", 8: "native", 10: "abstract", 11: "strict", 12: "synthetic"}
    ford = ['public', 'private', 'protected', 'static', 'final', 'volatile', 'transient', 'synthetic', 'enum']
    mord = ['public', 'private', 'protected', 'static', 'final', 'synchronized', 'bridge', 'varargs', 'native', 'abstract', 'strict', 'synthetic']
    for n in range(2 ** 8):
        bits = [b for k, b in enumerate(cf) if n >> k & 1]
        p = java_class(ctx, java(Pool(), flags=sum(1 << b for b in bits)), "class")
        fields(ctx, "class with flags %s" % [cf[b] for b in bits], p, **{x: b in bits for b, x in cf.items()})
    for table, order, what in ((ff, ford, "field"), (mf, mord, "method")):
        combos = list(itertools.product((0, 1), repeat=len(table)))
        for i in range(0, len(combos), 128):
            part = combos[i:i + 128]
            items = [(sum(1 << b for b, x in zip(table, c) if x), "n", "I" if what == "field" else "()I", []) for c in part]
            p = java_class(ctx, java(Pool(), items if what == "field" else (), items if what == "method" else ()), "class")
            for f, c in zip(p.array("fields/fields" if what == "field" else "methods/methods"), part):
                names = [table[b] for b, x in zip(table, c) if x]
                fields(ctx, "%s with flags %s" % (what, names), f, **{n: n in names for n in table.values()})
                expect(ctx, "description of the %s" % what, f.description, " ".join([x for x in order if x in names] + ["int n" if what == "field" else "int n()"]))
    versions = {(45, 3): "JDK 1.1", (46, 0): "JDK 1.2", (49, 0): "JDK 1.5", (50, 0): "JDK 1.6", (52, 0): "JDK 1.8", (53, 0): "JDK 9", (58, 0): "JDK 14"}
    for v, text in versions.items():
        for sup in (None, "java/lang/Object", "x/Y"):
            for k in range(3):
                inter = ["i/I%s" % j for j in range(k)]
                p = java_class(ctx, java(Pool(), version=v, super=sup, interfaces=inter), "class")
                what = "class of version %s.%s, super class %s, interfaces %s" % (v + (sup, inter))
                expect(ctx, what, (p.description, p["this_class"].display, p["super_class"].display, [f.display for f in p.array("interfaces/interfaces")] if k else []), ("Compiled Java class, " + text, "a.B", (sup or "ZERO").replace("/", "."), [x.replace("/", ".") for x in inter]))


def constants(case, ctx):
    """Sequences of constants: their numbers, values and texts"""
    makers = [
        lambda q, k: (q.utf("text%s" % k), '"text%s"' % k),
        lambda q, k: (q.utf('quo"te\\%s' % k), '"quo\\"te\\\\%s"' % k),
        lambda q, k: (q.utf("Ü\xa7%s" % k), '"Ü\xa7%s"' % k),
        lambda q, k: (q.add("Integer", -5 - k), str(-5 - k)),
        lambda q, k: (q.add("Long", -2 ** 40 - k), str(-2 ** 40 - k)),
        lambda q, k: (q.add("Double", 0.5 + k), str(0.5 + k)),
        lambda q, k: (q.add("Float", 1.25 + k), str(1.25 + k)),
        lambda q, k: (q.cls("java/util/X%s" % k), "java.util.X%s" % k),
        lambda q, k: (q.add("String", q.utf("s%s" % k)), '"s%s"' % k),
        lambda q, k: (q.ref("Fieldref", "a/F", "f%s" % k, "[I"), "int[] a.F.f%s" % k),
        lambda q, k: (q.ref("Methodref", "a/M", "m%s" % k, "(IJ)V"), "void a.M.m%s(int, long)" % k),
        lambda q, k: (q.ref("InterfaceMethodref", "a/I", "i%s" % k, "()Lb/C;"), "b.C a.I.i%s()" % k),
        lambda q, k: (q.nat("n%s" % k, "Z"), "boolean n%s" % k),
        lambda q, k: (q.add("MethodType", q.utf("(I)V%s" % ("" if k == 0 else ""))), '"(I)V"'),
        lambda q, k: (q.add("MethodHandle", 5, q.ref("Methodref", "h/H", "v%s" % k, "()V")), "invokeVirtual(void h.H.v%s())" % k),
        lambda q, k: (q.add("MethodHandle", 1, q.ref("Fieldref", "h/H", "g%s" % k, "I")), "getField(int h.H.g%s)" % k),
        lambda q, k: (q.add("Dynamic", k, q.nat("d", "J")), "%s, long d" % k),
        lambda q, k: (q.add("InvokeDynamic", k, q.nat("run", "()V")), "%s, void run()" % k),
        lambda q, k: (q.add("Module", q.utf("mod.x%s" % k)), '"mod.x%s"' % k),
        lambda q, k: (q.add("Package", q.utf("p/q%s" % k)), '"p/q%s"' % k),
    ]
    n = 0
    for k in range(1, case["n"] + 1):
        for seq in itertools.product(range(len(makers)), repeat=k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            pool = Pool()
            want = [makers[x](pool, j) for j, x in enumerate(seq)]
            p = java_class(ctx, java(pool), "class")
            what = "constants %s" % [w[1] for w in want]
            cp = p["constant_pool"]
            expect(ctx, what + ": numbers", [f.name for f in cp], ["constant_pool[%s]" % i for i, _, _, _ in pool.items])
            for i, text in want:
                f = cp["constant_pool[%s]" % i]
                kind = [x[1] for x in pool.items if x[0] == i][0]
                expect(ctx, what + ": description", f.description, "%s(%s)" % (kind, text))
            for i, kind, args, b in pool.items:
                f = cp["constant_pool[%s]" % i]
                expect(ctx, "%s: constant %s" % (what, i), (f["tag"].value, f["tag"].display, f.size), (b[0], kind, len(b) * 8))
                if kind in ("Utf8", "Integer", "Float", "Long", "Double"):
                    expect(ctx, "%s: constant %s" % (what, i), f["bytes"].value, args[0])


MNEMONICS = ("nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload "
             "iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3 dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3 iaload laload faload daload aaload baload caload saload "
             "istore lstore fstore dstore astore istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3 astore_0 astore_1 astore_2 astore_3 "
             "iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem "
             "ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle "
             "if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch ireturn lreturn freturn dreturn areturn return getstatic putstatic getfield putfield "
             "invokevirtual invokespecial invokestatic invokeinterface invokedynamic new newarray anewarray arraylength athrow checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w breakpoint").split()
OP = {n: i for i, n in enumerate(MNEMONICS)}
OP.update(impdep1=0xFE, impdep2=0xFF)


def instruction(pool, name, pc, v=0):
    """bytes, text"""
    op = OP[name]
    b = bytes((op,))
    field, method, imethod, dyn, klass = [lambda q=q: q for q in ()] or (lambda: pool.ref("Fieldref", "a/F", "f", "I"), lambda: pool.ref("Methodref", "a/M", "m", "(J)V"), lambda: pool.ref("InterfaceMethodref", "a/I", "i", "()V"),
                                                                          lambda: pool.add("InvokeDynamic", 0, pool.nat("run", "()V")), lambda: pool.cls("java/lang/String"))
    if name == "bipush":
        x = (7, -128, 127, 0)[v % 4]
        return b + struct.pack(">b", x), "bipush(%s)" % x
    if name == "sipush":
        x = (-300, 32767, -32768, 1)[v % 4]
        return b + struct.pack(">h", x), "sipush(%s)" % x
    if name == "ldc":
        return b + struct.pack(">B", pool.add("Integer", 77)), "ldc(77)"
    if name == "ldc_w":
        return b + struct.pack(">H", pool.add("Float", 2.5)), "ldc_w(2.5)"
    if name == "ldc2_w":
        return b + struct.pack(">H", pool.add("Long", 99)), "ldc2_w(99)"
    if name in ("iload", "lload", "fload", "dload", "aload", "istore", "lstore", "fstore", "dstore", "astore", "ret"):
        x = (4, 255)[v % 2]
        return b + bytes((x,)), "%s(%s)" % (name, x)
    if name == "iinc":
        x, y = ((1, 1), (200, -1), (0, -128))[v % 3]
        return b + struct.pack(">Bb", x, y), "iinc(%s,%s)" % (x, y)
    if name.startswith("if") or name in ("goto", "jsr"):
        x = (3, -3, 32767, -32768)[v % 4]
        return b + struct.pack(">h", x), "%s(%s)" % (name, x)
    if name in ("goto_w", "jsr_w"):
        x = (5, -70000, 70000)[v % 3]
        return b + struct.pack(">i", x), "%s(%s)" % (name, x)
    if name in ("getstatic", "putstatic", "getfield", "putfield"):
        return b + struct.pack(">H", field()), "%s(int a.F.f)" % name
    if name in ("invokevirtual", "invokespecial", "invokestatic"):
        return b + struct.pack(">H", method()), "%s(void a.M.m(long))" % name
    if name == "invokeinterface":
        i = imethod()
        return b + struct.pack(">HBB", i, 3, 0), "invokeinterface(%s,3,0)" % i
    if name == "invokedynamic":
        i = dyn()
        return b + struct.pack(">HBB", i, 0, 0), "invokedynamic(%s,0,0)" % i
    if name in ("new", "anewarray", "checkcast", "instanceof"):
        return b + struct.pack(">H", klass()), "%s(java.lang.String)" % name
    if name == "newarray":
        x = 4 + v % 8
        return b + bytes((x,)), "newarray(%s)" % ["boolean", "char", "float", "double", "byte", "short", "int", "long"][v % 8]
    if name == "multianewarray":
        i = klass()
        return b + struct.pack(">HB", i, 2), "multianewarray(%s,2)" % i
    if name == "tableswitch":
        low, high = ((0, 0), (-1, 1), (5, 5), (2, 4))[v % 4]
        return b + bytes(-(pc + 1) % 4) + struct.pack(">iii", 100, low, high) + b"".join(struct.pack(">i", k * 7 - 3) for k in range(high - low + 1)), "tableswitch(100,%s,%s,...)" % (low, high)
    if name == "lookupswitch":
        k = v % 3
        return b + bytes(-(pc + 1) % 4) + struct.pack(">ii", -9, k) + b"".join(struct.pack(">ii", j * 1000 - 500, j) for j in range(k)), "lookupswitch(-9,%s,...)" % k
    if name == "wide":
        sub = ("iload", "iinc", "astore", "ret", "dload")[v % 5]
        x = (300, 65535, 0)[v % 3]
        if sub == "iinc":
            return b + struct.pack(">BHh", OP[sub], x, -1000), "wide(%s,-1000)" % x
        return b + struct.pack(">BH", OP[sub], x), "wide(%s)" % x
    return b, name


def check_code(ctx, code, want, what):
    got = code.array("bytecode")
    if not expect(ctx, what + ": instructions", [f.display for f in got], [t for b, t in want]):
        return
    pos = 0
    for f, (b, t) in zip(got, want):
        expect(ctx, "%s: %s" % (what, t), (f.address, f.size, f["opcode"].value), (pos * 8, len(b) * 8, b[0]))
        name = t.split("(")[0]
        if name == "tableswitch":
            k = len(f.array("offset"))
            expect(ctx, what + ": " + t, (f["default"].value, [x.value for x in f.array("offset")]), (100, [j * 7 - 3 for j in range(f["high"].value - f["low"].value + 1)]))
        if name == "lookupswitch":
            k = f["npairs"].value
            expect(ctx, what + ": " + t, ([x.value for x in f.array("match")], [x.value for x in f.array("offset")]), ([j * 1000 - 500 for j in range(k)], list(range(k))))
        pos += len(b)


def code_attribute(pool, code, table=(), attributes=()):
    return attribute(pool, "Code", struct.pack(">HHI", 2, 3, len(code)) + code + struct.pack(">H", len(table)) + b"".join(struct.pack(">HHHH", *t) for t in table) + struct.pack(">H", len(attributes)) + b"".join(attributes))


def bytecode(case, ctx):
    """All instructions; sequences of those which have operands, wherever they start"""
    names = list(OP)
    pool = Pool()
    for v in range(8 * 3 * 5):
        # each instruction with operand choice v
        if case["i"] == 0 and v < 16:
            pos, want = 0, []
            for n in names:
                b, t = instruction(pool, n, pos, v)
                want.append((b, t))
                pos += len(b)
            one = code_attribute(pool, b"".join(b for b, t in want))
            p = java_class(ctx, java(pool, (), [(1, "m", "()V", [one])]), "class")
            check_code(ctx, p["methods/methods[0]/attributes/attributes[0]/code"], want, "all instructions, operands %s" % v)
            pool = Pool()
    special = ["nop", "bipush", "ldc", "ldc2_w", "iload", "iinc", "goto", "goto_w", "getfield", "invokeinterface", "tableswitch", "lookupswitch", "wide", "newarray", "multianewarray"]
    n = 0
    for k in range(1, case["n"] + 1):
        for seq in itertools.product(special, repeat=k):
            n += 1
            if n % case["of"] != case["i"]:
                continue
            pool = Pool()
            pos, want = 0, []
            for j, x in enumerate(seq):
                b, t = instruction(pool, x, pos, n + j)
                want.append((b, t))
                pos += len(b)
            one = code_attribute(pool, b"".join(b for b, t in want))
            p = java_class(ctx, java(pool, (), [(1, "m", "()V", [one])]), "class")
            check_code(ctx, p["methods/methods[0]/attributes/attributes[0]/code"], want, "instructions %s" % (seq,))


def java_attributes(case, ctx):
    """Sequences of attributes of classes, fields, methods and code"""
    def source(q):
        return attribute(q, "SourceFile", struct.pack(">H", q.utf("B.java"))), lambda f: (f["sourcefile_index"].display == '"B.java"')

    def deprecated(q):
        return attribute(q, "Deprecated", b""), lambda f: len(f) == 2

    def synthetic(q):
        return attribute(q, "Synthetic", b""), lambda f: len(f) == 2

    def unknown(q):
        return attribute(q, "Whatever", b"bytes"), lambda f: f["info"].value == b"bytes"

    def empty(q):
        return attribute(q, "Empty", b""), lambda f: len(f) == 2

    def constant(kind, v, text):
        def make(q):
            i = q.add(kind, v) if kind != "String" else q.add("String", q.utf(v))
            return attribute(q, "ConstantValue", struct.pack(">H", i)), lambda f: f["constantvalue_index"].display == text
        return make

    def exceptions(k):
        def make(q):
            return (attribute(q, "Exceptions", struct.pack(">H", k) + b"".join(struct.pack(">H", q.cls("e/E%s" % j)) for j in range(k))),
                    lambda f: f["number_of_exceptions"].value == k and (not k or [x.display for x in f.array("exception_index_table/exception_index_table")] == ["e.E%s" % j for j in range(k)]))
        return make

    def inner(k):
        def make(q):
            rows = [(q.cls("a/B$C%s" % j), q.cls("a/B") if j % 2 else 0, q.utf("C%s" % j) if j != 2 else 0, (0x9, 0x600, 0x4019)[j]) for j in range(k)]
            return (attribute(q, "InnerClasses", struct.pack(">H", k) + b"".join(struct.pack(">HHHH", *r) for r in rows)),
                    lambda f: f["number_of_classes"].value == k and (not k or [x.description for x in f.array("classes/classes")] == ["public static class a.B$C0", "interface abstract a.B$C1", "public static final enum class a.B$C2"][:k]
                                                                   and [(x["inner_class_info_index"].value, x["outer_class_info_index"].value, x["inner_name_index"].value) for x in f.array("classes/classes")] == [r[:3] for r in rows]
                                                                   and [x["outer_class_info_index"].display for x in f.array("classes/classes")] == ["ZERO", "a.B", "ZERO"][:k]))
        return make

    def lines(k):
        def make(q):
            return (attribute(q, "LineNumberTable", struct.pack(">H", k) + b"".join(struct.pack(">HH", 3 * j, 100 + j) for j in range(k))),
                    lambda f: f["line_number_table_length"].value == k and (not k or [(x.value, x.display) for x in f.array("line_number_table/line_number_table")] == [((3 * j, 100 + j), "%s @ line %s" % (3 * j, 100 + j)) for j in range(k)]))
        return make

    def variables(k):
        def make(q):
            return (attribute(q, "LocalVariableTable", struct.pack(">H", k) + b"".join(struct.pack(">HHHHH", j, 10 + j, q.utf("v%s" % j), q.utf("[J"), j + 5) for j in range(k))),
                    lambda f: f["local_variable_table_length"].value == k and (not k or [(x["start_pc"].value, x["length"].value, x["name_index"].display, x["descriptor_index"].display, x["index"].value) for x in f.array("local_variable_table/local_variable_table")]
                                                                             == [(j, 10 + j, '"v%s"' % j, "long[]", j + 5) for j in range(k)]))
        return make

    def code(k, sub):
        def make(q):
            subs = [s(q) for s in sub]
            table = [(j, j + 1, j + 2, q.cls("e/X") if j % 2 == 0 else 0) for j in range(k)]
            raw = b"\0" * 4 + b"\xb1"

            def test(f):
                ok = (f["max_stack"].value, f["max_locals"].value, f["code_length"].value, f["exception_table_length"].value, f["attributes_count"].value) == (2, 3, 5, k, len(subs))
                ok = ok and [x.display for x in f["code"]] == ["nop"] * 4 + ["return"]
                if ok and k:
                    ok = [(x["start_pc"].value, x["end_pc"].value, x["handler_pc"].value, x["catch_type"].display) for x in f.array("exception_table/exception_table")] == [(j, j + 1, j + 2, "e.X" if j % 2 == 0 else "ZERO") for j in range(k)]
                for j, (b, t) in enumerate(subs):
                    ok = ok and t(f["attributes/attributes[%s]" % j])
                return ok
            return code_attribute(q, raw, table, [b for b, t in subs]), test
        return make
    everywhere = [deprecated, synthetic, unknown, empty]
    groups = {"class": [source, inner(0), inner(1), inner(3)] + everywhere,
              "field": [constant("Integer", -7, "-7"), constant("Long", 2 ** 40, str(2 ** 40)), constant("Double", 0.25, "0.25"), constant("Float", 1.5, "1.5"), constant("String", "str", '"str"')] + everywhere,
              "method": [exceptions(0), exceptions(1), exceptions(2), code(0, ()), code(1, (lines(0),)), code(2, (lines(2), variables(1))), code(3, (variables(0), unknown, lines(1))), code(0, (deprecated,))] + everywhere}
    for place, kinds in groups.items():
        for k in range(case["n"] + 1):
            for seq in itertools.product(range(len(kinds)), repeat=k):
                pool = Pool()
                made = [kinds[x](pool) for x in seq]
                raw = [b for b, t in made]
                data = java(pool, [(1, "f", "I", raw)] if place == "field" else (), [(1, "m", "()V", raw)] if place == "method" else (), raw if place == "class" else ())
                what = "attributes %s of a %s" % (seq, place)
                p = java_class(ctx, data, what)
                where = {"class": p, "field": get_field(p, "fields/fields[0]"), "method": get_field(p, "methods/methods[0]")}[place]
                if where is None or not expect(ctx, what + ": number", (where["attributes_count"].value, len(where.array("attributes/attributes")) if k else 0), (k, k)):
                    continue
                for j, (b, t) in enumerate(made):
                    f = where["attributes/attributes[%s]" % j]
                    if not expect(ctx, what, (f.size, f["attribute_length"].value), (len(b) * 8, len(b) - 6)):
                        continue
                    if not t(f):
                        ctx.report("%s: attribute %s (%s) is not shown as written" % (what, j, f["attribute_name_index"].display))


def get_field(p, path):
    return p[path] if path in p else None


def main():
    c = lib.Check("A10", "model_checking",
                  "all orders of the tables and sections of ELF files, all flags; all sequences and orders of the sections of Windows programs, shapes of resource trees, sequences of version texts; "
                  "all Java instructions, sequences of instructions, constants and attributes, all types of fields and methods, all flags: every field, name, display, section, resource, and the metadata",
                  bounds={"ELF": "up to 5 (thorough 6) sections and tables", "sections of PE": "up to 3 (4) of 8", "resource trees": "2 types, 2 names, 2 languages", "version texts": "up to 3 (4) of 9", "constants": "up to 2 (3) of 20", "instructions": "up to 3 (4) of 15", "parameters": "up to 2 (3)", "attributes": "up to 2 (3)"})
    q = c.quick
    c.domain("ELF layouts", [dict(cls=k, e=e) for k in (1, 2) for e in "<>"], elf_layouts)
    c.domain("ELF values", [dict(cls=k, e=e) for k in (1, 2) for e in "<>"], elf_values)
    c.domain("PE sections", [dict(n=3 if q else 4, plus=b, i=i, of=4) for b in (False, True) for i in range(4)], pe_sections)
    c.domain("PE values", [dict(plus=b) for b in (False, True)], pe_values)
    c.domain("MS-DOS", [{}], dos_programs)
    c.domain("Windows 3", [{"n": 2 if q else 4}], ne_programs)
    c.domain("resource trees", [dict(i=i, of=4) for i in range(4)], resource_trees)
    c.domain("resource kinds", [{}], resource_kinds)
    c.domain("version information", [dict(n=3 if q else 4, i=i, of=8) for i in range(8)], version_info)
    c.domain("descriptors", [dict(n=2 if q else 3)], descriptors)
    c.domain("Java flags", [{}], java_flags)
    c.domain("constants", [dict(n=2 if q else 3, i=i, of=4) for i in range(4)], constants)
    c.domain("bytecode", [dict(n=3 if q else 4, i=i, of=8) for i in range(8)], bytecode)
    c.domain("attributes", [dict(n=2 if q else 3)], java_attributes)
    return c.main()


if __name__ == "__main__":
    sys.exit(main())
