"""A31: ReiserFS volumes are shown as they were written: superblock, journal parameters, state of each block."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import direct, expect, get
from hachoir.parser.file_system.reiser_fs import REISER_FS

START, LEAST = 65536, (130 + 513 + 1) * 512
MAGICS = (b"ReIsErFs", b"ReIsEr2Fs", b"ReIsEr3Fs")
#       name, struct, description
SUPER = [("block_count", "I", 645), ("free_blocks", "I", 3), ("root_block", "I", 644), ("1st_block", "I", 18), ("dev", "I", 0), ("size", "I", 513), ("trans_max", "I", 256), ("magic", "I", 0x12345678), ("max_batch", "I", 225),
         ("max_commit_age", "I", 30), ("max_trans_age", "I", 31), ("blocksize", "H", 512), ("oid_maxsize", "H", 972), ("oid_cursize", "H", 2), ("umount_state", "H", 1), ("magic", "10s", b"ReIsEr2Fs"), ("fs_state", "H", 5), ("hash_function", "I", 3),
         ("tree_height", "H", 2), ("bmap_nr", "H", 1), ("version", "H", 2), ("reserved_for_journal", "H", 6), ("inode_generation", "I", 7), ("flags", "I", 8), ("uuid", "16s", bytes(range(240, 256))), ("label", "16s", b"a volume")]
JOURNAL = range(3, 11)
HASHES = {0: "UNSET_HASH", 1: "TEA_HASH", 2: "YURA_HASH", 3: "R5_HASH"}
STATES = {1: "unmounted", 2: "not unmounted"}


def volume(values, bitmaps=(), length=LEAST):
    """bitmaps: the bytes of each bitmap block"""
    row = [v for _, _, v in SUPER]
    for k, v in values.items():
        row[k] = v
    size = row[11]
    data = bytearray(length)
    sb = b"".join(struct.pack("<" + f, v) for (_, f, _), v in zip(SUPER, row))
    data[START:START + len(sb)] = sb
    places = []
    for i, bits in enumerate(bitmaps):
        at = START + size if i == 0 else i * size * 8 * size
        if at + size > len(data):
            data.extend(bytes(at + size - len(data)))
        data[at:at + size] = bits
        places.append(at)
    return bytes(data), row, places


def check_super(ctx, what, p, row):
    expect(ctx, what + ": accepted", p.validate(), True)
    expect(ctx, what + ": first fields", [f.name for f in itertools.islice(p, 3)], ["padding[0]", "superblock", "Group of bitmap blocks"])
    s = p["superblock"]
    expect(ctx, what + ": place of the superblock, size", (s.absolute_address, s.size), (START * 8, row[11] * 8))
    expect(ctx, what + ": description", s.description, "Superblock: ReiserFs Filesystem")
    at = START
    for k, ((name, f, _), v) in enumerate(zip(SUPER, row)):
        x = s["Journal parameters"][name] if k in JOURNAL else s[name]
        expect(ctx, "%s: place of %s" % (what, name), (x.absolute_address, x.size), (at * 8, struct.calcsize("<" + f) * 8))
        at += struct.calcsize("<" + f)
        if f.endswith("s") and name != "uuid":
            v = v.rstrip(b"\0").decode("latin-1")
        expect(ctx, "%s: %s" % (what, name), x.value, v)
        if name == "hash_function":
            expect(ctx, what + ": hash function", x.display, HASHES.get(v, str(v)))
        if name == "umount_state":
            expect(ctx, what + ": state", x.display, STATES.get(v, str(v)))


def values(case, ctx):
    """All extreme values of each field, all magic texts, all pairs of names"""
    for k, (name, f, v) in enumerate(SUPER):
        if k % 4 != case["i"] or k in (11, 15, 19):
            continue
        top = 256 ** struct.calcsize("<" + f) - 1
        for x in ([b"", b"x", bytes(range(1, 17)), b"caf\xe9", b"y" * 15, b"z" * 16] if f == "16s" and name == "label" else [b"\0" * 16, b"\xff" * 16] if f == "16s" else [0, 1, 2, 3, 4, 255, 256, top // 2, top // 2 + 1, top - 1, top]):
            what = "%s %s" % (name, lib.short(x, 40))
            data, row, _ = volume({k: x}, [b"\xff" * 512])
            check_super(ctx, what, direct(ctx, data, REISER_FS), row)
    for magic, size, label in itertools.product(MAGICS, (512, 1024, 2048, 4096, 8192), (b"", b"disk")):
        data, row, _ = volume({11: size, 15: magic, 25: label}, [b"\x0f" * size])
        check_super(ctx, "%s, blocks of %s bytes" % (magic, size), direct(ctx, data, REISER_FS), row)
    for magic in (b"ReIsEr4", b"reiserfs", b"ReIsEr", b"ReIsErFt", b"ReIsEr4Fs", b""):
        data, row, _ = volume({15: magic})
        from hachoir.stream import StringInputStream
        p = REISER_FS.__new__(REISER_FS)
        REISER_FS.__init__(p, StringInputStream(data))
        expect(ctx, "magic %s is refused" % magic, p.validate() is True, False)


def patterns(size, k):
    yield bytes(size)
    yield b"\xff" * size
    for i in (0, 1, 7, 8, 9, size * 4, size * 8 - 8, size * 8 - 1):
        b = bytearray(size)
        b[i // 8] = 1 << i % 8
        yield bytes(b)
        yield bytes(255 - x for x in b)
    yield bytes((i * 7 + k) % 256 for i in range(size))


def bitmaps(case, ctx):
    """All sequences of bitmaps: the state and the number of each block, whatever was read before"""
    size, n = case["size"], case["n"]
    some = list(patterns(size, n))
    for seq in itertools.product(range(len(some)), repeat=n):
        if n > 1 and (len(set(seq)) == 1 or sum(seq) % case["of"] != case["i"]):
            continue
        data, row, places = volume({11: size, 19: n}, [some[i] for i in seq])
        what = "%s bitmaps %s of blocks of %s bytes" % (n, seq, size)
        p = direct(ctx, data, REISER_FS)
        check_super(ctx, what, p, row)
        got = p["Group of bitmap blocks"].array("BitmapBlock")
        found = []
        for _ in range(n):
            found.append(p["Group of bitmap blocks/BitmapBlock[%s]" % len(found)])
        for k, (b, at, i) in enumerate(zip(found, places, seq)):
            expect(ctx, "%s: place of bitmap %s" % (what, k), b.absolute_address, at * 8)
            bits = [bool(some[i][j // 8] >> j % 8 & 1) for j in range(size * 8)]
            states = list(b)
            expect(ctx, "%s: bitmap %s" % (what, k), [x.value for x in states] == bits, True)
            first = k * size * 8
            near = [x for x in (0, 1, 7, 8, 9, size * 4, size * 8 - 8, size * 8 - 1)]
            expect(ctx, "%s: blocks of bitmap %s" % (what, k), [(states[j].display, states[j].description) for j in near], [("used" if bits[j] else "free", "State of the block %s" % (first + j)) for j in near])
        expect(ctx, what + ": number of bitmaps", len(list(p["Group of bitmap blocks"].array("BitmapBlock"))), n)


if __name__ == "__main__":
    c = lib.Check("A31", "model_checking", "all extreme values of each field of the superblock, all magic texts and sizes of blocks, all sequences of bitmaps with extreme patterns: place and value of each field, state and number of each block",
                  bounds={"bitmaps": "sequences of up to 2 of 19 with blocks of 512 bytes (thorough: 3, and blocks of 1024)", "values": "11 of each field"})
    q = c.quick
    c.domain("values", [{"i": i} for i in range(4)], values, batch=1)
    cases = [{"size": s, "n": 1, "i": 0, "of": 1} for s in ((512, 1024) if q else (512, 1024, 2048, 4096))]
    cases += [{"size": 512, "n": 2, "i": i, "of": 16} for i in (range(0, 16, 4) if q else range(16))]
    if not q:
        cases += [{"size": 512, "n": 3, "i": i, "of": 64} for i in range(0, 64, 8)] + [{"size": 1024, "n": 2, "i": i, "of": 16} for i in range(16)]
    c.domain("bitmaps", cases, bitmaps, batch=1)
    c.main()
