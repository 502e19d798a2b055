"""T01: a stripped file is the file without the asked parts: nothing else is lost, sizes, offsets and checksums agree, and a second run finds nothing."""
import contextlib, io, itertools, os, shutil, struct, sys, tarfile, tempfile, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir import strip
from hachoir.core import config as core_config
from hachoir.editor import createEditor
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream

core_config.quiet = True
USELESS, METADATA, INDEX = 1, 2, 4


def run(data, level, top, pid, verbose=True):
    """(new content or None, what is printed)"""
    path = os.path.join(top, "new")
    if os.path.exists(path):
        os.unlink(path)
    parser = guessParser(StringInputStream(data, source="text", tags=[("id", pid)]))
    if parser is None or parser.getParserTags()["id"] != pid:
        raise lib.HarnessError("%s does not parse %r" % (pid, data[:60]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok = strip.stripEditor(createEditor(parser), path, level, verbose)
    if ok is not True:
        raise lib.Violation("stripEditor() gives %r for %r" % (ok, data[:60]))
    if not os.path.exists(path):
        return None, out.getvalue()
    with open(path, "rb") as f:
        return f.read(), out.getvalue()


def compare(ctx, pid, data, want, level, top, what):
    """want: the whole content expected."""
    ctx.count("transitions")
    ctx.count("traces")
    ctx.seen("states", (pid, want, level))
    try:
        got, text = run(data, level, top, pid)
    except lib.Violation as e:
        ctx.report("%s, level %s: %s" % (what, level, e.msg))
        return
    except Exception as e:
        ctx.report("%s, level %s: %s: %s" % (what, level, type(e).__name__, e))
        return
    if want == data:
        if got is not None:
            ctx.report("%s, level %s: a file is written although nothing is removed (%s)" % (what, level, "same content" if got == data else "other content"))
        return
    if got is None and len(want) == len(data):
        # nothing to remove: clearing only the flag of a missing index isn't asked
        return
    if got != want:
        ctx.report("%s, level %s: %s written, expected %s" % (what, level, lib.short(got, 300), lib.short(want, 300)))
        return
    if len(want) < len(data) and "Remove " not in text.splitlines()[-2]:
        ctx.report("%s, level %s: prints %r" % (what, level, text))
    again, text = run(got, level, top, pid)
    if again is not None and pid != "tar":
        ctx.report("%s, level %s: a second run still removes something: %r" % (what, level, text))


# ---- RIFF -----------------------------------------------------------------------------------

def chunk(tag, body):
    return tag + struct.pack("<I", len(body)) + body + b"\0" * (len(body) % 2)


def riff(kind, nodes, level):
    """nodes: (name, tag, body or list of nodes); the content after strip."""
    body = b"".join(build(n, level, False) for n in nodes)
    return b"RIFF" + struct.pack("<I", 4 + len(body)) + kind + body


def build(node, level, in_movie):
    name, tag, body = node
    if not in_movie:
        if level & USELESS and (tag == b"JUNK" or name == "nb_sample"):
            return b""
        if level & METADATA and name == "info":
            return b""
        if level & INDEX and name == "index":
            return b""
    if isinstance(body, list):
        body = tag[4:] + b"".join(build(n, level, in_movie or name == "movie") for n in body)
    elif name == "avi_hdr" and level & INDEX:
        flags = struct.unpack_from("<I", body, 12)[0] & ~0x10
        body = body[:12] + struct.pack("<I", flags) + body[16:]
    return chunk(tag[:4], body)


AVIH = ("avi_hdr", b"avih", struct.pack("<4I10I", 40000, 1000, 0, 0x910, 5, 0, 1, 0, 16, 8, 0, 0, 0, 0))
STRH = ("", b"strh", b"vids" + b"XVID" + struct.pack("<IHHIIIIIIIIHHHH", 0, 0, 0, 0, 1, 25, 0, 5, 1000, 0, 0, 0, 0, 16, 8))
STRF = ("", b"strf", struct.pack("<IIIHH4sIIIII", 40, 16, 8, 1, 24, b"XVID", 384, 0, 0, 0, 0))
JUNK = ("", b"JUNK", b"\1\2\3\4\5\6")
JUNK0 = ("", b"JUNK", b"")
JUNKODD = ("", b"JUNK", b"odd")
INFO = ("info", b"LISTINFO", [("", b"INAM", b"Title\0"), ("", b"ISFT", b"Soft")])
INFOODD = ("info", b"LISTINFO", [("", b"INAM", b"Tit"), ("", b"ICRD", b"2001\0")])
FMT = ("", b"fmt ", struct.pack("<HHIIHH", 1, 1, 8000, 8000, 1, 8))
FACT = ("nb_sample", b"fact", struct.pack("<I", 7))
DATA = ("", b"data", b"\x80\x81\x82\x83\x84\x85")
DATAODD = ("", b"data", b"\x80\x81\x82\x83\x84\x85\x86")
OTHER = ("", b"abcd", b"other data")
OTHERLIST = ("", b"LISTxyz ", [OTHER, JUNK, OTHER])
WAVE = [FMT, FACT, DATA, DATAODD, JUNK, JUNKODD, INFO, INFOODD, OTHER, OTHERLIST]
IDX = ("index", b"idx1", b"00dc" + struct.pack("<3I", 16, 4, 6))
MOVI = ("movie", b"LISTmovi", [("", b"00dc", b"frame!"), JUNK, ("", b"00dc", b"frame2")])
STRL = ("", b"LISTstrl", [STRH, STRF])
STRLJ = ("", b"LISTstrl", [STRH, JUNK, STRF, JUNKODD])
HDRLS = [("", b"LISThdrl", [AVIH, STRL]), ("", b"LISThdrl", [AVIH, STRLJ]), ("", b"LISThdrl", [JUNK, AVIH, STRLJ, JUNK, STRL])]
AVI = [JUNK, INFO, MOVI, IDX, OTHER, JUNKODD]


def names(nodes):
    return " ".join((n[1] + (b"(%d)" % len(n[2]) if not isinstance(n[2], list) else b"")).decode() for n in nodes)


def riffs(case, ctx):
    top = tempfile.mkdtemp(prefix="hachoir-t01-")
    try:
        if case["kind"] == "WAVE":
            all_nodes = [[FMT] + [WAVE[case["first"]]] + list(t) for t in itertools.product(WAVE, repeat=case["n"])]
        else:
            all_nodes = [[HDRLS[case["first"]]] + list(t) for t in itertools.product(AVI, repeat=case["n"])]
        kind = b"WAVE" if case["kind"] == "WAVE" else b"AVI "
        for nodes in all_nodes:
            data = riff(kind, nodes, 0)
            for level in case["levels"]:
                for tail in (b"", b"tail")[:case["tails"]]:
                    compare(ctx, "riff", data + tail, riff(kind, nodes, level) + tail, level, top, names(nodes) + (" and more" if tail else ""))
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ---- PNG, JPEG, AU, MP3 ---------------------------------------------------------------------

def png_chunk(tag, body):
    return struct.pack(">I", len(body)) + tag + body + struct.pack(">I", zlib.crc32(tag + body))


PNG = [(b"tEXt", b"Title\0text", True), (b"tIME", struct.pack(">HBBBBB", 2007, 1, 2, 3, 4, 5), True), (b"tEXt", b"Author\0x", True), (b"gAMA", struct.pack(">I", 45455), False),
       (b"bKGD", b"\0\1", False), (b"zzZz", b"abc", False), (b"IDAT", zlib.compress(b"\0\0\0\0" * 3), False)]

JPEG = [(b"\xfe", b"a comment", True), (b"\xe1", b"Exif\0\0" + b"II*\0\x08\0\0\0" + b"\1\0" + struct.pack("<HHII", 0x112, 3, 1, 1) + b"\0\0\0\0", True), (b"\xe1", b"http://ns.adobe.com/xap/1.0/\0<x/>", False),
        (b"\xed", b"Photoshop 3.0\0" + b"8BIM\4\x25\0\0\0\0\0\4abcd", True), (b"\xee", b"Adobe\0\x64\0\0\0\0\1", True), (b"\xdb", b"\0" + bytes(range(1, 65)), False), (b"\xfe", b"x", True)]


def jpeg_chunk(tag, body):
    return b"\xff" + tag + struct.pack(">H", len(body) + 2) + body


def images(case, ctx):
    top = tempfile.mkdtemp(prefix="hachoir-t01-")
    try:
        items = PNG if case["kind"] == "png" else JPEG
        for seq in itertools.product(items, repeat=case["n"]):
            if seq[:1] != (items[case["first"]],):
                continue
            if case["kind"] == "png":
                if sum(s[0] == b"tIME" for s in seq) > 1:
                    continue
                head = b"\x89PNG\r\n\x1a\n" + png_chunk(b"IHDR", struct.pack(">IIBBBBB", 3, 3, 8, 0, 0, 0, 0))
                parts = [(png_chunk(t, b), meta) for t, b, meta in seq]
                tail = png_chunk(b"IDAT", zlib.compress(b"\0\0\0\0" * 3)) + png_chunk(b"IEND", b"")
            else:
                head = b"\xff\xd8" + jpeg_chunk(b"\xe0", b"JFIF\0\1\1\0\0\1\0\1\0\0")
                parts = [(jpeg_chunk(t, b), meta) for t, b, meta in seq]
                tail = jpeg_chunk(b"\xc0", struct.pack(">BHHB", 8, 8, 8, 1) + b"\1\x11\0") + jpeg_chunk(b"\xda", b"\1\1\0\0\x3f\0") + b"\x12\x34\xff\0\x56" + b"\xff\xd9"
            data = head + b"".join(p for p, m in parts) + tail
            for level in range(1, 8):
                want = head + b"".join(p for p, m in parts if not (m and level & METADATA)) + tail
                compare(ctx, case["kind"], data, want, level, top, "%s %s" % (case["kind"], [s[0] for s in seq]))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def sounds(case, ctx):
    top = tempfile.mkdtemp(prefix="hachoir-t01-")
    try:
        for info in (b"", b"abcd", b"abc\0", b"a" * 8, b"\0\0\0\0", b"x" * 300):
            for body in (b"\x80\x81", b"\x80" * 7):
                for size in (len(body),):
                    for level in range(1, 8):
                        def au(extra):
                            return b".snd" + struct.pack(">5I", 24 + len(extra), size, 2, 8000, 1) + extra + body
                        compare(ctx, "sun_next_snd", au(info), au(b"" if level & METADATA else info), level, top, "au with %s bytes of text" % len(info))
        frame = b"\xff\xfb\x90\0" + b"\0" * 413
        v1 = b"TAG" + b"title".ljust(30, b"\0") + b"artist".ljust(30, b"\0") + b"album".ljust(30, b"\0") + b"2001" + b"c".ljust(30, b"\0") + b"\1"
        for n in (8, 12):
            for v2 in (None, b"TIT2" + struct.pack(">IH", 4, 0) + b"\0abc", b"TIT2" + struct.pack(">IH", 4, 0) + b"\0abc" + b"\0" * 20, b"TALB" + struct.pack(">IH", 9, 0) + b"\0abcdefgh" + b"TIT2" + struct.pack(">IH", 2, 0) + b"\0x"):
                for with_v1 in (False, True):
                    for level in range(1, 8):
                        a = b"" if v2 is None else b"ID3\3\0\0" + bytes([0, 0, len(v2) >> 7, len(v2) & 127]) + v2
                        b = v1 if with_v1 else b""
                        data, plain = a + frame * n + b, frame * n
                        compare(ctx, "mpeg_audio", data, plain if level & METADATA else data, level, top, "mp3 with %s frames, ID3v2 %s, ID3v1 %s" % (n, v2, with_v1))
    finally:
        shutil.rmtree(top, ignore_errors=True)


# ---- TAR ------------------------------------------------------------------------------------

ENTRIES = [("file", "a", b"x"), ("file", "dir/b.txt", b"y" * 512), ("file", "c", b"z" * 513), ("empty", "d", b""), ("dir", "e", b""), ("link", "f", b""), ("file", "n" * 99, b"12")]


def tar(seq, stripped, fmt, owner):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w", format=fmt) as t:
        for kind, name, content in seq:
            i = tarfile.TarInfo(name)
            i.size = len(content)
            i.type = {"dir": tarfile.DIRTYPE, "link": tarfile.SYMTYPE}.get(kind, tarfile.REGTYPE)
            if kind == "link":
                i.linkname = "target"
            i.mode = 0o644
            if not stripped:
                i.uid, i.gid, i.mtime, i.uname, i.gname = owner
            t.addfile(i, io.BytesIO(content))
    return out.getvalue()


def tars(case, ctx):
    top = tempfile.mkdtemp(prefix="hachoir-t01-")
    try:
        for seq in itertools.product(ENTRIES, repeat=case["n"]):
            if seq[:1] != (ENTRIES[case["first"]],):
                continue
            for fmt in (tarfile.GNU_FORMAT, tarfile.USTAR_FORMAT):
                for owner in ((1000, 100, 1200000000, "user", "group"), (0, 0, 0, "", ""), (0o7777777, 1, 1, "u" * 31, "")):
                    data = tar(seq, False, fmt, owner)
                    for level in (1, 2, 3, 7):
                        ctx.count("transitions")
                        ctx.count("traces")
                        what = "tar %s format %s owner %s level %s" % ([(s[0], s[1][:9]) for s in seq], fmt, owner, level)
                        want = members(data)
                        if level & METADATA:
                            want = [(m[0], m[1], 0, 0, 0, "", "") + m[7:] for m in want]
                        ctx.seen("states", (tuple(want), level))
                        try:
                            got, text = run(data, level, top, "tar")
                        except Exception as e:
                            ctx.report("%s: %s: %s" % (what, type(e).__name__, e))
                            continue
                        if got is None:
                            got = data
                        if len(got) != len(data):
                            ctx.report("%s: %s bytes instead of %s" % (what, len(got), len(data)))
                            continue
                        try:
                            have = members(got)
                        except Exception as e:
                            ctx.report("%s: tarfile does not read the result: %s" % (what, e))
                            continue
                        if have != want:
                            ctx.report("%s: %s, expected %s" % (what, lib.short(have), lib.short(want)))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def members(data):
    with tarfile.open(fileobj=io.BytesIO(data), errorlevel=2) as t:
        return [(m.name, m.type, m.uid, m.gid, m.mtime, m.uname, m.gname, m.size, m.mode, m.linkname, t.extractfile(m).read() if m.isreg() else b"") for m in t.getmembers()]


def main():
    c = lib.Check("T01", "model_checking",
                  "all sequences of chunks of WAVE, AVI, PNG, JPEG files and of entries of TAR files up to the length, all AU and MP3 headers, x all levels, against the file built without the parts",
                  bounds={"sequences": "3 chunks (thorough 4)"})
    q = c.quick
    levels = [1, 2, 3, 4, 6, 7]
    for n in range(0, 3 if q else 4):
        c.domain("wave %s" % n, [{"kind": "WAVE", "n": n, "first": k, "levels": levels if n < 2 else [1, 2, 7], "tails": 2 if n < 2 else 1} for k in range(len(WAVE))], riffs, batch=1, cpu_limit=900)
        c.domain("avi %s" % n, [{"kind": "AVI", "n": n, "first": k, "levels": levels if n < 2 else [1, 4, 7], "tails": 2 if n < 2 else 1} for k in range(len(HDRLS))], riffs, batch=1, cpu_limit=900)
    for n in range(1, 4 if q else 5):
        c.domain("png %s" % n, [{"kind": "png", "n": n, "first": k} for k in range(len(PNG))], images, batch=1, cpu_limit=900)
        c.domain("jpeg %s" % n, [{"kind": "jpeg", "n": n, "first": k} for k in range(len(JPEG))], images, batch=1, cpu_limit=900)
    c.domain("sounds", [{}], sounds, batch=1)
    for n in range(1, 3 if q else 4):
        c.domain("tar %s" % n, [{"n": n, "first": k} for k in range(len(ENTRIES))], tars, batch=1, cpu_limit=900)
    c.main()


if __name__ == "__main__":
    main()
