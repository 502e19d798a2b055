"""U03: the command line programs do what their options say, for each of the files, and tell whether they could."""
import contextlib, io, itertools, os, shutil, struct, sys, tarfile, tempfile, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
import hachoir
from hachoir.core import config
from hachoir.core.i18n import getTerminalCharset
from hachoir.core.log import log
from hachoir.core.tools import makePrintable
from hachoir.editor import createEditor
from hachoir.field import isString
from hachoir.metadata import config as mconfig, extractMetadata
from hachoir.parser import createParser
from hachoir.stream import FileInputStream
from hachoir.subfile.search import SearchSubfile
from hachoir import grep as grep_main, strip as strip_main
from hachoir.metadata import main as metadata_main
from hachoir.subfile import main as subfile_main

LATIN = "caf\xe9"


def chunk(name, data):
    return struct.pack(">I", len(data)) + name + data + struct.pack(">I", zlib.crc32(name + data))


def png():
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 3, 2, 8, 0, 0, 0, 0)) + chunk(b"tEXt", b"Title\0Sunset on CAF\xc9 " + b"long " * 70) + chunk(b"tEXt", b"Author\0Me\7too") \
        + chunk(b"tIME", struct.pack(">HBBBBB", 2009, 12, 31, 23, 59, 58)) + chunk(b"IDAT", zlib.compress(b"\0abc\0def")) + chunk(b"IEND", b"")


def au():
    return b".snd" + struct.pack(">IIIII", 40, 8000, 2, 8000, 1) + b"Sunset; cafe\0\0\0\0" + b"\x11" * 8000


def tar():
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w", format=tarfile.USTAR_FORMAT, encoding="latin-1") as t:
        for n, d in (("read sunset.txt", b"hello"), (LATIN, b"")):
            i = tarfile.TarInfo(n)
            i.size, i.mtime, i.uname, i.gname, i.uid, i.gid = len(d), 1000000000, "me", "us", 1000, 100
            t.addfile(i, io.BytesIO(d))
    return out.getvalue()


def wav():
    body = b"fmt " + struct.pack("<IHHIIHH", 16, 1, 1, 8000, 8000, 1, 8) + b"LIST" + struct.pack("<I", 4 + 8 + 10) + b"INFOINAM" + struct.pack("<I", 10) + b"My Sunset\0" + b"data" + struct.pack("<I", 4000) + b"\x80" * 4000
    return b"RIFF" + struct.pack("<I", 4 + len(body)) + b"WAVE" + body


FILES = {"a.png": png, "b " + LATIN + ".au": au, "c.tar": tar, "d.wav": wav, "e.bin": lambda: b"there is nothing to see", "f.empty": lambda: b""}
NAMES = sorted(FILES) + ["g.missing"]
IDS = {"a.png": "png", "b " + LATIN + ".au": "sun_next_snd", "c.tar": "tar", "d.wav": "riff"}
BAD = [n for n in NAMES if n not in IDS]
STATE = {}


@contextlib.contextmanager
def scratch():
    """The files in a directory of their own, where the programs run"""
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="u03-", dir=os.environ.get("TMPDIR"))
    os.chdir(d)
    try:
        for n, f in FILES.items():
            with open(n, "wb") as fp:
                fp.write(f())
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def reset():
    config.quiet, config.verbose, config.debug = True, False, False
    mconfig.MAX_STR_LENGTH, mconfig.RAW_OUTPUT = 300, False
    log.use_print = True


def run(main, args, charset="UTF-8"):
    """(exit code, lines of stdout, lines of stderr)"""
    reset()
    config.quiet = False
    getTerminalCharset.value = charset
    out, err = io.StringIO(), io.StringIO()
    argv, sys.argv = sys.argv, ["program"] + args
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as e:
                code = 0 if e.code is None else e.code
    finally:
        sys.argv = argv
        STATE["err"] = err.getvalue()
        STATE["config"] = (config.quiet, config.verbose, config.debug)
        log.use_print = False
        reset()
        log.use_print = False
    return code, out.getvalue().split("\n")[:-1], err.getvalue().split("\n")[:-1]


def report(ctx, what, got, want):
    if got != want:
        if isinstance(got, list) and isinstance(want, list):
            for k, (a, b) in enumerate(itertools.zip_longest(got, want)):
                if a != b:
                    ctx.report("%s: line %s is %s, expected %s" % (what, k, lib.short(a, 120), lib.short(b, 120)))
                    return
        ctx.report("%s: %s, expected %s" % (what, lib.short(got, 120), lib.short(want, 120)))


def key_of(m, g):
    return ([k for k in ("file[%s]" % n for n in range(9)) if k in m and m[k] is g] or [None])[0]


def items(m, level, human):
    """(title, [(key, value)]) of the metadata and its groups, from what is registered"""
    out = []
    groups = [(None, m)]
    if hasattr(m, "iterGroups"):
        groups += [("%s", g) for g in m.iterGroups()]
    for key, g in groups:
        lines = []
        for data in sorted(g, key=lambda d: d.priority):
            if data.priority > level * 100 + 99:
                continue
            for item in data.values:
                lines.append("- %s: %s" % ((data.description, item.text) if human else (data.key, item.value if isinstance(item.value, str) else str(item.value))))
        if lines:
            # (the key of a group)
            out.append("%s:" % (g.header if human or key is None else key_of(m, g)))
            out += lines
    return out


def expect_metadata(name, opts):
    """(lines, parsed?, metadata?) of a file"""
    if opts["force"] and name not in ("f.empty", "g.missing") and IDS.get(name) != opts["force"]:
        return None, False      # (a forced parser reads anything)
    if name in BAD:
        return [], False
    if opts["force"] not in (None, IDS[name]):
        return None, False
    reset()
    mconfig.MAX_STR_LENGTH = 300 if opts["maxlen"] is None else opts["maxlen"]
    mconfig.RAW_OUTPUT = opts["raw"]
    p = createParser(name)
    with p:
        if opts["type"]:
            lines = [p.description]
        elif opts["mime"]:
            lines = [p.mime_type]
        else:
            m = extractMetadata(p, 0.5 if opts["quality"] is None else opts["quality"])
            if m is None or not items(m, 9, True):
                return [], False
            lines = items(m, 9 if opts["level"] is None else opts["level"], not opts["raw"]) or ["(no metadata, priority may be too small)"]
    reset()
    return lines, True


def metadatas(case, ctx):
    with scratch():
        for quality, force, charset, raw in itertools.product(case["qualities"], case["forces"], case["charsets"], (False, True)):
            for level, maxlen in case["levels"]:
                for kind in ((), ("--type",), ("--mime",), ("--type", "--mime")):
                    if kind and (level, maxlen) != case["levels"][0]:
                        continue
                    opts = {"type": "--type" in kind, "mime": "--mime" in kind, "raw": raw, "level": level, "maxlen": maxlen, "quality": quality, "force": force}
                    args = list(kind) + (["--raw"] if raw else []) + (["--level=%s" % level] if level is not None else []) + (["--maxlen", str(maxlen)] if maxlen is not None else []) \
                        + (["--quality=%s" % quality] if quality is not None else []) + (["--force-parser", force] if force else [])
                    one = {}
                    for names in [s for n in range(1, case["n"] + 1) for s in itertools.product(NAMES, repeat=n)]:
                        if names[0] != case["first"]:
                            continue
                        for name in names:
                            if name not in one:
                                one[name] = expect_metadata(name, opts)
                        if any(one[n][0] is None for n in names):
                            continue
                        what = "hachoir-metadata %s %s (%s)" % (" ".join(args), list(names), charset)
                        ctx.count("transitions")
                        ctx.count("traces")
                        ctx.seen("states", what)
                        code, out, err = run(metadata_main.main, args + list(names), charset)
                        want = []
                        for n in names:
                            for line in one[n][0]:
                                line = "%s: %s" % (n, line) if len(names) > 1 else line
                                want.append(line if kind else makePrintable(line, charset))
                        report(ctx, what, out, want)
                        bad = [n for n in names if not one[n][1]]
                        report(ctx, what + ": exit code", code, 1 if bad else 0)
                        errors = [x for x in err if x.startswith("[err!]")]
                        if len(errors) != len(bad) or any(n not in x for n, x in zip(bad, errors)) or len(err) != len(errors):
                            ctx.report("%s: messages %s, expected one for each of %s" % (what, lib.short(err, 150), bad))
        ctx.sample(case)


def texts(fs, out):
    for f in fs:
        if f.is_field_set:
            texts(f, out)
        elif isString(f) and f.value:
            out.append((f.absolute_address, f.path, f.value, fs.root.size))
    return out


def greps(case, ctx):
    names = [n for n in NAMES if n not in BAD]
    with scratch():
        found = {}
        for n in names:
            with createParser(n) as p:
                found[n] = texts(p, [])
        seqs = [s for k in range(1, case["n"] + 1) for s in itertools.product(names, repeat=k) if s[0] == case["first"]]
        for flags in itertools.product((0, 1), repeat=6):
            no_addr, no_value, path, percent, sensitive, every = flags
            args = [o for f, o in zip(flags, ("--no-addr", "--no-value", "--path", "--percent", "--case", "--all")) if f]
            for pattern, files, charset in itertools.product((None,) if every else case["patterns"], seqs, case["charsets"]):
                what = "hachoir-grep %s %r %s (%s)" % (" ".join(args), pattern, list(files), charset)
                ctx.count("transitions")
                ctx.count("traces")
                ctx.seen("states", what)
                code, out, err = run(grep_main.main, args + ([] if every else [pattern]) + list(files), charset)
                want, shares = [], []
                for n in files:
                    for addr, where, value, size in found[n]:
                        if pattern and (pattern not in value if sensitive else pattern.lower() not in value.lower()):
                            continue
                        line = ([makePrintable(n, charset)] if len(files) > 1 else []) + ([] if no_addr else [str(addr // 8) + (".%s" % (addr % 8) if addr % 8 else "")]) + ([where] if path else []) + ([] if no_value else [makePrintable(value, charset)])
                        if line:
                            want.append(":".join(line))
                            shares.append("[%.1f%%] " % (addr * 100 / size))
                report(ctx, what, out, want)
                report(ctx, what + ": exit code", code, 0)
                report(ctx, what + ": percents", STATE["err"], "".join(shares) if percent else "")
        ctx.sample(case)


def grep_errors(case, ctx):
    with scratch():
        for bad in BAD:
            for files in ([bad], ["a.png", bad], [bad, "a.png"]):
                what = "hachoir-grep Title %s" % files
                code, out, err = run(grep_main.main, ["Title"] + files)
                ctx.count("transitions")
                report(ctx, what + ": exit code", code, 1)
                if not any(x.startswith("[err!]") and bad in x for x in err):
                    ctx.report("%s: messages %s" % (what, lib.short(err)))
                report(ctx, what + ": lines", len([x for x in out if "Title" in x]), 1 if files[0] == "a.png" else 0)
        # options of the library
        for flags in itertools.product((0, 1), repeat=3):
            args = [o for f, o in zip(flags, ("--quiet", "--verbose", "--debug")) if f]
            code, out, err = run(grep_main.main, args + ["Title", "a.png"])
            ctx.count("transitions")
            report(ctx, "hachoir-grep %s: settings" % " ".join(args), STATE["config"], tuple(map(bool, flags)))
            report(ctx, "hachoir-grep %s: lines" % " ".join(args), len([x for x in out if "Title" in x]), 1)
        for main, name in ((grep_main.main, "grep"), (metadata_main.main, "metadata"), (strip_main.main, "strip"), (subfile_main.main, "subfile")):
            code, out, err = run(main, [])
            ctx.count("transitions")
            report(ctx, "hachoir-%s without arguments: exit code" % name, code, 1)
            code, out, err = run(main, ["--version"])
            report(ctx, "hachoir-%s --version" % name, (code, out), (0, ["Hachoir version " + hachoir.__version__]))
            code, out, err = run(main, ["--unknown", "a.png", "a.png"])
            report(ctx, "hachoir-%s with an unknown option: exit code" % name, code, 2)
        code, out, err = run(grep_main.main, ["Title"])
        report(ctx, "hachoir-grep without files: exit code", code, 1)
        for level in ("0", "10", "x"):
            code, out, err = run(metadata_main.main, ["--level", level, "a.png"])
            report(ctx, "hachoir-metadata of level %s: exit code, lines" % level, (code, out), (2, []))
        code, out, err = run(subfile_main.main, ["a.png", "out", "more"])
        report(ctx, "hachoir-subfile with three arguments: exit code", code, 1)
        ctx.count("traces")


LEVELS = {"useless": 1, "metadata": 2, "index": 4}


def strips(case, ctx):
    from hachoir.strip import STRIP_INDEX, STRIP_METADATA, STRIP_USELESS, stripEditor
    bits = {"useless": STRIP_USELESS, "metadata": STRIP_METADATA, "index": STRIP_INDEX}
    names = [n for n in NAMES if n not in ("f.empty", "g.missing")]
    with scratch():
        def wanted(name, levels):
            """The new file, as the library gives it"""
            if name in BAD:
                return None, False
            total = sum(bits[x] for x in levels)
            with createParser(name) as p:
                with contextlib.redirect_stdout(io.StringIO()):
                    ok = stripEditor(createEditor(p), "model.new", total, False)
            data = None
            if os.path.exists("model.new"):
                with open("model.new", "rb") as fp:
                    data = fp.read()
                os.unlink("model.new")
            return data, ok
        lists = [None] + [x for n in range(0, 4) for x in itertools.permutations(sorted(bits) + ["other"], n)]
        for levels in lists:
            chosen = set(bits) if levels is None else set(levels) & set(bits)
            model = {n: wanted(n, chosen) for n in names} if chosen else {}
            for sep, quiet, files in itertools.product((",", ", "), (False, True), [s for k in range(1, case["n"] + 1) for s in itertools.product(names, repeat=k) if s[0] == case["first"]]):
                if sep == ", " and (levels is None or len(levels) < 2):
                    continue
                args = ([] if levels is None else ["--strip", sep.join(levels)]) + (["--quiet"] if quiet else [])
                what = "hachoir-strip %s %s" % (" ".join(args), list(files))
                ctx.count("transitions")
                ctx.count("traces")
                ctx.seen("states", what)
                code, out, err = run(strip_main.main, args + list(files))
                made = {}
                for n in sorted(os.listdir(".")):
                    if n.endswith(".new"):
                        with open(n, "rb") as fp:
                            made[n[:-4]] = fp.read()
                        os.unlink(n)
                if not chosen:
                    report(ctx, what, (code, out, made), (0, ["Nothing to do, exit"], {}))
                    continue
                report(ctx, what + ": exit code", code, 0 if all(model[n][1] for n in files) else 1)
                for n in names:
                    if made.get(n) != (model[n][0] if n in files else None):
                        ctx.report("%s: the new file of %s has %s bytes, expected %s" % (what, n, len(made[n]) if n in made else None, len(model[n][0]) if n in files and model[n][0] else None))
                lines = [x for x in out if x.startswith(("[+] Process file", "Save new file into", "Stripper doesn't touch", "Remove ")) and not x.startswith("Remove field")]
                want = []
                for n in files:
                    want.append("[+] Process file " + n)
                    if model[n][0] is not None:
                        gone = os.path.getsize(n) - len(model[n][0])
                        if gone > 0:
                            want.append("Remove %s (%.1f%%)" % ("%u bytes" % gone if gone != 1 else "1 byte", gone * 100 / os.path.getsize(n)))
                        want.append("Save new file into %s.new" % n)
                    elif model[n][1]:
                        want.append("Stripper doesn't touch the file")
                report(ctx, what + ": told", lines, want)
                with open(files[0], "rb") as fp:
                    if fp.read() != FILES[files[0]]():
                        ctx.report("%s: the file itself has changed" % what)
        ctx.sample(case)


def subfiles(case, ctx):
    """The options are those of the search (U01, U02)"""
    parts = [b"junk" * 5, png(), b"-" * 33, au(), wav(), b"end", png()]
    with scratch():
        with open("disk", "wb") as fp:
            fp.write(b"".join(parts))
        size = sum(map(len, parts))
        for offset in (None, 0, 20, 21, 500, 9000, size):
            for length in (None, 100, 600, 10000, size):
                for category in (None, "image", "audio", "image,audio", "container"):
                    for ids in (None, "png", "png,riff", "sun_next_snd", "bmp"):
                        for output in (None, "out"):
                            args = (["--offset=%s" % offset] if offset is not None else []) + (["--size=%s" % length] if length is not None else []) + (["--category=" + category] if category else []) + (["--parser", ids] if ids else [])
                            if (offset or 0) >= size or category and ids:
                                continue
                            results = []
                            what = "hachoir-subfile %s %s" % (" ".join(args), output)
                            ctx.count("transitions")
                            ctx.count("traces")
                            ctx.seen("states", what)
                            for quiet in (False, True):
                                code, out, err = run(subfile_main.main, args + ["--quiet"] * quiet + ["disk"] + [output] * bool(output))
                                got = {}
                                if os.path.isdir("out"):
                                    for n in sorted(os.listdir("out")):
                                        with open(os.path.join("out", n), "rb") as fp:
                                            got[n] = fp.read()
                                    shutil.rmtree("out")
                                results.append((code, [x for x in out if x.startswith("[+] File")], got))
                            # the model: what the search gives
                            text = io.StringIO()
                            with contextlib.redirect_stdout(text):
                                with FileInputStream("disk") as s:
                                    f = SearchSubfile(s, offset or 0, length)
                                    f.verbose = True
                                    if output:
                                        f.setOutput("model")
                                    f.loadParsers(categories=category.split(",") if category else None, parser_ids=ids.split(",") if ids else None)
                                    ok = f.main()
                            want = {}
                            if os.path.isdir("model"):
                                for n in sorted(os.listdir("model")):
                                    with open(os.path.join("model", n), "rb") as fp:
                                        want[n] = fp.read()
                                shutil.rmtree("model")
                            lines = [x.replace("model", "out") for x in text.getvalue().split("\n") if x.startswith("[+] File")]
                            for r in results:
                                report(ctx, what + ": files found", r[1], lines)
                                report(ctx, what + ": exit code", r[0], int(not ok))
                                if r[2] != want:
                                    ctx.report("%s: files written %s, expected %s" % (what, sorted(r[2]), sorted(want)))
        ctx.sample(case)


def main():
    c = lib.Check("U03", "model_checking",
                  "all sequences of good and bad files up to the length x combinations of the options of each program: lines written, files made, messages and exit code are those of the options, computed from the results of the library",
                  bounds={"files": "sequences up to 2 (thorough: 3)", "programs": "hachoir-metadata, hachoir-grep, hachoir-strip, hachoir-subfile"},
                  assumptions=["the metadata, texts, stripped and found files themselves are decided by M01-M03, G01, T01, U01 and U02"])
    q = c.quick
    levels = [(None, None)] + [(k, None) for k in range(1, 10)] + [(None, m) for m in (0, 1, 5, 299, 310)] + [(3, 5)]
    for n in NAMES:
        c.domain("metadata %s" % NAMES.index(n), [{"first": n, "n": 2 if q else 3, "qualities": [v], "forces": [f], "charsets": ["UTF-8"] if f or v is not None else ["UTF-8", "ASCII"], "levels": levels if not f and (v is None or not q) else levels[:1] + levels[3:4]}
                                                 for v in (None, 0.0, 1.0) for f in (None, "png", "tar")], metadatas, batch=1, cpu_limit=800)
    good = [n for n in NAMES if n not in BAD]
    for n in good:
        c.domain("grep %s" % NAMES.index(n), [{"first": n, "n": 2 if q else 3, "charsets": [cs], "patterns": ["sunset", "Sunset", "CAF\xc9", "caf\xe9", "zzz"]} for cs in ("UTF-8", "ASCII", "ISO-8859-1")], greps, batch=1, cpu_limit=800)
    c.domain("errors and settings", [{}], grep_errors)
    for n in ("a.png", "b " + LATIN + ".au", "c.tar", "d.wav", "e.bin"):
        c.domain("strip %s" % NAMES.index(n), [{"first": n, "n": 2 if q else 3}], strips, batch=1, cpu_limit=800)
    c.domain("subfile", [{}], subfiles, cpu_limit=800)
    c.main()


if __name__ == "__main__":
    main()
