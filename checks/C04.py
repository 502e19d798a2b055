"""C04: each message of the library which is asked for reaches each destination once, the others none; each handler of an event is called once, in order."""
import contextlib, io, itertools, os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import config, error
from hachoir.core import log as log_module
from hachoir.core.event_handler import EventHandler
from hachoir.core.log import Log, Logger
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import FieldSet, Parser, UInt8
from hachoir.stream import StringInputStream


class Named(Logger):
    pass


class Anonymous(Logger):
    def _logger(self):
        return None


class Sub(FieldSet):
    def createFields(self):
        yield UInt8(self, "x")


class Root(Parser):
    endian = BIG_ENDIAN

    def createFields(self):
        yield Sub(self, "sub")
        yield UInt8(self, "b")


def contexts():
    root = Root(StringInputStream(b"ab"))
    return [("module", None, None), ("named", Named(), "<Named>"), ("anonymous", Anonymous(), None), ("root", root, "<Root>"), ("field", root["sub/x"], "/sub/x"), ("set", root["sub"], "/sub")]


LEVELS = [("info", 0, "[info]"), ("warning", 1, "[warn]"), ("error", 2, "[err!]")]


def messages(case, ctx):
    top = tempfile.mkdtemp(prefix="hachoir-c04-")
    old = (config.quiet, config.verbose, config.debug)
    real = log_module.log
    try:
        ctxs = contexts()
        items = list(itertools.product(LEVELS, ctxs))
        for seq in itertools.product(items, repeat=case["n"]):
            if case["first"] is not None and seq[:1] != (items[case["first"]],):
                continue
            for quiet, verbose in itertools.product((False, True), repeat=2):
                for use_print, use_file, use_callback, existing in ((True, False, False, False), (False, True, False, False), (False, True, False, True), (True, True, True, False), (False, False, True, False)):
                    if case["n"] > 1 and existing:
                        continue
                    config.quiet, config.verbose, config.debug = quiet, verbose, False
                    log = log_module.log = Log()
                    log.use_print = use_print
                    got = []
                    if use_callback:
                        log.on_new_message = lambda *a: got.append(a)
                    name = os.path.join(top, "log")
                    before = ""
                    if os.path.exists(name):
                        os.unlink(name)
                    if existing:
                        before = "old \xe9\n"
                        with open(name, "w", encoding="utf-8") as f:
                            f.write(before)
                    out, err = io.StringIO(), io.StringIO()
                    texts, prints, calls = [], "", []
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                        if use_file:
                            log.setFilename(name)
                        for k, ((level, number, prefix), (kind, obj, label)) in enumerate(seq):
                            ctx.count("transitions")
                            text = "message \xe9 %s" % k
                            if obj is None:
                                getattr(log, level)(text)
                            else:
                                getattr(obj, level)(text)
                            if number < 2 and quiet or number == 0 and not verbose:
                                continue
                            line = "%s %s%s" % (prefix, "[%s] " % label if label else "", text)
                            texts.append(line)
                            prints += line + "\n"
                            calls.append((number, prefix, text, obj))
                        if use_file:
                            log.shutdown()
                            log._Log__file.close()
                    what = "messages %s, quiet %s, verbose %s" % ([(a[0], b[0]) for a, b in seq], quiet, verbose)
                    ctx.count("traces")
                    ctx.seen("states", (what, use_print, use_file, use_callback))
                    if out.getvalue() or err.getvalue() != (prints if use_print else ""):
                        ctx.report("%s: prints %r and %r, expected %r" % (what, out.getvalue(), err.getvalue(), prints if use_print else ""))
                    if got != (calls if use_callback else []):
                        ctx.report("%s: the callback gets %r, expected %r" % (what, got, calls))
                    if use_file:
                        with open(name, encoding="utf-8") as f:
                            have = f.read()
                        want = ["Starting Hachoir"] + texts + ["Stop Hachoir"]
                        lines = have[len(before):].splitlines()
                        if have[:len(before)] != before or [re.sub(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - ", "", x) for x in lines] != want or not all(re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - ", x) for x in lines):
                            ctx.report("%s: the file has %r, expected %r" % (what, have, want))
                    elif os.path.exists(name):
                        ctx.report("%s: a file is written" % what)
    finally:
        config.quiet, config.verbose, config.debug = old
        log_module.log = real
        shutil.rmtree(top, ignore_errors=True)


def files(case, ctx):
    """A log file in a missing folder is told, and logging goes on."""
    top = tempfile.mkdtemp(prefix="hachoir-c04-")
    old = (config.quiet, config.verbose, config.debug)
    try:
        os.mkdir(os.path.join(top, "folder"))
        with open(os.path.join(top, "file"), "w"):
            pass
        for name in ("missing/log", "missing/a/b"):
            for verbose in (False, True):
                ctx.count("transitions")
                ctx.count("traces")
                config.quiet, config.verbose, config.debug = False, verbose, False
                log = Log()
                err = io.StringIO()
                with contextlib.redirect_stderr(err):
                    try:
                        log.setFilename(os.path.join(top, name))
                    except Exception as e:
                        ctx.report("setFilename(%r): %s: %s" % (name[:20], type(e).__name__, e))
                        continue
                    log.error("after")
                    log.shutdown()
                told = err.getvalue().replace("[err!] after\n", "")
                if (os.path.join(top, name) in told) != verbose or "[err!] after\n" not in err.getvalue():
                    ctx.report("setFilename(%r), verbose %s: prints %r" % (name[:20], verbose, err.getvalue()))
                if sorted(os.listdir(top)) != ["file", "folder"] or os.listdir(os.path.join(top, "folder")):
                    ctx.report("setFilename(%r): leaves %s" % (name[:20], os.listdir(top)))
    finally:
        config.quiet, config.verbose, config.debug = old
        shutil.rmtree(top, ignore_errors=True)


# ---- events ---------------------------------------------------------------------------------

def events(case, ctx):
    """All sequences of connect and raise, on a handler and on the sets of a tree."""
    ops = [("connect", e, h) for e in ("a", "b") for h in (0, 1)] + [("raise", e, args) for e in ("a", "b", "c") for args in ((), (1, "x"))]
    for seq in itertools.product(ops, repeat=case["n"]):
        if seq[:1] != (ops[case["first"]],):
            continue
        log = []
        handlers = [lambda *a: log.append((0,) + a), lambda *a: log.append((1,) + a)]
        h = EventHandler()
        table, want = {}, []
        for op, e, x in seq:
            ctx.count("transitions")
            if op == "connect":
                h.connect(e, handlers[x])
                table.setdefault(e, []).append(x)
            else:
                h.raiseEvent(e, *x)
                want += [(k,) + x for k in table.get(e, [])]
        ctx.count("traces")
        ctx.seen("states", seq)
        if log != want:
            ctx.report("%s: handlers are called %s, expected %s" % (seq, log, want))


EVENTS = ["field-value-changed", "field-resized", "field-inserted", "field-replaced", "set-field-value"]


def trees(case, ctx):
    names = ["root", "sub"]
    ops = [("connect", f, e, local) for f in names for e in EVENTS[:2] for local in (True, False)] + [("raise", f, e) for f in names for e in EVENTS[:2]]
    for seq in itertools.product(ops, repeat=case["n"]):
        if seq[:1] != (ops[case["first"]],):
            continue
        root = Root(StringInputStream(b"ab"))
        sets = {"root": root, "sub": root["sub"]}
        log, want, table = [], [], []
        for k, op in enumerate(seq):
            ctx.count("transitions")
            if op[0] == "connect":
                sets[op[1]].connectEvent(op[2], lambda *a, k=k: log.append((k,) + a), op[3])
                table.append((k,) + op[1:])
            else:
                sets[op[1]].raiseEvent(op[2], k, "x")
                want += [(t[0], k, "x") for t in table if t[2] == op[2] and t[3] and t[1] == op[1]]
                want += [(t[0], k, "x") for t in table if t[2] == op[2] and not t[3]]
        ctx.count("traces")
        ctx.seen("states", seq)
        if log != want:
            ctx.report("%s: handlers are called %s, expected %s" % (seq, log, want))
    for e in ("", "field", "field-inserted "):
        try:
            Root(StringInputStream(b"ab")).connectEvent(e, print)
        except AssertionError:
            continue
        ctx.report("connectEvent(%r) is accepted" % e)


def main():
    c = lib.Check("C04", "model_checking",
                  "all sequences of messages of all levels and senders x settings x destinations; log files in missing folders; all sequences of connecting and raising events, against the list of what is asked",
                  bounds={"messages": "2 (thorough 3)", "events": "sequences of 4 (5), in trees 3 (4)"})
    q = c.quick
    for n in range(1, 3 if q else 4):
        c.domain("messages %s" % n, [{"n": n, "first": k} for k in range(18)], messages, batch=1, cpu_limit=600)
    c.domain("files", [{}], files, batch=1)
    for n in range(1, 5 if q else 6):
        c.domain("events %s" % n, [{"n": n, "first": k} for k in range(10)], events, batch=1, cpu_limit=300)
    for n in range(1, 4 if q else 5):
        c.domain("trees %s" % n, [{"n": n, "first": k} for k in range(12)], trees, batch=1, cpu_limit=300)
    c.main()


if __name__ == "__main__":
    main()
