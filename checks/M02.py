"""M02: the exports of metadata show every value up to the priority, in order of priority, and the groups in their order."""
import itertools, os, sys
from datetime import date, timedelta
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core.dict import UniqKeyError
from hachoir.metadata.metadata import MultipleMetadata, RootMetadata

# key, priority, name, values (value, raw text, human text)
ITEMS = [("title", 100, "Title", [("One", "One", "One"), ("Two", "Two", "Two")]),
         ("artist", 101, "Artist", [("Z", "Z", "Z")]),
         ("duration", 201, "Duration", [(timedelta(seconds=61), "0:01:01", "1 min 1 sec"), (timedelta(seconds=5), "0:00:05", "5 sec")]),
         ("width", 301, "Image width", [(640, "640", "640 pixels"), (10, "10", "10 pixels"), (7, "7", "7 pixels")]),
         ("latitude", 510, "Latitude", [(1.5, "1.5", "1.5")]),
         ("camera_aperture", 520, "Camera aperture", [("F8", "F8", "F8")]),
         ("location", 530, "Location", [("here", "here", "here")]),
         ("camera_brightness", 530, "Camera brightness", [(3, "3", "3"), (4, "4", "4")]),
         ("bit_rate", 604, "Bit rate", [(1500, "1500", "1.5 Kbit/sec")]),
         ("aspect_ratio", 604, "Aspect ratio", [(2, "2", "2")]),
         ("comment", 902, "Comment", [("a\nb", "a\\nb", "a\nb"), (("c", "text of c"), "c", "text of c")]),
         ("endian", 952, "Endianness", [("Big", "Big", "Big")])]
PRIORITIES = [None, -5, 0, 99, 100, 101, 200, 201, 300, 399, 510, 520, 529, 530, 531, 603, 604, 901, 902, 951, 952, 999, 5000]


def clamp(p):
    return 999 if p is None else min(max(p, 100), 999)


def lines(content, priority, human, prefix):
    """content: index of the item -> number of values."""
    out = []
    for i, (key, prio, name, vals) in sorted(enumerate(ITEMS), key=lambda x: (x[1][1], x[0])):
        if prio <= clamp(priority):
            for v, raw, text in vals[:content.get(i, 0)]:
                out.append((prefix, name if human else key, text if human else raw))
    return out


def fill(meta, content, order=1):
    for i in sorted(content, reverse=order < 0):
        for v, raw, text in ITEMS[i][3][:content[i]]:
            setattr(meta, ITEMS[i][0], v)
    return meta


def same_tie(got, want):
    """Lines of items of the same priority may come in any order of items."""
    return got == want


def check_plain(meta, content, what, ctx, header="Metadata", **kw):
    for priority in PRIORITIES:
        for human in (True, False):
            for prefix in ("- ", ""):
                ctx.count("transitions")
                got = meta.exportPlaintext(priority, human, prefix, **kw)
                if human and prefix == "- " and meta.exportPlaintext(priority, **kw) != got or priority is None and meta.exportPlaintext(human=human, line_prefix=prefix, **kw) != got:
                    ctx.report("%s: exportPlaintext(%s) with human and prefix left out is not the one for humans" % (what, priority))
                    return
                want = ["%s:" % (kw.get("title") or header)] + ["%s%s: %s" % x for x in lines(content, priority, human, prefix)]
                if len(want) == 1:
                    want = None
                if got != want:
                    ctx.report("%s: exportPlaintext(%s, human=%s, %r, %s) is %r instead of %r" % (what, priority, human, prefix, kw, got, want))
                    return


def check_dict(meta, content, what, ctx, header="Metadata", **kw):
    for priority in PRIORITIES:
        for human in (True, False):
            ctx.count("transitions")
            got = meta.exportDictionary(priority, human, **kw)
            if human and meta.exportDictionary(priority, **kw) != got or priority is None and meta.exportDictionary(human=human, **kw) != got:
                ctx.report("%s: exportDictionary(%s) with human left out is not the one for humans" % (what, priority))
                return
            rows = lines(content, priority, human, "")
            title_ = kw.get("title") or header
            if got is None and not rows:
                continue
            if list(got) != [title_]:
                ctx.report("%s: exportDictionary(%s, human=%s) has %r" % (what, priority, human, list(got)))
                return
            msg, key = judge_group(got[title_], rows)
            if msg:
                ctx.report("%s: exportDictionary(%s, human=%s): %s" % (what, priority, human, msg), key=key)
                if key is None:
                    return


def judge_group(got, rows):
    want = {}
    for p, name, text in rows:
        want.setdefault(name, []).append(text)
    if list(got) != list(want):
        return "the keys are %r instead of %r" % (list(got), list(want)), None
    for name, texts in want.items():
        v = got[name]
        if v == texts or (len(texts) == 1 and v == texts[0]):
            continue
        if v == texts[-1]:
            return "%s is only the last value, %r, of %r" % (name, v, texts), "dictionary-last-value"
        return "%s is %r instead of %r" % (name, v, texts), None
    return None, None


def single(case, ctx):
    n = len(ITEMS)
    for rest in itertools.product(range(2), repeat=n - len(case["bits"])):
        bits = tuple(case["bits"]) + rest
        content = {i: 1 for i in range(n) if bits[i]}
        meta = fill(RootMetadata(), content, case["order"])
        what = "keys %s" % [ITEMS[i][0] for i in content]
        check_plain(meta, content, what, ctx)
        check_dict(meta, content, what, ctx)
        if str_of(meta) != "\n".join(["Metadata:"] + ["%s%s: %s" % x for x in lines(content, None, True, "- ")]) and content:
            ctx.report("%s: str is %r" % (what, str_of(meta)))
        check_order(meta, what, ctx)
        ctx.count("traces")
        ctx.seen("states", bits)


def str_of(meta):
    return str(meta) if meta else ""


def check_order(meta, what, ctx):
    items = sorted(meta, key=lambda d: d.priority)
    for a, b in zip(items, items[1:]):
        if (a < b) != (a.priority < b.priority):
            ctx.report("%s: order of %s and %s" % (what, a.key, b.key))


def several(case, ctx):
    """Several values in some keys."""
    multi = [i for i, it in enumerate(ITEMS) if len(it[3]) > 1]
    for counts in itertools.product(*[range(len(ITEMS[i][3]) + 1) for i in multi]):
        content = {i: c for i, c in zip(multi, counts) if c}
        if case["extra"] is not None:
            content[case["extra"]] = max(1, content.get(case["extra"], 0))
        meta = fill(RootMetadata(), content)
        what = "values %s" % {ITEMS[i][0]: c for i, c in content.items()}
        check_plain(meta, content, what, ctx)
        check_dict(meta, content, what, ctx)
        check_plain(meta, content, what, ctx, title="Other")
        check_dict(meta, content, what, ctx, title="Other")
        ctx.count("traces")
        ctx.seen("states", str(content))


KEYS = ["file[]", "other[]", "a", "b", "file[2]"]
HEADERS = [None, "File", "Other"]
CONTENTS = [{}, {0: 1}, {3: 1, 11: 1}]


def groups(case, ctx):
    ops_all = [(k, h, c) for k in KEYS for h in range(len(HEADERS)) for c in range(len(CONTENTS))]
    first = ops_all[case["first"]]
    for rest in itertools.product(ops_all, repeat=case["n"] - 1):
        for common in ({}, {1: 1}):
            play_groups((first,) + rest, common, ctx)


def play_groups(ops, common, ctx):
    meta = fill(MultipleMetadata(), common)
    model = []          # (key, group, header, content)
    counters = {}
    what = "%s" % ([(k, HEADERS[h], CONTENTS[c]) for k, h, c in ops],)
    for k, h, c in ops:
        ctx.count("transitions")
        group = fill(RootMetadata(), CONTENTS[c])
        key = k
        if CONTENTS[c] and k.endswith("[]"):
            counters[k] = counters.get(k, 0) + 1
            key = "%s[%s]" % (k[:-2], counters[k])
        try:
            done = meta.addGroup(k, group, HEADERS[h]) if HEADERS[h] else meta.addGroup(k, group)
        except UniqKeyError:
            if key not in [m[0] for m in model]:
                ctx.report("%s: the key %s is refused" % (what, key))
            continue
        if done is not bool(CONTENTS[c]):
            ctx.report("%s: addGroup gives %r" % (what, done))
        if not CONTENTS[c]:
            continue
        if key in [m[0] for m in model]:
            ctx.report("%s: the key %s is accepted again" % (what, key))
            return
        model.append((key, group, HEADERS[h] or "Metadata", CONTENTS[c]))
    if [id(g) for g in meta.iterGroups()] != [id(m[1]) for m in model]:
        ctx.report("%s: iterGroups()" % what)
    for key in set([m[0] for m in model] + ["file[1]", "file[2]", "other[1]", "a", "b", "file", "file[]"]):
        found = [m for m in model if m[0] == key]
        if (key in meta) != bool(found):
            ctx.report("%s: %s in metadata" % (what, key))
        elif found and meta[key] is not found[0][1]:
            ctx.report("%s: metadata[%s]" % (what, key))
    if bool(meta) != bool(common or model):
        ctx.report("%s: truth" % what)
    for priority in (None, 99, 100, 301, 952):
        for human in (True, False):
            want = []
            for title, content in [("Common", common)] + [(h if human else k, c) for k, g, h, c in model]:
                rows = lines(content, priority, human, "* ")
                if rows:
                    want += ["%s:" % title] + ["%s%s: %s" % x for x in rows]
            got = meta.exportPlaintext(priority, human, "* ")
            ctx.count("transitions")
            if (got or []) != want or got == []:
                ctx.report("%s: exportPlaintext(%s, human=%s) is %r instead of %r" % (what, priority, human, got, want))
                return
            got = meta.exportDictionary(priority, human) or {}
            titles = [(t, c) for t, c in [("Common", common)] + [(h if human else k, c) for k, g, h, c in model]]
            ctx.count("transitions")
            # an entry for each group, in order, under its title (completed when another group has the same)
            names = list(got)
            for t, c in titles:
                rows = lines(c, priority, human, "")
                alone = len([x for x in titles if x[0] == t]) == 1
                here = names and (names[0] == t if alone or not human else names[0].startswith(t))
                if not rows and not (here and not got[names[0]]):
                    continue        # entries without any line may be left out
                if not here:
                    ctx.report("%s: exportDictionary(%s, human=%s) has %r, not %s" % (what, priority, human, list(got), t))
                    return
                msg, key = judge_group(got[names.pop(0)], rows)
                if msg:
                    ctx.report("%s: exportDictionary(%s, human=%s), %s: %s" % (what, priority, human, t, msg), key=key)
                    if key is None:
                        return
            if names:
                ctx.report("%s: exportDictionary(%s, human=%s) also has %r" % (what, priority, human, names))
                return
    ctx.count("traces")
    ctx.seen("states", what)


def main():
    c = lib.Check("M02", "model_checking",
                  "all sets of 12 keys of close or equal priorities, all numbers of values, all sequences of groups up to the length, all priorities around each, human or raw, all titles: lines of the text "
                  "and entries of the dictionary; a state is a store",
                  bounds={"groups": "2 (thorough: 3)"})
    n = 4
    c.domain("single", [{"bits": list(b), "order": o} for b in itertools.product(range(2), repeat=n) for o in (1, -1)], single)
    c.domain("several", [{"extra": e} for e in [None] + list(range(len(ITEMS)))], several)
    c.domain("groups", [{"first": i, "n": k} for k in ((1, 2) if c.quick else (1, 2, 3)) for i in range(len(KEYS) * len(HEADERS) * len(CONTENTS))], groups)
    c.main()


if __name__ == "__main__":
    main()
