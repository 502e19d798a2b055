"""M01: the metadata store keeps the values it is given, each once, and refuses the ones which are no value of the key."""
import itertools, os, sys
from datetime import date, datetime, timedelta
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.metadata import config
from hachoir.metadata.metadata import RootMetadata
from hachoir.metadata.timezone import UTC, createTimezone
from hachoir.core.language import Language

# key: (types, low, high, kind)     written from the meaning of the keys, not from register.py
NUM = (int, float)
KEYS = {
    "title": (str, None, None, "text"), "comment": (str, None, None, "text"), "compression": (None, None, None, "any"), "version": (None, None, None, "any"),
    "nb_page": (None, 1, 20000, "number"), "track_number": (int, 1, 999, "track"), "track_total": (int, 1, 999, "total"),
    "language": (Language, None, None, "language"), "width": (int, 1, 20000, "number"), "height": (int, 1, 20000, "number"), "nb_channel": (int, 1, 8, "number"),
    "sample_rate": (NUM, 1000, 192000, "number"), "bits_per_sample": (int, 1, 64, "number"), "nb_colors": (int, 1, 1 << 24, "number"), "bits_per_pixel": (int, 1, 256, "number"),
    "file_size": (int, None, None, "number"), "compr_rate": (NUM, 0.001, 1000.0, "number"), "frame_rate": (NUM, 1, 150, "number"), "bit_rate": (NUM, 1, 500 << 20, "number"),
    "width_dpi": (int, 1, 10000, "number"), "height_dpi": (int, 1, 10000, "number"), "latitude": (float, None, None, "number"), "altitude": (float, None, None, "number"),
    "duration": (timedelta, timedelta(milliseconds=1), timedelta(days=365), "duration"),
    "creation_date": ((date, datetime), None, None, "date"), "last_modification": ((date, datetime), None, None, "date"), "date_time_original": ((date, datetime), None, None, "date"),
}
HUMAN = {"width": "%s pixels", "height": "%s pixels", "width_dpi": "%s DPI", "height_dpi": "%s DPI", "frame_rate": "%.1f fps", "compr_rate": "%.1fx", "altitude": "%.1f meters"}


class Thing:
    def __str__(self):
        return "a\tthing"


THING = Thing()
TEXTS = ["a", "ab", "abc", "b", "abd", " ab\n", "\0a\t", "", " \r\n", "a\r\nb", "a\r\rb", "a\n\nb", b"ab", b"\xe9a", b"", "abcdefgh", "abcdefghi", "abcdefx", None, 5, ("ab", "text"), ("abc", None), (None, "x"), ("", "x"), date(2000, 1, 2)]
OTHERS = ["x", "", None, b"1", 2.5, True, (3, "three"), (None, "none"), THING, -1, 0, 1, 2]
DATES = [date(2000, 1, 1), date(1850, 1, 1), date(1849, 12, 31), date(2030, 12, 31), date(2031, 1, 1), datetime(2000, 1, 1), datetime(2000, 1, 1, 0, 0, 1), datetime(1849, 12, 31, 23, 59, 59),
         datetime(2030, 12, 31), datetime(2030, 12, 31, 23, 59, 59), datetime(2031, 1, 1), datetime(2000, 1, 1, tzinfo=UTC), datetime(1849, 12, 31, 23, 59, tzinfo=UTC), datetime(2031, 1, 1, tzinfo=UTC), datetime(2000, 1, 1, 2, tzinfo=createTimezone(2)),
         "2000", " 2000 ", "2000-01-01", "2004-01-02 18:10:45", "Thu, 19 Jul 2007 09:03:57 +0200", "1700", "x", "", None, 5, ("2000", "the year"), (date(2000, 1, 1), "day"), b"2000"]
DURATIONS = [timedelta(0), timedelta(microseconds=999), timedelta(milliseconds=1), timedelta(seconds=61), timedelta(days=365), timedelta(days=365, microseconds=1), timedelta(days=-1), 5, "5", None, (timedelta(seconds=2), "two")]
TRACKS = [0, 1, 5, 999, 1000, -1, "3", " 3 ", "3/10", "3 / 10", "x/10", "3/x", "/", "x", "", "1000/3", "3/0", 2.0, None, ("4", "four"), ("4/9", "four")]
LANGS = ["fre", "fra", "eng", "zzz", "", None, 5, ("ger", "German!"), b"fre"]
PARSED = {"2000": (date(2000, 1, 1), "2000"), " 2000 ": (date(2000, 1, 1), "2000"), "1700": (date(1700, 1, 1), "1700"), "2000-01-01": (date(2000, 1, 1), None),
          "2004-01-02 18:10:45": (datetime(2004, 1, 2, 18, 10, 45), None), "Thu, 19 Jul 2007 09:03:57 +0200": (datetime(2007, 7, 19, 9, 3, 57, tzinfo=createTimezone(2)), None)}
CODES = {"fre": "French", "fra": "French", "eng": "English", "ger": "German"}


def values(key):
    types, lo, hi, kind = KEYS[key]
    if kind in ("text", "any"):
        return TEXTS + ([THING, 2.5, True] if kind == "any" else [])
    if kind == "number":
        v = list(OTHERS)
        if lo is not None:
            v += [lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, float(lo), float(hi), hi + 0.5, lo - 0.0005, (hi, "top")]
        else:
            v += [1 << 40, 0.0, 1.0, 10000]
        return v
    return {"date": DATES, "duration": DURATIONS, "track": TRACKS, "total": TRACKS, "language": LANGS}[kind]


class Model:
    """What each key holds: a list of (value, text or None when it is not checked)."""

    def __init__(self, keys):
        self.data = {k: [] for k in keys}

    def set(self, key, value):
        types, lo, hi, kind = KEYS[key]
        text = None
        if isinstance(value, tuple):
            value, text = value
        if value is None:
            return
        if kind == "date":
            if isinstance(value, str):
                if value not in PARSED:
                    return
                value, other = PARSED[value]
                text = text or other
            elif not isinstance(value, (date, datetime)):
                return
        elif kind in ("track", "total"):
            if kind == "track" and isinstance(value, str) and "/" in value:
                value, total = value.split("/")
                self.set("track_total", total)
            elif not isinstance(value, (int, str, float)) or (kind == "track" and isinstance(value, float)):
                return
            try:
                value = int(value)
            except ValueError:
                return
        elif kind == "language":
            if value not in CODES:
                return
            text = text or CODES[value]
            value = Language(value)
        elif isinstance(value, bytes):
            value = value.decode("latin-1")
        if isinstance(value, str):
            if not config.RAW_OUTPUT:
                value = value.strip(" \t\v\n\r\0")
            if not value:
                return
            value = value.replace("\r\n", "\n").replace("\r", "\n")
            while "\n\n" in value:
                value = value.replace("\n\n", "\n")
            if config.MAX_STR_LENGTH and len(value) > config.MAX_STR_LENGTH:
                value = value[:config.MAX_STR_LENGTH] + "(...)"
        if types and not isinstance(value, types):
            return
        if lo is not None and isinstance(value, (int, float, timedelta)) and not (lo <= value <= hi):
            return
        if kind == "date" and not (1850 <= (value.year if not getattr(value, "tzinfo", None) else (value - value.utcoffset()).year) <= 2030):
            return
        have = self.data[key]
        if text is None:
            if isinstance(value, str):
                text = value
            elif key in HUMAN:
                text = HUMAN[key] % value
            elif kind == "date":
                text = str(value)
            elif kind in ("any", "track", "total") or key in ("nb_page", "nb_colors", "bits_per_pixel", "latitude"):
                text = "a\\tthing" if value is THING else str(value)
        for i, (old, t) in enumerate(have):
            if old == value:
                return
            if isinstance(old, str) and isinstance(value, str):
                if old.startswith(value):
                    return
                if value.startswith(old):
                    have[i] = (value, text)
                    return
        have.append((value, text))


def compare(meta, model, what, ctx):
    for key, want in model.data.items():
        got = meta.getValues(key)
        if len(got) != len(want) or any(type(g) is not type(w) or g != w for g, (w, t) in zip(got, want)):
            return "%s: %s is %r instead of %r" % (what, key, got, [w for w, t in want])
        if meta.has(key) != bool(want) or len(meta.getItems(key)) != len(want):
            return "%s: has(%s)" % (what, key)
        for i, (w, t) in enumerate(want):
            if t is not None and meta.getText(key, index=i) != t:
                return "%s: the text %s of %s is %r instead of %r" % (what, i, key, meta.getText(key, index=i), t)
            if not isinstance(meta.getText(key, index=i), str):
                return "%s: the text %s of %s is %r" % (what, i, key, meta.getText(key, index=i))
            if meta.get(key, index=i) != w or meta.getItem(key, i).value != w:
                return "%s: get(%s, index=%s)" % (what, key, i)
        n = len(want)
        if meta.getItem(key, n) is not None or meta.get(key, "none", n) != "none" or meta.getText(key, "none", n) != "none" or meta.getText(key, index=n) is not None:
            return "%s: get of value %s of %s" % (what, n, key)
        try:
            meta.get(key, index=n)
            return "%s: get(%s, index=%s) does not fail" % (what, key, n)
        except ValueError:
            pass
    if bool(meta) != any(model.data.values()):
        return "%s: truth" % what
    other = [d.key for d in meta if d.key not in model.data and len(d)]
    if other:
        return "%s: also sets %s" % (what, other)


def play(ops, keys, ctx):
    meta, model = RootMetadata(), Model(keys)
    for k, (key, v) in enumerate(ops):
        ctx.count("transitions")
        try:
            setattr(meta, key, v)
        except Exception as e:
            ctx.report("%s: %s: %s" % (ops[:k + 1], type(e).__name__, e))
            return
        model.set(key, v)
    bad = compare(meta, model, str(ops), ctx)
    if bad:
        ctx.report(bad)
    ctx.count("traces")
    ctx.seen("states", repr(sorted((k, v) for k, v in model.data.items() if v)))


def one_key(case, ctx):
    key = case["key"]
    vals = values(key)
    keys = [key] + (["track_total"] if key == "track_number" else [])
    n = case["n"] if len(vals) < 30 else min(case["n"], 3)
    for k in range(1, n + 1):
        for ops in itertools.product(vals, repeat=k - 1):
            play([(key, v) for v in (vals[case["first"]],) + ops], keys, ctx)


def configured(case, ctx):
    """Options: raw output, maximum length of a text."""
    old = config.RAW_OUTPUT, config.MAX_STR_LENGTH
    try:
        config.RAW_OUTPUT, config.MAX_STR_LENGTH = case["raw"], case["max"]
        for ops in itertools.product(TEXTS, repeat=2):
            play([("title", v) for v in (TEXTS[case["first"]],) + ops], ["title"], ctx)
    finally:
        config.RAW_OUTPUT, config.MAX_STR_LENGTH = old


MIXED = [("title", "ab"), ("title", "a"), ("comment", "ab"), ("comment", "abc"), ("track_number", "3/10"), ("track_total", 5), ("track_number", 4), ("width", 3), ("height", 3), ("width", 0),
         ("creation_date", "2000"), ("last_modification", "2000"), ("duration", timedelta(seconds=3)), ("compression", "ab")]


def keys_apart(case, ctx):
    keys = sorted({k for k, v in MIXED}) + ["version"]
    for ops in itertools.product(MIXED, repeat=case["n"] - 1):
        play([MIXED[case["first"]]] + list(ops), keys, ctx)
    for name in ("titre", "", "_x", "header"):
        meta = RootMetadata()
        ctx.count("transitions")
        try:
            setattr(meta, name, 5)
            ctx.report("the key %r is accepted" % name)
        except KeyError:
            pass
        for f in (meta.has, meta.getValues, meta.getItems, meta.get):
            try:
                f(name)
                ctx.report("%s of the key %r" % (f.__name__, name))
            except ValueError:
                pass
        if meta.getItem(name, 0) is not None or meta.getText(name, "d") != "d":
            ctx.report("getItem, getText of the key %r" % name)


def main():
    c = lib.Check("M01", "model_checking",
                  "all sequences of values set up to the length, for %d kinds of keys with their boundary values, alone and mixed, and for the options: values, texts and what is refused are those of a "
                  "model of the store; a state is the content of the store" % len(KEYS),
                  assumptions=["NaN, infinity in a number of bytes and objects whose comparison fails are left out"],
                  bounds={"length": "2 for all keys, 3 for texts, tracks, dates (thorough: 3 and 4)"})
    for key in KEYS:
        deep = KEYS[key][3] in ("text", "track", "date", "language", "duration")
        c.domain("key-" + key, [{"key": key, "first": i, "n": (3 if deep else 2) + (not c.quick)} for i in range(len(values(key)))], one_key)
    c.domain("options", [{"raw": r, "max": m, "first": i} for r in (False, True) for m in (0, 1, 5, 7) for i in range(len(TEXTS))], configured)
    c.domain("mixed", [{"first": i, "n": 3 if c.quick else 5} for i in range(len(MIXED))], keys_apart)
    c.main()


if __name__ == "__main__":
    main()
