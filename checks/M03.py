"""M03: dates written in the supported formats are read as the instant they mean, others give no value."""
import calendar, itertools, locale, os, re, sys
from datetime import date, datetime, timedelta, timezone
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core.tools import humanDatetime
from hachoir.metadata.filter import DATETIME_FILTER, Filter, NumberFilter
from hachoir.metadata.metadata import RootMetadata
from hachoir.metadata.setter import parseDatetime
from hachoir.metadata.timezone import UTC, createTimezone

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
LOCALES = []
for name in ("C.UTF-8", "C.utf8", "POSIX", "C", "en_US.UTF-8", "fr_FR.UTF-8"):
    try:
        locale.setlocale(locale.LC_ALL, name)
        LOCALES.append(name)
    except locale.Error:
        pass


def real(y, m, d, H=0, M=0, S=0):
    if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= calendar.monthrange(y, m)[1] and 0 <= H < 24 and 0 <= M < 60 and 0 <= S < 60):
        return None
    return datetime(y, m, d, H, M, S)


def expect(text, want, ctx, loc=None, zone=None):
    """want: None, a date, or a datetime without zone; zone: minutes, or None."""
    ctx.count("transitions")
    ctx.count("traces")
    before = locale.setlocale(locale.LC_ALL)
    try:
        got = parseDatetime(text)
    except Exception as e:
        ctx.report("%r: %s: %s" % (text, type(e).__name__, e))
        return
    after = locale.setlocale(locale.LC_ALL)
    if before != after:
        ctx.report("the locale is %r instead of %r after reading %r" % (after, before, text))
        locale.setlocale(locale.LC_ALL, before)
    if isinstance(got, tuple):
        if got[1] != str(int(text)) or not isinstance(got[0], date):
            ctx.report("%r is %r" % (text, got))
        got = got[0]
    if want is None:
        if got is not None:
            ctx.report("%r is read as %r" % (text, got))
        return
    if type(got) is not type(want) or got is None:
        ctx.report("%r is read as %r instead of %s" % (text, got, want))
        return
    if isinstance(want, datetime):
        if (got.tzinfo is None) != (zone is None):
            ctx.report("%r: zone %r" % (text, got.tzinfo))
            return
        if zone is not None and got.utcoffset() != timedelta(minutes=zone):
            ctx.report("%r: zone %s" % (text, got.utcoffset()))
            return
        if got.replace(tzinfo=None) != want:
            ctx.report("%r is read as %s instead of %s" % (text, got, want))
        if zone is not None and got.astimezone(timezone.utc).replace(tzinfo=None) != want - timedelta(minutes=zone):
            ctx.report("%r: the instant is %s" % (text, got))
    elif got != want:
        ctx.report("%r is read as %s instead of %s" % (text, got, want))
    ctx.seen("states", str(got))


YEARS = [1, 1849, 1850, 1899, 1900, 1970, 1999, 2000, 2004, 2007, 2030, 2031, 2100, 9999]


def texts(y, m, d, H, M, S):
    """(text, is a date only) in all formats."""
    for a, b, c in (("-", " ", ":"), ("/", " ", ":"), (".", " ", "."), ("-", "-", "-"), (" ", " ", " "), (": ", "/ ", "::")):
        yield "%04d%s%02d%s%02d%s%02d%s%02d%s%02d" % (y, a, m, a, d, b, H, c, M, c, S)
    yield "%04d-%02d-%02d %d:%02d:%d" % (y, m, d, H, M, S)
    yield "%02d/%02d/%04d %02d:%02d:%02d" % (m, d, y, H, M, S)
    yield "%d-%02d-%04d %d:%02d:%d" % (m, d, y, H, M, S)
    yield "  %04d-%02d-%02d %02d:%02d:%02d\n" % (y, m, d, H, M, S)


def numeric(case, ctx):
    y = case["y"]
    for m in range(0, 14):
        for d in range(0, 33):
            want = real(y, m, d)
            for sep in ("-", "/", ".", " ", ":", "--"):
                expect("%04d%s%02d%s%02d" % (y, sep, m, sep, d), want and want.date(), ctx)
            for H, M, S in ((0, 0, 0), (18, 10, 45), (23, 59, 59)):
                want = real(y, m, d, H, M, S)
                for t in texts(y, m, d, H, M, S):
                    expect(t, want, ctx)


def clocks(case, ctx):
    """All times of a day, and beyond."""
    H = case["H"]
    for M, S in itertools.chain(((M, S) for M in range(0, 62) for S in (0, 1, 30, 59, 60, 61, 99)), ((M, S) for M in (0, 9, 10, 59, 60) for S in range(0, 64))):
        want = real(2008, 2, 29, H, M, S)
        for t in texts(2008, 2, 29, H, M, S):
            expect(t, want, ctx)
        # a time of %S may be 61 for strptime, never for a date
        expect("Fri, 29 Feb 2008 %02d:%02d:%02d" % (H, M, S), want, ctx)
        expect("Fri Feb 29 %02d:%02d:%02d 2008" % (H, M, S), want, ctx)


def words(case, ctx):
    """Sun Feb 24 15:51:09 2008; Thu, 19 Jul 2007 09:03:57 +0200; February 2007."""
    y = case["y"]
    for m in range(1, 13):
        expect("%s %04d" % (MONTHS[m - 1], y), real(y, m, 1).date(), ctx)
        expect("%s-%04d" % (MONTHS[m - 1].lower(), y), real(y, m, 1).date(), ctx)
        for d in range(1, 33):
            want = real(y, m, d, 15, 51, 9)
            if 31 < d:
                want = None
            name = DAYS[want.weekday()] if want else "Mon"
            mon = MONTHS[m - 1][:3]
            expect("%s, %02d %s %04d 15:51:09" % (name, d, mon, y), want, ctx)
            expect("%s %s %02d 15:51:09 %04d" % (name, mon, d, y), want, ctx)
            expect("%s %s %d 15:51:09 %04d" % (name, mon, d, y), want, ctx)
            for z in (-12, -5, -1, 0, 1, 2, 12) if d in (1, 15, 28, 31) else (2, -2):
                if want is not None and (y == 1 or y == 9999):
                    continue
                expect("%s, %02d %s %04d 15:51:09 %+03d00" % (name, d, mon, y, z), want, ctx, zone=z * 60)
                expect("%s %s %02d 15:51:09 %04d %+03d00" % (name, mon, d, y, z), want, ctx, zone=z * 60)


def zones(case, ctx):
    """All zones: whole hours within a day are read, others are no date (or the right one)."""
    sign = case["sign"]
    for hour in range(0, 100):
        for minute in range(0, 100):
            text = "Thu, 19 Jul 2007 09:03:57 %s%02d%02d" % (sign, hour, minute)
            z = (hour * 60 + minute) * (-1 if sign == "-" else 1)
            if minute == 0 and hour < 24:
                expect(text, datetime(2007, 7, 19, 9, 3, 57), ctx, zone=z)
            else:
                ctx.count("transitions")
                try:
                    got = parseDatetime(text)
                    if got is not None and (minute > 59 or hour > 23 or got.utcoffset() != timedelta(minutes=z)):
                        ctx.report("%r is read as %r" % (text, got))
                except Exception as e:
                    ctx.report("%r: %s: %s" % (text, type(e).__name__, e))
            # as a metadata: a value or none, never an error
            meta = RootMetadata()
            try:
                meta.creation_date = text
            except Exception as e:
                ctx.report("creation date %r: %s: %s" % (text, type(e).__name__, e))
    for hours in range(-23, 24):
        tz = createTimezone(hours)
        t = datetime(2000, 1, 1, 12, tzinfo=tz)
        if t.utcoffset() != timedelta(hours=hours) or t.dst() or t.tzname() != ("UTC" if hours == 0 else "%+03d00" % hours):
            ctx.report("zone of %s hours: %s %s %s" % (hours, t.utcoffset(), t.dst(), t.tzname()))
        if humanDatetime(t) != "2000-01-01 12:00:00%+03d:00" % hours:
            ctx.report("zone of %s hours: %r" % (hours, humanDatetime(t)))


def junk(case, ctx):
    """Texts around the formats: one character changed, removed or added never gives another date by surprise, nor an error."""
    text = case["text"]
    base = parseDatetime(text)
    for i in range(len(text) + 1):
        for ch in case["chars"]:
            for t in (text[:i] + ch + text[i + 1:], text[:i] + ch + text[i:], text[:i] + text[i + 1:]):
                ctx.count("transitions")
                try:
                    got = parseDatetime(t)
                except Exception as e:
                    ctx.report("%r: %s: %s" % (t, type(e).__name__, e))
                    continue
                if got is None:
                    continue
                if isinstance(got, tuple):
                    got = got[0]
                # the numbers of the date are numbers of the text, in any order
                nums = [int(x) for x in re.findall(r"\d+", t)]
                have = [got.year] + ([got.hour, got.minute, got.second] if isinstance(got, datetime) else [])
                for n in have:
                    if n not in nums:
                        ctx.report("%r is read as %s" % (t, got))
                        break
                ctx.count("traces")


def locales(case, ctx):
    """The locale of the process is left as it was."""
    locale.setlocale(locale.LC_ALL, "C")
    for name in LOCALES:
        for category in (locale.LC_ALL, locale.LC_CTYPE, locale.LC_TIME):
            for text in ("2000", "2000-01-02", "x", "", "February 2007", "Sun Feb 24 15:51:09 2008", "Thu, 19 Jul 2007 09:03:57 +0200", "Thu, 19 Jul 2007 09:03:57 +9900"):
                locale.setlocale(locale.LC_ALL, "C")
                before = locale.setlocale(category, name)
                whole = locale.setlocale(locale.LC_ALL)
                parseDatetime(text)
                ctx.count("transitions")
                if locale.setlocale(locale.LC_ALL) != whole:
                    ctx.report("locale %s: %r after reading %r" % (whole, locale.setlocale(locale.LC_ALL), text))
                ctx.count("traces")
    locale.setlocale(locale.LC_ALL, "C")


def filters(case, ctx):
    """Limits of filters are inside."""
    step = timedelta(microseconds=1)
    lo, hi = datetime(1850, 1, 1), datetime(2031, 1, 1)
    for k in range(-3, 4):
        for t, inside in ((lo + k * step, k >= 0), (hi + k * step, k < 0), (lo + k * timedelta(days=1), k >= 0), (hi + k * timedelta(days=1), k < 0)):
            for z in (None, 0, -12, 12, 2):
                v = t if z is None else (t + timedelta(hours=z)).replace(tzinfo=createTimezone(z))
                ctx.count("transitions")
                if bool(DATETIME_FILTER(v)) != inside:
                    ctx.report("date %s is %s" % (v, "refused" if inside else "accepted"))
        for d, inside in ((date(1850, 1, 1) + timedelta(days=k), k >= 0), (date(2031, 1, 1) + timedelta(days=k), k < 0)):
            ctx.count("transitions")
            if bool(DATETIME_FILTER(d)) != inside:
                ctx.report("date %s is %s" % (d, "refused" if inside else "accepted"))
    for a in (None, -2, 0, 1, 2.5):
        for b in (None, -2, 0, 1, 3):
            for f in (NumberFilter(a, b), Filter((int, float), a, b)):
                for v in (-3, -2, -1, 0, 0.5, 1, 2, 2.5, 3, 3.5, True):
                    ctx.count("transitions")
                    if bool(f(v)) != ((a is None or a <= v) and (b is None or v <= b)):
                        ctx.report("filter %s..%s of %r" % (a, b, v))
                for v in ("x", "", None, b"", [], timedelta(1)):
                    if not f(v):
                        ctx.report("filter %s..%s of %r, another type" % (a, b, v))
    for v in ("x", None, 5, timedelta(1)):
        if not DATETIME_FILTER(v):
            ctx.report("date filter of %r, another type" % (v,))
    ctx.count("traces")


def years(case, ctx):
    for y in range(case["y"], case["y"] + 1000):
        t = "%04d" % y
        expect(t, date(y, 1, 1) if y else None, ctx)
        expect(" %s\t" % t, date(y, 1, 1) if y else None, ctx)
        expect(t + "0", None, ctx)
        expect(t[1:], None, ctx)
        expect("-" + t, None, ctx)


def main():
    c = lib.Check("M03", "model_checking",
                  "all dates of the years of the list in all formats and separators, all times of a day and beyond, all zones, all years, all edits of one character of 8 texts, all locales: instant, zone, "
                  "what is refused, locale after the call; a state is a date",
                  bounds={"years": YEARS, "locales": LOCALES})
    c.domain("numeric", [{"y": y} for y in YEARS], numeric)
    c.domain("clocks", [{"H": h} for h in range(26)], clocks)
    c.domain("words", [{"y": y} for y in YEARS], words)
    c.domain("zones", [{"sign": s} for s in "+-"], zones)
    chars = "0159+-/: ,xS\0\xe9\u0663" if c.quick else "".join(chr(i) for i in range(0, 256)) + "\u0663\u2028"
    c.domain("junk", [{"text": t, "chars": chars} for t in ("2000", "2004-01-02", "2004-01-02 18:10:45", "01/02/2004 18:10:45", "Thu, 19 Jul 2007 09:03:57 +0200", "Thu, 19 Jul 2007 09:03:57 -0200",
                                                            "Sun Feb 24 15:51:09 2008", "February 2007")], junk)
    c.domain("locales", [{}], locales)
    c.domain("filters", [{}], filters)
    c.domain("years", [{"y": y} for y in range(0, 10000, 1000)], years)
    c.main()


if __name__ == "__main__":
    main()
