"""F08: floating point and date fields give the exact value of their bits, in the byte order of their set."""
import datetime, itertools, math, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib
from mc.streams import endians

lib.quiet()
from hachoir.stream import StringInputStream
from hachoir import field as F
E = endians()
ORDER = {"BIG": "big", "LITTLE": "little"}
FLOATS = {"Float32": (8, 23, 0), "Float64": (11, 52, 0), "Float80": (15, 63, 1)}


def parse(data, en, at, make):
    class P(F.Parser):
        endian = E[en]

        def createFields(self):
            if at:
                yield F.Bytes(self, "head", at)
            yield make(self)
            yield F.UInt8(self, "after")
    p = P(StringInputStream(b"\x5a" * at + data + b"\xc7"))
    return p, p["f"]


def mantissas(bits, quick):
    full = (1 << bits) - 1
    out = {0, 1, full, full - 1, full >> 1, (full >> 1) + 1, 0x5555555555555555555 & full, 0xc90fdaa22168c234c4c6 >> (80 - bits)}
    for i in range(0, bits, 1 if not quick or bits < 30 else 5):
        out |= {1 << i, full ^ (1 << i), (1 << i) - 1}
    return sorted(out)


def check_float(ctx, kind, en, at, neg, exp, man, one):
    eb, mb, explicit = FLOATS[kind]
    raw = (neg << eb | exp)
    if explicit:
        raw = raw << 1 | one
    raw = raw << mb | man
    size = 1 + eb + explicit + mb
    data = raw.to_bytes(size // 8, ORDER[en])
    p, f = parse(data, en, at, lambda s: getattr(F, kind)(s, "f"))
    what = "%s %s endian %s" % (kind, en, data.hex())
    ctx.count("transitions")
    if f.size != size or f.address != 8 * at or p["after"].address != 8 * at + size or p["after"].value != 0xc7:
        raise lib.Violation("%s: size %r at %r" % (what, f.size, f.address))
    v = f.value
    bias = (1 << (eb - 1)) - 1
    top = (1 << eb) - 1
    if exp == top:
        if not explicit:
            if man:
                ok = isinstance(v, float) and math.isnan(v)
            else:
                ok = v == (-math.inf if neg else math.inf)
            if not ok:
                raise lib.Violation("%s: value %r" % (what, v))
        elif v is not None and not isinstance(v, float):
            raise lib.Violation("%s: value %r" % (what, v))
    else:
        if explicit:
            x = Fraction((one << mb) + man, 1 << mb)
        else:
            x = Fraction(((1 if exp else 0) << mb) + man, 1 << mb)
        x *= Fraction(2) ** (max(exp, 1) - bias)
        claimed = True
        if explicit:
            # Numbers which are not normal have no float of their own
            claimed = bool(one and exp) and x < Fraction(2) ** 1023 and x > Fraction(1, 2 ** 1021)
            if not exp and not man and not one:
                claimed, x = True, Fraction(0)
        if claimed:
            if v is None or not isinstance(v, float) or math.isnan(v) or math.isinf(v):
                raise lib.Violation("%s: value %r" % (what, v))
            got = Fraction(v)
            want = -x if neg else x
            if abs(got - want) > (abs(want) / (1 << 52) if explicit else 0):
                raise lib.Violation("%s: value %r instead of %r" % (what, v, float(want)))
            if v == 0 and (math.copysign(1, v) < 0) != bool(neg):
                raise lib.Violation("%s: sign of zero" % what)
        elif v is not None and not isinstance(v, float):
            raise lib.Violation("%s: value %r" % (what, v))
    # the parts
    if bool(f["negative"].value) != bool(neg) or f["negative"].size != 1:
        raise lib.Violation("%s: negative is %r" % (what, f["negative"].value))
    if f["exponent"].value != exp - bias or f["exponent"].size != eb:
        raise lib.Violation("%s: exponent is %r instead of %d" % (what, f["exponent"].value, exp - bias))
    if explicit and (bool(f["one"].value) != bool(one)):
        raise lib.Violation("%s: one is %r" % (what, f["one"].value))
    m = f["mantissa"].value
    if m != 1 + float(man) / (1 << mb) or f["mantissa"].size != mb:
        raise lib.Violation("%s: mantissa is %r instead of %r" % (what, m, 1 + man / (1 << mb)))
    pos = 0
    for x in f:
        if x.address != pos:
            raise lib.Violation("%s: %s is at %d" % (what, x.name, x.address))
        pos += x.size
    if pos != size:
        raise lib.Violation("%s: parts of %d bits" % (what, pos))
    if not isinstance(f.display, str) or not isinstance(f.raw_display, str):
        raise lib.Violation("%s: display %r" % (what, f.display))
    ctx.count("traces")
    ctx.seen("states", (kind, en, raw))


def floats(case, ctx):
    kind, en = case["kind"], case["endian"]
    eb, mb, explicit = FLOATS[kind]
    for exp in range(case["lo"], case["hi"]):
        near = exp < 3 or exp > (1 << eb) - 4 or abs(exp - (1 << (eb - 1))) < 4
        mans = mantissas(mb, ctx.quick) if near or eb == 8 or not ctx.quick and eb == 11 else [0, 1, (1 << mb) - 1, 0xc90fdaa22168c234c4c6 >> (80 - mb)]
        for man in mans:
            for neg in (0, 1):
                for one in ((1, 0) if explicit and near else (1,)):
                    check_float(ctx, kind, en, case["at"], neg, exp, man, one)
    ctx.sample(case)


# -- dates -------------------------------------------------------------------------------------
US = datetime.timedelta(microseconds=1)


def exact(t0, us):
    """t0 plus an exact number of microseconds; None when there is no such date."""
    try:
        return t0 + datetime.timedelta(microseconds=us)
    except OverflowError:
        return None


KINDS = {
    "TimestampUnix32": (32, lambda v: exact(datetime.datetime(1970, 1, 1), v * 10**6) if v < 1 << 31 else None),
    "TimestampUnix64": (64, lambda v: exact(datetime.datetime(1970, 1, 1), v * 10**6) if v < 1 << 31 else None),
    "TimestampMac32": (32, lambda v: exact(datetime.datetime(1904, 1, 1), v * 10**6)),
    "TimestampUUID60": (60, lambda v: exact(datetime.datetime(1582, 10, 15), v // 10)),
    "TimestampWin64": (64, lambda v: exact(datetime.datetime(1601, 1, 1), v // 10)),
    "TimedeltaWin64": (64, lambda v: exact(datetime.timedelta(0), v // 10)),
    "TimedeltaMillisWin64": (64, lambda v: exact(datetime.timedelta(0), v * 1000)),
}


def near(v, w, us):
    """The value is the exact one, up to the precision of a float number of microseconds."""
    return abs(v - w) <= US * (1 + (us >> 52))


TENTHS = ("TimestampUUID60", "TimestampWin64", "TimedeltaWin64")


def stamp_values(bits):
    full = (1 << bits) - 1
    out = {0, full}
    for i in range(bits):
        for d in range(-11, 12):
            out.add(((1 << i) + d) & full)
        out.add(full ^ (1 << i))
    for d in (10, 10**3, 10**6, 10**7, 86400, 864000000000, 116444736000000000, 122192928000000000, 2650467743999999999, 0x1BEEF1234567890):
        for k in range(-12, 13):
            for m in (1, 2, 3, 365, 400, 999, 123456):
                out.add((d * m + k) & full)
    day = 864000000000
    for k in range(0, (1 << 63) // day, 70001):
        out.add((k * day + 9) & full)
        out.add((k * day - 1) & full)
    return sorted(out)


def stamps(case, ctx):
    kind, en, at = case["kind"], case["endian"], case["at"]
    bits, ref = KINDS[kind]
    for v in stamp_values(bits)[case["part"]::case["parts"]]:
        if bits == 60:
            data = (v << 4 | 5).to_bytes(8, "big") if en == "BIG" else (v | 5 << 60).to_bytes(8, "little")
        else:
            data = v.to_bytes(bits // 8, ORDER[en])
        p, f = parse(data, en, at, lambda s: getattr(F, kind)(s, "f"))
        want = ref(v)
        got = f.value
        ctx.count("transitions")
        what = "%s of %d" % (kind, v)
        if f.size != bits:
            raise lib.Violation("%s: size %r" % (what, f.size))
        if got is None and isinstance(want, datetime.datetime) and datetime.datetime.max - want < 40 * US:
            continue    # rounded to the year 10000
        if want is None:
            if got is not None:
                raise lib.Violation("%s: value %r" % (what, got))
        else:
            if type(got) is not type(want) or not near(got, want, v // 10 if kind in TENTHS else 0):
                raise lib.Violation("%s: %r (%s) instead of %s" % (what, got, got, want))
            if not f.display or f.raw_display != str(v) or bool(f) != (v != 0):
                raise lib.Violation("%s: display %r, raw %r, bool %r" % (what, f.display, f.raw_display, bool(f)))
            if isinstance(want, datetime.datetime) and f.display != str(got.replace(microsecond=0)):
                raise lib.Violation("%s: display %r" % (what, f.display))
        if not isinstance(f.display, str):
            raise lib.Violation("%s: display %r" % (what, f.display))
        ctx.count("traces")
        ctx.seen("states", (kind, v))
    ctx.sample(case)


def msdos(case, ctx):
    """Every date, and every time, of the MS-DOS formats."""
    kind, en = case["kind"], case["endian"]
    for i in range(case["lo"], case["hi"]):
        for date, time in ((i, 0x6b7d), (0x2c8f, i)):
            if kind == "TimeDateMSDOS32":
                raw = date << 16 | time
            else:
                raw = time << 16 | date
            data = raw.to_bytes(4, "little")
            p, f = parse(data, "LITTLE", case["at"], lambda s: getattr(F, kind)(s, "f"))
            ctx.count("transitions")
            y, mo, d = 1980 + (date >> 9), (date >> 5 & 15) or 1, (date & 31) or 1
            h, mi, s = time >> 11, time >> 5 & 63, 2 * (time & 31)
            try:
                want = datetime.datetime(y, mo, d, h, mi, s)
            except ValueError:
                want = None
            if f.value != want:
                raise lib.Violation("%s %s: %r instead of %r" % (kind, data.hex(), f.value, want))
            if want and f.display != str(want) or not isinstance(f.display, str):
                raise lib.Violation("%s %s: display %r" % (kind, data.hex(), f.display))
            ctx.count("traces")
            ctx.seen("states", (kind, raw))


def main():
    c = lib.Check("F08", "model_checking",
                  "every exponent with boundary mantissas in both byte orders, every MS-DOS date and time, and every boundary timestamp; a state is a distinct (type, bits)",
                  assumptions=["80-bit numbers which are not normal, or outside the range of 64-bit floats, have no claimed value",
                               "numbers of 100 ns are converted through a float: exact up to 2**-52 of the value, at least one microsecond", "Unix timestamps are refused above 2**31-1 (documented)"],
                  bounds={"float32 exponents": 256, "float64 exponents": 2048, "float80 exponents": 32768 if os.environ.get("VERIF_TIER") == "thorough" else "step 61 and boundaries"})
    cases = []
    for kind, (eb, mb, x) in FLOATS.items():
        top = 1 << eb
        if eb == 8 or eb == 11:
            step = 32
            rng = [(lo, min(top, lo + step)) for lo in range(0, top, step)]
        elif c.quick:
            rng = [(0, 4), (top - 5, top), (top // 2 - 6, top // 2 + 6), (16383 - 1030, 16383 - 1000), (16383 + 1000, 16383 + 1030)] + [(e, e + 1) for e in range(100, top, 61)]
        else:
            rng = [(lo, min(top, lo + 256)) for lo in range(0, top, 256)]
        for en in ("BIG", "LITTLE"):
            for at in (0, 3):
                for lo, hi in rng:
                    cases.append({"kind": kind, "endian": en, "at": at, "lo": lo, "hi": hi})
    c.domain("floats", cases, floats)
    c.domain("timestamps", [{"kind": k, "endian": en, "at": at, "part": i, "parts": 4} for k in KINDS for en in ("BIG", "LITTLE") for at in (0, 1) for i in range(4)], stamps)
    c.domain("msdos", [{"kind": k, "endian": "LITTLE", "at": at, "lo": lo, "hi": lo + 4096} for k in ("TimeDateMSDOS32", "DateTimeMSDOS32") for at in (0, 1) for lo in range(0, 65536, 4096)], msdos)
    c.main()


if __name__ == "__main__":
    main()
