"""A32: Gnome keyrings are shown as they were written: header, flags, items, attributes, access controls."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct, expect, get
from hachoir.parser.misc.gnome_keyring import EncryptedData, GnomeKeyring

MAGIC = b"GnomeKeyring\n\r\0\n"
TEXTS = [None, "", "a", "a name", "caf\xe9 \u20ac", "x" * 300]


def text(s):
    if s is None:
        return b"\xff" * 4
    raw = s.encode("utf-8")
    return struct.pack(">I", len(raw)) + raw


def check_text(ctx, what, f, at, s):
    expect(ctx, what + ": place and size", (f.absolute_address, f.size), (at * 8, len(text(s)) * 8))
    expect(ctx, what, (f["length"].value, f["text"].value if "text" in f else ""), (0xFFFFFFFF if s is None else len(s.encode("utf-8")), s or ""))
    if "\u20ac" not in (s or ""):  # descriptions have the letters of ISO-8859-1, and escapes for others
        expect(ctx, what + ": description", f.description, s or "(empty string)")
    return at + len(text(s))


def attribute(a):
    name, v = a
    return text(name) + (struct.pack(">II", 1, v) if isinstance(v, int) else struct.pack(">I", 0) + text(v))


def check_attribute(ctx, what, f, at, a):
    name, v = a
    expect(ctx, what + ": place and size", (f.absolute_address, f.size), (at * 8, len(attribute(a)) * 8))
    at = check_text(ctx, what + " name", f["name"], at, name)
    expect(ctx, what + ": type, description", (f["type"].value, f.description), (1 if isinstance(v, int) else 0, 'Attribute "%s"' % (name or "")))
    if isinstance(v, int):
        expect(ctx, what + ": value", f["value"].value, v)
        return at + 8
    return check_text(ctx, what + " value", f["value"], at + 4, v)


def date(n):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)


def keyring(ctx, what, name="login", times=(1200000000, 1300000000), flags=0, lock=0, rounds=1234, salt=b"saltsalt", items=(), secret=b"s" * 16, crypto=0, hash=0, version=(0, 0)):
    """items: (id, type, attributes)"""
    head = MAGIC + bytes([*version, crypto, hash])
    data = head + text(name) + struct.pack(">QQIII", *times, flags, lock, rounds) + salt + bytes(16)
    first = len(data)
    data += struct.pack(">I", len(items))
    for n, kind, attrs in items:
        data += struct.pack(">III", n, kind, len(attrs)) + b"".join(attribute(a) for a in attrs)
    end = len(data)
    data += struct.pack(">I", len(secret)) + secret
    p = direct(ctx, data, GnomeKeyring)
    contiguous(ctx, what, p, len(data) * 8, 20)
    expect(ctx, what + ": header", tuple(get(p, k) for k in ("magic", "major_version", "minor_version", "crypto", "hash")), (MAGIC.decode("latin-1"), *version, crypto, hash))
    expect(ctx, what + ": algorithms", (p["crypto"].display, p["hash"].display), ("AEL" if crypto == 0 else str(crypto), "MD5" if hash == 0 else str(hash)))
    check_text(ctx, what + ": name of the keyring", p["keyring_name"], 20, name)
    expect(ctx, what + ": times", (get(p, "mtime"), get(p, "ctime")), tuple(map(date, times)))
    expect(ctx, what + ": flags", (get(p, "lock_on_idle"), get(p, "lock_after")), (bool(flags & 1), bool(flags & 2)))
    expect(ctx, what + ": numbers", (get(p, "lock_timeout"), get(p, "hash_iterations"), get(p, "salt")), (lock, rounds, salt))
    got = p["items"]
    expect(ctx, what + ": items", (got.absolute_address, got.size, got["count"].value, len(got.array("item"))), (first * 8, (end - first) * 8, len(items), len(items)))
    at = first + 4
    for f, (n, kind, attrs) in zip(got.array("item"), items):
        expect(ctx, what + ": item", (f.absolute_address, f["id"].value, f["type"].value, f["attr_count"].value, f.description), (at * 8, n, kind, len(attrs), "Item #%s: %s attributes" % (n, len(attrs))))
        at += 12
        for g, a in zip(list(f.array("attr")), attrs):
            at = check_attribute(ctx, what + ": attribute", g, at, a)
        expect(ctx, what + ": number of attributes", len(f.array("attr")), len(attrs))
    e = p["encrypted"]
    expect(ctx, what + ": encrypted part", (get(p, "encrypted_size"), e.absolute_address, e.size), (len(secret), (end + 4) * 8, len(secret) * 8))


ATTRS = [("user", "me"), ("", ""), (None, None), ("port", 22), ("n", 0), ("max", 2 ** 32 - 1), ("server", "caf\xe9.example")]


def headers(case, ctx):
    for name in TEXTS:
        keyring(ctx, "name %s" % lib.short(name, 20), name=name)
        for f in range(4):
            keyring(ctx, "flags %s" % f, name=name, flags=f, lock=f * 1000)
    for a, b in itertools.product((0, 1, 65536, 10 ** 9, 2 ** 31 - 1), repeat=2):
        keyring(ctx, "times %s %s" % (a, b), times=(a, b))
    for n in (0, 1, 2 ** 31, 2 ** 32 - 1):
        keyring(ctx, "number %s" % n, lock=n, rounds=n, salt=struct.pack(">Q", n * 77))
    for k in (16, 32, 48, 160, 4096):
        keyring(ctx, "encrypted part of %s bytes" % k, secret=bytes(i % 256 for i in range(k)))
    for c, h, v in itertools.product((0, 1, 255), (0, 1, 255), ((0, 0), (1, 2))):
        keyring(ctx, "algorithms %s %s, version %s" % (c, h, v), crypto=c, hash=h, version=v)


def lists(case, ctx):
    """All sequences of items, each with all sequences of attributes"""
    sets = [s for n in range(0, case["n"] + 1) for s in itertools.product(ATTRS, repeat=n)]
    for k, s in enumerate(sets):
        if k % 8 == case["i"]:
            keyring(ctx, "attributes %s" % (s,), items=[(1, 0, s)])
            for t in sets[:8]:
                keyring(ctx, "attributes %s and %s" % (s, t), items=[(7, 2, t), (2 ** 32 - 1, 1, s), (0, 0, t)])
    for n in range(case["i"], 40, 8):
        keyring(ctx, "%s items" % n, items=[(i, i % 3, ATTRS[:i % 4]) for i in range(n)])


def inside(case, ctx):
    """The content behind the encryption: all sequences of items with texts, attributes and access controls"""
    acls = [(1, "prog", "/usr/bin/prog"), (0, None, None), (7, "", "x" * 50), (2 ** 32 - 1, "caf\xe9", "/")]
    some = [dict(name=n, secret=s, attrs=a, acls=c) for n, s, a, c in itertools.product(TEXTS[:5], (None, "", "pw", "p" * 33), ((), ATTRS[:1], ATTRS[1:5]), ((), acls[:1], acls[1:]))]
    seqs = [(i,) for i in range(len(some))] + [()] + [s for s in itertools.product(range(0, len(some), case["step"]), repeat=2)] + [s for s in itertools.product(range(0, len(some), case["step"] * 3), repeat=3)]
    for k, seq in enumerate(seqs):
        if k % 8 != case["i"]:
            continue
        data, places = b"0123456789abcdef", []
        for i in seq:
            x = some[i]
            places.append(len(data))
            data += text(x["name"]) + text(x["secret"]) + struct.pack(">QQ", 1200000000 + i, 1300000000 + i) + text(None) + bytes(16)
            data += struct.pack(">I", len(x["attrs"])) + b"".join(map(attribute, x["attrs"])) + struct.pack(">I", len(x["acls"]))
            data += b"".join(struct.pack(">I", t) + text(a) + text(b) + text(None) + bytes(4) for t, a, b in x["acls"])
        end = len(data)
        data += bytes(-len(data) % 16)
        what = "content %s" % (seq,)
        p = direct(ctx, data, EncryptedData)
        contiguous(ctx, what, p, len(data) * 8, 1)
        got = p.array("item")
        expect(ctx, what + ": hash, items", (get(p, "md5"), len(list(got))), (b"0123456789abcdef", len(seq)))
        for f, i, at in zip(list(got), seq, places):
            x = some[i]
            expect(ctx, what + ": place of the item", f.absolute_address, at * 8)
            at = check_text(ctx, what + ": name", f["display_name"], at, x["name"])
            at = check_text(ctx, what + ": secret", f["secret"], at, x["secret"])
            expect(ctx, what + ": times", (f["mtime"].value, f["ctime"].value, f["mtime"].absolute_address), (date(1200000000 + i), date(1300000000 + i), at * 8))
            at += 16 + 4 + 16
            expect(ctx, what + ": number of attributes", (f["attr_count"].value, f["attr_count"].absolute_address, len(f.array("attr"))), (len(x["attrs"]), at * 8, len(x["attrs"])))
            at += 4
            for g, a in zip(list(f.array("attr")), x["attrs"]):
                at = check_attribute(ctx, what + ": attribute", g, at, a)
            expect(ctx, what + ": number of controls", (f["acl_count"].value, len(f.array("acl"))), (len(x["acls"]),) * 2)
            at += 4
            for g, (t, a, b) in zip(list(f.array("acl")), x["acls"]):
                expect(ctx, what + ": control", (g.absolute_address, g["types_allowed"].value), (at * 8, t))
                at = check_text(ctx, what + ": program", g["display_name"], at + 4, a)
                at = check_text(ctx, what + ": path", g["pathname"], at, b) + 8
        pad = [f for f in p if f.name == "padding_align"]
        expect(ctx, what + ": padding", [(f.absolute_address, f.size) for f in pad], [(end * 8, (len(data) - end) * 8)] if len(data) > end else [])


if __name__ == "__main__":
    c = lib.Check("A32", "model_checking", "all texts, flags and extreme numbers of the header, all sequences of attributes and of items, all sequences of decrypted items with all shapes: place and value of each",
                  bounds={"attributes": "sequences of up to 3 of 7 (thorough: 4)", "decrypted items": "180 shapes, sequences of up to 3"})
    q = c.quick
    c.domain("headers", [{}], headers, batch=1)
    c.domain("lists", [{"i": i, "n": 3 if q else 4} for i in range(8)], lists, batch=1)
    c.domain("inside", [{"i": i, "step": 7 if q else 3} for i in range(8)], inside, batch=1)
    c.main()
