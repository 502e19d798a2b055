"""A13: network captures are shown as they were written: packets, layers, addresses, options, whatever is cut."""
import datetime, itertools, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc import formats
from mc.formats import contiguous, direct, expect, fields, get
from hachoir.parser.network import TcpdumpFile
from hachoir.parser.network import common
common.ip2name.resolve = False      # (no name server is asked)

EPOCH = datetime.datetime(1970, 1, 1)
MACS = [bytes([0, 0, 0x0C, 1, 2, 3]), b"\xff" * 6, bytes([2, 0x12, 0x34, 0xAB, 0xCD, 0xEF])]
IPS = [b"\x7f\0\0\1", b"\xff\xfe\x80\x09", b"\0\0\0\0"]
IP6 = [bytes(range(0x20, 0x30)), bytes(15) + b"\1", b"\xfe\x80" + bytes(6) + b"\2\0\xff\xfe\0\xab\xcd\xef"]


def mac(b):
    return ":".join("%02x" % x for x in b)


def ip(b):
    return ".".join(str(x) for x in b)


def ip6(b):
    return ":".join("%02x%02x" % (b[i], b[i + 1]) for i in range(0, 16, 2))


# A layer is (bytes, name, {path: value}, description or None); a packet is a list of layers and what follows

def ether(proto, a=0, b=1):
    return (MACS[a] + MACS[b] + struct.pack(">H", proto), "ethernet", {"dst": mac(MACS[a]), "src": mac(MACS[b]), "protocol": proto,
            "dst__nic": int.from_bytes(MACS[a][3:], "big"), "dst__organization": int.from_bytes(MACS[a][:3], "big")}, None)


def sll(proto):
    return (struct.pack(">HHH", 4, 1, 6) + MACS[0] + b"\0\0" + struct.pack(">H", proto), "unicast", {"packet_type": 4, "addr_type": 1, "addr_length": 6, "source": MACS[0] + b"\0\0", "protocol": proto}, None)


def arp(op, a=0, b=1):
    return (struct.pack(">HHBBH", 1, 0x800, 6, 4, op) + MACS[a] + IPS[a] + MACS[b] + IPS[b], "arp",
            {"hw_type": 1, "proto_type": 0x800, "hw_size": 6, "proto_size": 4, "opcode": op, "src_mac": mac(MACS[a]), "src_ip": ip(IPS[a]), "dst_mac": mac(MACS[b]), "dst_ip": ip(IPS[b])},
            {1: "ARP: request, %s ask %s" % (ip(IPS[b]), ip(IPS[a])), 2: "ARP: reply from %s" % ip(IPS[a])}.get(op))


def ipv4(proto, length, a=0, b=1, options=b"", tos=0, flags=0, offset=0, ttl=64, name="ipv4"):
    size = 5 + len(options) // 4
    w = flags << 13 | offset
    raw = struct.pack(">BBHHHBBH", 0x40 | size, tos, size * 4 + length, 0x1234, w, ttl, proto, 0xBEEF) + IPS[a] + IPS[b] + options
    return (raw, name, {"version": 4, "hdr_size": size, "precedence": tos >> 5, "low_delay": bool(tos & 16), "high_throu": bool(tos & 8), "high_rel": bool(tos & 4), "length": size * 4 + length, "id": 0x1234,
                          "df": bool(flags & 2), "more_frag": bool(flags & 1), "ttl": ttl, "protocol": proto, "checksum": 0xBEEF, "src": ip(IPS[a]), "dst": ip(IPS[b]), "options": options or "no field",
                          # (the names of both parts of the number are the opposite of their weight)
                          "frag_ofst_lo": offset >> 8, "frag_ofst_hi": offset & 255}, "IPv4 (%s>%s)" % (ip(IPS[a]), ip(IPS[b])))


def ipv6(proto, length, a=0, b=1, traffic=0, flow=0, hops=64):
    return (struct.pack(">IHBB", 6 << 28 | traffic << 20 | flow, length, proto, hops) + IP6[a] + IP6[b], "ipv6", {"version": 6, "traffic": traffic, "flow": flow, "length": length, "protocol": proto, "hop_limit": hops,
            "src": ip6(IP6[a]), "dst": ip6(IP6[b])}, "IPv6 (%s>%s)" % (ip6(IP6[a]), ip6(IP6[b])))


PORTS = {13: "daytime", 20: "ftp data", 80: "HTTP", 6667: "IRC"}
OPTIONS = {"nop": b"\1", "mss": b"\2\4" + struct.pack(">H", 1460), "scale": b"\3\3\7", "sack": b"\4\2", "blocks": b"\5\x0a" + bytes(range(8)), "time": b"\x08\x0a" + struct.pack(">II", 0x01020304, 0x05060708), "end": b"\0"}
FLAGS = ["fin", "syn", "rst", "psh", "ack", "urg", "ecn-echo", "cgst"]


def tcp(options=(), flags=0x12, src=80, dst=49152, seq=0xFFFFFFFE, ack=1):
    raw = b"".join(OPTIONS[o] for o in options)
    raw += bytes(-len(raw) % 4)
    size = 20 + len(raw)
    want = {"src": src, "dst": dst, "seq_num": seq, "ack_num": ack, "hdrlen": size, "winsize": 8192, "checksum": 0xCAFE, "urgent": 9}
    for i, n in enumerate(FLAGS):
        want[n] = bool(flags >> i & 1)
    k = 0
    for o in options:
        at = "option[%s]__" % k
        b = OPTIONS[o]
        want[at + "code"] = b[0]
        if len(b) > 1:
            want[at + "length"] = len(b)
        want.update({"mss": {at + "max_seg": 1460}, "scale": {at + "win_scale": 7}, "blocks": {at + "data": bytes(range(8))}, "time": {at + "ts_val": 0x01020304, at + "ts_ecr": 0x05060708}}.get(o, {}))
        k += 1
    names = [PORTS.get(p, str(p)) if p < 32768 else "" for p in (src, dst)]
    shown = [n for n, f in (("SYN", 2), ("ACK", 16), ("FIN", 1), ("RST", 4)) if flags & f]
    text = "TCP" + (" (%s->%s)" % tuple(names) if any(names) else "") + (" [%s]" % ",".join(shown) if shown else "")
    return (struct.pack(">HHIIBBHHH", src, dst, seq, ack, size // 4 << 4, flags, 8192, 0xCAFE, 9) + raw, "tcp", want, text)


def udp(length=8, src=53, dst=1024):
    names = {53: "DNS", 80: "http", 67: "dhcp/bootp", 137: "netbios name service"}
    return (struct.pack(">HHHH", src, dst, length, 0xABCD), "udp", {"src": src, "dst": dst, "length": length, "checksum": 0xABCD}, "UDP (%s->%s)" % (names.get(src, src), names.get(dst, dst)))


def icmp(kind, code=0):
    raw = struct.pack(">BBH", kind, code, 0x9999)
    want = {"type": kind, "code": code, "checksum": 0x9999}
    text = "ICMP (%s)" % {3: "Reject"}.get(kind, kind)
    if kind in (0, 8):
        raw += struct.pack(">HH", 77, 65535)
        want.update({"id": 77, "seq_num": 65535})
        text = "%s (num=65535)" % {0: "Pong", 8: "Ping"}[kind]
    elif kind == 3:
        raw += struct.pack(">HH", 0, 1500)
        want.update({"hop_mtu": 1500})
    return (raw, "icmp", want, text)


def icmp6(kind, code=0):
    raw = struct.pack(">BBH", kind, code, 0x8888)
    want = {"type": kind, "code": code, "checksum": 0x8888}
    text = "ICMPv6 (%s)" % kind
    if kind in (128, 129):
        raw += struct.pack(">HH", 5, 6)
        want.update({"id": 5, "sequence": 6})
        text = "Echo %s (num=6)" % {128: "request", 129: "reply"}[kind]
    return (raw, "icmpv6", want, text)


def kinds(link):
    first = ether if link == 1 else sll
    out = {}
    for n, l in (("tcp", tcp()), ("tcp options", tcp(("mss", "nop", "scale", "sack", "time"))), ("udp", udp(13)), ("ping", icmp(8)), ("pong", icmp(0)), ("time exceeded", icmp(11))):
        proto = {"t": 6, "u": 17, "p": 1}[n[0]] if n != "time exceeded" else 1
        for data in (b"", b"hello"):
            out[n + (" with data" if data else "")] = ([first(0x800), ipv4(proto, len(l[0]) + len(data)), l], data)
    for n, l in (("tcp6", tcp(("nop", "nop", "time"))), ("udp6", udp(12)), ("echo6", icmp6(128)), ("reply6", icmp6(129)), ("neighbor6", icmp6(135))):
        out[n] = ([first(0x86dd), ipv6({"t": 6, "u": 17}.get(n[0], 58), len(l[0]) + 4), l], b"DATA")
    inner = ipv4(17, 12, 1, 0, name="rejected_ipv4")
    out["reject"] = ([first(0x800), ipv4(1, 40), icmp(3, 3), inner, udp(12)], b"what")
    out["request"] = ([first(0x806), arp(1)], b"")
    out["reply"] = ([first(0x806), arp(2, 1, 2)], b"\0" * 18)
    out["options"] = ([first(0x800), ipv4(17, 8, options=b"\1\1\1\0"), udp()], b"")
    out["other ip"] = ([first(0x800), ipv4(47, 8)], b"tunneled")
    out["other"] = ([first(0x8100)], b"\0\x05\x08\0 of a vlan")
    out["later fragment"] = ([first(0x800), ipv4(17, 16, flags=1, offset=185)], b"\0\x35\0\x35 no header ")
    out["first fragment"] = ([first(0x800), ipv4(17, 16, flags=1), udp(3000)], b"the rest")
    out["extension6"] = ([first(0x86dd), ipv6(60, 8)], b"\x3a\0\1\4\0\0\0\0")
    out["nothing"] = ([first(0)], b"")
    return out


def capture(link, packets, zone=0, snap=65535, minor=4):
    """packets: (seconds, microseconds, bytes kept, size on the wire)"""
    out = b"\xd4\xc3\xb2\xa1" + struct.pack("<HHiiII", 2, minor, zone, 0, snap, link)
    places = []
    for s, us, raw, size in packets:
        places.append(len(out))
        out += struct.pack("<IIII", s, us, len(raw), size) + raw
    return out, places


def check_packet(ctx, what, f, layers, data, whole, at, t, first, cut=None):
    expect(ctx, what + ": place", (f.address, f.size), (at * 8, (16 + len(whole)) * 8))
    fields(ctx, what, f, ts_epoch=EPOCH + datetime.timedelta(seconds=t[0]), ts_nanosec=t[1], caplen=len(whole), len=t[2])
    pos, kept, named = 128, [], []
    for raw, name, want, text in layers:
        if cut is not None and pos // 8 - 16 + len(raw) > len(whole):
            break       # (the layer is not there in full)
        g = f[name] if name in f else None
        if g is None:
            ctx.report("%s: no layer %s" % (what, name))
            return
        expect(ctx, "%s: place of %s" % (what, name), (g.address, g.size), (pos, len(raw) * 8))
        fields(ctx, "%s, %s" % (what, name), g, **want)
        if name == "ethernet" or name == "arp":
            pass
        if text:
            expect(ctx, "%s: description of %s" % (what, name), g.description, text)
        pos += len(raw) * 8
        kept.append(name)
        named.append((name, text))
    if cut is not None:
        return
    expect(ctx, what + ": layers", [x.name for x in f][4:], kept + ["data"] * bool(data))
    if data:
        expect(ctx, what + ": data", f["data"].value, data)
    top = [t_ for k in ("icmp", "tcp", "udp", "arp") for n, t_ in named if n == k][:1]
    dt = datetime.timedelta(seconds=t[0] - first[0], microseconds=t[1] - first[1])
    if top != [None]:
        expect(ctx, what + ": description", f.description, "%s: %s" % (dt, top[0] if top else "Packet"))


def whole(layers, data):
    return b"".join(l[0] for l in layers) + data


def sequences(case, ctx):
    link = case["link"]
    K = kinds(link)
    for seq in itertools.product([case["first"]], *[sorted(K)] * (case["n"] - 1)):
        times = [(1164323599 + 3 * k, (999999, 0, 500001)[k % 3]) for k in range(len(seq))]
        data, places = capture(link, [(s, us, whole(*K[n]), len(whole(*K[n]))) for n, (s, us) in zip(seq, times)])
        what = "capture of link type %s: %s" % (link, list(seq))
        p = direct(ctx, data, TcpdumpFile)
        contiguous(ctx, what, p, len(data) * 8, 2)
        fields(ctx, what, p, id=b"\xd4\xc3\xb2\xa1", maj_ver=2, min_ver=4, this_zone=0, sigfigs=0, snap_len=65535, link_type=link)
        got = list(p.array("packet"))
        if not expect(ctx, what + ": packets", len(got), len(seq)):
            continue
        for k, n in enumerate(seq):
            layers, rest = K[n]
            check_packet(ctx, "%s: packet %s (%s)" % (what, k, n), got[k], layers, rest, whole(layers, rest), places[k], times[k] + (len(whole(layers, rest)),), times[0])
    ctx.sample(case)


def cuts(case, ctx):
    """The packets are cut at each byte; the next one is where it should be"""
    link = case["link"]
    K = kinds(link)
    for n in sorted(K):
        layers, rest = K[n]
        raw = whole(layers, rest)
        for keep in range(len(layers[0][0]), len(raw)):
            data, places = capture(link, [(100, 5, raw[:keep], len(raw)), (101, 6, raw, len(raw))], snap=keep)
            what = "capture of %s cut after %s bytes" % (n, keep)
            p = direct(ctx, data, TcpdumpFile, strict=False)
            contiguous(ctx, what, p, len(data) * 8, 1)
            got = list(p.array("packet"))
            if not expect(ctx, what + ": packets", len(got), 2):
                continue
            check_packet(ctx, what + ", packet 0", got[0], layers, rest, raw[:keep], places[0], (100, 5, len(raw)), None, cut=True)
            check_packet(ctx, what + ", packet 1", got[1], layers, rest, raw, places[1], (101, 6, len(raw)), (100, 5))


def options(case, ctx):
    for n in range(case["n"] + 1):
        for seq in itertools.product([case["first"]] if n else [], *[[o for o in OPTIONS]] * (n - 1)):
            if "end" in seq[:-1] or sum(len(OPTIONS[o]) for o in seq) > 40:
                continue
            # options which don't end with END fill the header
            if seq and seq[-1] != "end" and sum(len(OPTIONS[o]) for o in seq) % 4:
                continue
            layer = tcp(seq)
            layers = [ether(0x800), ipv4(6, len(layer[0]) + 3), layer]
            data, places = capture(1, [(1, 2, whole(layers, b"abc"), 999)])
            what = "TCP options %s" % (list(seq),)
            p = direct(ctx, data, TcpdumpFile)
            contiguous(ctx, what, p, len(data) * 8, 3)
            check_packet(ctx, what, p["packet[0]"], layers, b"abc", whole(layers, b"abc"), places[0], (1, 2, 999), (1, 2))
            expect(ctx, what + ": number", len(list(p["packet[0]/tcp"].array("option"))), len(seq))


def one(ctx, what, layers, rest, link=1, t=(1, 2), **kw):
    raw = whole(layers, rest)
    data, places = capture(link, [t + (raw, len(raw))], **kw)
    p = direct(ctx, data, TcpdumpFile)
    contiguous(ctx, what, p, len(data) * 8, 2)
    check_packet(ctx, what, p["packet[0]"], layers, rest, raw, places[0], t + (len(raw),), t)
    return p


def values(case, ctx):
    for flags in range(256):
        one(ctx, "TCP flags %02x" % flags, [ether(0x800), ipv4(6, 20), tcp(flags=flags)], b"")
    for src, dst in itertools.product((0, 13, 20, 80, 6667, 32767, 32768, 65535), repeat=2):
        one(ctx, "TCP ports %s, %s" % (src, dst), [ether(0x800), ipv4(6, 20), tcp(src=src, dst=dst, seq=dst, ack=src << 16)], b"")
        one(ctx, "UDP ports %s, %s" % (src, dst), [ether(0x86dd), ipv6(17, 8), udp(8, src, dst)], b"")
    for src, dst in itertools.product((53, 67, 137, 9999), repeat=2):
        one(ctx, "UDP ports %s, %s" % (src, dst), [sll(0x800), ipv4(17, 8), udp(8, src, dst)], b"", link=113)
    for kind in range(256):
        if kind != 3:
            one(ctx, "ICMP type %s" % kind, [ether(0x800), ipv4(1, 8), icmp(kind, kind ^ 5)], b"DATA")
        one(ctx, "ICMPv6 type %s" % kind, [ether(0x86dd), ipv6(58, 8), icmp6(kind, kind ^ 5)], b"DATA")
    for code in range(17):
        p = one(ctx, "ICMP reject %s" % code, [ether(0x800), ipv4(1, 36), icmp(3, code), ipv4(6, 20, name="rejected_ipv4", a=2), tcp()], b"")
        f = p["packet[0]/icmp/code"]
        if code in (0, 3, 15):
            expect(ctx, "reason %s" % code, f.display, {0: "net unreachable", 3: "port unreachable", 15: "Precedence cutoff in effect"}[code])
    for a, b in itertools.product(range(3), repeat=2):
        p = one(ctx, "addresses %s, %s" % (a, b), [ether(0x800, a, b), ipv4(17, 8, a, b), udp()], b"")
        f = p["packet[0]/ethernet"]
        texts = ["%s [%s]" % ({0x0C: "CISCO SYSTEMS, INC."}.get(int.from_bytes(m[:3], "big"), "-".join("%02X" % x for x in m[:3])), ":".join("%02x" % x for x in m[3:])) for m in MACS]
        expect(ctx, "description of %s, %s" % (a, b), f.description, "Ethernet: %s>%s (IPv4)" % (texts[b], texts[a]))
        one(ctx, "addresses %s, %s" % (a, b), [ether(0x86dd, a, b), ipv6(17, 8, a, b), udp()], b"")
        for op in range(5):
            one(ctx, "ARP %s from %s to %s" % (op, a, b), [ether(0x806), arp(op, a, b)], b"")
    for tos in range(0, 256, 4):
        one(ctx, "IPv4 service %02x" % tos, [ether(0x800), ipv4(17, 8, tos=tos, ttl=tos), udp()], b"")
        one(ctx, "IPv6 class %02x" % tos, [ether(0x86dd), ipv6(17, 8, traffic=tos | 3, flow=tos << 12 | tos, hops=tos), udp()], b"")
    for flags in range(4):
        for offset in (0, 1, 255, 256, 8191):
            layers = [ether(0x800), ipv4(17, 16, flags=flags, offset=offset)]
            one(ctx, "IPv4 fragment %s, flags %s" % (offset, flags), layers + ([] if offset else [udp()]), b"01234567")
    for words in range(1, 11):
        one(ctx, "IPv4 options of %s words" % words, [ether(0x800), ipv4(17, 8, options=bytes([1] * words * 4)), udp()], b"")
    for proto in range(256):
        layers, rest = [ether(0x800), ipv4(proto, 8)], b"payload"
        if proto not in (1, 6, 17, 58):
            one(ctx, "IPv4 protocol %s" % proto, layers, rest)
            one(ctx, "IPv6 protocol %s" % proto, [ether(0x86dd), ipv6(proto, 7)], rest)
    # times: of packets before and after the first one
    for (s, us), (s2, us2) in itertools.product([(0, 0), (1, 999999), (1164323599, 1), (0x7FFFFFFF, 500000), (0x7FFFFFFE, 999999)], repeat=2):
        layers = [ether(0x806), arp(1)]
        raw = whole(layers, b"")
        data, places = capture(1, [(s, us, raw, 60), (s2, us2, raw, 61)], zone=-3600, snap=68, minor=3)
        p = direct(ctx, data, TcpdumpFile)
        fields(ctx, "zone", p, this_zone=-3600, snap_len=68, min_ver=3)
        for k, t in enumerate([(s, us, 60), (s2, us2, 61)]):
            check_packet(ctx, "times %s, %s: packet %s" % ((s, us), (s2, us2), k), p["packet[%s]" % k], layers, b"", raw, places[k], t, (s, us))
    p = direct(ctx, capture(1, [])[0], TcpdumpFile)
    expect(ctx, "capture without packets", [f.name for f in p], ["id", "maj_ver", "min_ver", "this_zone", "sigfigs", "snap_len", "link_type"])


def main():
    c = lib.Check("A13", "model_checking",
                  "all sequences of packets of all kinds up to the length, each kind cut at each byte, all sequences of TCP options up to the length, all flags, types, protocols: place, fields, addresses, descriptions and data of each layer",
                  bounds={"packets": "sequences of 2 of all kinds (thorough: 3)", "TCP options": "up to 4 (thorough: 6)"})
    q = c.quick
    for link in (1, 113):
        c.domain("packets of link type %s" % link, [{"link": link, "first": k, "n": 2 if q else 3} for k in sorted(kinds(link))], sequences)
        c.domain("cut packets of link type %s" % link, [{"link": link}], cuts)
    c.domain("TCP options", [{"n": 4 if q else 6, "first": o} for o in OPTIONS], options)
    c.domain("values", [{}], values)
    c.main()


if __name__ == "__main__":
    main()
