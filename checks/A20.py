"""A20: MPEG streams (transport, program and video) are shown as they were written: packets, headers, clocks, contents."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from mc.formats import contiguous, direct as opened, expect, get, listen
from hachoir.parser.video.mpeg_ts import MPEG_TS
from hachoir.parser.video.mpeg_video import MPEGVideoFile, VideoStream
from hachoir.stream import StringInputStream


def fields(ctx, what, f, /, **want):
    """A key a__b__0 is the field a/b[0]"""
    for key, v in want.items():
        path = re.sub("__([0-9]+)", r"[\1]", key).replace("__", "/")
        got = get(f, path)
        if got != v:
            ctx.report("%s: %s is %r, expected %r" % (what, path, got, v))


class W:
    """Writer of bits"""

    def __init__(self):
        self.v = self.n = 0

    def put(self, *pairs):
        for v, n in pairs:
            assert 0 <= v < 1 << n, (v, n)
            self.v, self.n = self.v << n | v, self.n + n
        return self

    def done(self):
        assert self.n % 8 == 0, self.n
        return self.v.to_bytes(self.n // 8, "big")


# --- Transport streams ---

def packet(pid=0x100, start=0, prio=0, scramble=0, counter=0, adaptation=None, payload=True, fill=b"\x11"):
    """adaptation: None, or (flags, pcr, opcr, splice, size)"""
    b = b""
    want = {"sync": 0x47, "has_error": False, "payload_unit_start": bool(start), "priority": bool(prio), "pid": pid, "scrambling_control": scramble, "has_adaptation": adaptation is not None, "has_payload": payload, "counter": counter}
    if adaptation is not None:
        flags, pcr, opcr, splice, size = adaptation
        w = W().put((flags, 8))
        names = ["discontinuity_indicator", "random_access_indicator", "es_prio_indicator", "has_pcr", "has_opcr", "has_splice_point", "private_data", "has_extension"]
        if size:
            want.update({"adaptation_field__" + n: bool(flags >> 7 - i & 1) for i, n in enumerate(names)})
            for bit, name, (base, ext) in ((0x10, "pcr", pcr), (8, "opcr", opcr)):
                if flags & bit:
                    w.put((base, 33), (63, 6), (ext, 9))
                    want["adaptation_field__%s_base" % name] = base
                    want["adaptation_field__%s_ext" % name] = ext
            if flags & 4:
                w.put((splice, 8))
                want["adaptation_field__splice_countdown"] = splice
            b = w.done()
            rest = size - len(b)
            assert rest >= 0
            if rest:
                want["adaptation_field__stuffing"] = int.from_bytes(b"\xff" * rest, "big")
            b += b"\xff" * rest
        want["adaptation_field__length"] = size
        b = bytes([size]) + b
    left = 184 - len(b)
    if payload:
        want["payload"] = (fill * 188)[:left]
        b += (fill * 188)[:left]
    assert len(b) == 184, len(b)
    head = W().put((0x47, 8), (0, 1), (start, 1), (prio, 1), (pid, 13), (scramble, 2), (adaptation is not None, 1), (payload, 1), (counter, 4)).done()
    return head + b, want


def check_ts(ctx, what, packets, m2ts, junk=None, tail=b""):
    """junk: (index, bytes before this packet)"""
    data, place = b"", []
    for i, (raw, want) in enumerate(packets):
        if junk and junk[0] == i:
            data += junk[1]
        place.append(len(data))
        if m2ts:
            data += W().put((i % 4, 2), (0x07474747 if i == 1 and not junk else 1000 * i, 30)).done()
        data += raw
    p = opened(ctx, data, MPEG_TS)
    contiguous(ctx, what, p, len(data) * 8, 3)
    size = 192 if m2ts else 188
    got = [(x.name, x.address // 8, x.size // 8) for x in p if x.is_field_set]
    expect(ctx, what + ": packets", got, [("packet[%d]" % i, a, size) for i, a in enumerate(place)])
    expect(ctx, what + ": lost bytes", [x.value for x in p if not x.is_field_set], [junk[1]] if junk and junk[0] < len(packets) else [])
    for i, (raw, want) in enumerate(packets):
        x = get(p, "packet[%d]/pid" % i)
        if x == "no field":
            continue
        fields(ctx, "%s: packet %s" % (what, i), p["packet[%d]" % i], **want)
        if m2ts:
            fields(ctx, "%s: packet %s" % (what, i), p["packet[%d]" % i], c=i % 4, ats=0x07474747 if i == 1 and not junk else 1000 * i)
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", len(packets))
    return p


CLOCKS = [(0, 0), (1, 1), ((1 << 33) - 1, 299), (0x123456789, 0x155)]


def transports(case, ctx):
    m2ts = case["m2ts"]
    for flags in range(256):
        for pcr, size in itertools.product(CLOCKS, ("exact", "more", "full")):
            need = 1 + 6 * bool(flags & 0x10) + 6 * bool(flags & 8) + bool(flags & 4)
            n = need if size == "exact" else need + 5 if size == "more" else 183
            opcr = CLOCKS[(CLOCKS.index(pcr) + 1) % 4]
            ps = [packet(), packet(pid=0x101, adaptation=(flags, pcr, opcr, flags ^ 0xFF, n), payload=n < 183), packet(pid=0x1FFF, counter=15)]
            check_ts(ctx, "MPEG transport stream with the flags %02x, clock %s, %s" % (flags, pcr, size), ps, m2ts)
    for pid, start, prio, scramble, counter, ad in itertools.product((0, 1, 0x10, 0x100, 0x1234, 0x1FFE, 0x1FFF), (0, 1), (0, 1), range(4), (0, 1, 7, 15), (None, (0, (0, 0), (0, 0), 0, 0), (0x40, (0, 0), (0, 0), 0, 1))):
        ps = [packet(pid, start, prio, scramble, counter, ad), packet(fill=b"\x47\x11")]
        p = check_ts(ctx, "MPEG transport packet %s" % ((pid, start, prio, scramble, counter, ad),), ps, m2ts)
        name = {0: "Program Association Table (PAT)", 1: "Conditional Access Table (CAT)", 0x1FFF: "Null packet"}.get(pid, "0x%04x" % pid)
        expect(ctx, "description of the PID %s" % pid, p["packet[0]"].description, "Packet: PID %s%s%s" % (name, ", start of payload" if start else "", ", with adaptation field" if ad else ""))
    for n in range(1, 7):
        for bad in [None] + list(range(1, n)):
            for length in ((1, 2, 7, 11) if bad is not None else (0,)):
                check_ts(ctx, "MPEG transport stream of %s packets, %s lost bytes before %s" % (n, length, bad), [packet(counter=i, fill=bytes([i + 1])) for i in range(n)], m2ts, (bad, b"\x22" * length) if bad is not None else None)


# --- Program streams ---

def stamp(v):
    return [(v >> 30, 3), (1, 1), (v >> 15 & 0x7FFF, 15), (1, 1), (v & 0x7FFF, 15), (1, 1)]


def scrext(v, ext):
    return stamp(v) + [(ext, 9), (1, 1)]


TIMES = [0, 1, 90000, (1 << 33) - 1, 0x123456789]


def pack2(v=90000, ext=0, rate=1, stuffing=0):
    return b"\0\0\1\xba" + W().put((1, 2), *scrext(v, ext), (rate, 22), (3, 2), (31, 5), (stuffing, 3)).done() + b"\xff" * stuffing


def pack1(v=90000, rate=1):
    return b"\0\0\1\xba" + W().put((2, 4), *stamp(v), (1, 1), (rate, 22), (1, 1)).done()


def chunk(tag, data):
    return b"\0\0\1" + bytes([tag]) + struct.pack(">H", len(data)) + data


def system(rate=1, audio=0, fixed=0, csps=0, alock=0, vlock=0, video=0, streams=b""):
    return chunk(0xBB, W().put((1, 1), (rate, 22), (1, 1), (audio, 6), (fixed, 1), (csps, 1), (alock, 1), (vlock, 1), (1, 1), (video, 5)).done() + streams)


END = b"\0\0\1\xb9"


def program(ctx, what, chunks, names, depth=5):
    data = b"".join(chunks)
    p = opened(ctx, data, MPEGVideoFile)
    contiguous(ctx, what, p, len(data) * 8, depth)
    at = 0
    want = []
    for c, n in zip(chunks, names):
        want.append((n, at, len(c)))
        at += len(c)
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", len(chunks))
    return p if expect(ctx, what + ": chunks", [(x.name, x.address // 8, x.size // 8) for x in p], want) else None


def packs(case, ctx):
    """All kinds of packs and system headers"""
    for t, ext, rate, stuffing, end in itertools.product(TIMES, (0, 1, 299), (1, 25200, (1 << 22) - 1), range(8), (False, True)):
        what = "MPEG-2 pack of time %s + %s, rate %s, stuffing %s%s" % (t, ext, rate, stuffing, ", end" if end else "")
        p = program(ctx, what, [pack2(t, ext, rate, stuffing), pack2(0, 0, 1, 0)] + [END] * end, ["pack_start[0]", "pack_start[1]", "end"][:2 + end])
        if p:
            f = p["pack_start[0]/content"]
            fields(ctx, what, f, mux_rate=rate, stuffing_length=stuffing, scr__scr_ext=ext)
            if abs(f["scr"].value - (t + ext / 300.0)) > 1e-3:
                ctx.report("%s: time is %s" % (what, f["scr"].value))
            expect(ctx, what + ": description", (p.description, p.validate()), ("MPEG-2 video", True))
    for t, rate, end in itertools.product(TIMES, (1, 25200, (1 << 22) - 1), (False, True)):
        what = "MPEG-1 pack of time %s, rate %s%s" % (t, rate, ", end" if end else "")
        p = program(ctx, what, [pack1(t, rate), pack1()] + [END] * end, ["pack_start[0]", "pack_start[1]", "end"][:2 + end])
        if p:
            fields(ctx, what, p["pack_start[0]/content"], mux_rate=rate, scr=t)
            expect(ctx, what + ": description", (p.description, p.validate()), ("MPEG-1 video", True))
    for rate, audio, bits, video, streams in itertools.product((1, 25200, (1 << 22) - 1), (0, 1, 63), range(16), (0, 1, 31), (b"", b"\x7f\xe0\xe0\xe0\xc0\xc0\x20")):
        what = "MPEG system header %s" % ((rate, audio, bits, video, streams),)
        flags = [bits >> k & 1 for k in (3, 2, 1, 0)]
        p = program(ctx, what, [pack2(), system(rate, audio, *flags, video, streams), END], ["pack_start[0]", "system_start[0]", "end"])
        if p:
            fields(ctx, what, p["system_start[0]/content"], rate_bound=rate, audio_bound=audio, fixed_bitrate=bool(flags[0]), csps=bool(flags[1]), audio_lock=bool(flags[2]), video_lock=bool(flags[3]), video_bound=video,
                   **({"raw__0": streams} if streams else {}))


def pes2(flags, pts=90000, dts=1, escr=(5, 6), rate=7, crc=0xABCD, stuffing=0, ext=0, size2=0, misc=0, data=b"data"):
    """Packet of MPEG-2: flags are those of the second byte"""
    want = {"pkt__is_scrambled": misc >> 4, "pkt__priority": misc >> 3 & 1, "pkt__alignment": bool(misc >> 2 & 1), "pkt__is_copyrighted": bool(misc >> 1 & 1), "pkt__is_original": bool(misc & 1)}
    w = W()
    if flags & 0x80:
        w.put((3 if flags & 0x40 else 2, 4), *stamp(pts))
        want["pkt__pts"] = pts
    if flags & 0x40:
        w.put((1, 4), *stamp(dts))
        want["pkt__dts"] = dts
    if flags & 0x20:
        w.put((0, 2), *scrext(*escr))
        want["pkt__escr__scr_ext"] = escr[1]
        want["pkt__escr"] = escr[0] + escr[1] / 300.0
    if flags & 0x10:
        w.put((1, 1), (rate, 22), (1, 1))
        want["pkt__es_rate"] = rate
    if flags & 8:
        w.put((0x61, 8))
        want["pkt__trick_mode"] = 0x61
    if flags & 4:
        w.put((1, 1), (0x55, 7))
        want["pkt__copy_info"] = 0x55
    if flags & 2:
        w.put((crc, 16))
        want["pkt__prev_crc"] = crc
    if flags & 1:
        w.put((ext >> 4, 4), (7, 3), (ext & 1, 1))
        want.update({"pkt__extension__" + n: bool(ext & b) for n, b in (("has_private", 128), ("has_pack_lgth", 64), ("has_pack_seq", 32), ("has_pstd_buffer", 16), ("has_extension2", 1))})
        if ext & 128:
            w.put((int.from_bytes(b"private data 16!", "big"), 128))
            want["pkt__extension__private"] = b"private data 16!"
        if ext & 64:
            w.put((size2, 8), (int.from_bytes(b"p" * size2, "big"), 8 * size2))
            want["pkt__extension__pack_lgth"] = size2
            want["pkt__extension__pack_header"] = b"p" * size2 or "no field"
        if ext & 32:
            w.put((1, 1), (0x2A, 7), (1, 1), (1, 1), (0x15, 6))
            want.update(pkt__extension__pack_seq_counter=0x2A, pkt__extension__mpeg12_id=True, pkt__extension__orig_stuffing_length=0x15)
        if ext & 16:
            w.put((1, 2), (1, 1), (0x1234, 13))
            want.update(pkt__extension__pstd_buffer_scale=True, pkt__extension__pstd_size=0x1234)
        if ext & 1:
            w.put((1, 1), (size2, 7), (int.from_bytes(b"e" * size2, "big"), 8 * size2))
            want.update(pkt__extension2__ext_length=size2, pkt__extension2__ext_bytes=b"e" * size2 or "no field")
    head = w.done() + b"\xff" * stuffing
    want["pkt__size"] = len(head)
    want["pkt__stuffing"] = b"\xff" * stuffing or "no field"
    want["data__rawdata"] = data or "no field"
    for n, b in (("has_pts", 128), ("has_dts", 64), ("has_escr", 32), ("has_es_rate", 16), ("dsm_trick_mode", 8), ("has_copy_info", 4), ("has_prev_crc", 2), ("has_extension", 1)):
        want["pkt__" + n] = bool(flags & b)
    return bytes([0x80 | misc, flags, len(head)]) + head + data, want


def packets(case, ctx):
    """All sets of optional fields of the headers of packets"""
    kind = case["kind"]
    if kind == "flags":
        for flags in range(256):
            if flags & 0xC0 == 0x40:
                continue
            for t, stuffing, data in itertools.product(range(len(TIMES)), (0, 1, 7), (b"data", b"")):
                raw, want = pes2(flags, TIMES[t], TIMES[t - 1], (TIMES[t - 2], 299 - t), (1 << 22) - 1 - t, stuffing=stuffing, data=data)
                what = "MPEG packet with the flags %02x, time %s, stuffing %s, %s" % (flags, TIMES[t], stuffing, data)
                p = program(ctx, what, [pack2(), chunk(0xE0, raw), END], ["pack_start[0]", "video[0][0]", "end"])
                if p:
                    fields(ctx, what, p["video[0][0]/content"], **want)
    elif kind == "extensions":
        for ext, size2, flags, stuffing in itertools.product([a << 4 | b for a in range(16) for b in (0, 1)], (0, 1, 5), (1, 0x81, 0x3), (0, 2)):
            raw, want = pes2(flags, ext=ext, size2=size2, stuffing=stuffing)
            what = "MPEG packet with the extensions %02x of %s bytes, flags %02x, stuffing %s" % (ext, size2, flags, stuffing)
            p = program(ctx, what, [pack2(), chunk(0xC3, raw)], ["pack_start[0]", "audio[3][0]"])
            if p:
                fields(ctx, what, p["audio[3][0]/content"], **want)
                if ext & 16:
                    expect(ctx, what + ": scale", p["audio[3][0]/content/pkt/extension/pstd_buffer_scale"].display, "1024 bytes")
        for misc in range(64):
            raw, want = pes2(0x80, misc=misc)
            what = "MPEG packet with the flags %02x" % misc
            p = program(ctx, what, [pack2(), chunk(0xBD, raw)], ["pack_start[0]", "private[0]"])
            if p:
                fields(ctx, what, p["private[0]/content"], **want)
    elif kind == "mpeg1":
        for pad, std, times, t, data in itertools.product((0, 1, 5), (None, 0, 1), (0, 2, 3), TIMES, (b"data", b"")):
            w, want = W(), {}
            if std is not None:
                w.put((1, 2), (std, 1), (0x123, 13))
                want.update(scale=bool(std), size=0x123)
            if times:
                w.put((times, 4), *stamp(t))
                want["pts"] = t
            if times == 3:
                w.put((1, 4), *stamp(77))
                want["dts"] = 77
            if not times:
                w.put((15, 8))
            want.update(has_pts=times > 0, has_dts=times == 3, data__rawdata=data or "no field", pad__0=b"\xff" * pad if pad else get)
            if not pad:
                del want["pad__0"]
            what = "MPEG-1 packet with %s bytes of padding, buffer %s, times %s of %s, %s" % (pad, std, times, t, data)
            p = program(ctx, what, [pack1(), chunk(0xE1, b"\xff" * pad + w.done() + data)], ["pack_start[0]", "video[1][0]"])
            if p:
                fields(ctx, what, p["video[1][0]/content"], **want)
                if std is not None:
                    expect(ctx, what + ": size of the buffer", p["video[1][0]/content/size"].display, str(0x123 * (1024 if std else 128)))
    else:
        # sequences of packets of several streams: their content is put together
        kinds = [(0xE0, "video[0]"), (0xE5, "video[5]"), (0xC0, "audio[0]"), (0xDF, "audio[31]"), (0xBD, "private"), (0xBF, "stream"), (0xBC, "stream"), (0xF9, "stream")]
        for n in range(1, case["n"] + 1):
            for seq in itertools.product(kinds, repeat=n):
                if seq[0] != kinds[case["first"]]:
                    continue
                chunks, names, total, wants, count = [pack2()], ["pack_start[0]"], {}, [], {}
                for i, (tag, name) in enumerate(seq):
                    d = b"%d:%02x" % (i, tag) + b"." * i
                    raw, want = (d, {"data__rawdata": d}) if tag in (0xBF, 0xBC) else pes2(0x80 if i % 2 else 0, pts=i, data=d, stuffing=i)
                    chunks.append(chunk(tag, raw))
                    k = count.get(name, 0)
                    count[name] = k + 1
                    names.append("%s[%d]" % (name, k))
                    total[tag] = total.get(tag, b"") + d
                    wants.append(want)
                what = "MPEG packets of %s" % (["%02x" % s[0] for s in seq],)
                p = program(ctx, what, chunks + [END], names + ["end"])
                if p:
                    for (tag, _), name, want in zip(seq, names[1:], wants):
                        fields(ctx, what, p[name + "/content"], **want)
                        s = p[name + "/content/data"].getSubIStream()
                        expect(ctx, "%s: content of the stream %02x" % (what, tag), s.readBytes(0, s.size // 8), total[tag])


# --- Video streams ---

MATRIX = [(7 * i + 8) % 255 + 1 for i in range(64)]


def seq_header(width=352, height=288, aspect=1, rate=3, bits=1000, vbv=20, constrained=0, intra=False, non=False):
    w = W().put((width, 12), (height, 12), (aspect, 4), (rate, 4), (bits, 18), (1, 1), (vbv, 10), (constrained, 1), (intra, 1))
    want = dict(width=width, height=height, aspect=aspect, frame_rate=rate, bit_rate=bits, vbv_size=vbv, constrained_params_flag=bool(constrained), has_intra_quantizer=intra, has_non_intra_quantizer=non)
    if intra:
        w.put(*[(v, 8) for v in MATRIX])
        want.update({"intra_quantizer__%d" % i: v for i, v in enumerate(MATRIX)})
    w.put((non, 1))
    if non:
        w.put(*[(v, 8) for v in reversed(MATRIX)])
        want.update({"non_intra_quantizer__%d" % i: v for i, v in enumerate(reversed(MATRIX))})
    return b"\0\0\1\xb3" + w.done(), "seq_hdr", want


def group(drop=0, hh=1, mm=2, ss=3, ff=4, closed=0, broken=0):
    return (b"\0\0\1\xb8" + W().put((drop, 1), (hh, 5), (mm, 6), (1, 1), (ss, 6), (ff, 6), (closed, 1), (broken, 1), (0, 5)).done(), "group_start",
            dict(drop_frame=bool(drop), time_hh=hh, time_mm=mm, time_ss=ss, time_ff=ff, closed_group=bool(closed), broken_group=bool(broken)))


def picture(ref=0, kind=1, delay=0xFFFF, full=0, code=7, fullb=0, codeb=6):
    w = W().put((ref, 10), (kind, 3), (delay, 16))
    want = dict(temporal_ref=ref, coding_type=kind, vbv_delay=delay)
    if kind in (2, 3):
        w.put((full, 1), (code, 3))
        want.update(full_pel_fwd_vector=bool(full), forward_f_code=code)
    if kind == 3:
        w.put((fullb, 1), (codeb, 3))
        want.update(full_pel_back_vector=bool(fullb), backward_f_code=codeb)
    w.put((0, 8 - w.n % 8))
    return b"\0\0\1\0" + w.done(), "pict_start", want


def ext_seq(profile=0x48, prog=0, chroma=1, h=0, v=0, bits=0, vbv=0, low=0, n=0, d=0):
    return (b"\0\0\1\xb5" + W().put((1, 4), (profile, 8), (prog, 1), (chroma, 2), (h, 2), (v, 2), (bits, 12), (1, 1), (vbv, 8), (low, 1), (n, 2), (d, 5)).done(), "ext_start",
            dict(ext_type=1, profile_and_level=profile, progressive_sequence=bool(prog), chroma_format=chroma, horiz_size_ext=h, vert_size_ext=v, bit_rate_ext=bits, vbv_buffer_size_ext=vbv, low_delay=bool(low), frame_rate_ext_n=n, frame_rate_ext_d=d))


def ext_disp(fmt=2, color=None, w=720, h=576):
    x = W().put((2, 4), (fmt, 3), (color is not None, 1))
    want = dict(ext_type=2, video_format=fmt, color_desc_present=color is not None, display_horiz_size=w, display_vert_size=h)
    if color:
        x.put(*[(c, 8) for c in color])
        want.update(zip(("color_primaries", "transfer_characteristics", "matrix_coeffs"), color))
    return b"\0\0\1\xb5" + x.put((w, 14), (1, 1), (h, 14), (0, 3)).done(), "ext_start", want


CODING = ["top_field_first", "frame_pred_frame_dct", "concealment_motion_vectors", "q_scale_type", "intra_vlc_format", "alternate_scan", "repeat_first_field", "chroma_420_type", "progressive_frame"]


def ext_code(codes=(1, 2, 3, 4), dc=0, structure=3, flags=0, comp=None):
    x = W().put((8, 4), *[(c, 4) for c in codes], (dc, 2), (structure, 2), *[(flags >> i & 1, 1) for i in range(9)], (comp is not None, 1))
    want = dict(ext_type=8, intra_dc_precision=dc, picture_structure=structure, composite_display=comp is not None, **{n: bool(flags >> i & 1) for i, n in enumerate(CODING)})
    if comp:
        x.put((comp[0], 1), (comp[1], 3), (comp[2], 1), (comp[3], 7), (comp[4], 8), (0, 2))
        want.update(v_axis=bool(comp[0]), field_sequence=comp[1], sub_carrier=bool(comp[2]), burst_amplitude=comp[3], sub_carrier_phase=comp[4])
    else:
        x.put((0, 6))
    return b"\0\0\1\xb5" + x.done(), "ext_start", want


def slice_(n=1, q=9, data=b"slice"):
    raw = bytes([q << 3 | 5]) + data
    return b"\0\0\1" + bytes([n]) + raw, "slice", dict(quantizer_scale=q, data=int.from_bytes(raw, "big") & (1 << 8 * len(raw) - 5) - 1)


def user(data=b"user data"):
    return b"\0\0\1\xb2" + data, "data_start", dict(data=data) if data else {}


SEQ_END = (b"\0\0\1\xb7", "seq_end", None)


def video(ctx, what, items):
    data = b"".join(i[0] for i in items)
    listen(ctx, "VideoStream", True)     # (a stream of a file, which has no tags)
    p = VideoStream(StringInputStream(data))
    contiguous(ctx, what, p, len(data) * 8, 2)
    at, want, count = 0, [], {}
    for raw, name, _ in items:
        k = count.get(name, 0)
        count[name] = k + 1
        want.append(("%s[%d]" % (name, k), at, len(raw)))
        at += len(raw)
    if expect(ctx, what + ": chunks", [(x.name, x.address // 8, x.size // 8) for x in p], want):
        for (name, _, _), (raw, _, w) in zip(want, items):
            if w is None:
                expect(ctx, "%s: %s has no content" % (what, name), "content" in p[name], False)
            elif w:
                fields(ctx, "%s: %s" % (what, name), p[name + "/content"], **w)
            expect(ctx, "%s: tag" % what, p[name + "/tag"].value, raw[3])
    ctx.seen("states", what)
    ctx.count("traces")
    ctx.count("transitions", len(items))


def videos(case, ctx):
    kind = case["kind"]
    if kind == "sequence":
        for (w, h), a, r, bits, vbv, c, i, n in itertools.product(((1, 1), (352, 288), (4095, 4095)), (1, 2, 14), (1, 3, 8), (1, (1 << 18) - 1), (1, 1023), (0, 1), (False, True), (False, True)):
            args = (w, h, a, r, bits, vbv, c, i, n)
            video(ctx, "MPEG sequence %s" % (args,), [seq_header(*args), slice_(), SEQ_END])
    elif kind == "headers":
        for args in itertools.product((0, 1), (0, 23, 31), (0, 59, 63), (0, 59), (0, 24, 63), (0, 1), (0, 1)):
            video(ctx, "MPEG group %s" % (args,), [group(*args), picture()])
        for args in itertools.product((0, 1, 1023), range(0, 8), (0, 1, 0xFFFF), (0, 1), (1, 7), (0, 1), (1, 5)):
            if args[1] == 3 or args[5:] == (0, 1):
                video(ctx, "MPEG picture %s" % (args,), [picture(*args), slice_()])
        for args in itertools.product((0x14, 0x48, 0xFF), (0, 1), (1, 2, 3), (0, 1, 3), (0, 2), (0, 1, 4095), (0, 255), (0, 1), (0, 3), (0, 31)):
            video(ctx, "MPEG sequence extension %s" % (args,), [ext_seq(*args), group()])
        for args in itertools.product(range(8), (None, (1, 2, 3), (255, 0, 9)), (1, 720, 16383), (1, 576, 16383)):
            video(ctx, "MPEG display extension %s" % (args,), [ext_disp(*args), group()])
        for flags in range(512):
            for comp in (None, (1, 5, 0, 0x55, 0xAA), (0, 2, 1, 0x2A, 1)):
                video(ctx, "MPEG coding extension %s %s" % (flags, comp), [ext_code(flags=flags, comp=comp, dc=flags % 4, structure=flags // 4 % 3 + 1, codes=(15, flags % 15, 1, 2)), slice_()])
    else:
        pool = [seq_header(), ext_seq(), ext_disp(), group(), picture(), ext_code(), slice_(), slice_(0xAF, 31, b""), slice_(2, 1, b"\0\0"), user(), user(b"x"), SEQ_END]
        for n in range(1, case["n"] + 1):
            for seq in itertools.product(range(len(pool)), repeat=n):
                if n > 2 and seq[0] != case["first"] or n <= 2 and case["first"]:
                    continue
                if any(a == 8 for a in seq[:-1]):
                    continue
                video(ctx, "MPEG video %s" % (seq,), [pool[i] for i in seq])


if __name__ == "__main__":
    c = lib.Check("A20", "model_checking",
                  "all flags and clocks of transport packets, with and without lost bytes; packs, system headers, all sets of optional fields of packets of both versions, sequences of packets of several streams; "
                  "headers, extensions and sequences of chunks of video streams: place and value of each field, contents of the streams",
                  bounds={"transport packets": "up to 6", "program packets": "up to 3 of 8 kinds (thorough: 5)", "video chunks": "up to 3 of 12 (thorough: 5)"})
    q = c.quick
    c.domain("transports", [{"m2ts": m} for m in (False, True)], transports, batch=1)
    c.domain("packs", [{}], packs)
    c.domain("packets", [{"kind": k} for k in ("flags", "extensions", "mpeg1")] + [{"kind": "sequences", "n": 3 if q else 5, "first": k} for k in range(8)], packets, batch=1)
    c.domain("videos", [{"kind": "sequence"}, {"kind": "headers"}] + [{"kind": "chunks", "n": 3 if q else 5, "first": k} for k in range(12)], videos, batch=1)
    c.main()
