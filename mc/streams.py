"""Reference bit-level model of a stream, and factories presenting one content as every kind of stream."""
import io
import os
import tempfile
from errno import ESPIPE
from mc import lib


def bits_be(content):
    """Bits of the content, most significant bit of each byte first."""
    return [(b >> (7 - i)) & 1 for b in content for i in range(8)]


def ref_bits(content, address, nbits, endian):
    """Value of nbits at bit address; None when the content does not hold all of them.
    BIG: bits run from the most to the least significant bit of each byte, first bit is the heaviest.
    LITTLE: bits run from the least to the most significant bit of each byte, first bit is the lightest.
    MIDDLE: as BIG over the content with the two bytes of every 16-bit word exchanged."""
    if endian == "MIDDLE":
        lo = address // 16 * 2
        hi = (address + nbits + 15) // 16 * 2
        if hi > len(content):
            return None
        content = bytes(content[i ^ 1] for i in range(lo, hi))
        address -= 8 * lo
        endian = "BIG"
    if address + nbits > 8 * len(content):
        return None
    v = 0
    if endian == "BIG":
        for i in range(address, address + nbits):
            v = v << 1 | (content[i >> 3] >> (7 - (i & 7))) & 1
    else:
        for k, i in enumerate(range(address, address + nbits)):
            v |= ((content[i >> 3] >> (i & 7)) & 1) << k
    return v


def endians():
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    return {"BIG": BIG_ENDIAN, "LITTLE": LITTLE_ENDIAN, "MIDDLE": MIDDLE_ENDIAN}


class PipeFile(object):
    """A forward-only source: only read(size).  `sizes` gives the largest answer of each successive
    read (0 = as much as asked); the last one repeats.  Like a raw pipe, an answer is never empty
    before the end."""

    def __init__(self, content, sizes=(0,)):
        self.content = content
        self.pos = 0
        self.sizes = sizes
        self.n = 0
        self.closed = False

    def read(self, size=-1):
        lim = self.sizes[min(self.n, len(self.sizes) - 1)]
        self.n += 1
        if size is None or size < 0:
            size = len(self.content)
        if lim:
            size = min(size, lim)
        d = self.content[self.pos:self.pos + size]
        self.pos += len(d)
        return d

    def close(self):
        self.closed = True


class EspipeFile(PipeFile):
    """As the standard input connected to a pipe: seek() exists but fails with ESPIPE."""

    def seek(self, pos, whence=0):
        raise IOError(ESPIPE, "Illegal seek")

    def tell(self):
        raise IOError(ESPIPE, "Illegal seek")


def fragmented(content, cuts, gap=b"\xa5\x5a\xc3", reverse=False, known=True, pipe=False):
    """A FragmentedStream over content cut at the given byte offsets, the pieces being laid out with
    gaps in a carrier stream (in reverse order when asked).  Returns (stream, carrier)."""
    from hachoir.stream import StringInputStream, FragmentedStream, InputIOStream
    cuts = [0] + list(cuts) + [len(content)]
    pieces = [content[a:b] for a, b in zip(cuts, cuts[1:])]
    order = list(range(len(pieces)))
    if reverse:
        order.reverse()
    data, addr = bytearray(gap), {}
    for i in order:
        addr[i] = 8 * len(data)
        data += pieces[i] + gap
    if pipe:
        carrier = InputIOStream(PipeFile(bytes(data)))
    else:
        carrier = StringInputStream(bytes(data))

    class Data(object):
        pass

    class Frag(object):
        path = "/frag"

        def getData(self):
            return self.data
    nxt = None
    for i in reversed(range(len(pieces))):
        f = Frag()
        f.parent = Data()
        f.parent.stream = carrier
        f.data = Data()
        f.data.absolute_address = addr[i]
        f.data.size = 8 * len(pieces[i])
        f.next = nxt
        nxt = f
    args = {"size": 8 * len(content)} if known else {}
    return FragmentedStream(nxt, **args), carrier


def make(kind, content):
    """A fresh stream of the given kind holding exactly content; returns (stream, keepalive)."""
    from hachoir.stream import StringInputStream, InputIOStream, InputSubStream, ConcatStream, FileInputStream
    if kind == "string":
        return StringInputStream(content), None
    if kind == "bytesio":
        return InputIOStream(io.BytesIO(content)), None
    if kind == "bytesio_sized":
        return InputIOStream(io.BytesIO(content), size=8 * len(content)), None
    if kind == "file":
        fd, path = tempfile.mkstemp(prefix="mcstream")
        os.write(fd, content)
        os.close(fd)
        try:
            s = FileInputStream(path)
        finally:
            os.unlink(path)
        return s, None
    if kind == "file_window":
        fd, path = tempfile.mkstemp(prefix="mcstream")
        os.write(fd, b"\x3c\xff\x01" + content + b"\x96\x69")
        os.close(fd)
        try:
            s = FileInputStream(path, offset=3, size=len(content))
        finally:
            os.unlink(path)
        return s, None
    if kind == "pipe":
        return InputIOStream(PipeFile(content)), None
    if kind == "pipe_sized":
        return InputIOStream(PipeFile(content), size=8 * len(content)), None
    if kind == "pipe_short1":
        return InputIOStream(PipeFile(content, (1,))), None
    if kind == "pipe_short5":
        return InputIOStream(PipeFile(content, (0, 5, 3, 2))), None
    if kind == "espipe":
        return InputIOStream(EspipeFile(content), source="espipe"), None
    if kind == "sub":
        s = StringInputStream(b"\x3c\xff" + content + b"\x96")
        return InputSubStream(s, 16, 8 * len(content)), s
    if kind == "sub_tail":
        s = StringInputStream(b"\x3c" + content)
        return InputSubStream(s, 8), s
    if kind == "sub_pipe":
        s = InputIOStream(PipeFile(b"\x3c\xff" + content + b"\x96"))
        return InputSubStream(s, 16, 8 * len(content)), s
    if kind == "subsub":
        s = StringInputStream(b"\x3c\xff" + content + b"\x96\x01")
        t = InputSubStream(s, 8, 8 * len(content) + 16)
        return InputSubStream(t, 8, 8 * len(content)), (s, t)
    if kind == "concat":
        k = (len(content) + 1) // 2
        if k == len(content):
            return None, None
        a, b = StringInputStream(content[:k]), StringInputStream(content[k:])
        return ConcatStream((a, b)), (a, b)
    if kind == "concat_pipe":
        k = (len(content) + 1) // 2
        if k == len(content):
            return None, None
        a, b = StringInputStream(content[:k]), InputIOStream(PipeFile(content[k:]))
        return ConcatStream((a, b)), (a, b)
    if kind.startswith("frag"):
        n = len(content)
        cuts = sorted(set(c for c in (n // 4, n // 2, n // 2 + 1) if 0 < c < n))
        return fragmented(content, cuts, reverse="rev" in kind, known="known" in kind, pipe="pipe" in kind)
    raise lib.HarnessError("kind " + kind)


KINDS = ["string", "bytesio", "bytesio_sized", "file", "file_window", "pipe", "pipe_sized", "pipe_short1",
         "pipe_short5", "espipe", "sub", "sub_tail", "sub_pipe", "subsub", "concat", "concat_pipe",
         "frag_known", "frag_unknown", "frag_rev_unknown", "frag_pipe_unknown", "frag_rev_known"]
