import io
import re
import struct

from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part, Violation

ID = "C07"
RULE = ("arbitrary and mutated files are loaded through a file object that counts the reads (a bound proportional to the file "
        "size means termination); bad headers must be refused with TypeError, unknown incompatible flags must be refused; "
        "what is loaded must be a consistent log; non-trivial: the mutated file differs from its origin and was parsed beyond "
        "the header")
ASSUMPTIONS = ["exceptions are only restricted where the format of the definitions is intact (the data section: C06)",
               "files declaring arrays of more than 999 elements are not generated"]


class CountingFile(io.BytesIO):
    """a file that refuses to be read again and again"""

    def __init__(self, raw):
        super().__init__(raw)
        self.bound = 20 * len(raw) + 2000
        self.reads = 0

    def read(self, *a):
        self.reads += 1
        if self.reads > self.bound:
            raise TooManyReads()
        return super().read(*a)


class TooManyReads(BaseException):
    pass


def load_bounded(ctx, raw, **kw):
    """(log or None, exception or None)"""
    f = CountingFile(raw)
    try:
        return lib.ULog(f, **kw), None
    except TooManyReads:
        ctx.fail("loading a file of %d bytes does not come to an end (%d reads)" % (len(raw), f.reads))
    except (MemoryError, RecursionError) as err:
        ctx.fail("loading a file of %d bytes raised %r" % (len(raw), err))
    except Exception as err:    # refused: fine for an arbitrary file
        return None, err


def consistent(u, ctx):
    order = [(d.name, d.multi_id) for d in u.data_list]
    ctx.check(order == sorted(order), "datasets are not sorted: %r" % order)
    for d in u.data_list:
        lens = {len(c) for c in d.data.values()}
        ctx.check(len(lens) == 1 and 0 not in lens, "columns of %s have lengths %r" % (d.name, lens))
        ctx.check([f.field_name for f in d.field_data] == list(d.data), "columns of %s differ from its fields" % d.name)
        ctx.check(d.name in u.message_formats, "no format for dataset %s" % d.name)
        if 0 <= d.timestamp_idx:
            ctx.check(d.field_data[d.timestamp_idx].field_name == "timestamp", "timestamp_idx of %s" % d.name)
    for n, fmt in u.message_formats.items():
        ctx.check(fmt.name == n, "format %r is listed as %r" % (fmt.name, n))
    ctx.check(u.last_timestamp >= u.start_timestamp, "last timestamp before the start")


EXCLUDE = re.compile(rb"\[[0-9+\-_ ]{4,}|\[\d*[^\x00-\x7f]")


def excluded(raw):
    return bool(EXCLUDE.search(raw))


@st.composite
def mutated(draw):
    spec = draw(gen.logs(max_topics=2, max_fields=3, max_subs=3, nested=False, n_ops=[2, 6, 12], lossy=True,
                         default_bits=[1, 2, 255]))
    raw = bytearray(ulg.encode(spec))
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["set", "set", "del", "ins", "dup", "swap", "size"]))
        pos = draw(st.integers(7, max(7, len(raw) - 1)))
        if kind == "set":
            raw[pos:pos + 1] = bytes([draw(st.sampled_from([0, 1, 255, 65, 66, 68, 70, 73, 76, 77, 79, 80, 81, 82, 83, 67, 32, 47]))])
        elif kind == "del":
            del raw[pos:pos + draw(st.integers(1, 30))]
        elif kind == "ins":
            raw[pos:pos] = draw(st.one_of(st.binary(max_size=8), st.sampled_from(
                [b"\0" * 20, ulg.SYNC, b"\xff" * 5, b"\x00\x00\x01" * 7] + [ulg.frame(k, b"\1\2 3") for k in b"BFIMPQARDLCOSZ"])))
        elif kind == "dup":
            n = draw(st.integers(1, 60))
            raw[pos:pos] = raw[pos:pos + n]
        elif kind == "swap":
            q = draw(st.integers(7, max(7, len(raw) - 1)))
            raw[pos:pos + 4], raw[q:q + 4] = raw[q:q + 4], raw[pos:pos + 4]
        else:
            # damage the size of some message
            ends = [16] + [end for end, _, _ in ulg.offsets(spec)]
            p = draw(st.sampled_from(ends))
            if p + 2 <= len(raw):
                raw[p:p + 2] = struct.pack("<H", draw(st.sampled_from([0, 1, 2, 3, 40, 255, 9999, 10000, 10001, 65535])))
    return [bytes(raw), draw(st.booleans())]


def check_mutated(case, ctx):
    raw, header_only = case
    if excluded(raw):
        ctx.label("excluded: giant array")
        return
    u, err = load_bounded(ctx, raw, parse_header_only=header_only)
    if u is not None:
        consistent(u, ctx)
        ctx.label("loaded")
        ctx.label("loaded and reported corrupt", u.file_corruption)
        v, err2 = load_bounded(ctx, raw, parse_header_only=header_only)
        ctx.check(err2 is None, "loading the same bytes again raised %r" % (err2,))
        ctx.no_diff(oracle.snap_diff(oracle.snapshot(u), oracle.snapshot(v)), "loading the same bytes twice differs")
    else:
        ctx.label("refused with " + type(err).__name__)
    ctx.nontrivial(u is not None)


@st.composite
def arbitrary(draw):
    """message soup behind a valid header"""
    out = [ulg.encode_header({"version": draw(st.integers(0, 255)), "start": draw(st.sampled_from(gen.START_TS))})]
    for _ in range(draw(st.integers(0, 10))):
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(draw(st.binary(max_size=20)))
        elif k == 1:
            out.append(ulg.frame(draw(st.integers(0, 255)), draw(st.binary(max_size=14))))
        elif k == 2:
            out.append(ulg.frame(draw(st.sampled_from(list(b"BFIMPQARDLCOS"))), draw(st.binary(max_size=14))))
        else:
            out.append(draw(st.sampled_from([
                ulg.SYNC, ulg.frame(83, ulg.SYNC), b"\0" * 30, b"\xff" * 30, b"\x05\x00" + b"A", b"\xff\xff\x01", b"\x11\x27\x01",
                ulg.frame(70, b"t:uint64_t timestamp;int8_t x;"), ulg.frame(65, b"\0\1\0t"), ulg.frame(68, b"\1\0" + b"\7" * 9),
                ulg.frame(70, b"t:uint64_t timestamp;v x;"), ulg.frame(70, b"v:float y;float[3] z;"), ulg.frame(70, b"e:"),
                ulg.frame(65, b"\0\2\0e"), ulg.frame(65, b"\0\3\0v"), ulg.frame(68, b"\3\0" + b"\7" * 16), ulg.frame(68, b"\2\0"),
                ulg.frame(70, b"r:uint8_t y;r[2] x;"), ulg.frame(65, b"\0\4\0r"), ulg.frame(70, b"v:t x;"), ulg.frame(68, b"\4\0\1")])))
    return [b"".join(out), draw(st.integers(0, 4)) == 0]


@st.composite
def raw_bytes(draw):
    head = draw(st.sampled_from([b"", ulg.MAGIC, ulg.MAGIC[:6], ulg.MAGIC + b"\x01" + b"\0" * 7, ulg.MAGIC[::-1]]))
    return head + draw(st.binary(max_size=40))


def check_raw(raw, ctx):
    for ho in (False, True):
        u, err = load_bounded(ctx, raw, parse_header_only=ho)
        if len(raw) < 16 or raw[:7] != ulg.MAGIC:
            ctx.check(isinstance(err, TypeError), "a file without a valid header gave %r" % (err or "a log",))
            ctx.label("bad header")
        else:
            ctx.label("good header")
            if u is not None:
                ctx.check(u.start_timestamp == struct.unpack_from("<Q", raw, 8)[0], "start timestamp")
    ctx.nontrivial(len(raw) > 6)


# --------------------------------------------------------------- scaling
class ByteCountingFile(io.BytesIO):
    count = 0

    def read(self, *a):
        data = super().read(*a)
        self.count += len(data)
        if self.count > self.bound:
            raise TooManyReads()
        return data


STRETCHES = [b"\0", b"\1\0", b"\0\1\0\0", b"\1", b"\5\0", b"\0\0\1", b"\2\0\xee", b"\x20\0", b"\0" * 7 + b"\2", b"\3\0\xee\0"]


@st.composite
def scaling(draw):
    spec = draw(gen.logs(max_topics=2, max_fields=2, max_subs=2, nested=False, n_ops=[2, 6], ops="DDDLSSUOP"))
    pieces = []
    for _ in range(draw(st.integers(1, 3))):
        pieces.append([draw(st.sampled_from(STRETCHES)), draw(st.sampled_from([2000, 7000, 20000])), draw(st.booleans()),
                       draw(st.integers(0, len(spec["data"])))])
    return [spec, pieces]


def check_scaling(case, ctx):
    spec, pieces = case
    data = [ulg.encode_msg(m) for m in spec["data"]]
    for unit, size, with_sync, pos in pieces:
        stretch = (unit * (size // len(unit) + 1))[:size]
        data.insert(min(pos, len(data)), stretch + (ulg.encode_msg(["S"]) if with_sync else b""))
    raw = ulg.encode(dict(spec, data=[])) + b"".join(data)
    f = ByteCountingFile(raw)
    # sizes up to 0x0200 are read again for every byte of a stretch, a search reads blocks of 512
    f.bound = 1600 * len(raw) + 100000
    try:
        ctx.call("loading a log with corrupt stretches", lib.ULog, f)
    except TooManyReads:
        ctx.fail("loading a file of %d bytes reads more than %d bytes" % (len(raw), f.bound))
    ctx.label("corrupt stretch behind a sync message", any(m[0] == "S" for m in spec["data"]))
    ctx.nontrivial(True)


# ----------------------------------------------------------------- flags
@st.composite
def flags_case(draw):
    spec = draw(gen.logs(max_topics=2, max_fields=2, n_ops=[2], ops="DLIP"))
    compat = draw(st.lists(st.integers(0, 255), min_size=8, max_size=8))
    incompat = [0] * 8
    for _ in range(draw(st.integers(0, 2))):
        incompat[draw(st.integers(0, 7))] |= 1 << draw(st.integers(0, 7))
    return [spec, compat, incompat, draw(st.sampled_from([b"", b"\0" * 5])), draw(st.booleans())]


def check_flags(case, ctx):
    spec, compat, incompat, extra, header_only = case
    defs = [["B", compat, incompat, [0, 0, 0], extra]] + [m for m in spec["defs"] if m[0] != "B"]
    spec = dict(spec, defs=defs)
    raw = ulg.encode(spec)
    unknown = incompat[0] & ~1 or any(incompat[1:])
    if unknown:
        ctx.raises("loading a log with incompatible flags %r" % incompat, (ValueError, NotImplementedError),
                   lib.load, raw, parse_header_only=header_only)
    else:
        u = ctx.call("loading a log with flags %r %r" % (compat, incompat), lib.load, raw, parse_header_only=header_only)
        e = ulg.interpret(dict(spec, data=[]) if header_only else spec)
        ctx.no_diff(oracle.diff(u, e), "log with flags %r %r" % (compat, incompat))
    ctx.label("unknown incompatible flag", unknown)
    ctx.label("appended flag", incompat[0] & 1)
    ctx.nontrivial(unknown or any(compat))


PARTS = [
    Part("mutated", mutated, check_mutated, 3200),
    Part("soup", arbitrary, check_mutated, 2400),
    Part("raw", raw_bytes, check_raw, 1600),
    Part("scaling", scaling, check_scaling, 64),
    Part("flags", flags_case, check_flags, 1200),
]
