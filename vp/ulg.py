"""Reference model of the ULog format, written from the format documentation
and independent of pyulog: an abstract log (a plain JSON-able structure), its
encoding into bytes, its meaning (``interpret``), and a strict decoder of bytes
(``decode``) used to look at what pyulog writes.

Abstract log ("spec"):
  {"version": int, "start": int, "defs": [msg, ...], "data": [msg, ...]}
Messages are lists, first element is the kind:
  ["B", compat(8 ints), incompat(8 ints), [offsets...3], extra bytes]
  ["F", name, [[type, array_size, field_name], ...]]
  ["I", type, key, value bytes]           info
  ["M", continued, type, key, value]      info multiple
  ["P", type, key, value]                 parameter
  ["Q", bits, type, key, value]           default parameter
  ["A", multi_id, msg_id, name]           subscription
  ["R", msg_id]                           unsubscription
  ["D", msg_id, payload]                  sample (payload without the msg id)
  ["L", level, ts, text bytes]            logged string
  ["C", level, tag, ts, text bytes]       tagged logged string
  ["O", duration]                         dropout
  ["S"]                                   sync
  ["U", type code, payload]               a message type this version ignores
  ["X", raw bytes]                        raw garbage (not a message)
"""
import struct

MAGIC = b"\x55\x4c\x6f\x67\x01\x12\x35"
SYNC = b"\x2F\x73\x13\x20\x25\x0C\xBB\x12"

#: type name -> (struct code, size, numpy dtype name of the decoded column)
TYPES = {
    "int8_t": ("b", 1, "int8"),
    "uint8_t": ("B", 1, "uint8"),
    "int16_t": ("h", 2, "int16"),
    "uint16_t": ("H", 2, "uint16"),
    "int32_t": ("i", 4, "int32"),
    "uint32_t": ("I", 4, "uint32"),
    "int64_t": ("q", 8, "int64"),
    "uint64_t": ("Q", 8, "uint64"),
    "float": ("f", 4, "float32"),
    "double": ("d", 8, "float64"),
    "bool": ("?", 1, "int8"),
    "char": ("c", 1, "int8"),
}


# ---------------------------------------------------------------- encoding
def frame(kind, payload):
    assert len(payload) <= 0xFFFF
    return struct.pack("<HB", len(payload), kind) + payload


def _kv(type_, key, value):
    k = (type_ + " " + key).encode("utf-8")
    assert len(k) <= 255
    return bytes([len(k)]) + k + value


def encode_msg(m):
    k = m[0]
    if k == "B":
        body = bytes(m[1]) + bytes(m[2]) + struct.pack("<3Q", *m[3]) + (m[4] if len(m) > 4 else b"")
    elif k == "F":
        body = (m[1] + ":" + "".join(
            ("%s[%d] %s;" % (t, n, f)) if n else ("%s %s;" % (t, f)) for t, n, f in m[2])).encode()
    elif k == "I" or k == "P":
        body = _kv(m[1], m[2], m[3])
    elif k == "M":
        body = bytes([m[1]]) + _kv(m[2], m[3], m[4])
    elif k == "Q":
        body = bytes([m[1]]) + _kv(m[2], m[3], m[4])
    elif k == "A":
        body = struct.pack("<BH", m[1], m[2]) + m[3].encode()
    elif k == "R":
        body = struct.pack("<H", m[1])
    elif k == "D":
        body = struct.pack("<H", m[1]) + m[2]
    elif k == "L":
        body = struct.pack("<BQ", m[1], m[2]) + m[3]
    elif k == "C":
        body = struct.pack("<BHQ", m[1], m[2], m[3]) + m[4]
    elif k == "O":
        body = struct.pack("<H", m[1])
    elif k == "S":
        body = SYNC
    elif k == "U":
        return frame(m[1], m[2])
    elif k == "X":
        return m[1]
    else:
        raise AssertionError(k)
    return frame(ord(k), body)


def encode_header(spec):
    return MAGIC + struct.pack("<BQ", spec["version"], spec["start"])


def encode(spec):
    return encode_header(spec) + b"".join(encode_msg(m) for m in spec["defs"]) + \
        b"".join(encode_msg(m) for m in spec["data"])


def offsets(spec):
    """byte offset of the end of each message: list of (end, section, message)"""
    pos = 16
    res = []
    for section in ("defs", "data"):
        for m in spec[section]:
            pos += len(encode_msg(m))
            res.append((pos, section, m))
    return res


# ----------------------------------------------------------- interpretation
def flatten(formats, name):
    """Flattened fields [(name, type)] of a format, without trailing padding,
    and the number of trailing padding bytes which were dropped"""
    out = []

    def rec(prefix, fmt):
        for t, n, f in formats[fmt]:
            names = [prefix + f] if n == 0 else [prefix + f + "[%d]" % i for i in range(n)]
            for full in names:
                if t in TYPES:
                    out.append((full, t))
                else:
                    rec(full + ".", t)
    rec("", name)
    pad = 0
    while out and out[-1][0].startswith("_padding"):
        pad += TYPES[out.pop()[1]][1]
    return out, pad


def fields_size(fields):
    return sum(TYPES[t][1] for _, t in fields)


def text(b):
    """lenient text decoding (undecodable bytes dropped)"""
    return b.decode("utf-8", "ignore")


def info_value(type_, raw):
    if type_.startswith("char["):
        return text(raw)
    if type_ in TYPES:
        return struct.unpack("<" + TYPES[type_][0], raw)[0]
    return bytes(raw)


class Expect:
    """The meaning of a log"""

    def __init__(self):
        self.version = 0
        self.start = 0
        self.last = 0
        self.compat = [0] * 8
        self.incompat = [0] * 8
        self.info = {}            # key -> (type, raw, value)
        self.multi = {}           # key -> [[value, ...], ...]
        self.multi_types = {}
        self.params = {}
        self.params_raw = {}
        self.defaults = {}        # bit -> {key: value}
        self.changed = []         # (ts, key, value)
        self.formats = {}         # name -> [(type, array, field)]
        self.logged = []          # (level, ts, text)
        self.tagged = {}          # tag -> [(level, ts, text)]
        self.dropouts = []        # (ts, duration)
        self.datasets = {}        # (name, multi) -> Dataset
        self.corrupt = False


class Dataset:
    def __init__(self, name, multi, msg_id, fields, pad):
        self.name, self.multi, self.msg_id = name, multi, msg_id
        self.fields = fields
        self.pad = pad
        self.size = fields_size(fields)
        self.rows = []            # list of payload bytes (self.size each)
        off = 0
        self.where = {}
        self.ts_off = None
        for f, t in fields:
            if f == "timestamp" and self.ts_off is None:
                self.ts_off = off
            self.where[f] = (off, t)
            off += TYPES[t][1]

    def timestamp(self, row):
        return struct.unpack_from("<Q", row, self.ts_off)[0]

    def timestamps(self):
        return [self.timestamp(r) for r in self.rows]

    def columns(self):
        """field -> (type, raw bytes of the column)"""
        res = {}
        off = 0
        for f, t in self.fields:
            n = TYPES[t][1]
            res[f] = (t, b"".join(r[off:off + n] for r in self.rows))
            off += n
        return res

    def values(self, field):
        """python values of a column"""
        off, t = self.where[field]
        code, size, _ = TYPES[t]
        raw = b"".join(r[off:off + size] for r in self.rows)
        if code in "?c":
            code = "b"
        return list(struct.unpack("<%d%s" % (len(raw) // size, code), raw))


def interpret(spec, names=None, sections=None):
    """Meaning of a well-formed log. ``names``: topic filter."""
    e = Expect()
    e.version, e.start = spec["version"], spec["start"]
    e.last = e.start
    subs = {}
    filtered = set()

    def defaults(m):
        for bit in range(8):
            if m[1] >> bit & 1:
                e.defaults.setdefault(bit, {})[m[3]] = info_value(m[2], m[4])

    def multi(m):
        v = info_value(m[2], m[4])
        if m[3] not in e.multi:
            e.multi[m[3]] = [[v]]
            e.multi_types[m[3]] = m[2]
        elif m[1]:
            e.multi[m[3]][-1].append(v)
        else:
            e.multi[m[3]].append([v])

    for m in spec["defs"]:
        k = m[0]
        if k == "B":
            e.compat, e.incompat = list(m[1]), list(m[2])
        elif k == "F":
            e.formats[m[1]] = [tuple(f) for f in m[2]]
        elif k == "I":
            e.info[m[2]] = (m[1], m[3], info_value(m[1], m[3]))
        elif k == "M":
            multi(m)
        elif k == "P":
            e.params[m[2]] = info_value(m[1], m[3])
            e.params_raw[m[2]] = (m[1], m[3])
        elif k == "Q":
            defaults(m)
        else:
            assert k in "US", k
    for m in spec["data"]:
        k = m[0]
        if k == "I":
            e.info[m[2]] = (m[1], m[3], info_value(m[1], m[3]))
        elif k == "M":
            multi(m)
        elif k == "P":
            e.changed.append((e.last, m[2], info_value(m[1], m[3])))
        elif k == "Q":
            defaults(m)
        elif k == "A":
            if names is None or m[3] in names:
                fields, pad = flatten(e.formats, m[3])
                ds = Dataset(m[3], m[1], m[2], fields, pad)
                subs[m[2]] = ds
            else:
                filtered.add(m[2])
                subs.pop(m[2], None)        # appended data uses the id again
        elif k == "D":
            if m[1] in subs:
                ds = subs[m[1]]
                assert ds.size <= len(m[2]) <= ds.size + ds.pad, (ds.size, ds.pad, len(m[2]))
                row = m[2][:ds.size]
                ds.rows.append(row)
                if len(ds.rows) == 1:
                    assert (ds.name, ds.multi) not in e.datasets
                    e.datasets[(ds.name, ds.multi)] = ds
                e.last = max(e.last, ds.timestamp(row))
            else:
                assert m[1] in filtered, m
        elif k == "L":
            e.logged.append((m[1], m[2], text(m[3])))
        elif k == "C":
            e.tagged.setdefault(m[2], []).append((m[1], m[3], text(m[4])))
        elif k == "O":
            e.dropouts.append((e.last, m[1]))
        else:
            assert k in "SRU", k
    return e


# ---------------------------------------------------------------- decoding
class Malformed(Exception):
    pass


KNOWN = set(b"BFIMPQARDLCOS")


def decode(data):
    """Strict decoder: bytes -> spec (raises Malformed). Used on what pyulog
    writes; sections are split at the first A, L or C message."""
    if len(data) < 16 or data[:7] != MAGIC:
        raise Malformed("bad header")
    spec = {"version": data[7], "start": struct.unpack_from("<Q", data, 8)[0],
            "defs": [], "data": []}
    pos = 16
    section = "defs"
    while pos < len(data):
        if pos + 3 > len(data):
            raise Malformed("cut message header at %d" % pos)
        size, kind = struct.unpack_from("<HB", data, pos)
        body = data[pos + 3:pos + 3 + size]
        if len(body) != size:
            raise Malformed("cut message at %d" % pos)
        if kind not in KNOWN:
            raise Malformed("unknown message type %d at %d" % (kind, pos))
        first = pos == 16
        pos += 3 + size
        k = chr(kind)
        if k in "ALC":
            section = "data"
        try:
            m = _decode_body(k, body)
        except (struct.error, IndexError, UnicodeDecodeError, ValueError) as err:
            raise Malformed("bad %s message: %r (%r)" % (k, body, err)) from err
        if k == "B" and not first:
            raise Malformed("flag bits message is not the first message")
        if k == "F" and section == "data":
            raise Malformed("format message in the data section")
        spec[section].append(m)
    return spec


def _kv_split(body):
    n = body[0]
    key = body[1:1 + n]
    if len(key) != n:
        raise ValueError("key longer than message")
    t, k = key.decode("utf-8").split(" ")
    return t, k, body[1 + n:]


def _decode_body(k, body):
    if k == "B":
        if len(body) < 40:
            raise ValueError("short flag bits")
        return ["B", list(body[:8]), list(body[8:16]), list(struct.unpack_from("<3Q", body, 16)), body[40:]]
    if k == "F":
        name, rest = body.decode().split(":")
        fields = []
        for f in rest.split(";"):
            if not f:
                continue
            t, fname = f.split(" ")
            n = 0
            if "[" in t:
                t, n = t[:-1].split("[")
                n = int(n)
                if n <= 0:
                    raise ValueError("array size")
            fields.append([t, n, fname])
        return ["F", name, fields]
    if k in "IP":
        t, key, v = _kv_split(body)
        return [k, t, key, v]
    if k in "MQ":
        t, key, v = _kv_split(body[1:])
        return [k, body[0], t, key, v]
    if k == "A":
        return ["A", body[0], struct.unpack_from("<H", body, 1)[0], body[3:].decode()]
    if k == "R":
        return ["R", struct.unpack("<H", body)[0]]
    if k == "D":
        return ["D", struct.unpack_from("<H", body)[0], body[2:]]
    if k == "L":
        return ["L", body[0], struct.unpack_from("<Q", body, 1)[0], body[9:]]
    if k == "C":
        return ["C", body[0], struct.unpack_from("<H", body, 1)[0], struct.unpack_from("<Q", body, 3)[0], body[11:]]
    if k == "O":
        return ["O", struct.unpack("<H", body)[0]]
    if k == "S":
        if body != SYNC:
            raise ValueError("bad sync")
        return ["S"]
    raise AssertionError(k)


def interpret_written(spec):
    """interpret() of a decoded file that something else has written"""
    try:
        return interpret(spec)
    except (AssertionError, KeyError, struct.error, TypeError, IndexError) as err:
        raise Malformed("inconsistent messages: %r" % (err,)) from err
