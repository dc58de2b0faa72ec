"""Hypothesis strategies for well-formed ULog files (as specs of vp.ulg)."""
import random
import struct

from hypothesis import strategies as st

from . import ulg
from .ulg import TYPES

BASIC = sorted(TYPES)
SCALARS = BASIC

TOPIC_NAMES = ["vehicle_status", "vehicle_attitude", "sensor", "sensor_accel", "sensor_accel_s",
               "a", "ab", "a/b", "event", "b", "esc_status", "z9", "sensor_gyro", "vehicle_local_position", "Sensor", "sensorXaccel", "B"]
#: a pattern match, a comparison without case or of a part takes one for the other
ALIKE = [["sensor", "Sensor"], ["sensor_accel", "sensorXaccel"], ["b", "B"], ["a", "ab"], ["sensor_accel", "sensor_accel_s"], ["ab", "a/b"]]
NESTED_NAMES = ["esc_report", "nested_t", "vec3", "sub"]
FIELD_NAMES = ["x", "y", "lat", "lon", "len", "data", "value", "timestamp_sample", "q", "id",
               "name", "x1", "flags", "seq", "m_time", "temperature_celsius", "f", "state", "X", "Lat", "F"]
INFO_KEYS = ["sys_name", "ver_hw", "ver_sw", "ver_sw_release", "perf_counter_preflight-00", "perf_x",
             "time_ref_utc", "sys_uuid", "k", "replay", "boot_console", "metadata_x", "x_perf_y", "clé", "日本", "K", "ver_hW", "verXhw"]
MULTI_KEYS = ["perf_top", "hardfault_plain", "metadata", "mk", "mü", "MK"]
PARAM_NAMES = ["MAV_TYPE", "SYS_AUTOSTART", "A", "A1", "MC_ROLL_P", "RC_MAP_ROLL", "RC_MAP_YAW",
               "SYS_MC_EST_GROUP", "Z", "EKF2_GPS_DELAY", "BAT1_V", "PÄR_É", "a1", "z"]

#: fields that are not the timestamp although they look like it
DECOYS = ["utc_timestamp", "timestamp_last", "mytimestamp", "_timestamp", "Timestamp", "time"]

MULTI_IDS = [0, 1, 2, 3, 9, 10, 127, 128, 255]
MSG_IDS = [0, 1, 2, 3, 4, 5, 10, 11, 12, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535]

SPECIAL = {
    "float": [struct.pack("<f", v) for v in (float("nan"), float("inf"), float("-inf"), -0.0, 1.5, 0.1,
                                             3.4028234663852886e38, 1e-45, 16777217.0, -123456.789)],
    "double": [struct.pack("<d", v) for v in (float("nan"), float("inf"), float("-inf"), -0.0, 0.1,
                                              1.7976931348623157e308, 5e-324, 9007199254740993.0, -1e-7)],
}
for _t, (_c, _n, _) in TYPES.items():
    if _t not in SPECIAL:
        if _t == "bool":
            SPECIAL[_t] = [b"\0", b"\1"]
        else:
            SPECIAL[_t] = [b"\xff" * _n, b"\0" * _n, b"\xff" * (_n - 1) + b"\x7f", b"\0" * (_n - 1) + b"\x80",
                           b"\x01" + b"\0" * (_n - 1), (b"\x41\x42\x43\x44\x45\x46\x47\x48")[:_n]]


def small(n):
    return st.integers(0, n)


TEXT_POOL = ["", "ok", "[sensors] no barometer found on /dev/baro0 (2)", "tab\t", "ünïcödé", "日本語テキスト", "😀 emoji",
             "nul\0inside", "line\nbreak", 'q"uote,semi;colon', " lead and trail ", "\t", "x" * 130, "a,b", "None", "0", "nan", "1e5", "007", "3.0", "-inf", "\ufeffbom", "cr\r\n", "e\u0301", "{}", "%s %d", "\\n", "long " * 51 + "!", "ü" * 700]


def texts(lossy=False, allow_empty=True):
    opts = [st.sampled_from([t for t in TEXT_POOL if t or allow_empty]).map(lambda s: s.encode()),
            st.text(st.characters(codec="utf-8"), min_size=0 if allow_empty else 1, max_size=10).map(lambda s: s.encode())]
    if lossy:
        opts.append(st.tuples(st.binary(max_size=6), st.sampled_from([b"\xff", b"\xc3", b"\x80abc", b"\xe2\x82", b"ab\xf0\x9f"]),
                              st.sampled_from([b"", b"z", b"tail", "é".encode()])).map(b"".join))
    return st.one_of(opts)


def bools(raw):
    return bytes(b & 1 for b in raw)


def scalar_raw(t, nan=True):
    n = TYPES[t][1]
    sp = SPECIAL[t]
    if not nan and t in ("float", "double"):
        sp = [s for s in sp if s != struct.pack("<" + TYPES[t][0], float("nan"))]
    base = st.one_of(st.sampled_from(sp), st.binary(min_size=n, max_size=n))
    if t == "bool":
        return base.map(bools)
    if t in ("float", "double") and not nan:
        code = "<" + TYPES[t][0]

        def fix(b):
            v = struct.unpack(code, b)[0]
            return b if v == v else struct.pack(code, 1.25)
        return base.map(fix)
    return base


@st.composite
def kv_value(draw, cfg, t=None):
    """(type, raw value) of an info message"""
    if t is None:
        t = draw(st.one_of(
            st.just("char["), st.sampled_from(SCALARS), st.sampled_from(["uint8_t[", "float[", "int32_t[", "bool[", "uint64_t["])))
    if t.endswith("["):
        base = t[:-1]
        if base == "char":
            raw = draw(texts(lossy=cfg.get("lossy", False)))
            return "char[%d]" % len(raw), raw
        n = draw(st.integers(1, 5))
        raw = draw(st.binary(min_size=n * TYPES[base][1], max_size=n * TYPES[base][1]))
        if base == "bool":
            raw = bools(raw)
        return "%s[%d]" % (base, n), raw
    raw = draw(scalar_raw(t, nan=cfg.get("nan_kv", False)))
    if cfg.get("ts_bits", 64) < 64 and t == "uint64_t":
        raw = raw[:7] + bytes([raw[7] & 0x7F])
    return t, raw


@st.composite
def formats(draw, cfg):
    """dict-like list of formats: nested ones and topics. Returns
    (list of [name, fields], list of topic names)"""
    fmts = {}
    nested = []
    sizes = {}
    maxsize = cfg.get("max_row", 400)

    def body(name, is_topic, avail):
        nf = draw(st.integers(1, cfg.get("max_fields", 6)))
        names = draw(st.lists(st.sampled_from(FIELD_NAMES), min_size=nf, max_size=nf, unique=True))
        fields = []
        size = 8
        for fname in names:
            if avail and draw(small(3)) == 0:
                t = draw(st.sampled_from(avail))
                n = draw(st.sampled_from([0, 0, 1, 2, 3]))
            else:
                t = draw(st.sampled_from(BASIC if draw(small(2)) else ["char", "float", "bool", "uint8_t"]))
                n = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 11] + ([25, 120] if cfg.get("big_arrays") else [])))
            s = (sizes[t] if t in sizes else TYPES[t][1]) * max(1, n)
            if size + s > maxsize:
                continue
            size += s
            fields.append([t, n, fname])
        pads = 0
        if draw(small(3)) == 0:     # padding somewhere in the middle
            pos = draw(st.integers(0, len(fields)))
            fields.insert(pos, ["uint8_t", draw(st.sampled_from([0, 1, 3, 7])), "_padding0"])
            pads = 1
        if is_topic:
            pos = 0 if draw(small(2)) else draw(st.integers(0, len(fields)))
            fields.insert(pos, ["uint64_t", 0, "timestamp"])
            if draw(small(5)) == 0:
                pos = draw(st.sampled_from([0, pos, pos + 1]))
                fields.insert(pos, [draw(st.sampled_from(["uint64_t", "uint64_t", "uint32_t", "double"])), 0, draw(st.sampled_from(DECOYS))])
        elif draw(small(3)) == 0:   # a nested timestamp is an ordinary field
            fields.insert(draw(st.integers(0, len(fields))), ["uint64_t", 0, "timestamp"])
        if is_topic and draw(small(2)) == 0:
            for i in range(draw(st.integers(1, 2))):
                fields.append(["uint8_t", draw(st.sampled_from([0, 1, 2, 5])), "_padding%d" % (pads + i)])
        if not is_topic and draw(small(7)) == 0:
            fields = []
        elif not fields:
            fields.append(["uint8_t", 0, "x"])
        if not is_topic and draw(small(3)) == 0:    # padding of a nested type is logged, also at the end of the topic
            fields.append(["uint8_t", draw(st.sampled_from([1, 2, 5])), "_padding%d" % pads])
        return fields

    if cfg.get("nested", True):
        for nname in NESTED_NAMES[:draw(small(3))]:
            fmts[nname] = body(nname, False, list(nested))
            nested.append(nname)
            flat, _ = ulg.flatten({k: [tuple(f) for f in v] for k, v in fmts.items()}, nname)
            sizes[nname] = ulg.fields_size(flat)
    ntop = draw(st.integers(cfg.get("min_topics", 1), cfg.get("max_topics", 4)))
    if cfg.get("topic_names"):
        topics = draw(st.lists(st.sampled_from(cfg["topic_names"]), min_size=ntop, max_size=ntop, unique=True))
    else:
        topics = draw(st.lists(st.sampled_from(TOPIC_NAMES), min_size=ntop, max_size=ntop, unique=True))
        if ntop > 1 and draw(small(3)) == 0:
            pair = draw(st.permutations(draw(st.sampled_from(ALIKE))))
            topics = pair + [t for t in topics if t not in pair][:ntop - 2]
    for t in topics:
        fmts[t] = body(t, True, list(nested))
    if len(topics) > 1 and (cfg.get("twins") or draw(small(3)) == 0):
        # twins: the same fields with another padding, order, or type of the same size
        src, dst = draw(st.permutations(topics))[:2]
        twin = [list(f) for f in fmts[src]]
        kind = draw(small(2))
        while twin[-1][2].startswith("_padding") and kind == 0:
            twin.pop()
        if kind == 0:
            pads = sum(f[2].startswith("_padding") for f in twin)
            twin.extend([["uint8_t", draw(st.sampled_from([3, 1, 0])), "_padding%d" % pads]] * draw(st.sampled_from([1, 1, 0])))
        elif kind == 1:
            swap = {"float": "int32_t", "int32_t": "float", "uint32_t": "int32_t", "double": "int64_t", "uint8_t": "int8_t", "int8_t": "bool",
                    "bool": "char", "char": "uint8_t", "int16_t": "uint16_t", "uint16_t": "int16_t", "int64_t": "double"}
            for f in twin:
                if f[2] not in ("timestamp",) and not f[2].startswith("_padding"):
                    f[0] = swap.get(f[0], f[0])
        fmts[dst] = twin
    order = list(fmts)
    if len(order) > 1:
        order = draw(st.permutations(order))
    return [[n, fmts[n]] for n in order], topics


def patch_row(fields, raw, ts, specials, ascii_chars=False):
    """Make raw bytes a legal sample: timestamp, bools, special values"""
    raw = bytearray(raw)
    off = 0
    offs = []
    for f, t in fields:
        offs.append((off, f, t))
        off += TYPES[t][1]
    for idx, sp in specials:
        o, f, t = offs[idx % len(offs)]
        v = SPECIAL[t][sp % len(SPECIAL[t])]
        raw[o:o + len(v)] = v
    seen = False
    for o, f, t in offs:
        if t == "bool":
            raw[o] &= 1
        elif t == "char" and ascii_chars:
            raw[o] &= 0x7F
        if f == "timestamp" and not seen:
            seen = True
            raw[o:o + 8] = struct.pack("<Q", ts)
    return bytes(raw)


@st.composite
def sample_row(draw, fields, ts, cfg):
    size = ulg.fields_size(fields)
    mode = draw(small(5))
    if mode == 0:
        raw = b"\0" * size
    elif mode == 1:
        raw = b"\xff" * size
    elif size <= 64:
        raw = draw(st.binary(min_size=size, max_size=size))
    else:
        chunk = draw(st.binary(min_size=61, max_size=61))
        raw = (chunk * (size // 61 + 1))[:size]
    specials = draw(st.lists(st.tuples(small(40), small(9)), max_size=3)) if mode != 1 else []
    return patch_row(fields, raw, ts, specials, cfg.get("ascii_chars", False))


def clamp_ts(ts, bits):
    return max(0, min(ts, (1 << bits) - 1))


class Clock:
    """timestamp source. mode: 'any' (jumps back, zero), 'mono' (non decreasing)"""

    def __init__(self, start, cfg):
        self.t = start
        self.cfg = cfg
        self.bits = cfg.get("ts_bits", 64)

    def next(self, draw):
        mode = self.cfg.get("ts", "any")
        k = draw(small(9))
        if mode == "any" and k == 9:
            return draw(st.sampled_from([0, 1, clamp_ts(self.t - 1, self.bits), clamp_ts(self.t - 1000000, self.bits)]))
        if mode == "any" and k == 8 and draw(small(3)) == 0:
            self.t = clamp_ts(draw(st.sampled_from([(1 << self.bits) - 1, (1 << (self.bits - 1)), (1 << 53) + 1, (1 << 32)])), self.bits)
            return self.t
        step = [0, 0, 1, 1000, 4000, 20000, 250000, 1000000, 999999][min(k, 8)]
        self.t = clamp_ts(self.t + step, self.bits)
        return self.t


START_TS = [0, 1, 1000000, 112574307, 1500000000, (1 << 32) - 1, 1 << 32, 1710773350346000, (1 << 53) + 3]


@st.composite
def flag_bits(draw, cfg):
    compat = [draw(st.sampled_from([0, 1, 1, 2, 255]))] + [draw(st.sampled_from([0, 0, 7, 128, 255]))] * 7
    return ["B", compat, [0] * 8, [0, 0, 0], draw(st.sampled_from([b"", b"", b"", b"\1\2\3\4" if cfg.get("flag_extra", True) else b""]))]


@st.composite
def info_msg(draw, cfg):
    t, raw = draw(kv_value(cfg))
    return ["I", t, draw(st.sampled_from(INFO_KEYS)), raw]


@st.composite
def multi_msg(draw, cfg):
    key = draw(st.sampled_from(MULTI_KEYS))
    # one type per key: first letters decide
    kinds = cfg.get("multi_types", {"perf_top": "char[", "hardfault_plain": "char[", "metadata": "uint8_t[", "mk": "char[", "mü": "char[", "MK": "char["})
    t, raw = draw(kv_value(cfg, t=kinds[key]))
    return ["M", draw(st.sampled_from([0, 1, 1])), t, key, raw]


@st.composite
def param_msg(draw, cfg, names=None):
    t = draw(st.sampled_from(["int32_t", "float"]))
    return ["P", t, draw(st.sampled_from(names or PARAM_NAMES)), draw(scalar_raw(t, nan=cfg.get("nan_kv", False)))]


@st.composite
def default_msg(draw, cfg):
    t = draw(st.sampled_from(["int32_t", "float"]))
    return ["Q", draw(st.sampled_from(cfg.get("default_bits", [1, 2, 3]))), t, draw(st.sampled_from(PARAM_NAMES)),
            draw(scalar_raw(t, nan=cfg.get("nan_kv", False)))]


UNKNOWN_KINDS = [c for c in (1, 10, 32, 66 + 3, 71, 72, 74, 84, 90, 98, 100, 200, 255) if c not in ulg.KNOWN]


@st.composite
def unknown_msg(draw):
    n = draw(st.sampled_from([1, 2, 3, 7, 8, 9, 20, 600]))
    b = draw(st.binary(min_size=min(n, 9), max_size=min(n, 9)))
    payload = (b * (n // len(b) + 1))[:n]
    # a sync sequence inside would mean that the message is a corrupt one
    return ["U", draw(st.sampled_from(UNKNOWN_KINDS)), payload.replace(ulg.SYNC[:2], b"//")]


LOG_LEVELS = [48, 49, 50, 51, 52, 53, 54, 55, 56, 0, 255, 0xb0, 0xb6, 0x76, 47]


@st.composite
def logs(draw, **cfg):
    """A well-formed log."""
    start = draw(st.sampled_from(cfg.get("starts", START_TS)))
    bits = cfg.get("ts_bits", 64)
    start = clamp_ts(start, bits)
    spec = {"version": draw(st.sampled_from(cfg.get("versions", [1, 1, 0]))), "start": start, "defs": [], "data": []}
    defs, data = spec["defs"], spec["data"]
    fmts, topics = draw(formats(cfg))
    fdict = {n: [tuple(f) for f in fs] for n, fs in fmts}

    defs_mid = [["F", n, fs] for n, fs in fmts]
    for kind in draw(st.lists(st.sampled_from("IIMMPPPPQQ" + ("U" if cfg.get("unknown", True) else "")),
                              max_size=cfg.get("max_defs", 8))):
        if kind == "I":
            m = draw(info_msg(cfg))
        elif kind == "M":
            m = draw(multi_msg(cfg))
        elif kind == "P":
            m = draw(param_msg(cfg))
        elif kind == "Q":
            m = draw(default_msg(cfg))
        else:
            m = draw(unknown_msg())
        defs_mid.insert(draw(st.integers(0, len(defs_mid))), m)
    if draw(small(3)):
        defs.append(draw(flag_bits(cfg)))
    defs.extend(defs_mid)

    # subscriptions
    cand = [(t, mid) for t in topics for mid in MULTI_IDS]
    nsub = draw(st.integers(cfg.get("min_subs", 1), cfg.get("max_subs", 5)))
    pairs = draw(st.lists(st.sampled_from(cand), min_size=nsub, max_size=nsub, unique=True))
    if cfg.get("pairs"):
        pairs = draw(cfg["pairs"](topics))
    ids = draw(st.lists(st.sampled_from(MSG_IDS), min_size=len(pairs), max_size=len(pairs), unique=True))
    pending = [["A", mid, i, t] for (t, mid), i in zip(pairs, ids)]
    upfront = draw(st.integers(cfg.get("min_upfront", 0), len(pending)))
    active = []
    dropped = set()

    def subscribe(m):
        data.append(m)
        active.append((m[2], flat[m[3]]))

    flat = {t: ulg.flatten(fdict, t) for t in topics}
    for m in pending[:upfront]:
        subscribe(m)
    pending = pending[upfront:]
    clock = Clock(start, cfg)
    base = draw(st.sampled_from(cfg.get("n_ops", [0, 6, 12, 20])))
    ops = draw(st.lists(st.sampled_from(cfg.get("ops", "DDDDDDDDDDLLCOOPQIMSRUA")), min_size=base, max_size=base + 6))
    if not data and not (ops and ops[0] in "LC"):
        if pending:
            subscribe(pending.pop(0))
        else:
            ops = ["L"] + ops
    for op in ops:
        if op == "U" and not cfg.get("unknown", True):
            op = "S"
        if op == "D":
            if not active:
                if not pending:
                    continue
                subscribe(pending.pop(0))
            mid, (fields, pad) = active[draw(st.integers(0, len(active) - 1))]
            row = draw(sample_row(fields, clock.next(draw), cfg))
            if pad and cfg.get("padded_rows", True) and draw(small(3)) == 0:
                row += b"\xaa" * draw(st.integers(1, pad))
            data.append(["D", mid, row])
        elif op == "A":
            if pending:
                subscribe(pending.pop(0))
        elif op == "L":
            data.append(["L", draw(st.sampled_from(LOG_LEVELS)), clock.next(draw), draw(texts(cfg.get("lossy", False), cfg.get("empty_text", True)))])
        elif op == "C":
            data.append(["C", draw(st.sampled_from(LOG_LEVELS)), draw(st.sampled_from([7, 7, 7, 0, 1, 2, 300, 65535])), clock.next(draw),
                         draw(texts(cfg.get("lossy", False), cfg.get("empty_text", True)))])
        elif op == "O":
            data.append(["O", draw(st.sampled_from([0, 1, 62, 255, 256, 65535]))])
        elif op == "P":
            data.append(draw(param_msg(cfg)))
        elif op == "Q":
            data.append(draw(default_msg(cfg)))
        elif op == "I":
            data.append(draw(info_msg(cfg)))
        elif op == "M":
            data.append(draw(multi_msg(cfg)))
        elif op == "S":
            data.append(["S"])
        elif op == "R":
            if len(active) > 1 and active[-1][0] not in dropped:
                data.append(["R", active[-1][0]])
                active.pop()
        elif op == "U":
            data.append(draw(unknown_msg()))
    return spec


@st.composite
def long_logs(draw, n=(20000, 70000), **cfg):
    """[spec, number of samples, seed, mono]: to be expanded by lengthen()"""
    spec = draw(logs(**dict(dict(max_topics=3, max_fields=3, max_subs=4, min_subs=1, n_ops=[6], max_row=60, min_upfront=1, starts=[0, 1000000, 112574307],
                                 ts_bits=52, ts="mono", ops="DDDDLCPIMO"), **cfg)))
    return [spec, draw(st.integers(*n)), draw(st.integers(0, 2**32)), draw(st.booleans())]


def lengthen(case):
    """the spec with many more samples (pseudo random, from the numbers of the case)"""
    spec, n, seed, mono = case
    rng = random.Random(seed)
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    subs = []
    for m in spec["data"]:
        if m[0] == "A":
            fields, _ = ulg.flatten(fmts, m[3])
            subs.append((m[2], fields, ulg.fields_size(fields)))
    if not subs:
        return spec
    more = []
    t = spec["start"] + 50000000
    # a few rows of each topic are used again and again with new times
    rows = [[patch_row(f, rng.randbytes(size), 0, []) for _ in range(7)] for _, f, size in subs]
    offs = []
    for _, fields, _ in subs:
        o = 0
        for f, ty in fields:
            if f == "timestamp":
                break
            o += TYPES[ty][1]
        offs.append(o)
    burst = 1
    i = 0
    while i < n:
        k = rng.randrange(len(subs))
        burst = rng.choice([1, 1, 1, 2, 50])
        for _ in range(burst):
            t += rng.choice([0, 1, 4000, 20000])
            row, o = rng.choice(rows[k]), offs[k]
            ts = t if mono or rng.random() > 0.01 else max(0, t - rng.randrange(10**6))
            more.append(["D", subs[k][0], row[:o] + struct.pack("<Q", ts) + row[o + 8:]])
            i += 1
        if rng.random() < 0.01:
            more.append(rng.choice([["L", 54, t, b"text %d" % i], ["O", i & 255], ["S"], ["C", 54, 7, t, b"tagged %d" % i],
                                    ["P", "int32_t", "A1", struct.pack("<i", i)]]))
    return dict(spec, data=spec["data"] + more)


@st.composite
def dense_logs(draw, **cfg):
    """[spec, number of messages, seed, kinds]: to be expanded by densify()"""
    spec = draw(logs(**dict(dict(max_topics=2, max_fields=3, max_subs=3, min_subs=1, n_ops=[0], max_defs=0, max_row=60, min_upfront=1,
                                 starts=[0, 1000000, 112574307], ts_bits=52, ts="mono", ops="S"), **cfg)))
    n = draw(st.one_of(st.integers(60, 600), st.sampled_from(AROUND), st.sampled_from(AROUND)))
    kinds = draw(st.sampled_from(["LCOPIMQD", "LCOPIMQD", "LCOPIMQD", "LD", "CO", "PQ", "IM", "CL"]))
    return [spec, n, draw(st.integers(0, 2**32)), kinds]


def with_dense(cases, kinds):
    """[case, number, seed, kinds] for a check whose case starts with a spec: see densified()"""
    return st.tuples(cases, st.one_of(st.integers(60, 300), st.sampled_from(AROUND)), st.integers(0, 2**32), st.just(kinds)).map(list)


ROWS = [65537, 10001, 32769, 4097, 8193, 1025, 65537, 70001]


def with_rows(cases):
    """[case, number, seed, "D"] for densified(): many samples of one topic"""
    return st.tuples(cases, st.sampled_from(ROWS), st.integers(0, 2**32), st.just("D")).map(list)


def densified(case):
    """the case, with the many messages added to its log"""
    inner, n, seed, kinds = case
    return [densify([inner[0], n, seed, kinds]), *inner[1:]]


AROUND = sorted({c + d for c in (64, 100, 128, 200, 256, 500, 512, 1000, 1024) for d in (-1, 0, 1, 2)} | {999, 1999, 2001})


def densify(case):
    """the spec with exactly n messages of each of the kinds (pseudo random, from the numbers of the case)"""
    spec, n, seed, kinds = case
    if len(kinds) > 2:
        n = min(n, 1030)
    rng = random.Random(seed)
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    subs = [(m[2], ulg.flatten(fmts, m[3])[0]) for m in spec["data"] if m[0] == "A"][:1]
    t = spec["start"] + 50000000
    defs, data = [], []
    todo = [k for k in kinds for _ in range(n)]
    if rng.random() < 0.8:
        rng.shuffle(todo)
    fixed = rng.choice([None, defs, data])
    i = 0
    for k in todo:
        i += 1
        t += rng.choice([0, 1, 4000, 20000])
        text = b"%d " % i + rng.choice([b"", b"text", "\u00fc".encode(), b"a longer text, " * 5])
        val = rng.choice([["int32_t", struct.pack("<i", i)], ["float", struct.pack("<f", i / 4)]])
        where = fixed if fixed is not None else rng.choice([defs, data])
        if k == "D" and subs:
            mid, fields = rng.choice(subs)
            data.append(["D", mid, patch_row(fields, rng.randbytes(ulg.fields_size(fields)), t, [])])
        elif k == "L":
            data.append(["L", 48 + rng.randrange(8), t, text])
        elif k == "C":
            data.append(["C", 48 + rng.randrange(8), 7, t, text])
            if rng.random() < 0.05:
                data.append(["C", 48 + rng.randrange(8), rng.choice([0, 1, i]), t, text])
        elif k == "O":
            data.append(["O", rng.randrange(65536)])
        elif k == "P":
            data.append(["P", val[0], val[0][0].upper() + "_%d" % (i if rng.random() < .5 else i % 5), val[1]])
            defs.append(["P", val[0], val[0][0].upper() + "_%d" % i, val[1]])
        elif k == "Q":
            where.append(["Q", 3 if rng.random() < 0.05 else 1, val[0], val[0][0].upper() + "_%d" % i, val[1]])
        elif k == "I":
            where.append(rng.choice([["I", val[0], "info_%d" % i, val[1]], ["I", "char[%d]" % len(text), "text_%d" % i, text]]))
        elif k == "M":
            where.append(["M", rng.choice([0, 1]) if fixed is None else seed & 1, "char[%d]" % len(text), "dense", text])
            if rng.random() < 0.05:
                where.append(["M", rng.choice([0, 1]), "char[%d]" % len(text), "dense_2", text])
    return dict(spec, defs=spec["defs"] + defs, data=spec["data"] + data)


SIZES = sorted({c + d for c in (127, 255, 511, 1000, 1023, 2047, 4095, 8191, 10000, 16383, 32767, 65000) for d in (-1, 0, 1, 2)} | {65500, 65533})
FEATURES = ["row", "string", "text", "value", "key", "subscriptions", "formats", "fields", "deep", "elements"]


def size_of(features):
    """a feature and how far it goes: the numbers near which an implementation may have a limit"""
    return st.tuples(st.sampled_from(features), st.one_of(st.sampled_from(SIZES), st.sampled_from(SIZES), st.integers(1, 65533)), st.integers(0, 2**32))


@st.composite
def large_logs(draw, features=FEATURES, **cfg):
    """[spec, feature, size, seed]: to be expanded by enlarge()"""
    spec = draw(logs(**dict(dict(max_topics=2, max_fields=3, max_subs=3, min_subs=1, n_ops=[0, 6], max_defs=3, max_row=60, min_upfront=1,
                                 starts=[0, 1000000, 112574307], ts_bits=52, ts="mono"), **cfg)))
    return [spec, *draw(size_of(features))]


def with_large(cases, features):
    """[case, feature, size, seed] for a check whose case starts with a spec: see enlarged()"""
    return st.tuples(cases, size_of(features)).map(lambda c: [c[0], *c[1]])


def enlarged(case):
    """the case, with something large in its log"""
    inner, feature, n, seed = case
    return [enlarge([inner[0], feature, n, seed]), *inner[1:]]


def enlarge(case):
    """the spec with one feature of about the size n (pseudo random, from the numbers of the case): a row, text or value of n bytes,
    names of up to n characters, n subscriptions, formats, fields, levels of nesting or elements of a nested array"""
    spec, feature, n, seed = case
    rng = random.Random(seed)
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    taken = {m[2] for m in spec["data"] if m[0] == "A"}
    free = [i for i in range(65536) if i not in taken]
    t = spec["start"] + 50000000
    defs, data = [], []
    long_text = (b"%d " % n + rng.choice(["text ", "\u00fc", "\u20ac5,"]).encode() * n)

    def string(size):
        return long_text[:size].decode("utf-8", "ignore").encode()

    def name(prefix, size):
        return (prefix + "".join(rng.choice("abcdefgh_0123456789") for _ in range(size)))[:max(1, size)]

    def topic(name, fields, rows=3, multi=0, msg_id=None):
        """its format, a subscription and rows"""
        nonlocal t
        if name not in fmts:
            fmts[name] = [tuple(f) for f in fields]
            defs.append(["F", name, [list(f) for f in fields]])
        if rows is None:
            return
        if msg_id is None:
            msg_id = free.pop(rng.choice([0, -1, rng.randrange(len(free))]))
        data.append(["A", multi, msg_id, name])
        flat, _ = ulg.flatten(fmts, name)
        for _ in range(rows):
            t += rng.choice([0, 1, 4000])
            data.append(["D", msg_id, patch_row(flat, rng.randbytes(ulg.fields_size(flat)), t, [])])

    if feature == "row":
        n = max(8, min(n, 65533))
        kind = rng.choice(["double", "double", "uint64_t", "int64_t"] if n > 9000 else ["float", "double", "uint16_t", "char", "uint64_t"])
        count = max(1, (n - 8) // TYPES[kind][1])
        rest = n - 8 - count * TYPES[kind][1]
        fields = [["uint64_t", 0, "timestamp"], [kind, count, "block"]] + [["uint8_t", 0, "rest%d" % i] for i in range(max(0, rest))]
        if count == 1 and n < 16:
            fields = fields[:1]
        if rng.random() < .5:
            fields.append(fields.pop(0))
        topic("large_topic", fields, rng.choice([1, 3]))
    elif feature == "string":
        n = min(n, 200 + n % 9000)
        fields = [["uint64_t", 0, "timestamp"], ["char", n, "string"], ["char", 5, "short"], ["int8_t", 0, "last"]]
        topic("large_string", fields[:4 - rng.randrange(3)])
    elif feature == "text":
        data += [["L", 54, t + 1, string(min(n, 65526))], ["C", 53, 9, t + 2, string(min(n, 65524))]]
    elif feature == "value":
        s = string(min(n, 65000))
        raw = rng.randbytes(min(n, 65000))
        where = rng.choice([defs, data])
        where += [["I", "char[%d]" % len(s), "large_text", s], ["I", "uint8_t[%d]" % len(raw), "large_value", raw],
                  ["M", 0, "char[%d]" % len(s), "large_multi", s], ["M", 1, "char[%d]" % len(s), "large_multi", s]]
    elif feature == "key":
        n = min(n, 200 + n % 43)
        k = name("K", n)
        defs += [["I", "int32_t", k, struct.pack("<i", n)], ["P", "int32_t", name("P", min(n, 240)), struct.pack("<i", n)],
                 ["Q", 1, "float", name("Q", min(n, 240)), struct.pack("<f", n)], ["M", 0, "char[5]", name("M", min(n, 200)), b"multi"]]
        data.append(["P", "int32_t", name("P", min(n, 240)), struct.pack("<i", -n)])
        topic(name("n_", n), [["uint64_t", 0, "timestamp"], ["int8_t", 0, name("f", n)], ["uint8_t", 2, name("g", n)]])
    elif feature == "subscriptions":
        n = min(n, 300 + n % 230)
        used = {(m[3], m[1]) for m in spec["data"] if m[0] == "A"}
        pairs = [(t_, i) for t_ in ("many_a", "many_b", "many_c") for i in range(256) if (t_, i) not in used]
        rng.shuffle(pairs)
        base = rng.choice([0, 0, 200, 32000, 65000])
        order = [i for i in free if i >= base] + [i for i in free if i < base]
        free[:] = order
        fields = {"many_a": [["uint64_t", 0, "timestamp"], ["uint8_t", 0, "x"]], "many_b": [["float", 0, "y"], ["uint64_t", 0, "timestamp"]],
                  "many_c": [["uint64_t", 0, "timestamp"]]}
        for t_, i in pairs[:n]:
            topic(t_, fields[t_], rng.choice([0, 1, 1, 2]), i, free.pop(0))
    elif feature == "formats":
        n = min(n, 300 + n % 230)
        for i in range(n):
            topic("fmt_%d" % i, [["uint64_t", 0, "timestamp"], [rng.choice(BASIC), rng.choice([0, 0, 2]), "x"]],
                  rng.choice([1, 2]) if i in (0, 1, 254, 255, 256, n - 1) else None)
    elif feature == "fields":
        n = min(n, 300 + n % 230)
        fields = [[rng.choice(BASIC), 0, "f%d" % i] for i in range(n)]
        fields.insert(rng.choice([0, len(fields), rng.randrange(len(fields) + 1)]), ["uint64_t", 0, "timestamp"])
        topic("many_fields", fields)
    elif feature == "deep":
        n = 2 + n % 24
        below = None
        for i in range(n):
            fields = [[rng.choice(BASIC), rng.choice([0, 0, 2]), "v"]]
            if below:
                fields.insert(rng.randrange(2), [below, 0 if i > 3 else rng.choice([0, 2]), "n"])
            below = "level_%d" % i
            topic(below, fields, None)
        topic("deep_topic", [["uint64_t", 0, "timestamp"], [below, 0, "top"], ["int16_t", 0, "last"]])
    elif feature == "elements":
        n = min(n, 300 + n % 230)
        topic("element", [["int16_t", 0, "v"], ["uint8_t", rng.choice([0, 2]), "w"]], None)
        topic("many_elements", [["uint64_t", 0, "timestamp"], ["element", n, "e"], ["int16_t", 0, "last"]])
    if rng.random() < .5:
        rng.shuffle(defs)
    data.append(["L", 54, t + 3, b"after the large one"])
    pos = rng.choice([0, len(spec["defs"])])
    if spec["defs"] and spec["defs"][0][0] == "B":
        pos = max(1, pos)
    return dict(spec, defs=spec["defs"][:pos] + defs + spec["defs"][pos:], data=spec["data"] + data)
