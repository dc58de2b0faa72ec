"""Comparison of a loaded log with the expectation of the reference model,
through the public API only."""
import math
import struct

import numpy as np

from . import ulg


def same(a, b):
    """value equality, NaN equals NaN, int/float/str/bytes are distinguished"""
    if isinstance(a, (bool, np.bool_)):
        a = int(a)
    if isinstance(b, (bool, np.bool_)):
        b = int(b)
    if isinstance(a, bytearray):
        a = bytes(a)
    if isinstance(b, bytearray):
        b = bytes(b)
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.generic) or isinstance(b, np.generic):
        return type(a) is type(b) and a == b
    for t in (int, float, str, bytes):
        if isinstance(a, t) != isinstance(b, t):
            return False
    return a == b


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def diff_dataset(d, exp, ids=True, nan=False):
    """differences between a pyulog Data object and a model Dataset"""
    out = []
    where = "dataset %s/%d: " % (exp.name, exp.multi)
    if d.name != exp.name or d.multi_id != exp.multi:
        return [where + "is named %s/%s" % (d.name, d.multi_id)]
    if ids and d.msg_id != exp.msg_id:
        out.append(where + "msg_id %r instead of %r" % (d.msg_id, exp.msg_id))
    got = [(f.field_name, f.type_str) for f in d.field_data]
    if got != list(exp.fields):
        out.append(where + "fields %s instead of %s" % (short(got), short(exp.fields)))
    cols = exp.columns()
    if set(d.data) != set(cols):
        out.append(where + "columns %s instead of %s" % (short(sorted(d.data)), short(sorted(cols))))
        return out
    idx = [i for i, (f, _) in enumerate(exp.fields) if f == "timestamp"][0]
    if d.timestamp_idx != idx:
        out.append(where + "timestamp_idx %r instead of %r" % (d.timestamp_idx, idx))
    for f, (t, raw) in cols.items():
        arr = d.data[f]
        want = np.dtype(ulg.TYPES[t][2])
        if arr.dtype.newbyteorder("=") != want:
            out.append(where + "%s has dtype %s instead of %s" % (f, arr.dtype, want))
            continue
        if len(arr) != len(exp.rows):
            out.append(where + "%s has %d samples instead of %d" % (f, len(arr), len(exp.rows)))
            continue
        gotraw = arr.astype(want.newbyteorder("<")).tobytes()
        if nan and want.kind == "f":
            w = np.frombuffer(raw, dtype=want.newbyteorder("<"))
            if np.array_equal(np.isnan(w), np.isnan(arr)):
                ok = ~np.isnan(w)
                if w[ok].tobytes() == arr.astype(want.newbyteorder("<"))[ok].tobytes():
                    continue
        if gotraw != raw:
            n = want.itemsize
            i = next(i for i in range(len(exp.rows)) if gotraw[i * n:(i + 1) * n] != raw[i * n:(i + 1) * n])
            out.append(where + "%s[%d] is %s instead of bytes %s (%s)" % (
                f, i, arr[i], raw[i * n:(i + 1) * n].hex(), t))
    return out


def diff_datasets(ulog, e, ids=True, nan=False):
    out = []
    got = [(d.name, d.multi_id) for d in ulog.data_list]
    want = sorted(e.datasets)
    if got != want:
        out.append("datasets %s instead of %s" % (short(got), short(want)))
        return out
    for d in ulog.data_list:
        out += diff_dataset(d, e.datasets[(d.name, d.multi_id)], ids=ids, nan=nan)
    return out


def absent(e, instances=(0, 1, 2, 3, 128, 255), n=12):
    """datasets that are not in the log, with names like those that are"""
    out = [("no_such_topic", 0), ("", 0)]
    for name, multi in sorted(e.datasets):
        for other in (name, name[:-1], name + "_", name + "_0", name[1:], name.upper(), name.replace("_", "x"), name.title(), "%", name[:3] + "%", name + " "):
            for m in instances[:2] if other != name else instances:
                if (other, m) not in e.datasets and (other, m) not in out:
                    out.append((other, m))
    step = max(1, len(out) // n)
    return out[:2] + out[2::step]


def _d(out, what, got, want):
    if not same(got, want):
        out.append("%s is %s instead of %s" % (what, short(got), short(want)))


LEVELS = {48: "EMERGENCY", 49: "ALERT", 50: "CRITICAL", 51: "ERROR", 52: "WARNING",
          53: "NOTICE", 54: "INFO", 55: "DEBUG"}


def diff_meta(ulog, e, skip=()):
    """Everything except the datasets"""
    out = []
    if "start" not in skip:
        _d(out, "start_timestamp", ulog.start_timestamp, e.start)
    if "last" not in skip:
        _d(out, "last_timestamp", ulog.last_timestamp, e.last)
    _d(out, "msg_info_dict", ulog.msg_info_dict, {k: v[2] for k, v in e.info.items()})
    _d(out, "msg_info_multiple_dict", ulog.msg_info_multiple_dict, e.multi)
    _d(out, "initial_parameters", ulog.initial_parameters, e.params)
    for bit in range(8):
        _d(out, "default parameters %d" % bit, ulog.get_default_parameters(bit), e.defaults.get(bit, {}))
    if "changed" not in skip:
        _d(out, "changed_parameters", [tuple(c) for c in ulog.changed_parameters], e.changed)
    got = {n: [tuple(f) for f in fmt.fields] for n, fmt in ulog.message_formats.items()}
    _d(out, "message_formats", got, e.formats)
    for n, fmt in ulog.message_formats.items():
        if fmt.name != n:
            out.append("format %s is named %s" % (n, fmt.name))
    if "logged" not in skip:
        _d(out, "logged_messages", [(m.log_level, m.timestamp, m.message) for m in ulog.logged_messages], e.logged)
        for m in ulog.logged_messages:
            _d(out, "log level string", m.log_level_str(), LEVELS.get(m.log_level, "UNKNOWN"))
    if "tagged" not in skip:
        _d(out, "logged_messages_tagged",
           {t: [(m.log_level, m.tag, m.timestamp, m.message) for m in ms] for t, ms in ulog.logged_messages_tagged.items()},
           {t: [(l, t, ts, s) for l, ts, s in ms] for t, ms in e.tagged.items()})
        for ms in ulog.logged_messages_tagged.values():
            for m in ms:
                _d(out, "log level string", m.log_level_str(), LEVELS.get(m.log_level, "UNKNOWN"))
    if "dropouts" not in skip:
        _d(out, "dropouts", [(d.timestamp, d.duration) for d in ulog.dropouts], e.dropouts)
    if "flags" not in skip:
        _d(out, "has_default_parameters", bool(ulog.has_default_parameters), bool(e.compat[0] & 1))
    if "flags" not in skip and "appended" not in skip:
        _d(out, "has_data_appended", bool(ulog.has_data_appended), bool(e.incompat[0] & 1))
    if "corrupt" not in skip:
        _d(out, "file_corruption", bool(ulog.file_corruption), e.corrupt)
    return out


def diff(ulog, e, skip=(), ids=True, nan=False):
    return diff_meta(ulog, e, skip) + ([] if "data" in skip else diff_datasets(ulog, e, ids=ids, nan=nan))


def classify(ctx, e):
    """labels for the distribution of the generated logs"""
    ctx.label("has data", bool(e.datasets))
    ctx.label("several datasets", len(e.datasets) > 1)
    ctx.label("several instances of a topic", len({k[0] for k in e.datasets}) < len(e.datasets))
    ctx.label("nested field", any("." in f for d in e.datasets.values() for f, _ in d.fields))
    ctx.label("array field", any("[" in f for d in e.datasets.values() for f, _ in d.fields))
    ctx.label("trailing padding", any(d.pad for d in e.datasets.values()))
    ctx.label("timestamp not the first field", any(d.ts_off for d in e.datasets.values()))
    ctx.label("5+ samples in a dataset", any(len(d.rows) >= 5 for d in e.datasets.values()))
    ctx.label("timestamps out of order", any(d.timestamps() != sorted(d.timestamps()) for d in e.datasets.values()))
    ctx.label("zero timestamp", any(0 in d.timestamps() for d in e.datasets.values()))
    ctx.label("logged message", bool(e.logged))
    ctx.label("tagged message", bool(e.tagged))
    ctx.label("dropout", bool(e.dropouts))
    ctx.label("changed parameter", bool(e.changed))
    ctx.label("default parameter", bool(e.defaults))
    ctx.label("initial parameter", bool(e.params))
    ctx.label("multi info", bool(e.multi))


def snapshot(ulog, data=True):
    """Public content of a log as plain comparable data (for differential
    comparison of two loaded logs)"""
    s = {
        "start": ulog.start_timestamp, "last": ulog.last_timestamp,
        "info": dict(ulog.msg_info_dict),
        "multi": {k: [list(x) for x in v] for k, v in ulog.msg_info_multiple_dict.items()},
        "params": dict(ulog.initial_parameters),
        "defaults": {b: dict(ulog.get_default_parameters(b)) for b in range(8) if ulog.get_default_parameters(b)},
        "changed": [tuple(c) for c in ulog.changed_parameters],
        "formats": {n: [tuple(f) for f in fmt.fields] for n, fmt in ulog.message_formats.items()},
        "logged": [(m.log_level, m.timestamp, m.message) for m in ulog.logged_messages],
        "tagged": {t: [(m.log_level, m.tag, m.timestamp, m.message) for m in ms]
                   for t, ms in ulog.logged_messages_tagged.items()},
        "dropouts": [(d.timestamp, d.duration) for d in ulog.dropouts],
        "has_default_parameters": bool(ulog.has_default_parameters),
        "has_data_appended": bool(ulog.has_data_appended),
        "corrupt": bool(ulog.file_corruption),
    }
    if data:
        s["data"] = [data_snapshot(d) for d in ulog.data_list]
    return s


def data_snapshot(d):
    return (d.name, d.multi_id, d.msg_id, d.timestamp_idx,
            [(f.field_name, f.type_str) for f in d.field_data],
            {k: (str(v.dtype.newbyteorder("<")), v.astype(v.dtype.newbyteorder("<")).tobytes()) for k, v in d.data.items()})


def snap_diff(a, b, skip=()):
    out = []
    for k in a:
        if k not in skip and not same(a[k], b[k]):
            out.append("%s: %s versus %s" % (k, short(a[k], 500), short(b[k], 500)))
    return out


def pack_value(type_, value):
    """raw bytes of an info value"""
    if isinstance(value, str):
        return value.encode()
    if isinstance(value, (bytes, bytearray)):
        return bytes(value)
    return struct.pack("<" + ulg.TYPES[type_][0], value)
