"""Run the command line tools inside of the process."""
import contextlib
import io
import os
import sys
import zlib

from . import ulg
from .ulg import TYPES


# the other name of options
LONG = {
    "ulog_params": {"-l": "--delimiter", "-i": "--initial", "-t": "--timestamps", "-f": "--format", "-d": "--default"},
    "ulog2csv": {"-m": "--messages", "-d": "--delimiter", "-o": "--output", "-i": "--ignore", "-ts": "--time_s", "-te": "--time_e"},
    "ulog_info": {"-v": "--verbose", "-m": "--message", "-n": "--newline", "-i": "--ignore"},
    "ulog_messages": {"-i": "--ignore"},
    "ulog_extract_gps_dump": {"-o": "--output", "-x": "--ignore", "-i": "--instance"},
    "ulog2kml": {"-o": "--output", "-i": "--ignore"},
    "ulog2ros2bag": {"-o": "--output", "-m": "--messages", "-i": "--ignore", "-v": "--verbose"},
    "ulog_migratedb": {"-d": "--database", "-n": "--noop", "-s": "--sql", "-f": "--force"},
}


def spell(name, args):
    """args with some options written in their long form (chosen by the arguments themselves)"""
    known = LONG.get(name, {})
    bits = zlib.crc32(" ".join(a for a in args if not a.startswith("/")).encode("utf-8", "surrogateescape"))
    return [known.get(a, a) if bits >> i & 1 else a for i, a in enumerate(args)]


def run(ctx, main, args, name="tool", allow=()):
    """(stdout, exit code) of a console entry point; exceptions are violations"""
    argv, out = sys.argv, io.StringIO()
    args = spell(name, args)
    sys.argv = [name] + list(args)
    code = 0
    try:
        with contextlib.redirect_stdout(out):
            try:
                with ctx.lib("%s %s" % (name, " ".join(args)), allow=(SystemExit,) + tuple(allow)):
                    r = main()
                    code = r if isinstance(r, int) else 0
            except SystemExit as err:
                code = err.code if isinstance(err.code, int) else (0 if err.code is None else 1)
    finally:
        sys.argv = argv
    return out.getvalue(), code


def save_log(ctx, spec, name="log.ulg"):
    path = ctx.path(name)
    with open(path, "wb") as f:
        f.write(ulg.encode(spec))
    return path


def char_groups(fields):
    """[(name, offset, size)] of the char arrays of flattened fields"""
    res, off = [], 0
    for f, t in fields:
        if t == "char" and f.endswith("]"):
            base, idx = f[:-1].rsplit("[", 1)
            if idx == "0":
                res.append([base, off, 1])
            else:
                res[-1][2] += 1
        off += TYPES[t][1]
    return res


def cut_text(text, size):
    """the longest prefix of a text that fits into size bytes"""
    return text.encode()[:size].decode("utf-8", "ignore").encode()


def set_texts(spec, texts, lossy=False):
    """Put texts into all char arrays of the samples"""
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    subs = {m[2]: ulg.flatten(fmts, m[3])[0] for m in spec["data"] if m[0] == "A"}
    k = 0
    data = []
    for m in spec["data"]:
        if m[0] == "D" and m[1] in subs:
            row = bytearray(m[2])
            for _, off, size in char_groups(subs[m[1]]):
                t = texts[k % len(texts)]
                k += 1
                raw = t[:size] if isinstance(t, bytes) else cut_text(t, size)
                if len(raw) < size:
                    raw += b"\0" + bytes(row[off + len(raw) + 1:off + size])
                row[off:off + size] = raw
            m = ["D", m[1], bytes(row)]
        data.append(m)
    return dict(spec, data=data)


def round_times(spec, unit, shift=0):
    """the times of all samples rounded down to a unit, and shifted a little (times stay in order)"""
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    where = {}
    for m in spec["data"]:
        if m[0] == "A":
            off = 0
            for f, t in ulg.flatten(fmts, m[3])[0]:
                if f == "timestamp":
                    where[m[2]] = off
                off += TYPES[t][1]
    data = []
    for m in spec["data"]:
        if m[0] == "D" and m[1] in where:
            row, off = bytearray(m[2]), where[m[1]]
            t = int.from_bytes(row[off:off + 8], "little")
            row[off:off + 8] = max(0, t // unit * unit + shift).to_bytes(8, "little")
            m = ["D", m[1], bytes(row)]
        data.append(m)
    return dict(spec, data=data)


def tree(directory):
    """{relative path: content}"""
    res = {}
    for base, _, names in os.walk(directory):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, directory)] = f.read()
    return res


def set_info(spec, key, type_, raw):
    """spec with exactly one info message of that key (in the definitions), or none if type_ is None"""
    spec = dict(spec, defs=[m for m in spec["defs"] if not (m[0] == "I" and m[2] == key)],
                data=[m for m in spec["data"] if not (m[0] == "I" and m[2] == key)])
    if type_ is not None:
        spec["defs"] = spec["defs"] + [["I", type_, key, raw]]
    return spec


def hms(us):
    s = us // 1000000
    return "%d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
