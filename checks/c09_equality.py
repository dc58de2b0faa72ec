import copy
import io
import struct

import numpy as np
from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, ulg
from vp.dbs import DatabaseULog
from vp.lib import ULog
from vp.runner import Part

ID = "C09"
LEVEL = "exploration"
RULE = ("pairs of generated logs: the same log loaded twice / through the database / after write_ulog, the log and a copy with "
        "exactly one generated change (one sample bit, one text, one parameter, a dropped or a swapped message ...), and two "
        "independent logs; == must agree with the comparison of the public content by the reference; non-trivial: the log has "
        "data or metadata for the change to hit")
ASSUMPTIONS = ["logs without NaN in parameters and info messages (NaN is not equal to itself there; NaN samples are equal)"]

CFG = dict(ts_bits=63, n_ops=[4, 8], max_topics=3, max_subs=4)


def both(ctx, what, a, b, want):
    """== and != in both directions"""
    for x, y, o in ((a, b, ""), (b, a, " (reversed)")):
        eq = ctx.call("==", lambda: x == y)
        ne = ctx.call("!=", lambda: x != y)
        ctx.check(bool(eq) == want, "%s%s: == is %r instead of %r" % (what, o, eq, want))
        ctx.check(bool(ne) == (not want), "%s%s: != is %r instead of %r" % (what, o, ne, not want))


def check_same(case, ctx):
    spec, how = case
    raw = ulg.encode(spec)
    e = ulg.interpret(spec)
    a = ctx.call("ULog", lib.load, raw)
    both(ctx, "a log and itself", a, a, True)
    both(ctx, "two loads of a log", a, ctx.call("ULog", lib.load, raw), True)
    both(ctx, "a log and its deep copy", a, ctx.call("deepcopy", copy.deepcopy, a), True)
    if how == "db":
        h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
        db = ctx.call("DatabaseULog", DatabaseULog, h, log_file=io.BytesIO(raw))
        both(ctx, "a log and its DatabaseULog", a, db, True)
        ctx.call("save", db.save)
        both(ctx, "a log and its saved DatabaseULog", a, db, True)
        # NaN parameters are excluded, scalar multi info and corruption are not generated
        back = ctx.call("DatabaseULog(primary key)", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
        both(ctx, "a log and its copy in the database", a, back, True)
        again = ctx.call("DatabaseULog(primary key)", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
        both(ctx, "two loads from the database", again, back, True)
    elif how == "write" and e.datasets:
        out = ctx.call("write_ulog", lib.written, a)
        b = ctx.call("ULog of the written log", lib.load, out)
        same = not oracle.snap_diff(oracle.snapshot(a), oracle.snapshot(b))
        # sync markers are not written
        if not any(m[0] == "S" for m in spec["data"]) and not any(v for v in e.compat) \
                and not any(m[0] == "B" for m in spec["defs"]):
            both(ctx, "a log and its written copy", a, b, same)
            ctx.label("written copy is equal", same)
    for other in (None, 1, "log", [], {}):
        both(ctx, "a log and %r" % (other,), a, other, False)
    ctx.label(how)
    oracle.classify(ctx, e)
    ctx.nontrivial(bool(e.datasets))


def same_cases():
    return st.tuples(gen.logs(**CFG), st.sampled_from(["load", "db", "db", "write"])).map(list)


# ------------------------------------------------------------------ mutation
def flip(raw, pos, bit):
    b = bytearray(raw)
    b[pos % len(b)] ^= 1 << bit
    return bytes(b)


KINDS = ["sample", "sample", "sample", "text", "level", "msgts", "param", "info", "multi", "default", "dropout", "drop",
         "swap", "format", "start", "version", "tag", "multi_id", "msg_id", "type", "key", "order", "array"]


def mutate(spec, kind, n, m, bit):
    """spec with one change, or None if there is nothing to change"""
    spec = copy.deepcopy(spec)
    allm = [(sec, i, x) for sec in ("defs", "data") for i, x in enumerate(spec[sec])]

    def pick(kinds, cond=lambda x: True):
        cand = [x for _, _, x in allm if x[0] in kinds and cond(x)]
        return cand[n % len(cand)] if cand else None
    if kind == "sample":
        x = pick("D")
        if x:
            x[2] = flip(x[2], m, bit)
    elif kind == "text":
        x = pick("LC")
        if x:
            x[-1] = x[-1] + b"!" if bit % 2 else x[-1][:-1]
            x[-1] = ulg.text(x[-1]).encode()
    elif kind == "level":
        x = pick("LC")
        if x:
            x[1] = (x[1] + 1 + m % 255) % 256
    elif kind == "msgts":
        x = pick("LC")
        if x:
            i = 2 if x[0] == "L" else 3
            x[i] = x[i] ^ (1 << (m % 60)) if bit else x[i] + 1
    elif kind == "tag":
        x = pick("C")
        if x:
            x[2] ^= 1 << (m % 16)
    elif kind == "param":
        x = pick("P")
        if x:
            x[3] = flip(x[3], m, bit)
    elif kind == "default":
        x = pick("Q")
        if x:
            x[1 if bit > 5 else 4] = x[1] ^ 7 if bit > 5 else flip(x[4], m, bit)
    elif kind == "info":
        x = pick("I", lambda x: x[3])
        if x:
            x[3] = ulg.text(flip(x[3], m, bit)).encode() if x[1].startswith("char[") else flip(x[3], m, bit)
    elif kind == "multi":
        x = pick("M", lambda x: x[4])
        if x:
            if bit > 5:
                x[1] ^= 1
            else:
                x[4] = ulg.text(flip(x[4], m, bit)).encode() if x[2].startswith("char[") else flip(x[4], m, bit)
    elif kind == "key":
        x = pick("IP")
        if x:
            x[2] += "_"
    elif kind == "type":
        x = pick("I", lambda x: x[1] in ("int32_t", "uint32_t", "float", "int64_t", "uint64_t"))
        if x:
            x[1] = {"int32_t": "uint32_t", "uint32_t": "int32_t", "float": "int32_t", "int64_t": "uint64_t",
                    "uint64_t": "int64_t"}[x[1]]
    elif kind == "dropout":
        x = pick("O")
        if x:
            x[1] = (x[1] + [1, -1, 256, 1 << (m % 16)][bit % 4]) % 65536
    elif kind == "drop":
        cand = [(s, i) for s, i, x in allm if x[0] in "DLCOIMPQ" and not (s == "data" and i == 0)]
        if not cand:
            return None
        s, i = cand[n % len(cand)]
        del spec[s][i]
    elif kind == "swap":
        cand = [i for i in range(1, len(spec["data"]) - 1)
                if spec["data"][i][0] in "DLCOPIM" and spec["data"][i + 1][0] in "DLCOPIM"]
        if not cand:
            return None
        i = cand[n % len(cand)]
        d = spec["data"]
        d[i], d[i + 1] = d[i + 1], d[i]
    elif kind == "format":
        x = pick("F")
        if not x[2]:
            return None
        f = x[2][m % len(x[2])]
        f[2] += "_"
        if "timestamp" in f[2] or f[2].startswith("_padding"):
            return None
    elif kind == "order":
        # the order of the fields of a format nobody has subscribed to
        used = {y[3] for y in spec["data"] if y[0] == "A"}
        x = pick("F", lambda x: len(x[2]) > 1 and (bit > 3 or x[1] not in used))
        if not x:
            return None
        i, j = m % len(x[2]), (m + 1) % len(x[2])
        if any(x[2][k][2].startswith("_padding") for k in (i, j)):
            return None
        if x[1] in used:
            types = {tuple(x[2][k][:2]) for k in (i, j)}
            if len(types) > 1 or "timestamp" in (x[2][i][2], x[2][j][2]):
                return None
        elif any(x[1] == f[0] for y in spec["defs"] if y[0] == "F" for f in y[2]):
            return None
        x[2][i], x[2][j] = x[2][j], x[2][i]
    elif kind == "array":
        used = {y[3] for y in spec["data"] if y[0] == "A"} | {f[0] for y in spec["defs"] if y[0] == "F" for f in y[2]}
        x = pick("F", lambda x: x[2] and x[1] not in used)
        if not x:
            return None
        f = x[2][m % len(x[2])]
        if bit % 2:
            f[1] += 1 + bit // 2
        else:
            f[0] = "int8_t" if f[0] == "uint8_t" else "uint8_t"
    elif kind == "start":
        spec["start"] ^= 1 << (m % 60)
    elif kind == "version":
        spec["version"] ^= 1
    elif kind == "multi_id":
        x = pick("A")
        if x:
            x[1] ^= 1 << (m % 8)
    elif kind == "msg_id":
        x = pick("A")
        if x:
            new = x[2] ^ (1 << (m % 16))
            if any(y[0] == "A" and y[2] == new for y in spec["data"]):
                return None
            for y in spec["data"]:
                if y[0] == "D" and y[1] == x[2]:
                    y[1] = new
                elif y[0] == "R" and y[1] == x[2]:
                    y[1] = new
            x[2] = new
    return spec


def has_nan_kv(spec):
    for sec in ("defs", "data"):
        for x in spec[sec]:
            if x[0] in "IPMQ":
                t, v = (x[1], x[3]) if x[0] in "IP" else (x[2], x[4])
                if t in ("float", "double") and len(v) == ulg.TYPES[t][1]:
                    f = struct.unpack("<" + ulg.TYPES[t][0], v)[0]
                    if f != f:
                        return True
    return False


def content_equal(a, b):
    """what == promises, from the public content; negative zero equals zero, all NaN samples are equal"""
    def norm(v):
        if isinstance(v, float) and v == 0:
            return 0.0
        if isinstance(v, dict):
            return {k: norm(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [norm(x) for x in v]
        return v
    sa, sb = oracle.snapshot(a, data=False), oracle.snapshot(b, data=False)
    for k in sa:
        x, y = norm(sa[k]), norm(sb[k])
        if not loosely(x, y):
            return False
    if len(a.data_list) != len(b.data_list):
        return False
    for x, y in zip(a.data_list, b.data_list):
        if (x.name, x.multi_id, x.msg_id, x.timestamp_idx) != (y.name, y.multi_id, y.msg_id, y.timestamp_idx):
            return False
        if [(f.field_name, f.type_str) for f in x.field_data] != [(f.field_name, f.type_str) for f in y.field_data]:
            return False
        if set(x.data) != set(y.data):
            return False
        for k in x.data:
            p, q = x.data[k], y.data[k]
            if len(p) != len(q):
                return False
            ok = (p == q)
            if p.dtype.kind == "f":
                ok = ok | (np.isnan(p) & np.isnan(q))
            if not ok.all():
                return False
    return True


def loosely(x, y):
    """1 == 1.0, as in Python"""
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(loosely(x[k], y[k]) for k in x)
    if isinstance(x, list):
        return isinstance(y, list) and len(x) == len(y) and all(loosely(p, q) for p, q in zip(x, y))
    return x == y


def hidden_difference(s1, s2):
    """things that are not part of the public content, but may make two logs unequal"""
    def key(s):
        syncs = sum(x[0] == "S" for x in s["data"])
        types = {}
        for sec in ("defs", "data"):
            for x in s[sec]:
                if x[0] == "I":
                    types[x[2]] = x[1]
                elif x[0] == "M":
                    types.setdefault("M" + x[3], x[2])
        flags = [x[1:] for x in s["defs"] if x[0] == "B"]
        return (s["version"], syncs, types, flags, has_nan_kv(s))
    return key(s1) != key(s2)


def compare(a, b, s1, s2, what, ctx):
    same = content_equal(a, b)
    if not same:
        both(ctx, what, a, b, False)
    elif not hidden_difference(s1, s2):
        both(ctx, what, a, b, True)
    else:
        r = ctx.call("==", lambda: a == b)
        ctx.check(bool(r) == bool(ctx.call("==", lambda: b == a)), what + ": == is not symmetric")
        ctx.check(bool(r) != bool(ctx.call("!=", lambda: a != b)), what + ": == and != agree")
    return same


def elements(log):
    return (list(log.data_list) + list(log.logged_messages) + [m for ms in log.logged_messages_tagged.values() for m in ms] +
            list(log.dropouts) + list(log.message_formats.values()))


def element_key(x):
    s = type(x).__name__.replace("Database", "")
    if isinstance(x, ULog.Data):
        return (s,) + (x.name, x.multi_id, x.msg_id, x.timestamp_idx, tuple((f.field_name, f.type_str) for f in x.field_data),
                       tuple((k, tuple(v.tolist())) for k, v in x.data.items()))
    if isinstance(x, ULog.MessageFormat):
        return (s, x.name, tuple(tuple(f) for f in x.fields))
    return (s,) + tuple(sorted(x.__dict__.items()))


def check_mutated(case, ctx):
    spec, kind, n, m, bit = case
    mut = mutate(spec, kind, n, m, bit)
    if mut is None or mut == spec or has_nan_kv(mut):
        return
    raws = ulg.encode(spec), ulg.encode(mut)
    if raws[0] == raws[1]:
        return
    a, b = (ctx.call("ULog", lib.load, r) for r in raws)
    same = compare(a, b, spec, mut, "a log and a copy with a changed %s" % kind, ctx)
    # element by element
    ea, eb = elements(a), elements(b)
    for x, y in zip(ea, eb):
        kx, ky = element_key(x), element_key(y)
        nan = isinstance(x, ULog.Data) and any(v.dtype.kind == "f" and np.isnan(v).any() for v in x.data.values())
        eq = ctx.call("==", lambda: x == y)
        if kx == ky:
            ctx.check(eq is True or eq is np.True_, "%s equal to its copy: %r" % (kx[0], eq))
            ctx.check(not (x != y), "%s unequal to its copy" % kx[0])
        elif not nan:
            ctx.check(not eq, "%s is equal to a different one (%s)" % (kx[0], kind))
            ctx.check(bool(x != y), "%s is not unequal to a different one (%s)" % (kx[0], kind))
        if kx[0] != ky[0]:
            ctx.check(not (x == y), "%s is equal to a %s" % (kx[0], ky[0]))
    for x in ea[:6]:
        for o in (None, 3, "x", a):
            ctx.check(not (x == o) and (x != o), "%s is equal to %r" % (type(x).__name__, type(o)))
    ctx.label("%s: %s" % (kind, "equal content" if same else "different content"))
    ctx.nontrivial(not same)


def mutated_cases(n=st.integers(0, 60), m=500):
    return st.tuples(gen.logs(**CFG), st.sampled_from(KINDS), n, st.integers(0, m), st.integers(0, 7)).map(list)


def check_pair(case, ctx):
    s1, s2 = case
    a, b = (ctx.call("ULog", lib.load, ulg.encode(s)) for s in (s1, s2))
    same = compare(a, b, s1, s2, "two logs", ctx)
    # another selection of topics is another content
    names = sorted({m[3] for m in s1["data"] if m[0] == "A"})
    if names:
        sub = ctx.call("ULog", lib.load, ulg.encode(s1), message_name_filter_list=names[:-1])
        compare_filtered = content_equal(a, sub)
        if not compare_filtered:
            both(ctx, "a log and a part of it", a, sub, False)
    ctx.nontrivial(not same and bool(a.data_list) and bool(b.data_list))


PARTS = [
    Part("same", same_cases, check_same, 700),
    Part("mutated", mutated_cases, check_mutated, 3000),
    Part("large", lambda: gen.with_large(mutated_cases(st.one_of(st.integers(-4, -2), st.integers(0, 2**20)), 2**20), gen.FEATURES + ["row", "fields", "elements", "string"]), lambda case, ctx: check_mutated(gen.enlarged(case), ctx), 120),
    Part("large-same", lambda: gen.with_large(same_cases(), gen.FEATURES), lambda case, ctx: check_same(gen.enlarged(case), ctx), 30),
    Part("pair", lambda: st.tuples(gen.logs(**CFG), gen.logs(**CFG)).map(list), check_pair, 300),
]
