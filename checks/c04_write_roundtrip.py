import copy
import io

from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part

from . import c08_appended as c08

ID = "C04"
RULE = ("generated logs (optionally loaded with a topic filter) are loaded, written with write_ulog and (a) loaded again, "
        "(b) decoded with an independent strict decoder; both must give the loaded content with samples and messages in "
        "stable timestamp order; writing again must give the same messages; non-trivial: at least one dataset and two other "
        "kinds of content")
ASSUMPTIONS = ["parameters are int32 or float, bool bytes are 0 or 1, one value type per multi-info key",
               "NaN payload bits of float columns are not compared"]

CFG = dict(versions=[1, 1, 1, 0, 0, 2, 255], lossy=True, default_bits=[1, 2, 3, 4, 8, 64, 128, 255], nan_kv=True)


def ordered(e):
    """the expectation after writing: everything in stable timestamp order"""
    e = copy.deepcopy(e)
    for d in e.datasets.values():
        d.rows.sort(key=d.timestamp)
    e.logged.sort(key=lambda m: m[1])
    for ms in e.tagged.values():
        ms.sort(key=lambda m: m[1])
    e.dropouts.sort(key=lambda d: d[0])
    e.changed.sort(key=lambda c: c[0])
    return e


def strip_empty(e):
    e.defaults = {b: d for b, d in e.defaults.items() if d}
    return e


def only(diffs, words):
    return all(any(d.startswith(w) for w in words) for d in diffs)


def roundtrip(u, e, ctx):
    before = oracle.snapshot(u)
    raw = ctx.call("write_ulog", lib.written, u)
    ctx.no_diff(oracle.snap_diff(before, oracle.snapshot(u)), "write_ulog changed the log object")
    want = ordered(e)
    # (a) pyulog reads it back
    v = ctx.call("loading the written log", lib.load, raw)
    diffs = oracle.diff(v, want, nan=True, skip=("appended",))
    sig = None
    if not e.datasets and only(diffs, ("initial_parameters", "changed_parameters", "dropouts")):
        # a data section without any topic data: see DESIGN.md, known findings
        sig = "write-without-datasets"
    ctx.no_diff(diffs, "load(write(log)) differs from log", sig)
    # (b) what is on the wire
    try:
        spec = ulg.decode(raw)
        w = ulg.interpret_written(spec)
    except ulg.Malformed as err:
        ctx.fail("the written file is malformed: %s" % err, sig)
        return raw, v
    ctx.check(spec["version"] == e.version, "file version %d is written as %d" % (e.version, spec["version"]))
    if sig is None:
        for name in ("start", "params_raw", "params", "info", "multi", "multi_types", "defaults", "formats", "logged", "tagged",
                     "changed", "dropouts", "last"):
            a, b = getattr(w, name), getattr(want, name)
            if name == "params_raw":
                # an equal NaN is enough
                a = {k: x for k, x in a.items() if w.params[k] == w.params[k]}
                b = {k: x for k, x in b.items() if want.params.get(k) == want.params.get(k)}
            if name == "info":
                # text was decoded leniently on load, so the raw bytes may be fewer
                a = {k: (t, val) for k, (t, r, val) in a.items()}
                b = {k: (t, val) for k, (t, r, val) in b.items()}
            ctx.check(oracle.same(a, b), "written file: %s is %s instead of %s" % (name, oracle.short(a), oracle.short(b)))
    ctx.check(w.compat == e.compat, "compat flags %r are written as %r" % (e.compat, w.compat))
    ctx.check(w.incompat == [0] * 8, "incompat flags %r are written" % w.incompat)
    ctx.check(sorted(w.datasets) == sorted(want.datasets), "written file: topics %r" % sorted(w.datasets))
    for k, d in want.datasets.items():
        ctx.check(w.datasets[k].msg_id == d.msg_id, "written file: %r has message id %d instead of %d" % (k, w.datasets[k].msg_id, d.msg_id))
        ctx.check(len(w.datasets[k].rows) == len(d.rows), "written file: number of samples of %r" % (k,))
    times = []
    for m in spec["data"]:
        if m[0] == "D":
            ds = next(d for d in w.datasets.values() if d.msg_id == m[1])
            times.append(ds.timestamp(m[2]))
        elif m[0] == "L":
            times.append(m[2])
        elif m[0] == "C":
            times.append(m[3])
    ctx.check(times == sorted(times), "messages are not written in timestamp order")
    # writing is deterministic and idempotent
    ctx.check(ctx.call("write_ulog", lib.written, u) == raw, "writing the same log twice gives different files")
    if sig is None:
        again = ctx.call("write_ulog of the reloaded log", lib.written, v)
        w2 = ctx.call("loading", lib.load, again)
        ctx.no_diff(oracle.snap_diff(oracle.snapshot(v), oracle.snapshot(w2)), "a second round trip changes the log") \
            if not has_nan(e) else None
        # tagged messages of equal time may change places: they are grouped by tag in memory
        s2 = ulg.decode(again)
        ctx.check(again[:16] == raw[:16] and s2["defs"] == spec["defs"] and sorted(map(repr, s2["data"])) == sorted(map(repr, spec["data"])),
                  "write(load(write(log))) has other messages than write(log)")
    return raw, v


def has_nan(e):
    return any(v != v for v in list(e.params.values()))


def check_roundtrip(case, ctx):
    spec, names, how = case
    e = strip_empty(ulg.interpret(spec, names))
    u = ctx.call("loading", lib.load, ulg.encode(spec), message_name_filter_list=names)
    raw, v = roundtrip(u, e, ctx)
    if how:
        path = ctx.path("out.ulg")
        ctx.call("write_ulog to a path", u.write_ulog, path)
        with open(path, "rb") as f:
            ctx.check(f.read() == raw, "writing to a path and to a file object differ")
    oracle.classify(ctx, e)
    ctx.label("filtered", names is not None)
    ctx.label("char data above 127", any(t == "char" and max(raw_, default=0) > 127 for d in e.datasets.values() for t, raw_ in d.columns().values()))
    ctx.nontrivial(bool(e.datasets) and sum(map(bool, (e.info, e.multi, e.params, e.defaults, e.changed, e.logged, e.tagged, e.dropouts))) > 1)


@st.composite
def write_case(draw, **cfg):
    spec = draw(gen.logs(**cfg))
    names = None
    if draw(st.integers(0, 3)) == 0:
        names = draw(st.lists(st.sampled_from(sorted({m[3] for m in spec["data"] if m[0] == "A"}) or ["x"]), max_size=3))
    return [spec, names, draw(st.integers(0, 3)) == 0]


INFO_TYPES = ["char[", "uint8_t[", "float[", "int32_t", "float", "uint64_t", "double", "bool", "uint8_t", "int16_t["]


@st.composite
def types_case(draw):
    t = {k: draw(st.sampled_from(INFO_TYPES)) for k in gen.MULTI_KEYS}
    return draw(write_case(**dict(CFG, multi_types=t, ops="DDLMMMMIIIIIPC", max_defs=10, max_fields=2, max_topics=2)))


def check_header_only(case, ctx):
    e = strip_empty(ulg.interpret(dict(case, data=[])))
    u = ctx.call("header-only load", lib.load, ulg.encode(case), parse_header_only=True)
    roundtrip(u, e, ctx)
    ctx.nontrivial(sum(map(bool, (e.info, e.multi, e.params, e.defaults))) > 1)


def check_appended(case, ctx):
    """the parts of a log become one; message ids that had two meanings do not any more"""
    raw, same, corrupt, parts, offs = c08.build(case)
    if any(b <= a for a, b in zip(offs, offs[1:])):
        return
    e = strip_empty(ulg.interpret(same))
    e.corrupt = False
    u = ctx.call("loading a log with appended data", lib.load, raw)
    try:
        subs = [m for m in ulg.decode(ctx.call("write_ulog", lib.written, u))["data"] if m[0] == "A"]
    except ulg.Malformed as err:
        ctx.fail("the written file is malformed: %s" % err)
        return
    ids = {(m[3], m[1]): m[2] for m in subs}
    ctx.check(sorted((m[3], m[1]) for m in subs) == sorted(e.datasets), "written file: subscriptions %r" % subs)
    ctx.check(len(set(ids.values())) == len(ids), "written file: two topics have the same message id: %r" % subs)
    ctx.check({d.msg_id for d in e.datasets.values()} <= set(ids.values()), "written file: message ids %r" % subs)
    before = [d.msg_id for d in e.datasets.values()]
    for k, d in e.datasets.items():
        if before.count(d.msg_id) > 1:
            d.msg_id = ids[k]
    roundtrip(u, e, ctx)
    ctx.label("message id for two topics", len(set(before)) < len(before))
    ctx.nontrivial(any(m[0] == "D" for p in parts[1:] for m in p))


def check_dense(case, ctx):
    check_roundtrip([gen.densify(case[0]), *case[1:]], ctx)


PARTS = [
    Part("roundtrip", lambda: write_case(**CFG), check_roundtrip, 2400),
    Part("types", types_case, check_roundtrip, 800),
    Part("appended", lambda: c08.appended_case(**{k: v for k, v in CFG.items() if k != "default_bits"}), check_appended, 500),
    Part("header-only", lambda: gen.logs(**dict(CFG, max_topics=2, n_ops=[0, 2], max_defs=12)), check_header_only, 500),
    Part("dense", lambda: st.tuples(gen.dense_logs(), st.none(), st.booleans()).map(list), check_dense, 60),
    Part("large", lambda: st.tuples(gen.large_logs(), st.none(), st.booleans()).map(list),
         lambda case, ctx: check_roundtrip([gen.enlarge(case[0]), *case[1:]], ctx), 60),
]
