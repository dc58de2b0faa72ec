import io
import os

from hypothesis import strategies as st

from vp import gen, lib, oracle, sched, ulg
from vp.runner import Part

from . import c08_appended as c08

ID = "C03"
RULE = ("generated logs are loaded with a topic filter, header-only, from a path, from an open file and twice in a row; each "
        "result is compared with the corresponding projection of the full load and of the reference model; non-trivial: "
        "the filter keeps some but not all of the datasets / the log has datasets")
ASSUMPTIONS = ["with a filter, times of dropouts and parameter changes are not compared (they are relative to loaded data)"]


@st.composite
def filter_case(draw):
    spec = draw(gen.logs(min_topics=2, max_topics=5, max_fields=3, min_subs=2, max_subs=7, min_upfront=2, n_ops=[8, 16, 24]))
    subscribed = sorted({m[3] for m in spec["data"] if m[0] == "A"})
    names = draw(st.lists(st.sampled_from(subscribed), max_size=3, unique=True))
    names += draw(st.lists(st.sampled_from(gen.TOPIC_NAMES + ["no_such", "sens", ""]), max_size=2))
    return [spec, names, draw(st.booleans())]


def no_times(snap):
    return [c[1:] for c in snap["changed"]], [d[1] for d in snap["dropouts"]]


def check_filter(case, ctx, raw=None):
    spec, names, as_tuple = case
    raw = ulg.encode(spec) if raw is None else raw
    full = ctx.call("loading everything", lib.load, raw)
    flt = tuple(names) if as_tuple else list(names)
    u = ctx.call("loading with filter %r" % (flt,), lib.load, raw, message_name_filter_list=flt)
    ctx.check(list(flt) == list(names), "the filter list was modified")
    e = ulg.interpret(spec, names)
    ctx.no_diff(oracle.diff(u, e, skip=("changed", "dropouts", "last")), "log filtered by %r" % (names,))
    sf, su = oracle.snapshot(full), oracle.snapshot(u)
    ctx.no_diff(oracle.snap_diff(sf, su, skip=("changed", "dropouts", "last", "data")), "filtered and full load differ outside the topics")
    ctx.check(no_times(sf) == no_times(su), "parameter changes or dropouts depend on the filter")
    keep = [d for d in sf["data"] if d[0] in names]
    ctx.check(oracle.same(keep, su["data"]), "the filtered datasets are not the datasets of the full log")
    ctx.label("empty filter list", not names)
    ctx.label("topic name is part of another one", any(a != b and a in b for a in names for b in sorted({m[3] for m in spec["data"] if m[0] == "A"})))
    ctx.nontrivial(0 < len(keep) < len(sf["data"]))


@st.composite
def header_case(draw):
    spec = draw(gen.logs(max_fields=4, n_ops=[0, 8], ops="DDLCOPQIMS", max_defs=14, default_bits=[1, 2, 3, 4, 255], lossy=True))
    return [spec, draw(st.integers(0, 40))]


def check_header(case, ctx):
    spec, cut = case
    raw = ulg.encode(spec)
    e = ulg.interpret(dict(spec, data=[]))
    u = ctx.call("header-only load", lib.load, raw, parse_header_only=True)
    ctx.no_diff(oracle.diff(u, e), "header-only load differs from the definitions section")
    # the data section is not needed for it
    end = len(ulg.encode(dict(spec, data=[])))
    first = len(ulg.encode_msg(spec["data"][0]))
    part = raw[:end + first + cut]
    u2 = ctx.call("header-only load of a log with a cut data section", lib.load, part, parse_header_only=True)
    ctx.no_diff(oracle.snap_diff(oracle.snapshot(u), oracle.snapshot(u2)), "header-only load depends on the data section")
    u3 = ctx.call("header-only load of definitions only", lib.load, raw[:end], parse_header_only=True)
    ctx.no_diff(oracle.snap_diff(oracle.snapshot(u), oracle.snapshot(u3)), "header-only load depends on the data section")
    # damage of the definitions changes nothing else
    msgs = [ulg.encode_msg(m) for m in spec["defs"]]
    at = 1 + cut % max(1, len(msgs))
    bad = [ulg.frame(73, b"\x05"), ulg.frame(80, b""), ulg.frame(70, b"no colon"), ulg.frame(77, b"\x00\x09int8_t a")][cut % 4]
    end = [ulg.encode_msg(m) for m in spec["data"]]
    damaged = raw[:16] + b"".join(msgs[:at] + [bad] + msgs[at:] + end)
    u4 = ctx.call("header-only load of a log with a damaged definition", lib.load, damaged, parse_header_only=True)
    e.corrupt = True
    ctx.no_diff(oracle.diff(u4, e), "header-only load of a log with a damaged definition")
    ctx.nontrivial(len(e.info) + len(e.params) + len(e.multi) + len(e.defaults) > 2 and len(spec["data"]) > 1)


@st.composite
def handle_case(draw):
    return [draw(gen.logs(max_fields=4, max_topics=3)), draw(gen.logs(max_fields=2, max_topics=2, n_ops=[4]))]


def check_handle(case, ctx):
    spec, other = case
    raw = ulg.encode(spec)
    path = ctx.path("log.ulg")
    with open(path, "wb") as f:
        f.write(raw)
    a = ctx.call("loading from memory", lib.load, raw)
    s = oracle.snapshot(a)
    b = ctx.call("loading from a path", lib.ULog, path)
    ctx.no_diff(oracle.snap_diff(s, oracle.snapshot(b)), "path and file object give different logs")
    with open(path, "rb") as f:
        c = ctx.call("loading from an open file", lib.ULog, f)
    ctx.no_diff(oracle.snap_diff(s, oracle.snapshot(c)), "path and open file give different logs")
    with open(path, "rb") as f:
        ctx.check(f.read() == raw, "loading modified the file")
    # logs are independent of each other
    ctx.call("loading another log", lib.load, ulg.encode(other))
    ctx.no_diff(oracle.snap_diff(s, oracle.snapshot(a)), "loading another log changed an already loaded one")
    d = ctx.call("loading again", lib.ULog, path)
    ctx.no_diff(oracle.snap_diff(s, oracle.snapshot(d)), "loading twice gives different logs")
    gone = next((m for m in spec["data"] if m[0] == "A" and any(x[:2] == ["D", m[2]] for x in spec["data"])), None)
    if gone:
        ctx.call("loading without topics", lib.ULog, path, [])
        data = [m for m in spec["data"] if not (m[0] == "A" and m[2] == gone[2])]
        if data and data[0][0] in "ALC":
            u = ctx.call("loading a log with samples of an unknown topic", lib.load, ulg.encode(dict(spec, data=data)))
            ctx.check(u.file_corruption, "samples of an unknown topic are no corruption when another log was loaded before")
            ctx.label("unknown topic after a filtered load")
    with ctx.lib("comparing"):
        ctx.check(a == b and not a != b, "two loads of the same file are not equal")
    ctx.nontrivial(bool(s["data"]))


class Slow(io.BytesIO):
    """a file that lets others work at each read and write"""

    def __init__(self, raw, sched):
        super().__init__(raw)
        self.sched = sched

    def read(self, *a):
        self.sched.pause()
        return super().read(*a)

    def write(self, b):
        self.sched.pause()
        return super().write(b)


@st.composite
def interleaved_case(draw):
    specs = draw(st.lists(gen.logs(max_fields=3, max_topics=2, max_subs=3, n_ops=[2, 8]), min_size=1, max_size=3))
    users = draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["load", "load", "filter", "header", "write"])).map(list), min_size=2, max_size=3))
    return [specs, users, draw(st.lists(st.tuples(st.integers(0, 2), st.integers(1, 25)).map(list), max_size=30))]


def check_interleaved(case, ctx):
    """several logs are read and written at the same time"""
    specs, users, schedule = case
    s = sched.Scheduler(schedule)
    results = [None] * len(users)
    jobs = []
    for i, (n, what) in enumerate(users):
        spec = specs[n % len(specs)]
        raw = ulg.encode(spec)
        e = ulg.interpret(spec)
        topics = sorted({k[0] for k in e.datasets})[:1]
        kw = {"filter": {"message_name_filter_list": topics}, "header": {"parse_header_only": True}}.get(what, {})
        jobs.append((spec, raw, what, topics))

        def run(i=i, raw=raw, what=what, kw=kw):
            if what == "write":
                out = Slow(b"", s)
                lib.load(raw).write_ulog(out)
                results[i] = out.getvalue()
            else:
                results[i] = lib.ULog(Slow(raw, s), **kw)
        jobs[-1] += (run,)
    ctx.call("loading and writing several logs at the same time", s.run, [j[-1] for j in jobs])
    for (spec, raw, what, topics, _), got in zip(jobs, results):
        if what == "write":
            ctx.check(got == ctx.call("write_ulog", lib.written, lib.load(raw)), "write_ulog gives another file while other logs are read")
        else:
            e = ulg.interpret(spec, topics if what == "filter" else None) if what != "header" else ulg.interpret(dict(spec, data=[]))
            ctx.no_diff(oracle.diff(got, e), "a log (%s) that was read while others were" % what)
    ctx.nontrivial(s.switches > 2 and len(specs) > 1)


@st.composite
def appended_case(draw):
    case = draw(c08.appended_case(min_topics=2))
    names = draw(st.lists(st.sampled_from(sorted({m[3] for m in case[0]["data"] if m[0] == "A"})), max_size=3, unique=True))
    return [case, names, draw(st.booleans())]


def check_appended(case, ctx):
    (spec, cuts, on), names, as_tuple = case
    raw, same, _, parts, offs = c08.build([spec, [[c[0], c[1], None] for c in cuts], on])
    if any(b <= a for a, b in zip(offs, offs[1:])):
        return
    check_filter([same, names, as_tuple], ctx, raw)
    e = ulg.interpret(dict(same, data=[]))
    u = ctx.call("header-only load of a log with appended data", lib.load, raw, parse_header_only=True)
    ctx.no_diff(oracle.diff(u, e), "header-only load of a log with appended data")
    ctx.label("message id for two topics", on & 2)


PARTS = [
    Part("interleaved", interleaved_case, check_interleaved, 500),
    Part("filter", filter_case, check_filter, 2400),
    Part("appended", appended_case, check_appended, 500),
    Part("header", header_case, check_header, 1600),
    Part("handle", handle_case, check_handle, 1200),
    Part("large-filter", lambda: gen.with_large(filter_case(), ["row", "subscriptions", "formats", "deep"]),
         lambda case, ctx: check_filter(gen.enlarged(case), ctx), 50),
    Part("large-header", lambda: gen.with_large(header_case(), ["value", "key", "formats", "fields", "row"]),
         lambda case, ctx: check_header(gen.enlarged(case), ctx), 50),
    Part("large-handle", lambda: gen.with_large(handle_case(), ["row", "text", "value", "subscriptions"]),
         lambda case, ctx: check_handle(gen.enlarged(case), ctx), 50),
]
