import json
import lzma
import struct

from hypothesis import strategies as st

from vp import cli, events, gen, lib, oracle, ulg
from vp.runner import Part

ID = "C18"
LEVEL = "exploration"
RULE = ("logs with generated text messages and generated PX4 events (with own, default, broken or no event definitions) are shown "
        "with ulog_messages, and sequences of logs are decoded with one PX4Events object; the output must be that of a reference "
        "that merges both by time; non-trivial: a text message was printed together with a decoded event, or several logs")
ASSUMPTIONS = ["the event parser itself (the libevents submodule) is not part of this repository: a stub that shows which "
               "definitions, id and arguments it was given", "timestamps below 2^53 microseconds",
               "the download of the default definitions is replaced by a stub"]


messages_mod = events_mod = None


def setup():
    global messages_mod, events_mod
    events.install()
    from pyulog import messages, px4_events
    messages_mod, events_mod = messages, px4_events


CFG = dict(ts_bits=52, starts=[0, 1, 999999, 1000000, 3600000000, 1710773350346000], max_topics=2, max_subs=2, max_defs=6,
           n_ops=[4, 10], ops="DDLLLLLLCO", flag_extra=False, max_fields=2, nested=False,
           topic_names=["vehicle_status", "a", "sensor", "eventx", "even"])
IDS = [0, 1, 77, 65536, 0xFFFFFFFF, 8193]
DEF = st.tuples(st.sampled_from(["default", "default", "default", "health", "protocol"]), st.sampled_from(["took off", "ünï", "{1}"])).map(list)


def definitions(name):
    return st.dictionaries(st.sampled_from([str(i) for i in IDS]), DEF, min_size=3, max_size=6).map(lambda d: {"source": name, "events": d})


def event_fields(size):
    return [["uint64_t", 0, "timestamp"], ["uint32_t", 0, "id"], ["uint16_t", 0, "event_sequence"]] + \
        ([["uint8_t", size, "arguments"]] if size else []) + [["uint8_t", 0, "log_levels"]]


event = st.tuples(st.integers(0, 3), st.sampled_from(IDS),
                  st.one_of(st.integers(0, 7).map(lambda x: x * 16 + 6), st.integers(0, 255)),
                  st.binary(max_size=40)).map(list)


@st.composite
def event_log(draw):
    spec = draw(gen.logs(**CFG))
    # texts that PX4 marks as duplicates of an event
    data = []
    for m in spec["data"]:
        if m[0] == "L" and draw(st.integers(0, 3)) == 0:
            m = m[:3] + [m[3] + draw(st.sampled_from([b"\t", b"\t", b"\t", b"\t\t", b"\t\n", b"\t ", b"\tx", b"\t\0"]))]
        data.append(m)
    spec["data"] = data
    sys_name = draw(st.sampled_from([b"PX4", b"PX4", b"PX4", b"PX4", None, b"px4", b"ArduPilot", b"", b"PX4 ", b"PX4\0", b"XPX4"]))
    spec = cli.set_info(spec, "sys_name", "char[%d]" % len(sys_name or b""), sys_name) if sys_name is not None else \
        cli.set_info(spec, "sys_name", None, None)
    own = draw(st.one_of(st.none(), definitions("log")))
    meta = None
    sha = None
    if own is None and draw(st.integers(0, 4)) == 0:
        spec = cli.set_info(spec, "metadata_events_sha256", "char[64]", b"0123456789abcdef" * 4)
        meta = "only hash"
    elif own is not None or draw(st.integers(0, 4)) == 0:
        how = draw(st.sampled_from(["ok", "ok", "ok", "garbage", "no hash", "bad hash", "long hash", "two", "split"]))
        blob = lzma.compress(json.dumps(own or {"source": "log", "events": {}}).encode(), preset=0) if how != "garbage" else b"\1\2\3 garbage"
        n = draw(st.sampled_from([len(blob) // 2, 1, 3, 7])) if how == "split" else len(blob)
        parts = [blob[k:k + n] for k in range(0, len(blob), n)]
        for i, p in enumerate(parts):
            spec["defs"].append(["M", 1 if i else 0, "uint8_t[%d]" % len(p), "metadata_events", p])
        if how == "two":
            spec["defs"].append(["M", 0, "uint8_t[4]", "metadata_events", b"\0\1\2\3"])
        sha = {"no hash": None, "bad hash": b"../../etc", "long hash": b"a" * 65}.get(how, draw(st.sampled_from([b"0123456789abcdef" * 4, b"0123456789abcdef" * 4, b"A0" * 31, b"7"])))
        if sha is not None:
            spec = cli.set_info(spec, "metadata_events_sha256", "char[%d]" % len(sha), sha)
        meta = how
    n = draw(st.sampled_from([None, 0, 2, 4, 6, 8]))
    events = None if n is None else draw(st.lists(event, min_size=n, max_size=n))
    if events is not None:
        size = draw(st.sampled_from([25, 25, 25, 25, 1, 10, 16, 26, 40, 0]))
        spec["defs"].append(["F", "event", event_fields(size)])
        mid = [i for i in (50, 51, 52, 53, 54, 55) if i not in {m[2] for m in spec["data"] if m[0] == "A"}][0]
        multi = draw(st.sampled_from([0, 0, 0, 0, 1]))
        spec["data"].append(["A", multi, mid, "event"])
        t = spec["start"]
        for dt, eid, levels, args in events:
            t += [0, 1, 500000, 3000000][dt]
            spec["data"].append(["D", mid, struct.pack("<QIH%dsB" % size, t, eid, 7, args, levels)])
    return [spec, meta, own]


LEVEL_NAMES = ["EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"]


def own_definitions(log):
    """definitions of the log itself: a dict, None (use the default ones) or an error"""
    spec, meta, own = log
    if meta is None or meta in ("only hash", "no hash", "bad hash", "long hash"):
        return None
    if meta == "garbage":
        return "error"
    return own or {"source": "log", "events": {}}


def expected_events(e, log, default):
    """default: definitions, None or 'error'"""
    d = e.datasets.get(("event", 0))
    if d is None:
        return []
    defs = own_definitions(log)
    if defs is None:
        defs = default
    if defs == "error":
        return []
    res = []
    cols = {f: d.values(f) for f, _ in d.fields}
    for i, t in enumerate(cols["timestamp"]):
        level = cols["log_levels"][i] >> 4
        if level >= 8:
            continue
        eid = cols["id"][i]
        known = defs["events"].get(str(eid)) if defs else None
        args = bytes(cols["arguments[%d]" % k][i] for k in range(100) if "arguments[%d]" % k in cols)
        if known is None:
            res.append((t, LEVEL_NAMES[level], "[Unknown event with ID %d]" % eid))
        elif known[0] == "default":
            res.append((t, LEVEL_NAMES[level], "%s %s dev %s" % (defs["source"], known[1], args.hex())))
    return res


def check_cli(case, ctx):
    log, default, online, ignore = case
    spec = log[0]
    e = ulg.interpret(spec)
    path = cli.save_log(ctx, spec)
    with events.web(lzma.compress(json.dumps(default).encode(), preset=0) if online else None):
        out, code = cli.run(ctx, messages_mod.main, [path] + (["-i"] if ignore else []), "ulog_messages")
    ctx.check(code == 0, "ulog_messages ended with %r" % code)
    texts = [(ts, oracle.LEVELS.get(level, "UNKNOWN"), text) for level, ts, text in e.logged]
    px4 = "sys_name" in e.info and e.info["sys_name"][2] == "PX4"
    n_events = 0
    if px4:
        shown = expected_events(e, log, default if online else "error")
        n_events = len(shown)
        lines = sorted(shown + [t for t in texts if not t[2].endswith("\t")], key=lambda m: m[0])
    else:
        lines = texts
    want = "".join("%s %s: %s\n" % (cli.hms(t), level, text) for t, level, text in lines)
    failed = "Failed to get event parser"
    if out.startswith(failed):
        out = out[out.index("\n") + 1:]
    ctx.check(out == want, lambda: "printed %s instead of %s" % (oracle.short(out, 600), oracle.short(want, 600)))
    ctx.label("PX4" if px4 else "other system")
    ctx.label("definitions: %s" % log[1])
    ctx.label("events printed", n_events > 0)
    ctx.label("decoded event printed", " dev " in out)
    ctx.label("duplicate text", any(t[2].endswith("\t") for t in texts))
    ctx.label("empty text", any(not t[2] for t in texts))
    ctx.nontrivial(bool(texts) and (" dev " in out or not px4))


def check_sequence(case, ctx):
    logs, default, have = case
    px = ctx.call("PX4Events", events_mod.PX4Events)
    calls = []

    def definitions_cb(already):
        calls.append(already)
        if have == "never" or (already and have == "once"):
            return None
        if have == "fails":
            raise OSError("no network")
        if have == "late":
            return default if len(calls) > 1 else None
        if have == "new":
            return dict(default, source="default %d" % len(calls))
        return default
    if have != "download":
        ctx.call("set_default_json_definitions_cb", px.set_default_json_definitions_cb, definitions_cb)
    with events.web(lzma.compress(json.dumps(default).encode(), preset=0)) as web:
        decode_sequence(px, logs, default, have, calls, ctx)
    ctx.check(len(web.asked) <= (1 if have == "download" else 0), lambda: "downloads: %s" % web.asked)
    ctx.label(have)


def decode_sequence(px, logs, default, have, calls, ctx):
    have_parser = False
    decoded = 0
    for log in logs:
        spec = log[0]
        e = ulg.interpret(spec)
        u = ctx.call("ULog", lib.load, ulg.encode(spec))
        before = oracle.snapshot(u)
        n = len(calls)
        got = ctx.call("get_logged_events", px.get_logged_events, u)
        if len(calls) > n:
            ctx.check(calls[n:] == [have_parser], lambda: "callback was called with %r, there %s a parser" % (
                calls[n:], "is" if have_parser else "is no"))
        needs = len(getattr(e.datasets.get(("event", 0)), "rows", [])) > 0 and own_definitions(log) is None
        if have != "download":
            ctx.check(len(calls) == n + needs, lambda: "the callback for the default definitions was called %d times%s" % (
                len(calls) - n, ", they are needed" if needs else ""))
        if have == "fails":
            d = "error"
        elif have == "never":
            d = None
        elif have == "late":
            d = default if len(calls) > 1 or have_parser else None
        elif have == "new":
            # the callback is told whether there are definitions already, and may return others
            d = dict(default, source="default %d" % len(calls))
        else:
            d = default
        want = expected_events(e, log, d)
        if needs and have not in ("never", "fails") and d is not None:
            have_parser = True
        got = [(int(t), level, str(text)) for t, level, text in got]
        ctx.check(got == want, lambda: "events %s instead of %s" % (oracle.short(got, 600), oracle.short(want, 600)))
        ctx.no_diff(oracle.snap_diff(before, oracle.snapshot(u)), "get_logged_events changed the log")
        decoded += any(" dev " in t[2] for t in want)
    ctx.nontrivial(decoded > 0 and len(logs) > 1)
    ctx.label("own and default definitions", decoded > 1)


def cli_cases():
    return st.tuples(event_log(), definitions("default"), st.booleans(), st.booleans()).map(list)


def sequence_cases():
    return st.tuples(st.lists(event_log(), min_size=1, max_size=4), definitions("default"),
                     st.sampled_from(["always", "once", "never", "fails", "late", "download", "new"])).map(list)


def check_dense(case, ctx):
    (log, *rest), n, seed, kinds = case
    check_cli([gen.densified([log, n, seed, kinds]), *rest], ctx)


PARTS = [
    Part("cli", cli_cases, check_cli, 1200),
    Part("sequence", sequence_cases, check_sequence, 500),
    Part("dense", lambda: gen.with_dense(cli_cases(), "LC"), check_dense, 30),
    Part("large", lambda: gen.with_large(cli_cases(), ["text"]), lambda case, ctx: check_cli([gen.enlarged([case[0][0], *case[1:]]), *case[0][1:]], ctx), 30),
]
