import io
import os

from hypothesis import strategies as st

from pyulog import info, params, ulog2csv, extract_gps_dump
from pyulog.core import ULog
from pyulog.extract_message import extract_message
from vp import cli, events, gen, lib, oracle, ulg
from vp.runner import Part

ID = "C24"
LEVEL = "exploration"
RULE = ("bytes that are not UTF-8 are inserted into generated places of the strings of a generated log (values, keys, names, types, "
        "messages): the lenient mode must give exactly the log without these bytes, the strict mode must raise UnicodeDecodeError for "
        "it and give the same log as the lenient mode when all strings are valid, whatever was loaded before; the same for the "
        "command line tools with and without their option; non-trivial: at least one invalid string and one dataset")
ASSUMPTIONS = ["the inserted bytes never complete another character"]

CFG = dict(ts_bits=52, max_topics=3, max_fields=4, max_subs=4, n_ops=[4, 10], ops="DDDLLCPQIMOA", ascii_chars=True, flag_extra=False,
           max_defs=10)


TOOLS = ["info", "params", "csv", "gps", "extract", "info -v", "kml", "messages", "kml function", "csv function"]
messages = None


def setup():
    global messages
    events.install()
    from pyulog import messages


def regions(m):
    """string regions of a message: [(name, text)]"""
    k = m[0]
    if k in "IP":
        r = [("type", m[1]), ("key", m[2])]
        return r + ([("value", m[3].decode())] if m[1].startswith("char[") else [])
    if k in "MQ":
        r = [("type", m[2]), ("key", m[3])]
        return r + ([("value", m[4].decode())] if m[2].startswith("char[") else [])
    if k == "L":
        return [("text", m[3].decode())]
    if k == "C":
        return [("text", m[4].decode())]
    if k == "A":
        return [("name", m[3])]
    if k == "F":
        return [("format", ulg.encode_msg(m)[3:].decode())]
    return []


def insert(text, pos, bad):
    pos %= len(text) + 1
    if bad == b"\xc3" and pos < len(text) and ord(text[pos]) > 127:
        bad = b"\xff"
    return text[:pos].encode() + bad + text[pos:].encode()


def spoil(m, region, pos, bad):
    """the frame of a message with bad bytes in one of its strings"""
    k = m[0]
    texts = {r: t.encode() for r, t in regions(m)}
    texts[region] = insert(dict(regions(m))[region], pos, bad)
    if k in "IPMQ":
        key = texts["type"] + b" " + texts["key"]
        val = texts.get("value", m[3] if k in "IP" else m[4])
        return ulg.frame(ord(k), (b"" if k in "IP" else bytes([m[1]])) + bytes([len(key)]) + key + val)
    raw = ulg.encode_msg(m)
    old = len(regions(m)[0][1].encode())
    body = raw[3:len(raw) - old] + list(texts.values())[0]
    return ulg.frame(ord(k), body)


@st.composite
def string_case(draw):
    spec = draw(gen.logs(**CFG))
    spec = cli.set_info(spec, "ver_sw_release", None, None)      # documented as a number
    msgs = [m for sec in ("defs", "data") for m in spec[sec]]
    where = [(i, r) for i, m in enumerate(msgs) for r, _ in regions(m)]
    plan = []
    if where:
        picked = draw(st.lists(st.sampled_from(where), max_size=3, unique_by=lambda w: w[0]))
        plan = [[i, r, draw(st.integers(0, 40)), draw(st.sampled_from([b"\xff", b"\xc3", b"\x80", b"\xfe\xff", b"\xf8"]))] for i, r in picked]
    return [spec, plan, draw(st.sampled_from(TOOLS)), draw(st.booleans())]


def build(spec, plan):
    plan = {p[0]: p[1:] for p in plan}
    out, i = [ulg.encode_header(spec)], 0
    for sec in ("defs", "data"):
        for m in spec[sec]:
            out.append(spoil(m, *plan[i]) if i in plan else ulg.encode_msg(m))
            i += 1
    return b"".join(out)


def load_check(ctx, raw, bad, e, strict):
    if strict and bad:
        ctx.raises("a strict load of a log with an invalid string", (UnicodeDecodeError,), lib.load, raw, disable_str_exceptions=False)
    else:
        kw = {"disable_str_exceptions": False} if strict else {}
        u = ctx.call("%s load" % ("strict" if strict else "lenient"), lib.load, raw, **kw)
        ctx.no_diff(oracle.diff(u, e), "%s load of a log with %s strings" % ("strict" if strict else "lenient", "invalid" if bad else "valid"))


class Outcome(Exception):
    pass


def tool_run(ctx, tool, path, ignore, topic):
    """what can be observed of a run: (kind, detail, stdout, files)"""
    base = os.path.dirname(path)
    flag = [] if not ignore else ["--ignore"] if tool == "params" else ["-x"] if tool == "gps" else ["-i"]
    # not to ignore errors is the default of the functions
    kw = {"disable_str_exceptions": True} if ignore else {}
    raw = open(path, "rb").read()
    err, out, code = None, "", None
    try:
        if tool == "extract":
            r = extract_message(path, topic, **kw)
            out = repr([{k: (type(v).__name__, v.tobytes()) for k, v in row.items()} for row in r])
        elif tool == "kml function":
            from pyulog import ulog2kml
            ulog2kml.convert_ulog2kml(path, os.path.join(base, "o.kml"), position_topic_name=topic, **kw)
        elif tool == "csv function":
            ulog2csv.convert_ulog2csv(path, topic, base, ",", 0, 0, **kw)
        else:
            if tool == "kml":
                from pyulog import ulog2kml
                flag += ["-o", os.path.join(base, "o.kml"), "--topic", topic]
            main, name = {"info": (info.main, "ulog_info"), "info -v": (info.main, "ulog_info"), "params": (params.main, "ulog_params"),
                          "csv": (ulog2csv.main, "ulog2csv"), "gps": (extract_gps_dump.main, "ulog_extract_gps_dump"),
                          "messages": (messages.main, "ulog_messages"),
                          "kml": (lambda: ulog2kml.main(), "ulog2kml")}[tool]
            args = [path] + flag + (["-v"] if tool == "info -v" else [])
            out, code = cli.run(ctx, main, args, name, allow=(Exception,))
    except Exception as ex:
        err = ex
    files = cli.tree(base)
    for f in files:
        if os.path.join(base, f) != path:
            os.unlink(os.path.join(base, f))
    files.pop(os.path.basename(path))
    return err, code, out, files


def check_strings(case, ctx):
    spec, plan, tool, first = case
    e = ulg.interpret(spec)
    bad = bool(plan)
    raw, clean = build(spec, plan), ulg.encode(spec)
    for strict in ([True, False] if first else [False, True]):
        load_check(ctx, raw, bad, e, strict)
    load_check(ctx, clean, False, e, True)
    topic = sorted({n for n, _ in e.datasets} or {"nothing"})[0]
    # the tools
    path = cli.save_log(ctx, spec)
    want = tool_run(ctx, tool, path, False, topic)
    ctx.check(not isinstance(want[0], UnicodeError) and (want[0] is None or tool in ("kml", "kml function", "extract")),
              lambda: "%s of a log with valid strings raised %r" % (tool, want[0]))
    with open(path, "wb") as f:
        f.write(raw)
    got = tool_run(ctx, tool, path, True, topic)
    ctx.check(type(got[0]) is type(want[0]) and got[1] == want[1], lambda: "%s with the option to ignore errors: %r instead of %r" % (
        tool, got[:2], want[:2]))
    ctx.check(got[2] == want[2], lambda: "%s with the option to ignore errors prints %s instead of %s" % (
        tool, oracle.short(got[2]), oracle.short(want[2])))
    ctx.check(got[3] == want[3], lambda: "%s with the option to ignore errors writes %s instead of %s" % (
        tool, oracle.short(got[3]), oracle.short(want[3])))
    got = tool_run(ctx, tool, path, False, topic)
    if bad:
        ctx.check(isinstance(got[0], UnicodeError) or got[1] not in (0, None),
                  lambda: "%s shows a log with invalid strings without the option: %r" % (tool, got[:2]))
        ctx.check(not any(b for b in got[3].values()), "%s wrote files for a log that it could not read" % tool)
    else:
        ctx.check((type(got[0]), got[1:]) == (type(want[0]), want[1:]), "%s gives two results for one log" % tool)
    ctx.label(tool)
    ctx.label("invalid string", bad)
    for p in plan:
        ctx.label("invalid " + p[1])
    ctx.nontrivial(bad and bool(e.datasets))


@st.composite
def large_case(draw):
    """long strings: [spec with something long, [region positions], ...]"""
    n = draw(st.sampled_from([300, 1000, 4000, 4097, 8193, 20000, 65000]))
    seed = draw(st.integers(0, 1000))
    picks = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2**20), st.sampled_from([b"\xff", b"\xc3", b"\x80", b"\xf8"])).map(list), max_size=2))
    return [draw(gen.logs(**dict(CFG, max_defs=5, n_ops=[4]))), draw(st.sampled_from(["text", "text", "value"])), n, seed,
            picks, draw(st.sampled_from(TOOLS)), draw(st.booleans())]


def check_large(case, ctx):
    spec, feature, n, seed, picks, tool, first = case
    spec = cli.set_info(gen.enlarge([spec, feature, n, seed]), "ver_sw_release", None, None)
    msgs = [m for sec in ("defs", "data") for m in spec[sec]]
    # the longest strings first; a bad byte at any place of them
    where = sorted(((i, r, len(t)) for i, m in enumerate(msgs) for r, t in regions(m)), key=lambda w: -w[2])
    plan, used = [], set()
    for k, pos, bad in picks:
        for i, region, size in where[k:k + 1]:
            raw = ulg.encode_msg(msgs[i])
            if i not in used and len(raw) + len(bad) <= 65538:
                used.add(i)
                plan.append([i, region, [size, 4095, 4096, 8192][pos % 4] if pos % 5 == 0 else pos, bad])
    ctx.label("bad byte in a string of 4096 or more", any(len(dict(regions(msgs[p[0]]))[p[1]]) >= 4096 for p in plan))
    check_strings([spec, plan, tool, first], ctx)


PARTS = [Part("strings", string_case, check_strings, 1200), Part("large", large_case, check_large, 100)]
