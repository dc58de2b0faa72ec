import struct

from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part

ID = "C06"
RULE = ("generated logs with (a) extra unknown and sync messages, (b) single malformed messages, (c) corrupt stretches followed "
        "by a sync message, (d) arbitrary damage of the data section; the surviving content is compared with the reference "
        "model of what lies before and after the damage; non-trivial: there is content before and after the damage")
ASSUMPTIONS = ["a corrupt stretch claims no more bytes than the file has left (otherwise the parser takes the file as cut)",
               "damage does not create a second subscription of a used message id"]

CFG = dict(max_topics=3, max_fields=3, max_subs=4, unknown=False, n_ops=[6, 12, 20], default_bits=[1, 2, 3, 4],
           ops="DDDDDDDDLCOPQIM")


# ------------------------------------------------------------- (a) skipping
@st.composite
def unknown_case(draw):
    spec = draw(gen.logs(**CFG))
    n = draw(st.integers(1, 4))
    ins = []
    for _ in range(n):
        sec = draw(st.sampled_from(["defs", "data", "data"]))
        msg = draw(gen.unknown_msg()) if sec == "defs" or draw(st.integers(0, 2)) else ["S"]
        ins.append([sec, draw(st.integers(0, 60)), msg])
    big = draw(st.integers(0, 9)) == 0
    if big:
        ins.append(["data", draw(st.integers(0, 60)), ["U", 200, bytes(range(1, 101)) * 100]])     # 10000 bytes: the longest
    return [spec, ins]


def inserted(spec, ins):
    new = {"defs": list(spec["defs"]), "data": list(spec["data"])}
    for sec, pos, msg in ins:
        lo = 1 if sec == "data" or (new["defs"] and new["defs"][0][0] == "B") else 0
        pos = lo + pos % (len(new[sec]) - lo + 1)
        new[sec].insert(pos, msg)
    return dict(spec, **new)


def check_unknown(case, ctx):
    spec, ins = case
    e = ulg.interpret(spec)
    u = ctx.call("loading a log with unknown messages", lib.load, ulg.encode(inserted(spec, ins)))
    ctx.no_diff(oracle.diff(u, e), "log with unknown or sync messages inserted")
    ctx.label("unknown in the definitions", any(i[0] == "defs" for i in ins))
    ctx.nontrivial(bool(e.datasets))


# ------------------------------------------------- (b) malformed messages
BAD = {
    "D": ["short", "long", "longer", "id", "tiny"], "L": ["cut"], "C": ["cut"], "O": ["short", "long"], "I": ["nokey", "value", "empty"],
    "P": ["nokey", "value", "empty"], "M": ["nokey", "value", "empty"], "Q": ["nokey", "value", "empty"], "A": ["cut", "format", "recursive"],
}
BAD_LIST = [(k, v) for k in sorted(BAD) for v in BAD[k]]


def bad_message(kind, how, n, size, pad, mid):
    """a framed message which cannot be parsed"""
    if kind == "D":
        if how == "short":
            body = struct.pack("<H", mid) + b"\x11" * (n * 331 % size if size > 1000 else n % size)
        elif how == "long":
            body = struct.pack("<H", mid) + b"\x11" * (size + pad + 1 + n % 40)
        elif how == "longer":
            body = struct.pack("<H", mid) + b"\x11" * min(65533, size + pad + 250 * (1 + n % 260))
        elif how == "id":
            body = struct.pack("<H", 4321 + n % 7) + b"\x11" * n
        else:
            body = b"\x01"[:n % 2]
    elif kind == "L":
        body = b"6" + b"\x01" * (n % 8)
    elif kind == "C":
        body = b"6" + b"\x01" * (n % 10)
    elif kind == "O":
        body = b"\x01" * (n % 2 if how == "short" else 3 + n % 5)
    elif kind == "A":
        body = b"\x01" * (n % 3) if how == "cut" else struct.pack("<BH", 0, 4444) + {
            "format": [b"no_such_format"], "recursive": [b"loop_1", b"loop_2", b"loop_3"]}[how][n % (1 if how == "format" else 3)]
    else:
        if how == "empty":
            body = b""
        elif how == "nokey":
            key = b"keywithoutspace"
            body = bytes([len(key)]) + key + b"\0" * (n % 5)
        else:
            t, s = [(b"int32_t", 4), (b"float", 4), (b"uint64_t", 8), (b"bool", 1)][n % 4]
            key = t + b" SYS_X"
            body = bytes([len(key)]) + key + b"\x01" * ((s + 1 + n % 3) if n % 2 else n % s)
        if kind in "MQ" and how != "empty":
            body = b"\x01" + body
    return ulg.frame(ord(kind), body)


@st.composite
def bad_case(draw):
    spec = draw(gen.logs(**CFG))
    ins = []
    for _ in range(draw(st.integers(1, 3))):
        kind, how = draw(st.sampled_from(BAD_LIST))
        ins.append([kind, how, draw(st.integers(0, 200)), draw(st.integers(0, 60)), draw(st.booleans())])
    return [spec, ins, draw(topic_filter(spec))]


def topic_filter(spec):
    subscribed = sorted({m[3] for m in spec["data"] if m[0] == "A"})
    return st.one_of(st.none(), st.none(), st.lists(st.sampled_from(subscribed or ["nothing"]), max_size=2, unique=True))


def check_filtered(spec, names, corrupt, raw, what, ctx):
    """the same with a topic filter; times of dropouts and parameter changes are relative to the loaded data"""
    e = ulg.interpret(spec, names)
    e.corrupt = corrupt
    u = ctx.call("loading a log with %s, filtered by %r" % (what, names), lib.load, raw, message_name_filter_list=names)
    ctx.no_diff(oracle.diff(u, e, skip=("changed", "dropouts", "last")), "log with %s, filtered by %r" % (what, names))
    ctx.label("with a topic filter")


@st.composite
def bad_filtered_case(draw):
    """malformed samples only, with a filter which takes some of the topics"""
    spec = draw(gen.logs(**dict(CFG, min_topics=2, min_subs=2, min_upfront=2, n_ops=[6, 12])))
    subscribed = sorted({m[3] for m in spec["data"] if m[0] == "A"})
    names = draw(st.lists(st.sampled_from(subscribed or ["nothing"]), max_size=max(1, len(subscribed) - 1), unique=True))
    ins = [["D", draw(st.sampled_from(["id", "id", "short", "long"])), draw(st.integers(0, 200)), draw(st.integers(0, 60)), False]
           for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    return [spec, ins, names]


def check_bad(case, ctx):
    spec, ins, *names = case
    names = names[0] if names else None
    if any(i[:2] == ["A", "recursive"] for i in ins):
        loops = [["F", "loop_1", [["uint64_t", 0, "timestamp"], ["loop_1", 0, "x"]]], ["F", "loop_2", [["loop_3", 2, "x"]]],
                 ["F", "loop_3", [["uint8_t", 2, "y"], ["loop_2", 3, "z"]]]]
        spec = dict(spec, defs=spec["defs"] + loops)
    new = {"defs": list(spec["defs"]), "data": list(spec["data"])}
    fm = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    kinds = set()
    corrupt = False              # with the filter: broken samples of topics which are not wanted are not looked at
    for kind, how, n, pos, defs in ins:
        sec = "defs" if defs and kind in "IPMQ" else "data"
        lo = 1 if sec == "data" or (new["defs"] and new["defs"][0][0] == "B") else 0
        pos = lo + pos % (len(new[sec]) - lo + 1)
        size = pad = mid = 0
        if kind == "D" and how != "id":
            subs = [m for m in new["data"][:pos] if m[0] == "A"]
            if not subs:
                continue
            a = subs[n % len(subs)]
            fields, pad = ulg.flatten(fm, a[3])
            size, mid = ulg.fields_size(fields), a[2]
            corrupt |= how == "tiny" or names is None or a[3] in names
        else:
            corrupt = True
        new[sec].insert(pos, ["X", bad_message(kind, how, n, size, pad, mid)])
        kinds.add(kind + " " + how)
    if not kinds:
        return
    e = ulg.interpret(spec)
    e.corrupt = True
    u = ctx.call("loading a log with malformed messages (%s)" % ", ".join(sorted(kinds)), lib.load,
                 ulg.encode(dict(spec, **new)))
    ctx.no_diff(oracle.diff(u, e), "log with malformed messages (%s) inserted" % ", ".join(sorted(kinds)))
    if names is not None:
        check_filtered(spec, names, corrupt, ulg.encode(dict(spec, **new)), "malformed messages (%s)" % ", ".join(sorted(kinds)), ctx)
    for k in kinds:
        ctx.label("malformed " + k)
    ctx.nontrivial(bool(e.datasets))


# ----------------------------------------------------- (c) recovery by sync
@st.composite
def recover_case(draw):
    spec = draw(gen.logs(**dict(CFG, n_ops=[12, 20])))
    if draw(st.booleans()):
        # the search for sync inside of an unknown message has nothing to do with the one behind a corrupt stretch
        spec = inserted(spec, [["data", draw(st.integers(0, 60)), draw(gen.unknown_msg())] for _ in range(draw(st.integers(1, 3)))])
    blocks = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["type0", "size0", "huge", "swallow"]))
        # the search for sync works in chunks: put its position around their borders
        fill = draw(st.one_of(st.integers(0, 30), st.builds(lambda k, d: 505 * k + d, st.integers(1, 3), st.integers(-12, 16))))
        pattern = draw(st.sampled_from([b"\0", b"\xff", ulg.SYNC[:7], ulg.SYNC[:4] + b"\x25", b"D\1\2\3", ulg.SYNC[1:]]))
        blocks.append([draw(st.integers(0, 60)), kind, fill, pattern, draw(st.integers(0, 3)), draw(st.integers(0, 255)), draw(st.sampled_from([0, 0, 1, 2]))])
    return [spec, blocks, draw(topic_filter(spec))]


def border_cases():
    """a single stretch: the sync message starts around the borders of the chunks of the search (from byte 1 of the stretch)"""
    return st.tuples(gen.logs(**dict(CFG, n_ops=[6, 12], max_topics=2)), st.integers(0, 60), st.sampled_from(["type0", "size0"]),
                     st.integers(1, 3), st.integers(-3, 9), st.sampled_from([b"\0", b"\xff", ulg.SYNC[:7], ulg.SYNC[1:]])).map(
        lambda c: [c[0], [[c[1], c[2], 505 * c[3] - 6 + c[4], c[5], 0, c[1], 0]]])


def check_recover(case, ctx):
    spec, blocks, *names = case
    data = [list(m) for m in spec["data"]]
    marks = []
    for pos, kind, fill, pattern, nlost, salt, *how in blocks:
        # 1: only the header of the sync message is damaged too; 2: right behind the damaged header
        bare = how[0] if how else 0
        marks.append((1 + pos % len(data), kind, 0 if bare == 2 else fill, pattern, 0 if bare == 2 else nlost, salt, bare))
    marks.sort(key=lambda m: m[0], reverse=True)
    # (message, survives): insert from the back
    items = [(m, True) for m in data]
    for pos, kind, fill, pattern, nlost, salt, bare in marks:
        end = ["X", ulg.SYNC] if bare else ["S"]
        tail = items[pos:]
        lost, i = [], 0
        while i < len(tail) and len(lost) < nlost and tail[i][1] and tail[i][0][0] not in "AX":
            lost.append((tail[i][0], False))
            i += 1
        filler = (pattern * (fill // len(pattern) + 1))[:fill] + b"\0" * (not bare)
        body = filler + b"".join(ulg.encode_msg(m) for m, _ in lost)
        junk_type = [1, 10, 90, 200, 255][salt % 5]
        if kind == "type0":
            head = struct.pack("<HB", min(salt, len(body)), 0)
        elif kind == "size0":
            head = struct.pack("<HB", 0, junk_type)
        elif kind == "huge":
            size = 10001 + salt
            filler = (pattern * (size // len(pattern) + 1))[:size] + b"\0"
            body = filler + b"".join(ulg.encode_msg(m) for m, _ in lost)
            head = struct.pack("<HB", size, junk_type)
        else:                          # swallow: a plausible unknown message which reaches past the sync
            rest = sum(len(ulg.encode_msg(m)) for m, _ in tail[i:])
            head = struct.pack("<HB", len(body + ulg.encode_msg(end)) + min(rest, salt), junk_type)
        # where the search for sync starts depends on the kind; nothing before the sync message may look like one
        blob = head + body
        if ulg.SYNC in blob + ulg.encode_msg(end)[:-1]:
            return
        items = items[:pos] + [(["X", blob[:len(head) + len(filler)]], False)] + lost + [(end, not bare)] + tail[i:]
    raw = ulg.encode(dict(spec, data=[m for m, _ in items]))
    kept = [m for m, ok in items if ok]
    e = ulg.interpret(dict(spec, data=kept))
    e.corrupt = True
    u = ctx.call("loading a log with a corrupt stretch before a sync message", lib.load, raw)
    ctx.no_diff(oracle.diff(u, e), "corrupt stretch (%s), then sync" % ", ".join(m[1] for m in marks))
    if names and names[0] is not None:
        check_filtered(dict(spec, data=kept), names[0], True, raw, "a corrupt stretch (%s) before a sync message" % ", ".join(
            m[1] for m in marks), ctx)
    ctx.label("unknown messages around", any(m[0] == "U" for m in data))
    for m in marks:
        ctx.label("recover from " + m[1] + ["", ", sync without header", ", sync right behind it"][m[6]])
    ctx.label("messages lost in the stretch", sum(m != ["S"] for m in kept) < len(data))
    first = min(m[0] for m in marks)
    ctx.nontrivial(any(m[0] == "D" for m in data[:first]) and any(m[0] == "D" for m, ok in items[first:] if ok))


# ------------------------------------------- zeros in the definitions
@st.composite
def zeros_case(draw):
    spec = draw(gen.logs(**dict(CFG, n_ops=[4, 8], min_subs=1, min_upfront=1)))
    return [spec, draw(st.lists(st.tuples(st.integers(0, 30), st.integers(1, 40), st.integers(1, 3), st.sampled_from([1, 90, 200, 255])).map(list),
                                min_size=1, max_size=3))]


def check_zeros(case, ctx):
    """the parser advances byte by byte over zeros, until it is back in step"""
    spec, blocks = case
    defs = list(spec["defs"])
    for pos, n, size, kind in blocks:
        lo = 1 if defs and defs[0][0] == "B" else 0
        pos = lo + pos % (len(defs) - lo + 1)
        # the message behind the zeros is a small unknown one: read out of step, it claims at most size * 256 bytes
        defs[pos:pos] = [["X", b"\0" * n], ["U", kind, b"\1" * size]]
    e = ulg.interpret(spec)
    e.corrupt = True
    u = ctx.call("loading a log with zeros among the definitions", lib.load,
                 ulg.encode(dict(spec, defs=defs, data=spec["data"] + [["U", 201, b"\2" * 1000]])))
    ctx.no_diff(oracle.diff(u, e), "%d blocks of zeros among the definitions" % len(blocks))
    ctx.nontrivial(bool(e.datasets) and len(spec["defs"]) > 2)


# ------------------------------------------------------ (d) any damage
@st.composite
def damage_case(draw):
    spec = draw(gen.logs(**dict(CFG, n_ops=[6, 16], min_upfront=1)))
    n = len(ulg.encode(spec)) - len(ulg.encode(dict(spec, data=[])))
    at = draw(st.integers(0, n))
    cut = draw(st.integers(0, 40))
    new = draw(st.one_of(st.binary(max_size=12), st.just(b"\0" * 40), st.just(ulg.SYNC), st.sampled_from(
        [ulg.frame(k, b"\1\2\3") for k in b"BFIMPQRDLCOS"] + [ulg.frame(ord("S"), ulg.SYNC) * 2])))
    return [spec, at, cut, new]


def is_prefix(a, b):
    return len(a) <= len(b) and oracle.same(list(a), list(b[:len(a)]))


def check_damage(case, ctx):
    spec, at, cut, new = case
    raw = ulg.encode(spec)
    lo = len(ulg.encode(dict(spec, data=[]))) + len(ulg.encode_msg(spec["data"][0]))
    at = min(len(raw), lo + at)
    damaged = raw[:at] + new + raw[at + cut:]
    for m in spec["data"]:
        if m[0] == "A":
            import re
            if len(re.findall(b"(?s)(?=A." + re.escape(struct.pack("<H", m[2])) + b")", damaged)) > 1:
                ctx.label("excluded: message id subscribed twice")
                return
    ends = ulg.offsets(spec)
    e = ulg.interpret(dict(spec, data=[m for end, sec, m in ends if sec == "data" and end <= at]))
    u = ctx.call("loading a log with a damaged data section", lib.load, damaged)
    s = oracle.snapshot(u)
    what = "log damaged at byte %d of %d: what was logged before is lost or changed: " % (at, len(raw))
    ctx.check(u.start_timestamp == e.start and u.last_timestamp >= e.last, what + "timestamps")
    ctx.check(oracle.same(s["params"], e.params), what + "initial parameters")
    ctx.check(is_prefix(e.changed, s["changed"]), what + "parameter changes")
    ctx.check(is_prefix(e.logged, s["logged"]), what + "logged messages")
    ctx.check(is_prefix(e.dropouts, s["dropouts"]), what + "dropouts")
    for t, ms in e.tagged.items():
        ctx.check(is_prefix([(l, t, ts, x) for l, ts, x in ms], s["tagged"].get(t, [])), what + "tagged messages")
    for k, d in e.datasets.items():
        got = [x for x in u.data_list if (x.name, x.multi_id, x.msg_id) == (d.name, d.multi, d.msg_id)]
        ctx.check(len(got) == 1, what + "%d datasets %r" % (len(got), k))
        for f, (t, col) in d.columns().items():
            ctx.check(got[0].data[f].tobytes()[:len(col)] == col, what + "%s of %r" % (f, k))
    for d in u.data_list:
        ctx.check(len({len(c) for c in d.data.values()}) == 1, "columns of different lengths in %s" % d.name)
    order = [(d.name, d.multi_id) for d in u.data_list]
    ctx.check(order == sorted(order), "datasets are not sorted")
    ctx.label("reported as corrupt", u.file_corruption)
    ctx.nontrivial(bool(e.datasets) and at < len(raw))


PARTS = [
    Part("unknown", unknown_case, check_unknown, 1200),
    Part("malformed", bad_case, check_bad, 1600),
    Part("filtered", bad_filtered_case, check_bad, 300),
    Part("recover", recover_case, check_recover, 1800),
    Part("borders", border_cases, check_recover, 400),
    Part("zeros", zeros_case, check_zeros, 500),
    Part("damage", damage_case, check_damage, 1800),
    Part("large", lambda: gen.with_large(bad_case(), gen.FEATURES), lambda case, ctx: check_bad(gen.enlarged(case), ctx), 50),
]
