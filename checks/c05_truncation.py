from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part

from . import c08_appended as c08

ID = "C05"
RULE = ("a generated well-formed log is cut at a generated byte offset (all boundaries +-4 bytes favoured) or at every offset; "
        "the load must not raise and must give exactly what the complete messages before the cut say; "
        "non-trivial: the cut is inside a message and at least two messages are complete")
ASSUMPTIONS = ["the log is well-formed before the cut"]

CFG = dict(lossy=True, default_bits=[1, 2, 3, 255], max_topics=3, max_fields=3, max_subs=4)


def prefix(spec, cut):
    """the messages which are complete before byte `cut`"""
    ends = ulg.offsets(spec)
    defs = [m for end, sec, m in ends if sec == "defs" and end <= cut]
    data = [m for end, sec, m in ends if sec == "data" and end <= cut]
    return dict(spec, defs=defs, data=data), any(end == cut for end, _, _ in ends)


def one_cut(spec, raw, cut, ctx):
    part = raw[:cut]
    if cut < 16:
        ctx.raises("loading a log cut inside the header", (TypeError,), lib.load, part)
        return
    want, boundary = prefix(spec, cut)
    e = ulg.interpret(want)
    u = ctx.call("loading a log of %d bytes cut at %d" % (len(raw), cut), lib.load, part)
    ctx.no_diff(oracle.diff(u, e), "log of %d bytes cut at %d" % (len(raw), cut))
    ctx.label("cut at a message boundary", boundary)
    ctx.label("cut in the definitions", not want["data"])
    ctx.label("cut in the data section", bool(want["data"]))
    ctx.nontrivial(not boundary and len(want["defs"]) + len(want["data"]) > 1)


@st.composite
def cut_case(draw):
    spec = draw(gen.logs(**CFG))
    ends = [16] + [end for end, _, _ in ulg.offsets(spec)]
    if draw(st.booleans()):
        cut = draw(st.sampled_from(ends)) + draw(st.integers(-4, 4))
    else:
        cut = draw(st.integers(0, ends[-1]))
    return [spec, max(0, min(cut, ends[-1]))]


def check_cut(case, ctx):
    spec, cut = case
    one_cut(spec, ulg.encode(spec), cut, ctx)


def check_all_cuts(case, ctx):
    raw = ulg.encode(case)
    if len(raw) > 900:
        raw = raw[:900]
    for cut in range(len(raw) + 1):
        one_cut(case, ulg.encode(case), cut, ctx)
    ctx.count("cut offsets tried", len(raw) + 1)


def check_header_only(case, ctx):
    spec, cut = case
    raw = ulg.encode(spec)[:cut]
    if cut < 16:
        ctx.raises("header-only load of a log cut inside the header", (TypeError,), lib.load, raw, parse_header_only=True)
        return
    want, boundary = prefix(spec, cut)
    e = ulg.interpret(dict(want, data=[]))
    u = ctx.call("header-only load of a log cut at %d" % cut, lib.load, raw, parse_header_only=True)
    ctx.no_diff(oracle.diff(u, e), "header-only load of a log cut at %d" % cut)
    ctx.nontrivial(not boundary and not want["data"])


def check_large(case, ctx):
    """cut within or around a large message, and at a few places before it"""
    spec, cuts = gen.enlarge(case[0]), case[1]
    raw = ulg.encode(spec)
    ends = [16] + [end for end, _, _ in ulg.offsets(spec)]
    widest = max(range(1, len(ends)), key=lambda i: ends[i] - ends[i - 1])
    for how, n in cuts:
        if how < 2:
            cut = ends[widest - how] + n % 9 - 4
        elif how == 2:
            cut = ends[widest - 1] + n % (ends[widest] - ends[widest - 1])
        else:
            cut = n % (ends[-1] + 1)
        one_cut(spec, raw, min(cut, ends[-1]), ctx)


def check_appended(case, ctx):
    """a log with appended data that is cut once more"""
    (spec, cuts, on), places = case[0], case[1]
    raw, same, _, parts, offs = c08.build([spec, [[c[0], c[1], None] for c in cuts], on])
    if any(b <= a for a, b in zip(offs, offs[1:])):
        return
    start = len(ulg.encode(dict(same, data=[])))
    ends = []
    for part, pos in zip(parts, [start] + offs):
        for m in part:
            pos += len(ulg.encode_msg(m))
            ends.append((pos, m))
    for how, n in places:
        if how == 0:
            cut = (offs[n % len(offs)]) + n // 8 % 9 - 4
        elif how == 1:
            cut = ends[n % len(ends)][0] + n // 64 % 9 - 4
        else:
            cut = start + n % (len(raw) - start + 1)
        cut = max(start, min(cut, len(raw)))
        want = dict(same, data=[m for end, m in ends if end <= cut])
        e = ulg.interpret(want)
        what = "log of %d bytes with data appended at %r cut at %d" % (len(raw), offs, cut)
        u = ctx.call("loading a " + what, lib.load, raw[:cut])
        ctx.no_diff(oracle.diff(u, e), what)
        ctx.label("cut in front of all appended data", cut < offs[0])
        ctx.label("cut in appended data", cut > offs[0])
    ctx.nontrivial(any(parts[1:]))


PARTS = [
    Part("cut", cut_case, check_cut, 4000),
    Part("every-cut", lambda: gen.logs(**dict(CFG, max_topics=2, max_fields=2, n_ops=[2, 6], max_defs=4, nested=False)), check_all_cuts, 64),
    Part("appended", lambda: st.tuples(c08.appended_case(lossy=True), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2**20)).map(list), min_size=1, max_size=4)).map(list),
         check_appended, 700),
    Part("header-only", cut_case, check_header_only, 800),
    Part("large", lambda: st.tuples(gen.large_logs(), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2**20)).map(list), min_size=1, max_size=3)).map(list),
         check_large, 60),
]
