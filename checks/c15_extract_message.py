import numpy as np
from hypothesis import strategies as st

from pyulog.extract_message import extract_message
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C15"
LEVEL = "exploration"
RULE = ("extract_message on generated logs, for topics with one or several instances, topics without samples, absent topics and "
        "names that contain each other, with generated time limits; the list of records must be the samples of instance 0 in the "
        "reference model; non-trivial: at least one record was returned")
ASSUMPTIONS = ["timestamps below 2^53 and not decreasing (what a time limit means is not defined otherwise)"]

CFG = dict(ts_bits=53, ts="mono", starts=[0, 1, 1000000, 999999, 112574307, 1710773350346000], n_ops=[8, 14, 24], max_topics=4,
           max_subs=5, ops="DDDDDDDDDDDLOPSA",
           pairs=lambda topics: st.lists(st.sampled_from([(t, m) for t in topics for m in (0, 0, 0, 1, 7)]), min_size=1, max_size=5,
                                         unique=True))


@st.composite
def extract_case(draw):
    spec = draw(gen.logs(**CFG))
    spec = cli.round_times(spec, *draw(st.sampled_from([(1, 0), (500000, 0), (1000000, 0), (1000000, -1), (15625, 0), (15625, -1), (1000000, 1)])))
    e = ulg.interpret(spec)
    names = sorted({m[3] for m in spec["data"] if m[0] == "A"})
    full = sorted(t for t, m in e.datasets if m == 0)
    odd = names * 3 + ["nope", names[0] + "_x", names[0][:-1] or "y", "", ",".join(names), names[0] + " ", " " + names[0], names[0].upper(), names[0].capitalize()]
    message = draw(st.sampled_from(odd if not full or draw(st.integers(0, 5)) == 0 else full))
    times = {1}
    fractions = draw(st.booleans())          # of 1/64 s: exact in floating point
    for (t, m), d in e.datasets.items():
        if t == message or not full:
            for t in d.timestamps():
                times |= {t // 15625 / 64, (t // 15625 + 1) / 64} if fractions else {t // 10**6, t // 10**6 + 1}
    times = sorted(times) + [e.last // 10**6 + 5, 0]
    limit = st.integers(0, 2).flatmap(lambda i: st.sampled_from(times) if i else st.none())
    return [spec, message, draw(limit), draw(limit), draw(st.booleans())]


def check_extract(case, ctx):
    spec, message, ts, te, ignore = case
    path = cli.save_log(ctx, spec)
    e = ulg.interpret(spec)
    d = e.datasets.get((message, 0))
    if d is None:
        ctx.raises("extract_message of a topic that is not in the log", (AttributeError,), extract_message, path, message, ts, te)
        ctx.label("absent topic")
        return
    rows = ctx.call("extract_message", extract_message, path, message, ts, te, ignore)
    ctx.check(isinstance(rows, list), "the result is a %s" % type(rows))
    stamps = d.timestamps()
    keep = [i for i, t in enumerate(stamps) if (not ts or t >= ts * 10**6) and (not te or t < te * 10**6)]
    ctx.check(len(rows) == len(keep), lambda: "%d records instead of %d" % (len(rows), len(keep)))
    keys = ["timestamp"] + [f for f, _ in d.fields if f != "timestamp"]
    cols = d.columns()
    for row, i in zip(rows, keep):
        ctx.check(list(row) == keys, lambda: "fields %s instead of %s" % (list(row), keys))
        for f in keys:
            t, raw = cols[f]
            want = np.frombuffer(raw, dtype=np.dtype(ulg.TYPES[t][2]).newbyteorder("<"))[i:i + 1]
            got = np.asarray(row[f])
            ok = got.shape == () and got.dtype.kind == want.dtype.kind and got.astype(want.dtype).tobytes() == want.tobytes()
            ctx.check(ok, lambda: "%s of sample %d is %r instead of %r" % (f, i, row[f], want[0]))
    ctx.label("time limit cut something", len(keep) < len(stamps))
    ctx.label("a sample exactly at a limit", any(t in ((ts or 0) * 10**6, (te or 0) * 10**6) for t in stamps if t))
    ctx.label("several instances", sum(k[0] == message for k in e.datasets) > 1)
    ctx.nontrivial(bool(rows))


def row_cases():
    """many samples of a topic with few fields"""
    return st.tuples(gen.logs(**dict(CFG, max_topics=1, max_fields=2, max_subs=1, min_subs=1, min_upfront=1, n_ops=[1], max_row=30)),
                     st.sampled_from(gen.ROWS), st.integers(0, 2**32), st.integers(0, 400), st.integers(0, 400)).map(list)


def check_rows(case, ctx):
    spec, n, seed, ts, te = case
    spec = gen.densify([spec, n, seed, "D"])
    first = spec["start"] // 10**6
    name = [m[3] for m in spec["data"] if m[0] == "A"][0]
    check_extract([spec, name, first + ts if ts % 2 else None, first + ts + te if te % 2 else None, False], ctx)


def check_type(case, ctx):
    spec, value = case
    path = cli.save_log(ctx, spec)
    ctx.raises("extract_message with %r as topic" % (value,), (AttributeError,), extract_message, path, value)
    ctx.nontrivial()


PARTS = [
    Part("extract", extract_case, check_extract, 2400),
    Part("rows", row_cases, check_rows, 16),
    Part("type", lambda: st.tuples(gen.logs(**CFG), st.sampled_from([None, 1, ["a"], ("a", "b"), b"a"])).map(list), check_type, 40),
]
