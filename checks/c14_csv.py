import csv
import io
import os
import struct

import numpy as np
from hypothesis import strategies as st

from pyulog import ulog2csv
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C14"
LEVEL = "exploration"
RULE = ("generated logs (all types, nested and array fields, texts, several instances) are exported with generated options (topic "
        "list, delimiter, start and end time, output directory, function or command line); the set of files, every header and "
        "every cell, parsed back, must be the samples of the reference model; non-trivial: at least one file with a sample")
ASSUMPTIONS = ["timestamps below 2^53 and not decreasing (what a time limit means is not defined otherwise)"]

CFG = dict(ts_bits=53, ts="mono", starts=[0, 1, 1000000, 999999, 112574307, 1710773350346000], n_ops=[4, 10, 20], max_topics=4,
           max_subs=5, ops="DDDDDDDDDDDLOPSA", topic_names=[n for n in gen.TOPIC_NAMES] + ["a/b/c", "z-1", "a_b"])
TEXTS = ["", "a", "hello", "x=1", "with space", "ünï", "日本", "tab\there", "😀😀", "comma,", "semi;colon", 'quo"te', "new\nline", "cr\r",
         '"', "|", "abcdefghijklmnopqrstuvwxyz"]


@st.composite
def csv_case(draw):
    spec = draw(gen.logs(**CFG))
    ignore = draw(st.booleans())
    texts = st.one_of(st.sampled_from(TEXTS), st.text('a",;\n\r|', min_size=1, max_size=6), st.text(st.characters(codec="utf-8"), max_size=12))
    if ignore:
        texts = st.one_of(texts, st.binary(max_size=12))
    spec = cli.set_texts(spec, draw(st.lists(texts, min_size=1, max_size=4)))
    spec = cli.round_times(spec, *draw(st.sampled_from([(1, 0), (500000, 0), (1000000, 0), (1000000, -1), (15625, 0), (15625, -1), (1000000, 1)])))
    topics = sorted({m[3] for m in spec["data"] if m[0] == "A"})
    times = {0, 1}
    by_main = draw(st.booleans())
    fractions = not by_main and draw(st.booleans())          # of 1/64 s: exact in floating point
    e = ulg.interpret(spec)
    for d in e.datasets.values():
        for t in d.timestamps():
            times |= {t // 10**6, t // 10**6 + 1} | ({t // 15625 / 64, (t // 15625 + 1) / 64} if fractions else set())
    times = sorted(times) + [e.last // 10**6 + 5]
    return [spec, draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(topics + ["nope"]), min_size=1, max_size=3))),
            draw(st.sampled_from([None, ",", ";", "\t", "|"])),
            draw(st.one_of(st.none(), st.sampled_from(times))), draw(st.one_of(st.none(), st.sampled_from(times))),
            draw(st.sampled_from(["same", "dir", "dir", "new dir"])), ignore,
            draw(st.sampled_from(["log.ulg", "log.ULG", "log", "2020-01-01_a.b.ulg", "x.ulg.dat", "a b.Ulg", "a.ulg.ulg", "\u00fc.ulg", "ulg"])), by_main]


def expected_columns(d):
    """[(header, [fields], type)]"""
    groups = {b: n for b, _, n in cli.char_groups(d.fields)}
    cols = []
    for f, t in d.fields:
        if f.startswith("_padding"):
            continue
        if t == "char" and f.endswith("]"):
            base, idx = f[:-1].rsplit("[", 1)
            if idx == "0":
                cols.append((base, "text", [f + "" for f in ["%s[%d]" % (base, i) for i in range(groups[base])]]))
        else:
            cols.append((f, t, [f]))
    ts = [c for c in cols if c[0] == "timestamp"]
    return ts + [c for c in cols if c[0] != "timestamp"]


def cell_matches(text, kind, values, raw, ctx):
    if kind == "text":
        b = bytes(v & 255 for v in values).split(b"\0")[0]
        return text == b.decode("utf-8", "ignore")
    v = values[0]
    if kind in ("float", "double"):
        np_t = np.float32 if kind == "float" else np.float64
        try:
            got = np_t(text)
        except ValueError:
            return False
        if v != v:
            return bool(np.isnan(got))
        return got.tobytes() == np_t(v).tobytes()
    try:
        return int(text) == v
    except ValueError:
        return False


def read_rows(content, delimiter):
    return list(csv.reader(io.StringIO(content.decode("utf-8"), newline=""), delimiter=delimiter))


def check_csv(case, ctx):
    spec, topics, delimiter, ts, te, where, ignore, fname, by_main = case
    path = cli.save_log(ctx, spec, fname)
    d0 = os.path.dirname(path)
    out = None
    if where != "same":
        out = os.path.join(os.path.dirname(ctx.path("x")), "out")
        if where == "dir" or not by_main:
            os.mkdir(out)
    if by_main:
        args = [path] + (["-m", ",".join(topics)] if topics else []) + (["-d", delimiter] if delimiter else []) + (["-o", out] if out else []) + \
            (["-ts", str(ts)] if ts is not None else []) + (["-te", str(te)] if te is not None else []) + (["-i"] if ignore else [])
        _, code = cli.run(ctx, ulog2csv.main, args, "ulog2csv")
        ctx.check(code == 0, "ulog2csv ended with %r" % code)
    else:
        ctx.call("convert_ulog2csv", ulog2csv.convert_ulog2csv, path, ",".join(topics) if topics else None, out, delimiter or ",", ts, te, ignore)
    e = ulg.interpret(spec, names=topics)
    files = cli.tree(out or d0)
    base = fname[:-4] if fname.lower().endswith(".ulg") else fname
    log = files.pop(fname, None) if out is None else cli.tree(d0)[fname]
    ctx.check(log == ulg.encode(spec), "the log file was changed")
    names = {"%s_%s_%d.csv" % (base, d.name.replace("/", "_"), d.multi): d for _, d in sorted(e.datasets.items())}
    clash = len(names) < len(e.datasets)    # a/b and a_b
    ctx.check(not clash, "two topics are written to the same file", sig="csv-name-collision")
    ctx.label("two topics with the same file name", clash)
    ctx.check(set(files) == set(names), lambda: "files %s instead of %s" % (sorted(files), sorted(names)))
    n_rows = 0
    cut = False
    for name, d in names.items():
        rows = ctx.call("reading " + name, read_rows, files[name], delimiter or ",")
        cols = expected_columns(d)
        ctx.check(rows and rows[0] == [c[0] for c in cols], lambda: "%s: header %s instead of %s" % (
            name, oracle.short(rows[:1]), oracle.short([c[0] for c in cols])))
        stamps = d.timestamps()
        keep = [i for i, t in enumerate(stamps) if (not ts or t >= ts * 10**6) and (not te or t < te * 10**6)]
        cut |= len(keep) < len(stamps)
        ctx.check(len(rows) == 1 + len(keep), lambda: "%s: %d rows instead of %d" % (name, len(rows) - 1, len(keep)))
        values = {f: d.values(f) for _, _, fs in cols for f in fs}
        for row, i in zip(rows[1:], keep):
            ctx.check(len(row) == len(cols), lambda: "%s: row %s has %d columns instead of %d" % (name, oracle.short(row), len(row), len(cols)))
            for text, (head, kind, fs) in zip(row, cols):
                vals = [values[f][i] for f in fs]
                ctx.check(cell_matches(text, kind, vals, None, ctx), lambda: "%s: %s of sample %d is %r instead of %r (%s)" % (
                    name, head, i, text, vals, kind))
        n_rows += len(keep)
        ctx.label("text column", any(c[1] == "text" for c in cols))
    ctx.nontrivial(n_rows > 0)
    ctx.label("time limit cut something", cut)
    ctx.label("time limit beyond the end", bool(ts or te) and max(ts or 0, te or 0) * 10**6 > e.last)
    ctx.label("topic list", bool(topics))
    ctx.label("command line", by_main)


def check_large(case, ctx):
    (spec, *rest), text = gen.enlarged(case[0]), case[1]
    check_csv([cli.set_texts(spec, [text * 9000, text * 300, text]), *rest], ctx)


PARTS = [
    Part("export", csv_case, check_csv, 1600),
    Part("large", lambda: st.tuples(gen.with_large(csv_case(), ["row", "string", "string", "subscriptions", "formats", "fields", "deep", "elements"]),
                                    st.sampled_from(["a", "text, ", "\u00fc;", "\u65e5"])).map(list), check_large, 40),
]
