import io

import numpy as np
from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part

ID = "C22"
LEVEL = "exploration"
RULE = ("list_value_changes of every field of every dataset of generated logs (repeated values, zero timestamps, NaN, all types; loaded "
        "from the file and from the database, and with columns that were shortened or reordered in between) is compared with a reference loop; "
        "non-trivial: a field with a change and a repetition")
ASSUMPTIONS = ["NaN differs from NaN, as in numpy"]


@st.composite
def changes_case(draw):
    spec = draw(gen.logs(max_topics=2, max_subs=3, max_fields=4, n_ops=[8, 16, 30], ops="DDDDDDDDDDDDDDL", ts_bits=63))
    # repeat earlier samples: values stay for a while, possibly with time 0
    fmts = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"] if m[0] == "F"}
    off = {}
    for m in spec["data"]:
        if m[0] == "A":
            ds = ulg.Dataset(m[3], m[1], m[2], *ulg.flatten(fmts, m[3]))
            off[m[2]] = ds.ts_off
    data, last = [], {}
    plan = draw(st.lists(st.integers(0, 7), min_size=8, max_size=8))
    i = 0
    for m in spec["data"]:
        if m[0] == "D":
            i += 1
            k = plan[i % 8]
            if k < 4 and m[1] in last:
                o = off[m[1]]
                ts = b"\0" * 8 if k == 0 else m[2][o:o + 8]
                old = last[m[1]]
                m = ["D", m[1], old[:o] + ts + old[o + 8:]]
            last[m[1]] = m[2]
        data.append(m)
    return [dict(spec, data=data), draw(st.integers(0, 5)) == 0, draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 7]))]


def eq(a, b):
    return type(a) is type(b) and (a.tobytes() == b.tobytes())


def check_changes(case, ctx):
    spec, from_db, edit = case
    raw = ulg.encode(spec)
    e = ulg.interpret(spec)
    u = ctx.call("loading", lib.load, raw)
    if from_db:
        h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
        db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(raw))
        ctx.call("save", db.save)
        u = ctx.call("loading from the database", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
    got_sets = {(d.name, d.multi_id): d for d in u.data_list}
    ctx.check(set(got_sets) == set(e.datasets), "datasets")
    for key, d in e.datasets.items():
        ts = d.timestamps()
        if edit:
            # the fields were asked for before; now the columns of the dataset change
            with ctx.lib("list_value_changes"):
                for f, _ in d.fields:
                    got_sets[key].list_value_changes(f)
            n = len(ts)
            keep = sorted(range(n), key=lambda i: (i * edit) % n) if edit % 2 else list(range(edit % n, n))
            with ctx.lib("editing"):
                for f, _ in d.fields:
                    got_sets[key].data[f] = got_sets[key].data[f][np.array(keep)]
            ts = [ts[i] for i in keep]
        for f, t in d.fields[::-1]:
            got = ctx.call("list_value_changes(%r)" % f, got_sets[key].list_value_changes, f)
            vals = d.values(f)
            if edit:
                vals = [vals[i] for i in keep]
            np_t = np.dtype(ulg.TYPES[t][2])
            want, prev = [], None
            for x, v in zip(ts, vals):
                if x == 0:
                    continue
                if prev is None or v != prev[0] or v != v:
                    want.append((x, v))
                prev = (v,)
            ctx.check(isinstance(got, list) and all(len(g) == 2 for g in got), "not a list of pairs")
            ctx.check(len(got) == len(want), lambda: "%s.%s: %d changes instead of %d: %s, %s" % (
                key, f, len(got), len(want), oracle.short(got), oracle.short(want)))
            for (gt, gv), (wt, wv) in zip(got, want):
                ctx.check(int(gt) == wt, lambda: "%s.%s: change at %r instead of %r" % (key, f, gt, wt))
                ctx.check((gv != gv and wv != wv) or gv == np_t.type(wv), lambda: "%s.%s at %d: value %r instead of %r" % (key, f, wt, gv, wv))
            ctx.label("no sample with a time", not want)
            ctx.label("zero timestamp in a dataset", 0 in ts)
            ctx.label("one value", len(want) == 1)
            ctx.nontrivial(f != "timestamp" and 1 < len(want) < len(ts))
        ctx.raises("list_value_changes of an absent field", (KeyError,), got_sets[key].list_value_changes, "no_such_field")


def row_cases():
    """many samples of a topic with few fields"""
    return gen.with_rows(st.tuples(gen.logs(max_topics=1, max_fields=2, max_subs=1, min_subs=1, min_upfront=1, n_ops=[1], max_row=30, ts_bits=62),
                                   st.booleans(), st.sampled_from([0, 3])).map(list))


PARTS = [Part("changes", changes_case, check_changes, 1200),
         Part("rows", row_cases, lambda case, ctx: check_changes(gen.densified(case), ctx), 20)]
