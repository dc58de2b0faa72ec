import io
import json
import math

from hypothesis import strategies as st

from vp import dbs, gen, oracle, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part

ID = "C25"
LEVEL = "exploration"
RULE = ("generated logs (all types, NaN, infinities, subnormals, repeated and zero timestamps, empty logs) are saved with append_json; every "
        "field row must hold valid JSON that maps each timestamp to its (last) value, null for what JSON cannot express, readable "
        "with json_each, and a log saved without append_json has none; non-trivial: a dataset with two samples and a float field")
ASSUMPTIONS = ["timestamps and integers below 2^63", "float values may lose precision beyond six digits (documented)"]

CFG = dict(ts_bits=63, max_topics=3, max_fields=5, max_subs=4, n_ops=[3, 8, 16], ops="DDDDDDDL")


@st.composite
def json_case(draw):
    spec = draw(gen.logs(**CFG))
    other = draw(st.one_of(st.none(), gen.logs(**dict(CFG, max_topics=1, max_fields=2, n_ops=[4]))))
    return [spec, other]


def near(a, b):
    if isinstance(b, float):
        if math.isnan(b) or math.isinf(b):
            return a is None
        if isinstance(a, bool) or not isinstance(a, (int, float)):
            return False
        return a == b or abs(a - b) <= 1e-6 * abs(b)
    return type(a) is int and a == b


def strict(text):
    def no(c):
        raise ValueError(c)
    return json.loads(text, parse_constant=no)


def check_json(case, ctx):
    spec, other = case
    h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
    logs = [(spec, True)]
    if other is not None and ulg.encode(other) != ulg.encode(spec):
        logs.append((other, False))
    for s, as_json in logs:
        e = ulg.interpret(s)
        db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(s)))
        if as_json:
            ctx.call("save(append_json=True)", db.save, append_json=True)
        else:
            ctx.call("save", db.save)
        con = h()
        rows = con.execute("""SELECT d.DatasetName, d.MultiId, f.TopicName, f.ValueJson, f.Id FROM ULogField f
                              JOIN ULogDataSet d ON f.DatasetId = d.Id WHERE d.ULogId = ?""", (db.primary_key,)).fetchall()
        want = {(n, m, f): d for (n, m), d in e.datasets.items() for f, _ in d.fields}
        ctx.check(sorted(r[:3] for r in rows) == sorted(want), lambda: "fields %s instead of %s" % (sorted(r[:3] for r in rows), sorted(want)))
        for n, m, f, text, fid in rows:
            d = want[(n, m, f)]
            where = "%s/%d.%s" % (n, m, f)
            if not as_json:
                ctx.check(text is None, lambda: "%s has JSON %s" % (where, oracle.short(text)))
                continue
            try:
                got = strict(text)
            except (TypeError, ValueError) as err:
                ctx.fail("%s: %s is not JSON (%s)" % (where, oracle.short(text), err))
                continue
            exp = {str(t): v for t, v in zip(d.timestamps(), d.values(f))}
            ctx.check(isinstance(got, dict) and got.keys() == exp.keys(), lambda: "%s: times %s instead of %s" % (
                where, oracle.short(got), oracle.short(sorted(exp))))
            for t, v in exp.items():
                ctx.check(near(got[t], v), lambda: "%s at %s is %r instead of %r" % (where, t, got[t], v))
                ctx.label("not a number", isinstance(v, float) and not math.isfinite(v))
            try:
                each = con.execute("SELECT key, value FROM ULogField, json_each(ValueJson) WHERE ULogField.Id = ?", (fid,)).fetchall()
            except Exception as err:
                ctx.fail("%s: json_each fails: %r" % (where, err))
                continue
            ctx.check({k for k, _ in each} == exp.keys(), "%s: json_each gives other times" % where)
            ctx.label("repeated timestamp", len(exp) < len(d.rows))
            ctx.nontrivial(len(d.rows) > 1 and any(t in ("float", "double") for _, t in d.fields))
        con.close()


def row_cases():
    """many samples of a topic with few fields"""
    return gen.with_rows(st.tuples(gen.logs(**dict(CFG, max_topics=1, max_fields=2, max_subs=1, min_subs=1, min_upfront=1, n_ops=[1], max_row=30)),
                                   st.none()).map(list))


PARTS = [Part("json", json_case, check_json, 800),
         Part("rows", row_cases, lambda case, ctx: check_json(gen.densified(case), ctx), 16)]
