import io
import os
import struct
import tempfile

from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part
from . import c08_appended as c08

ID = "C10"
RULE = ("generated logs are stored with DatabaseULog.save and loaded back eagerly, lazily and dataset by dataset through other "
        "connections; all public content is compared with the reference model, with a plain ULog of the same file, and with "
        "what write_ulog makes of it; non-trivial: at least one dataset and three other kinds of content")
ASSUMPTIONS = ["integers below 2^63 (stated in the schema), one value type per multi-info key",
               "a log in the database does not know that its file was corrupt (known finding)"]

CFG = dict(versions=[1, 1, 1, 0, 0, 2, 255], ts_bits=63, lossy=True, nan_kv=True, default_bits=[1, 2, 3, 4, 64, 255])


def nan_params(e):
    vals = list(e.params.values()) + [v for d in e.defaults.values() for v in d.values()] + \
        [c[2] for c in e.changed] + [v[2] for v in e.info.values()]
    return any(v != v for v in vals)


def check_lazy(db, e, ctx, orders):
    """a lazily loaded log gives its datasets on demand"""
    ctx.no_diff(oracle.diff_meta(db, e), "metadata of a lazily loaded log")
    got = [(d.name, d.multi_id) for d in db.data_list]
    ctx.check(got == sorted(e.datasets), "datasets of a lazily loaded log: %r" % got)
    ctx.check(all(not d.data for d in db.data_list), "a lazily loaded log has data")
    keys = sorted(e.datasets)
    for i, how in orders:
        if not keys:
            break
        name, multi = keys[i % len(keys)]
        exp = e.datasets[(name, multi)]
        with ctx.lib("get_dataset(%r, %d) of a lazily loaded log (%s)" % (name, multi, how)):
            if how == "lazy":
                d = db.get_dataset(name, multi, lazy=True)
                ctx.check((d.name, d.multi_id, d.msg_id) == (name, multi, exp.msg_id), "lazy get_dataset of %s %d" % (name, multi))
                continue
            if how == "nocache":
                d = db.get_dataset(name, multi, caching=False)
            else:
                d = db.get_dataset(name, multi)
                again = db.get_dataset(name, multi)
                ctx.check(again is d or again == d, "get_dataset twice gives different data")
                listed = [x for x in db.data_list if (x.name, x.multi_id) == (name, multi)]
                ctx.check(len(listed) == 1 and bool(listed[0].data), "get_dataset is not cached in data_list")
        ctx.no_diff(oracle.diff_dataset(d, exp), "get_dataset(%s) of a lazily loaded log" % how)
    ctx.check([(d.name, d.multi_id) for d in db.data_list] == keys, "get_dataset changed the list of datasets")
    for absent in oracle.absent(e):
        ctx.raises("get_dataset of an absent dataset", (KeyError, IndexError, ValueError), db.get_dataset, *absent)


def has_special_nan(params):
    """the database knows only one NaN"""
    return any(v != v and struct.pack("<f", v) != b"\0\0\xc0\x7f" for v in params.values())


def unnamed(path):
    f = tempfile.TemporaryFile(dir=os.path.dirname(path))
    with open(path, "rb") as g:
        f.write(g.read())
    f.seek(0)
    return f


def deleted(path):
    f = open(path, "rb")
    os.unlink(path)
    return f


def check_db(case, ctx):
    spec, names, use_path, json, orders, others = case
    raw = ulg.encode(spec)
    e = ulg.interpret(spec, names)
    e.defaults = {b: d for b, d in e.defaults.items() if d}
    path = dbs.make_db(ctx.path("db.sqlite3"))
    h = dbs.handle(path)
    source = io.BytesIO(raw)
    if use_path:
        source = ctx.path("log.ulg")
        with open(source, "wb") as f:
            f.write(raw)
    if use_path and len(raw) % 3 == 0:          # an open file, whose name may be gone or none at all
        source = [lambda: open(source, "rb"), lambda: unnamed(source), lambda: deleted(source), lambda: tempfile.SpooledTemporaryFile()][len(raw) % 4]()
        if len(raw) % 4 == 3:
            source.write(raw)
            source.seek(0)
        ctx.label("from an open file")
    kw = {} if names is None else {"message_name_filter_list": names}
    def add_others():
        for other in others:
            o = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(other)))
            if DatabaseULog.primary_key_from_sha256sum(h, o.sha256sum) is None and o.sha256sum != dbs.sha(raw):
                ctx.call("save", o.save)
    if len(raw) % 2:              # logs in the database, before or after
        add_others()
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=source, **kw)
    ctx.no_diff(oracle.diff(db, e), "DatabaseULog of a file")
    ctx.check(db.primary_key is None, "an unsaved log has a primary key")
    ctx.check(db.sha256sum == dbs.sha(raw), "sha256sum is %r" % db.sha256sum)
    written = ctx.call("write_ulog of a DatabaseULog created from a file", lib.written, db)
    plain = ctx.call("loading the file", lib.load, raw, **kw)
    ctx.check(written == ctx.call("write_ulog", lib.written, plain), "write_ulog of a DatabaseULog gives another file than that of a ULog")
    ctx.call("save(append_json=%r)" % json, db.save, append_json=json)
    pk = db.primary_key
    ctx.check(isinstance(pk, int), "primary key is %r after save" % (pk,))
    ctx.no_diff(oracle.diff(db, e), "the log object after save")
    if len(raw) % 2 == 0:
        add_others()
    h2 = dbs.handle(path)
    with ctx.lib("queries"):
        ctx.check(DatabaseULog.exists_in_db(h2, pk), "exists_in_db is false after save")
        ctx.check(not DatabaseULog.exists_in_db(h2, pk + 1000), "exists_in_db of an absent key")
        ctx.check(DatabaseULog.primary_key_from_sha256sum(h2, dbs.sha(raw)) == pk, "primary_key_from_sha256sum")
        ctx.check(DatabaseULog.primary_key_from_sha256sum(h2, dbs.sha(raw + b"x")) is None, "primary_key_from_sha256sum of an unknown file")
    eager = ctx.call("loading from the database", DatabaseULog, h2, primary_key=pk, lazy=False)
    ctx.no_diff(oracle.diff(eager, e), "eager load from the database")
    ctx.check(eager.sha256sum == dbs.sha(raw) and eager.primary_key == pk, "sha256sum or primary key of the loaded log")
    again = ctx.call("write_ulog of a loaded log", lib.written, eager)
    same = not any(has_special_nan(x) for x in [e.params, dict(enumerate(v for _, _, v in e.changed))] + list(e.defaults.values()))
    if same:
        ctx.check(again == written, "write_ulog of the loaded log gives a different file")
    if names is None and not nan_params(e):
        u = ctx.call("loading the file", lib.load, raw)
        with ctx.lib("comparing"):
            ctx.check(u == eager and eager == u, "the log from the database is not equal to the log from the file")
    for k in sorted(e.datasets):
        ctx.no_diff(oracle.diff_dataset(ctx.call("get_dataset", eager.get_dataset, *k), e.datasets[k]), "get_dataset of an eager log")
    for absent in oracle.absent(e, n=5):
        ctx.raises("get_dataset of an absent dataset of an eager log", (KeyError, IndexError, ValueError), eager.get_dataset, *absent)
    lazy = ctx.call("lazy load from the database", DatabaseULog, h2, primary_key=pk)
    for other in others:
        for k in sorted(set(ulg.interpret(other).datasets) - set(e.datasets)):
            for db_ in (eager, lazy):
                ctx.raises("get_dataset of a dataset that only another log has", (KeyError, IndexError, ValueError), db_.get_dataset, *k)
    check_lazy(lazy, e, ctx, orders)
    ctx.raises("write_ulog of a lazily loaded log", (ValueError,), lib.written, lazy) if not any(h != "lazy" for _, h in orders) or not e.datasets else None
    ctx.call("load(lazy=False) after a lazy load", lazy.load, lazy=False)
    ctx.no_diff(oracle.diff(lazy, e), "log loaded lazily and then completely")
    if same:
        ctx.check(ctx.call("write_ulog of a log loaded lazily and then completely", lib.written, lazy) == written,
                  "write_ulog of a log loaded lazily and then completely gives a different file")
    if len(raw) % 4 == 0 and e.datasets:
        ctx.call("load(lazy=True) after a complete load", eager.load, lazy=True)
        ctx.raises("write_ulog of a log whose data is no longer loaded", (ValueError,), lib.written, eager)
    oracle.classify(ctx, e)
    ctx.label("other logs in the database", bool(others))
    ctx.label("filtered", names is not None)
    ctx.nontrivial(bool(e.datasets) and sum(map(bool, (e.info, e.multi, e.params, e.defaults, e.changed, e.logged, e.tagged, e.dropouts))) > 2)


@st.composite
def db_case(draw, **cfg):
    spec = draw(gen.logs(**cfg))
    names = None
    if draw(st.integers(0, 4)) == 0:
        names = draw(st.lists(st.sampled_from(sorted({m[3] for m in spec["data"] if m[0] == "A"}) or ["x"]), max_size=3))
    orders = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["cache", "lazy", "nocache"])).map(list), max_size=5))
    others = draw(st.lists(gen.logs(**dict(CFG, max_topics=2, max_fields=2, n_ops=[5], max_defs=4)), max_size=1))
    return [spec, names, draw(st.booleans()), draw(st.integers(0, 3)) == 0, orders, others]


INFO_TYPES = ["char[", "uint8_t[", "float[", "int16_t["]


@st.composite
def types_case(draw):
    t = {k: draw(st.sampled_from(INFO_TYPES)) for k in gen.MULTI_KEYS}
    return draw(db_case(**dict(CFG, multi_types=t, ops="DDLMMMMIIIIIPC", max_defs=10, max_fields=2, max_topics=2)))


SCALARS = ["int32_t", "float", "uint64_t", "double", "bool", "uint8_t"]


@st.composite
def scalar_case(draw):
    t = {k: draw(st.sampled_from(SCALARS)) for k in gen.MULTI_KEYS}
    return draw(gen.logs(**dict(CFG, multi_types=t, ops="DLMMMMIC", max_defs=10, max_fields=2, max_topics=2)))


def check_scalar_multi(case, ctx):
    e = ulg.interpret(case)
    h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(case)))
    ctx.call("save", db.save)
    v = ctx.call("loading from the database", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
    diffs = oracle.diff(v, e)
    sig = "db-scalar-multi-info" if diffs and all(d.startswith("msg_info_multiple_dict") for d in diffs) else None
    ctx.no_diff(diffs, "load from the database", sig)
    ctx.check({k: [len(x) for x in v_] for k, v_ in v.msg_info_multiple_dict.items()} == {k: [len(x) for x in v_] for k, v_ in e.multi.items()},
              "structure of the multi infos")
    ctx.nontrivial(bool(e.multi))


@st.composite
def corrupt_case(draw):
    spec = draw(gen.logs(**dict(CFG, max_topics=2, max_fields=2, n_ops=[6], unknown=False)))
    return [spec, draw(st.integers(0, 30))]


def check_corrupt(case, ctx):
    spec, pos = case
    e = ulg.interpret(spec)
    data = list(spec["data"])
    data.insert(1 + pos % len(data), ["D", 54321, b"\1\2\3"])
    h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(dict(spec, data=data))))
    e.corrupt = True
    ctx.no_diff(oracle.diff(db, e), "DatabaseULog of a file with a corrupt message")
    ctx.call("save", db.save)
    v = ctx.call("loading from the database", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
    ctx.no_diff(oracle.diff(v, e, skip=("corrupt",)), "load from the database")
    ctx.check(v.file_corruption, "file_corruption is lost in the database", "db-file-corruption")
    ctx.nontrivial(bool(e.datasets))


def check_appended(case, ctx):
    """logs with appended data, and with offsets of any size"""
    # without the flag, a message id has one meaning
    raw, same, corrupt, parts, offs = c08.build([*case[:2], case[2] & 1 if case[3] else case[2]])
    if corrupt or any(b <= a for a, b in zip(offs, offs[1:])):
        return
    e = ulg.interpret(same)
    e.defaults = {b: d for b, d in e.defaults.items() if d}
    if case[3]:
        # without the flag, the offsets mean nothing
        defs = [["B", [0] * 8, [0] * 8, case[4]]] + same["defs"][1:]
        raw, e = ulg.encode(dict(same, defs=defs)), ulg.interpret(dict(same, defs=defs))
        e.defaults = {b: d for b, d in e.defaults.items() if d}
    h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3")))
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(raw))
    ctx.no_diff(oracle.diff(db, e), "DatabaseULog of a file with appended data")
    ctx.call("save", db.save)
    v = ctx.call("loading from the database", DatabaseULog, h, primary_key=db.primary_key, lazy=False)
    ctx.no_diff(oracle.diff(v, e), "log with appended data from the database")
    ctx.check(bool(v.has_data_appended) == (not case[3]), "has_data_appended of a log from the database")
    ctx.check(ctx.call("write_ulog", lib.written, v) == ctx.call("write_ulog", lib.written, db), "write_ulog of the loaded log gives a different file")
    if not nan_params(e):
        u = ctx.call("loading the file", lib.load, raw)
        with ctx.lib("comparing"):
            ctx.check(u == v and v == u, "the log from the database is not equal to the log from the file")
    ctx.nontrivial(any(parts[1:]))


def appended_case():
    return st.tuples(c08.appended_case(ts_bits=63, nan_kv=True), st.booleans(), st.lists(st.one_of(st.integers(0, 2**63 - 1), st.just(0), st.just(2**31 + 5)), min_size=3, max_size=3)).map(
        lambda c: [*c[0], c[1], c[2]])


def check_dense(case, ctx):
    spec = gen.densify(case[0])
    if case[0][2] % 2:
        spec["data"] = spec["data"] + [["S"]] * case[0][1]
    check_db([spec, None, False, False, case[1], []], ctx)


PARTS = [
    Part("db", lambda: db_case(**CFG), check_db, 1000),
    Part("types", types_case, check_db, 240),
    Part("messages", lambda: db_case(**dict(CFG, max_topics=1, max_subs=1, max_fields=1, max_defs=3, n_ops=[12, 20], ops="CCCCCLLLLOOPPIMD")), check_db, 240),
    Part("scalar-multi", scalar_case, check_scalar_multi, 120),
    Part("appended", appended_case, check_appended, 160),
    Part("corrupt", corrupt_case, check_corrupt, 80),
    Part("dense", lambda: st.tuples(gen.dense_logs(), st.just([[0, "cache"]])).map(list), check_dense, 60),
    Part("long", lambda: st.tuples(gen.long_logs(n=(66000, 90000), max_topics=1, max_subs=1, max_fields=2), st.just([[0, "cache"], [1, "nocache"]])).map(list),
         lambda case, ctx: check_db([gen.lengthen(case[0]), None, False, False, case[1], []], ctx), 8, 60),
    Part("large", lambda: st.tuples(gen.large_logs(ts_bits=51), st.lists(st.tuples(st.integers(0, 500), st.sampled_from(["cache", "lazy", "nocache"])).map(list), max_size=5)).map(list),
         lambda case, ctx: check_db([gen.enlarge(case[0]), None, False, False, case[1], []], ctx), 50),
]
