import io

from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part

ID = "C11"
RULE = ("generated histories of create/save/open/get_dataset/delete/save-again/load/lookup on one database with several logs "
        "and objects are run against a dictionary model; after every step the stored rows must belong exactly to the logs of "
        "the model, at the end (and after deletes) every log must load as the reference model says; non-trivial: at least two "
        "logs stored at the same time and one delete of a stored log")
ASSUMPTIONS = ["a log object is only saved again when it holds all its data (documented weakness of the class)"]

SMALL = dict(ts_bits=63, max_topics=2, max_fields=2, max_subs=3, max_defs=6, n_ops=[2, 6], nested=False)


@st.composite
def history(draw):
    logs = draw(st.lists(gen.logs(**SMALL), min_size=2, max_size=3))
    if draw(st.integers(0, 2)) == 0:
        # nearly the same file: different start time
        logs.append(dict(logs[0], start=logs[0]["start"] ^ 1))
    op = st.one_of(
        st.tuples(st.just("create"), st.integers(0, 3)),
        st.tuples(st.just("save"), st.integers(0, 5), st.integers(0, 3)),
        st.tuples(st.just("add"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("add"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("open"), st.integers(0, 6), st.booleans()),
        st.tuples(st.just("delete"), st.integers(0, 5)),
        st.tuples(st.just("delete"), st.integers(0, 5)),
        st.tuples(st.just("resave"), st.integers(0, 5)),
        st.tuples(st.just("get"), st.integers(0, 5), st.integers(0, 3), st.booleans()),
        st.tuples(st.just("reload"), st.integers(0, 5), st.booleans()),
        st.tuples(st.just("lookup"), st.integers(0, 3)),
        st.tuples(st.just("misuse"), st.integers(0, 3), st.booleans()),
    ).map(list)
    base = draw(st.sampled_from([4, 8, 14]))
    first = draw(st.sampled_from([[], [["add", 0, 1], ["add", 1, 1]], [["add", 1, 0], ["add", 0, 1]], [["add", 0, 1], ["add", 1, 1], ["add", 2, 1]]]))
    return [logs, [list(o) for o in first] + draw(st.lists(op, min_size=base, max_size=base + 8))]


class Slot:
    def __init__(self, obj, log, pk, full):
        self.obj, self.log, self.pk, self.full = obj, log, pk, full


def check_history(case, ctx):
    logs, ops = case
    raws = [ulg.encode(s) for s in logs]
    exps = []
    for s in logs:
        e = ulg.interpret(s)
        exps.append(e)
    path = dbs.make_db(ctx.path("db.sqlite3"))
    model, slots, max_pk, trace = {}, [], 0, []
    deletes = two = 0

    def where():
        return "after " + " ".join(trace) + ": "

    def save(slot, json):
        nonlocal max_pk
        i = slot.log
        before = None
        if slot.pk is not None or any(raws[j] == raws[i] for j in model.values()):
            before = dbs.content(path)
            ctx.raises(where() + "save of a log that is already stored", (KeyError,), slot.obj.save, append_json=json)
            ctx.check(dbs.content(path) == before, where() + "a refused save changed the database")
            got = slot.obj.primary_key
            ctx.check(got == slot.pk or (slot.pk is None and got in model and raws[model[got]] == raws[i]),
                      where() + "primary key is %r after a refused save" % (got,))
            slot.pk = got
            return
        ctx.call(where() + "save", slot.obj.save, append_json=json)
        pk = slot.obj.primary_key
        ctx.check(isinstance(pk, int) and pk not in model, where() + "save gave primary key %r" % (pk,))
        ctx.check(pk > max_pk, where() + "primary key %r of a deleted log is used again" % (pk,))
        max_pk = pk
        slot.pk = pk
        model[pk] = i

    def verify(pk):
        v = ctx.call(where() + "load of %d" % pk, DatabaseULog, dbs.handle(path), primary_key=pk, lazy=False)
        ctx.no_diff(oracle.diff(v, exps[model[pk]]), where() + "log %d" % pk)

    for op in ops:
        k = op[0]
        trace.append("-".join(str(x) for x in op))
        h = dbs.handle(path)
        if k == "create" or k == "add":
            i = op[1] % len(logs)
            o = ctx.call(where() + "create", DatabaseULog, h, log_file=io.BytesIO(raws[i]))
            slots.append(Slot(o, i, None, True))
            if k == "add":
                save(slots[-1], op[2] == 0)
        elif k == "open":
            known = sorted(model)
            pk = known[op[1] % len(known)] if known and op[1] < 5 else (max_pk + 3 if op[1] == 5 else None)
            gone = [p for p in range(1, max_pk + 1) if p not in model]
            if pk is None and gone:
                pk = gone[0]
            if pk is None:
                continue
            if pk in model:
                o = ctx.call(where() + "open", DatabaseULog, h, primary_key=pk, lazy=op[2])
                slots.append(Slot(o, model[pk], pk, not op[2]))
            else:
                ctx.raises(where() + "open of an absent log", (KeyError,), DatabaseULog, h, primary_key=pk, lazy=op[2])
        elif k == "misuse":
            before = dbs.content(path)
            src = io.BytesIO(raws[op[1] % len(logs)])
            if op[2]:
                ctx.raises("DatabaseULog with a key and a file", (ValueError,), DatabaseULog, h, primary_key=max(model, default=1) if op[1] % 3 else 0, log_file=src)
            else:
                ctx.raises("DatabaseULog without key and file", (ValueError,), DatabaseULog, h)
            ctx.check(dbs.content(path) == before, where() + "a refused DatabaseULog changed the database")
        elif k == "lookup":
            i = op[1] % len(logs)
            want = [pk for pk, j in model.items() if raws[j] == raws[i]]
            got = ctx.call("primary_key_from_sha256sum", DatabaseULog.primary_key_from_sha256sum, h, dbs.sha(raws[i]))
            ctx.check(got == (want[0] if want else None), where() + "lookup by hash gives %r instead of %r" % (got, want))
            for pk in range(0, max_pk + 2):
                ctx.check(ctx.call("exists_in_db", DatabaseULog.exists_in_db, h, pk) == (pk in model), where() + "exists_in_db(%d)" % pk)
        elif not slots:
            trace.pop()
            continue
        else:
            s = slots[op[1] % len(slots)]
            stored = [x for x in slots if x.pk in model]
            if k in ("delete", "resave") and op[1] < 5 and stored:
                s = stored[op[1] % len(stored)]
            if k == "save":
                if not s.full:
                    continue
                save(s, op[2] == 0)
            elif k == "delete":
                if s.pk is None:
                    before = dbs.content(path)
                    ctx.raises(where() + "delete of an unsaved log", (KeyError,), s.obj.delete)
                    ctx.check(dbs.content(path) == before, where() + "a refused delete changed the database")
                else:
                    ctx.call(where() + "delete", s.obj.delete)
                    if s.pk in model:
                        deletes += 1
                        two += len(model) > 1
                    model.pop(s.pk, None)
                    s.pk = None
                    ctx.check(s.obj.primary_key is None, where() + "primary key after delete")
                    for pk in model:
                        verify(pk)
            elif k == "resave":
                if s.full and s.pk is not None:
                    ctx.call(where() + "delete", s.obj.delete)
                    model.pop(s.pk, None)
                    s.pk = None
                    save(s, False)
            elif k == "get":
                keys = sorted(exps[s.log].datasets)
                foreign = [x for x in sorted({x for e in exps for x in e.datasets}) if x not in keys]
                if foreign and s.pk in model:
                    ctx.raises(where() + "get_dataset of a dataset that only another log has", (KeyError, IndexError, ValueError),
                               s.obj.get_dataset, *foreign[op[2] % len(foreign)], caching=op[3])
                if not keys or (s.pk is not None and s.pk not in model) or (s.pk is None and not s.full):
                    continue
                name, multi = keys[op[2] % len(keys)]
                if s.pk is None:
                    d = next(x for x in s.obj.data_list if (x.name, x.multi_id) == (name, multi))
                else:
                    d = ctx.call(where() + "get_dataset", s.obj.get_dataset, name, multi, caching=op[3])
                ctx.no_diff(oracle.diff_dataset(d, exps[s.log].datasets[(name, multi)]), where() + "get_dataset")
            elif k == "reload":
                if s.pk is None:
                    continue
                if s.pk in model:
                    ctx.call(where() + "load", s.obj.load, lazy=op[2])
                    ctx.no_diff(oracle.diff(s.obj, exps[s.log], skip=("data",) if op[2] else ()), where() + "load again")
                    s.full = not op[2]
                    ctx.check([(d.name, d.multi_id) for d in s.obj.data_list] == sorted(exps[s.log].datasets), where() + "list of datasets after load")
                else:
                    ctx.raises(where() + "load of a deleted log", (KeyError,), s.obj.load, lazy=op[2])
        ctx.no_diff(dbs.orphans(path, model), where() + "database")
    for pk in model:
        verify(pk)
    for s in slots:
        if s.pk is None and s.full:
            ctx.no_diff(oracle.diff(s.obj, exps[s.log]), where() + "an object that is not stored changed")
    ctx.label("delete of a stored log", deletes)
    ctx.label("delete while another log is stored", two)
    ctx.label("refused save", any(op[0] == "save" for op in ops))
    ctx.count("steps", len(trace))
    ctx.nontrivial(two > 0)


# ------------------------------------------------------------------ large
@st.composite
def large(draw):
    """files with a long common part that differ in one place"""
    size = draw(st.sampled_from([100, 4095, 4096, 8192, 65536, 300000, 1100000, 2200000, 17000000]))
    size += draw(st.sampled_from([0, 0, -1, 1, 513]))
    return [size, draw(st.integers(0, 2)), draw(st.sampled_from(["last", "middle", "first", "longer"])), draw(st.booleans())]


def check_large(case, ctx):
    size, fill, place, by_path = case
    defs = [["F", "a", [["uint64_t", 0, "timestamp"]]]]
    msg = [bytes([65 + fill]) * 40000] * (size // 40000) + [b"x" * (size % 40000)]
    texts = [["L", 54, i, m] for i, m in enumerate(msg)]
    one = {"version": 1, "start": 0, "defs": defs, "data": [["A", 0, 0, "a"], ["D", 0, b"\1" + bytes(7)]] + texts}
    other = [list(m) for m in texts]
    k = {"last": -1, "middle": len(other) // 2, "first": 0, "longer": -1}[place]
    if place == "longer":
        other.append(["O", 1])
    else:
        other[k][3] = other[k][3][:-1] + b"!" if other[k][3] else b"!"
    two = dict(one, data=one["data"][:2] + other)
    path = dbs.make_db(ctx.path("db.sqlite3"))
    keys = []
    for i, spec in enumerate((one, two)):
        raw = ulg.encode(spec)
        src = io.BytesIO(raw)
        if by_path:
            src = ctx.path("log%d.ulg" % i)
            with open(src, "wb") as f:
                f.write(raw)
        ctx.check(ctx.call("calc_sha256sum", DatabaseULog.calc_sha256sum, src) == dbs.sha(raw), "calc_sha256sum of %d bytes" % len(raw))
        o = ctx.call("create", DatabaseULog, dbs.handle(path), log_file=src)
        ctx.call("save of a log that differs only at %s of %d bytes" % (place, len(raw)), o.save)
        keys.append(o.primary_key)
    for key, spec in zip(keys, (one, two)):
        v = ctx.call("load", DatabaseULog, dbs.handle(path), primary_key=key, lazy=False)
        ctx.no_diff(oracle.diff(v, ulg.interpret(spec)), "log %d" % key)
    ctx.nontrivial(size > 4096)


# ------------------------------------------------------------------- many
@st.composite
def many(draw):
    """one handle and one object for a long time"""
    return [draw(gen.logs(**SMALL)), draw(gen.logs(**SMALL)), draw(st.sampled_from([5, 40, 160])), draw(st.booleans())]


def check_many(case, ctx):
    spec, kept, n, same_object = case
    path = dbs.make_db(ctx.path("db.sqlite3"))
    h = dbs.handle(path)
    raw, raw2 = ulg.encode(spec), ulg.encode(dict(kept, start=kept["start"] ^ 2))
    if raw == raw2:
        return
    k = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(raw2))
    ctx.call("save", k.save)
    empty = dbs.content(path)
    o = None
    for i in range(n):
        if o is None or not same_object:
            o = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(raw))
        ctx.call("save, time %d" % (i + 1), o.save)
        ctx.check(o.primary_key not in (None, k.primary_key), "primary key after save, time %d" % (i + 1))
        if i % 20 == 0:
            v = ctx.call("load", DatabaseULog, h, primary_key=o.primary_key, lazy=False)
            ctx.no_diff(oracle.diff(v, ulg.interpret(spec)), "log saved for the time %d" % (i + 1))
        ctx.call("delete, time %d" % (i + 1), o.delete)
    ctx.check(dbs.content(path) == empty, "saving and deleting a log %d times leaves rows behind" % n)
    ctx.nontrivial(n > 5)


PARTS = [Part("history", history, check_history, 900), Part("large", large, check_large, 60), Part("many", many, check_many, 30)]
