import copy
import io
import struct

import numpy as np
from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part

ID = "C28"
RULE = ("generated logs are loaded (from a file, as DatabaseULog, from a database) and edited through the public attributes: "
        "values, rows and whole datasets, parameters, infos, texts, dropouts; the same edits are applied to the reference "
        "model; the object, what write_ulog makes of it, what a database makes of it and == must show exactly the edited "
        "content; non-trivial: at least one edit changed something and topic data remain")
ASSUMPTIONS = ["edits keep the type of a column and at least one sample of a dataset, and all columns of a dataset the same length",
               "new keys only for parameters (the type of an information message is not public)"]

CFG = dict(versions=[1, 1, 1, 0, 0, 2, 255], ts_bits=63, max_topics=3, max_subs=4, max_fields=3, n_ops=[6, 12], default_bits=[1, 2, 3], max_defs=8)
EDITS = ["value", "value", "column", "every second", "reverse", "some rows", "more rows", "dataset", "order", "reinsert", "param", "new param", "no param", "default",
         "info", "no info", "multi", "text", "level", "no text", "tagged", "no tagged", "dropout", "no dropout", "changed",
         "no changed", "clear changed", "replace message", "swap texts", "swap tagged", "swap changed", "swap dropouts", "more changed"]


@st.composite
def edit(draw):
    return [draw(st.sampled_from(EDITS)), draw(st.integers(0, 50)), draw(st.integers(0, 50)), draw(st.binary(min_size=8, max_size=8)),
            draw(st.sampled_from(["", "x", "edited text", "ä\u20ac", "tab\t", " "]))]


def number(raw, old):
    """another value for a parameter: (value)"""
    if raw[0] & 1:
        return struct.unpack("<i", raw[4:])[0]
    v = struct.unpack("<f", raw[4:])[0]
    return v if v == v else float(raw[1])


def apply(u, e, ed):
    """one edit on the log and on the model; True if it changed something"""
    kind, n, m, raw, text = ed
    keys = sorted(e.datasets)
    if kind in ("value", "column", "every second", "reverse", "some rows", "more rows", "dataset", "reinsert"):
        if not keys:
            return False
        k = keys[n % len(keys)]
        x = e.datasets[k]
        d = [d for d in u.data_list if (d.name, d.multi_id) == k][0]
        if kind == "dataset":
            if len(keys) < 2:
                return False
            if m % 2:
                u.data_list.remove(d)
            else:
                u.data_list[:] = [o for o in u.data_list if o is not d]
            del e.datasets[k]
            return True
        if kind in ("value", "column"):
            f, t = x.fields[m % len(x.fields)]
            if f == "timestamp":
                raw = raw[:6] + b"\0\0"
            off, size = x.where[f][0], ulg.TYPES[t][1]
            new = bytes([raw[0] & 1]) if t == "bool" else raw[:size]
            rows = range(len(x.rows)) if kind == "column" else [raw[7] % len(x.rows)]
            col = np.array(d.data[f])
            for i in rows:
                col[i] = np.frombuffer(new, dtype=col.dtype)[0]
                x.rows[i] = x.rows[i][:off] + new + x.rows[i][off + size:]
            if m % 3 == 0 and d.data[f].flags.writeable:
                d.data[f][:] = col
            else:
                d.data[f] = col
            return True
        if kind == "reinsert":
            f = x.fields[m % len(x.fields)][0]
            d.data[f] = d.data.pop(f)
            return True
        count = len(x.rows)
        if kind == "more rows":
            for f in list(d.data):
                d.data[f] = np.append(d.data[f], d.data[f][n % count:n % count + 1 + m])
            x.rows = x.rows + x.rows[n % count:n % count + 1 + m]
            return True
        pick = {"every second": slice(None, None, 2), "reverse": slice(None, None, -1), "some rows": slice(n % count, n % count + 1 + m)}[kind]
        for f in list(d.data):
            d.data[f] = d.data[f][pick]
        x.rows = x.rows[pick]
        return True
    if kind == "order":
        if len(u.data_list) < 2:
            return False
        u.data_list.reverse()
        return True
    if kind in ("param", "no param"):
        names = sorted(e.params)
        if not names:
            return False
        k = names[n % len(names)]
        if kind == "param":
            u.initial_parameters[k] = e.params[k] = number(raw, e.params[k])
        else:
            del u.initial_parameters[k]
            del e.params[k]
        return True
    if kind == "new param":
        k = "NEW_%d" % (n % 3)
        u.initial_parameters[k] = e.params[k] = number(raw, None)
        return True
    if kind == "default":
        bits = sorted(b for b, d in e.defaults.items() if d)
        if not bits:
            return False
        b = bits[n % len(bits)]
        names = sorted(e.defaults[b])
        k = names[m % len(names)]
        u.get_default_parameters(b)[k] = e.defaults[b][k] = number(raw, None)
        return True
    if kind in ("info", "no info"):
        names = sorted(k for k, (t, _, _) in e.info.items() if kind == "no info" or t.startswith("char[") or t in ("int32_t", "float"))
        if not names:
            return False
        k = names[n % len(names)]
        if kind == "no info":
            del u.msg_info_dict[k]
            del e.info[k]
            return True
        t = e.info[k][0]
        v = text if t.startswith("char[") else struct.unpack("<i" if t == "int32_t" else "<f", raw[:4])[0]
        if v != v:
            v = 1.5
        u.msg_info_dict[k] = v
        e.info[k] = (t, oracle.pack_value(t, v), v)
        return True
    if kind == "multi":
        names = sorted(k for k in e.multi if e.multi_types[k].startswith("char["))
        if not names:
            return False
        k = names[n % len(names)]
        i = m % len(e.multi[k])
        j = raw[0] % len(e.multi[k][i])
        u.msg_info_multiple_dict[k][i][j] = text
        e.multi[k][i][j] = text
        return True
    if kind in ("text", "level", "no text", "replace message"):
        if not e.logged:
            return False
        i = n % len(e.logged)
        l, t, s = e.logged[i]
        if kind == "no text":
            del u.logged_messages[i]
            del e.logged[i]
        elif kind == "text":
            u.logged_messages[i].message = text
            e.logged[i] = (l, t, text)
        elif kind == "level":
            u.logged_messages[i].log_level = 48 + m % 8
            e.logged[i] = (48 + m % 8, t, s)
        else:
            c = copy.copy(u.logged_messages[m % len(e.logged)])
            u.logged_messages.append(c)
            e.logged.append(e.logged[m % len(e.logged)])
        return True
    if kind in ("tagged", "no tagged"):
        if not e.tagged:
            return False
        tags = sorted(e.tagged)
        k = tags[n % len(tags)]
        i = m % len(e.tagged[k])
        l, t, s = e.tagged[k][i]
        if kind == "tagged":
            u.logged_messages_tagged[k][i].message = text
            e.tagged[k][i] = (l, t, text)
        elif len(e.tagged[k]) > 1:
            del u.logged_messages_tagged[k][i]
            del e.tagged[k][i]
        else:
            del u.logged_messages_tagged[k]
            del e.tagged[k]
        return True
    if kind in ("dropout", "no dropout"):
        if not e.dropouts:
            return False
        i = n % len(e.dropouts)
        if kind == "dropout":
            u.dropouts[i].duration = m
            e.dropouts[i] = (e.dropouts[i][0], m)
        else:
            del u.dropouts[i]
            del e.dropouts[i]
        return True
    if kind.startswith("swap"):
        k = sorted(e.tagged)[n % len(e.tagged)] if e.tagged else None
        ours, theirs = {"swap texts": (e.logged, u.logged_messages), "swap changed": (e.changed, u.changed_parameters), "swap dropouts": (e.dropouts, u.dropouts),
                        "swap tagged": (e.tagged.get(k), u.logged_messages_tagged.get(k))}[kind]
        if not ours or len(ours) < 2:
            return False
        i, j = n % len(ours), m % len(ours)
        ours[i], ours[j] = ours[j], ours[i]
        theirs[i], theirs[j] = theirs[j], theirs[i]
        return ours[i] != ours[j]
    if kind == "more changed":
        names = sorted(e.params)
        if not names:
            return False
        c = (e.start + m * 1000, names[n % len(names)], number(raw, None))
        u.changed_parameters.append(c)
        e.changed.append(c)
        return True
    if kind == "clear changed":
        u.changed_parameters.clear()
        e.changed = []
        return True
    if not e.changed:
        return False
    i = n % len(e.changed)
    if kind == "changed":
        t, k, v = e.changed[i]
        v = number(raw, v)
        u.changed_parameters[i] = (t, k, v)
        e.changed[i] = (t, k, v)
    else:
        del u.changed_parameters[i]
        del e.changed[i]
    return True


def edited(u, spec, edits):
    e = ulg.interpret(spec)
    e.defaults = {b: d for b, d in e.defaults.items() if d}
    return e, sum(1 for ed in edits if apply(u, e, ed))


def in_file(e):
    """the expectation after writing: messages in stable order of time; the time of the messages without one follows from the samples"""
    e = copy.deepcopy(e)
    for d in e.datasets.values():
        d.rows.sort(key=d.timestamp)
    times = sorted(t for d in e.datasets.values() for t in d.timestamps())

    def before(t):
        return max([e.start] + [x for x in times if x <= t])
    e.logged.sort(key=lambda m: m[1])
    for ms in e.tagged.values():
        ms.sort(key=lambda m: m[1])
    e.dropouts = [(before(t), d) for t, d in sorted(e.dropouts, key=lambda d: d[0])]
    e.changed = [(before(t), k, v) for t, k, v in sorted(e.changed, key=lambda c: c[0])]
    e.last = max([e.start] + times)
    return e


def diff_object(u, e, what, ctx, **kw):
    """like oracle.diff, for any order of the datasets"""
    diffs = oracle.diff_meta(u, e, **kw)
    got = sorted((d.name, d.multi_id) for d in u.data_list)
    if got != sorted(e.datasets):
        diffs.append("datasets %r instead of %r" % (got, sorted(e.datasets)))
    else:
        for d in u.data_list:
            diffs += oracle.diff_dataset(d, e.datasets[(d.name, d.multi_id)], nan=True)
    ctx.no_diff(diffs, what)


def source(ctx, how, raw, h):
    if how == "file":
        return ctx.call("loading", lib.load, raw)
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(raw))
    if how == "new":
        return db
    ctx.call("save", db.save)
    return ctx.call("loading from the database", DatabaseULog, h, primary_key=db.primary_key, lazy=False)


def check_edited(case, ctx):
    spec, edits, how, before = case
    raw = ulg.encode(spec)
    h = dbs.handle(dbs.make_db(ctx.path("db.sqlite3"))) if how != "file" else None
    u = source(ctx, how, raw, h)
    # what was done with the log before it is edited does not matter
    if "write" in before and ulg.interpret(spec).datasets:
        ctx.call("write_ulog", lib.written, u)
    if "compare" in before:
        ctx.check(ctx.call("==", lambda: u == u), "a log is not equal to itself")
    if "read" in before:
        with ctx.lib("reading"):
            for d in u.data_list:
                u.get_dataset(d.name, d.multi_id).list_value_changes(d.field_data[0].field_name)
            u.get_default_parameters(0)
    with ctx.lib("editing"):
        e, hits = edited(u, spec, edits)
    diff_object(u, e, "the edited log", ctx)
    with ctx.lib("get_dataset"):
        for k in sorted(e.datasets):
            ctx.no_diff(oracle.diff_dataset(u.get_dataset(*k), e.datasets[k], nan=True), "get_dataset of the edited log")
            if how == "stored":
                ctx.no_diff(oracle.diff_dataset(u.get_dataset(*k, caching=False), ulg.interpret(spec).datasets[k], nan=True), "get_dataset without the cache")
    for d in u.data_list:
        x = e.datasets[(d.name, d.multi_id)]
        for f, _ in x.fields:
            got = ctx.call("list_value_changes", d.list_value_changes, f)
            want = []
            for t, v in zip(x.timestamps(), x.values(f)):
                if t and (not want or v != want[-1][1]):
                    want.append((t, v))
            ctx.check(len(got) == len(want) and all(int(a[0]) == b[0] and (a[1] == np.array(b[1], dtype=a[1].dtype) or b[1] != b[1]) for a, b in zip(got, want)),
                      lambda: "value changes of %s after the edits: %s instead of %s" % (f, oracle.short(got), oracle.short(want)))
    # comparison
    if how == "file":
        twin = ctx.call("loading", lib.load, raw)
    elif how == "new":
        twin = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(raw))
    else:
        twin = ctx.call("loading from the database", DatabaseULog, h, primary_key=u.primary_key, lazy=False)
    ctx.no_diff(oracle.diff(twin, ulg.interpret(spec)), "another load after the edits")
    a, b = oracle.snapshot(u, data=False), oracle.snapshot(twin, data=False)
    if any(a[k] != b[k] for k in a) or [(d.name, d.multi_id, len(d.data["timestamp"])) for d in u.data_list] != [
            (d.name, d.multi_id, len(d.data["timestamp"])) for d in twin.data_list]:
        ctx.check(not ctx.call("==", lambda: u == twin or twin == u), "an edited log is equal to the original")
        ctx.label("unequal to the original")
    edited(twin, spec, [ed for ed in edits if ed[0] != "reinsert"])
    ctx.check(ctx.call("==", lambda: u == twin and twin == u), "two logs with the same edits are not equal")
    ctx.check(not ctx.call("!=", lambda: u != twin), "two logs with the same edits are different")
    # columns that are not fields of the log (as add_roll_pitch_yaw adds them) stay out of what is written
    if "extra" in before:
        for d in u.data_list:
            d.data["roll"] = np.arange(len(d.data["timestamp"]), dtype=np.float64)
        ctx.label("additional columns")
    # file
    if e.datasets:
        out = ctx.call("write_ulog", lib.written, u)
        v = ctx.call("loading the written log", lib.load, out)
        want = in_file(e)
        diff_object(v, want, "the written log", ctx, skip=("appended",))
        try:
            w = ulg.interpret_written(ulg.decode(out))
        except ulg.Malformed as err:
            ctx.fail("the written file is malformed: %s" % err)
            return
        ctx.check(len(w.datasets) == len(want.datasets), "datasets in the written file: %r" % sorted(w.datasets))
        if "extra" not in before:
            diff_object(u, e, "the edited log after write_ulog", ctx)
    # database
    if how != "file":
        if how == "stored":
            old = ctx.call("loading from the database", DatabaseULog, h, primary_key=u.primary_key, lazy=False)
            ctx.no_diff(oracle.diff(old, ulg.interpret(spec)), "the stored log after edits of a loaded copy")
            ctx.call("delete", u.delete)
        ctx.call("save", u.save)
        back = ctx.call("loading from the database", DatabaseULog, h, primary_key=u.primary_key, lazy=False)
        diff_object(back, e, "the saved log", ctx)
        for k in sorted(e.datasets):
            d = ctx.call("get_dataset", DatabaseULog(h, primary_key=u.primary_key).get_dataset, *k)
            ctx.no_diff(oracle.diff_dataset(d, e.datasets[k]), "get_dataset of the saved log")
    for ed in edits:
        ctx.label(ed[0])
    ctx.label(how)
    ctx.nontrivial(hits > 0 and bool(e.datasets))


def cases():
    return st.tuples(gen.logs(**CFG), st.lists(edit(), min_size=1, max_size=6), st.sampled_from(["file", "file", "new", "stored"]),
                     st.lists(st.sampled_from(["write", "compare", "read", "extra"]), max_size=2)).map(list)


PARTS = [Part("edited", cases, check_edited, 2200)]
