import io
import os
import shutil
import sqlite3

from hypothesis import strategies as st

from vp import dbs, gen, lib, oracle, storage, ulg
from vp.dbs import DatabaseULog
from vp.runner import Part

ID = "C12"
LEVEL = "exploration"
RULE = ("save and delete of generated logs are (a) watched from a second connection for intermediate commits, (b) interrupted at "
        "a generated statement, (c) made in a process that dies at a generated statement, (d) fed with a value the database "
        "refuses, (e) interrupted by an exception at a generated call, (f) made while the storage fails or the process dies at a generated write, truncate or unlink of the database files; the database must hold all of the log or nothing of it, and stay usable; non-trivial: the fault hit after the "
        "first and before the last statement")
ASSUMPTIONS = ["sqlite itself recovers a killed transaction as configured (its journal is trusted); faults of single write, truncate and unlink calls are injected, power loss (reordered writes) is not"]

CFG = dict(ts_bits=63, max_topics=2, max_fields=2, max_subs=3, max_defs=6, n_ops=[2, 6], nested=False)


@st.composite
def atomic_case(draw):
    return [draw(gen.logs(**CFG)), draw(gen.logs(**dict(CFG, n_ops=[2]))), draw(st.integers(0, 10**6)),
            draw(st.sampled_from(["save", "save", "save", "delete"])), draw(st.integers(0, 3)) == 0]


def prepare(case, ctx, sub=None):
    """a database with another log in it"""
    spec, other, n, what, json = case
    raw = ulg.encode(spec)
    path = dbs.make_db(os.path.join(sub, "db.sqlite3") if sub else ctx.path("db.sqlite3"))
    h = dbs.handle(path)
    o = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(other)))
    stored = []
    if o.sha256sum != dbs.sha(raw):
        ctx.call("save", o.save)
        stored = [o.primary_key]
    db = ctx.call("DatabaseULog(file)", DatabaseULog, h, log_file=io.BytesIO(raw))
    if what == "delete":
        ctx.call("save", db.save, append_json=json)
    return path, db, raw, stored


def action(db, what, json):
    if what == "delete":
        return lambda: db.delete()
    return lambda: db.save(append_json=json)


def n_statements(path, fn, restore=True):
    """how many writing statements fn makes (on a copy of the database)"""
    keep = path + ".keep"
    dbs.copy_db(path, keep)
    fault = dbs.Fault(-1)
    with dbs.hooked(fault.attach):
        fn()
    if restore:
        os.replace(keep, path)
    return fault.count


def check_observed(case, ctx):
    spec, other, n, what, json = case
    path, db, raw, stored = prepare(case, ctx)
    before = dbs.content(path)
    obs = dbs.CommitObserver(path)
    try:
        with dbs.hooked(obs.attach):
            ctx.call(what, action(db, what, json))
        obs.look()
    finally:
        obs.close()
    after = dbs.content(path)
    ctx.check(before != after, what + " changed nothing")
    for s in obs.states:
        ctx.check(s in (before, after), "%s: others can see a log stored or deleted in part" % what)
    ctx.count("statements watched", obs.statements)
    ctx.nontrivial(obs.statements > 5 or what == "delete")


def usable(path, db, spec, raw, stored, other, before, ctx, what):
    """the operation can be repeated and then succeeds"""
    if what == "delete":
        ctx.call("delete after a failed delete", db.delete)
        ctx.no_diff(dbs.orphans(path, stored), "after the second delete")
        return
    ctx.call("save after a failed save", db.save)
    pk = db.primary_key
    v = ctx.call("loading", DatabaseULog, dbs.handle(path), primary_key=pk, lazy=False)
    ctx.no_diff(oracle.diff(v, ulg.interpret(spec)), "log saved after a failed save")
    ctx.no_diff(dbs.orphans(path, stored + [pk]), "after the second save")


def check_fault(case, ctx):
    spec, other, n, what, json = case
    path, db, raw, stored = prepare(case, ctx)
    fn = action(db, what, json)
    before = dbs.content(path)
    pk_before = db.primary_key
    # count the statements with an object of its own
    twin = DatabaseULog(dbs.handle(path), primary_key=pk_before) if what == "delete" else \
        DatabaseULog(dbs.handle(path), log_file=io.BytesIO(raw))
    total = ctx.call(what, n_statements, path, action(twin, what, json))
    ctx.check(dbs.content(path) == before, "harness: the database was not restored")
    at = n % max(1, total)
    fault = dbs.Fault(at)
    err = None
    with dbs.hooked(fault.attach):
        try:
            fn()
        except sqlite3.Error as e:
            err = e
        except Exception as e:
            if not fault.fired:
                ctx.fail("%s raised %r" % (what, e))
            err = e
    after = dbs.content(path)
    if err is None:
        ctx.label("fault without effect")
        if fault.fired:
            ctx.fail("%s reported success although statement %d of %d failed" % (what, at, total)) if after == before else None
        return
    ctx.check(after == before, "a %s that failed at statement %d of %d (%r) changed the database" % (what, at, total, err))
    ctx.check(db.primary_key == pk_before, "primary key is %r after a failed %s" % (db.primary_key, what))
    usable(path, db, spec, raw, stored, other, before, ctx, what)
    ctx.label("failed " + what)
    ctx.nontrivial(0 < at or what == "delete")


EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "MemoryError": MemoryError,
              "OperationalError": lambda: sqlite3.OperationalError("disk I/O error"), "TimeoutError": TimeoutError, "GeneratorExit": GeneratorExit}


def check_interrupt(case, ctx):
    """the user interrupts it, or a signal handler raises something"""
    case, kind, behind = case
    spec, other, n, what, json = case
    path, db, raw, stored = prepare(case, ctx)
    before = dbs.content(path)
    pk_before = db.primary_key
    twin = DatabaseULog(dbs.handle(path), primary_key=pk_before) if what == "delete" else \
        DatabaseULog(dbs.handle(path), log_file=io.BytesIO(raw))
    keep = dbs.copy_db(path, path + ".keep")
    probe = dbs.Interrupt(-1)
    with probe.active():
        ctx.call(what, action(twin, what, json))
    complete = dbs.content(path)
    os.replace(keep, path)
    at = n % max(1, probe.count)
    it = dbs.Interrupt(at, EXCEPTIONS[kind], behind)
    err = None
    with it.active():
        try:
            action(db, what, json)()
        except BaseException as e:
            err = e
            if not it.fired:
                raise
    after = dbs.content(path)
    where = "%s, interrupted by %s %s call %d of %d," % (what, kind, "behind" if behind else "in front of", at, probe.count)
    ctx.check(after in (before, complete), where + " leaves a part of its work")
    if err is None:
        ctx.check(after == complete, where + " ends without an error and without an effect")
        return
    if after == complete:       # behind the commit
        return
    ctx.check(db.primary_key == pk_before, lambda: "%s leaves the primary key %r" % (where, db.primary_key))
    usable(path, db, spec, raw, stored, other, before, ctx, what)
    ctx.label("%s of %s" % (kind, what))
    ctx.nontrivial(0 < at or what == "delete")


def check_kill(case, ctx):
    spec, other, n, what, json = case
    path, db, raw, stored = prepare(case, ctx)
    before = dbs.content(path)
    twin = DatabaseULog(dbs.handle(path), primary_key=db.primary_key) if what == "delete" else \
        DatabaseULog(dbs.handle(path), log_file=io.BytesIO(raw))
    total = ctx.call(what, n_statements, path, action(twin, what, json))
    at = n % max(1, total)
    died = ctx.call(what, dbs.in_killed_process, action(db, what, json), at)
    after = dbs.content(path)
    if died:
        ctx.check(after == before, "a process that died at statement %d of %d of %s left part of its work" % (at, total, what))
        usable(path, db, spec, raw, stored, other, before, ctx, what)
    ctx.label("died during " + what, died)
    ctx.nontrivial(died and at > 0)


@st.composite
def refused_case(draw):
    spec = draw(gen.logs(**CFG))
    big = ["I", "uint64_t", "too_big", b"\xff" * 8]
    spec = dict(spec, data=spec["data"] + [big]) if draw(st.booleans()) else dict(spec, defs=spec["defs"] + [big])
    return [spec, draw(gen.logs(**dict(CFG, n_ops=[2]))), 0, "save", draw(st.booleans())]


def check_refused(case, ctx):
    spec, other, n, what, json = case
    path, db, raw, stored = prepare(case, ctx)
    before = dbs.content(path)
    try:
        db.save(append_json=json)
    except Exception as err:   # sqlite has no such integers
        ctx.label("refused with " + type(err).__name__)
    else:
        # fine, if it is stored in some other way
        v = DatabaseULog(dbs.handle(path), primary_key=db.primary_key, lazy=False)
        ctx.no_diff(oracle.diff(v, ulg.interpret(spec)), "a log with a 64 bit value")
        return
    ctx.check(dbs.content(path) == before, "a save that failed (value too big) changed the database")
    ctx.check(db.primary_key is None, "primary key is %r after a failed save" % (db.primary_key,))
    ctx.raises("delete after a failed save", (KeyError,), db.delete)
    ctx.no_diff(dbs.orphans(path, stored), "after a failed save and delete")
    ctx.nontrivial(bool(stored))


def dense_cases():
    """many rows of a kind: seen at once, and interrupted close to the end"""
    return st.sampled_from(["L", "C", "O", "P", "I", "M", "Q", "D", "LCOPIMQD"]).flatmap(lambda k: gen.with_dense(atomic_case(), k))


def check_dense(case, ctx):
    spec, other, n, what, json = gen.densified(case)
    check_observed([spec, other, n, what, json], ctx)
    if n % 2:
        # a new place for the second one
        sub = ctx.path("sub")
        os.mkdir(sub)

        path, db, raw, stored = prepare([spec, other, n, what, json], ctx, sub)
        before = dbs.content(path)
        twin = DatabaseULog(dbs.handle(path), primary_key=db.primary_key) if what == "delete" else \
            DatabaseULog(dbs.handle(path), log_file=io.BytesIO(raw))
        total = ctx.call(what, n_statements, path, action(twin, what, json))
        at = max(0, total - 1 - (n >> 1) % 5)
        if ctx.call(what, dbs.in_killed_process, action(db, what, json), at):
            ctx.check(dbs.content(path) == before, "a process that died at statement %d of %d of %s left part of its work" % (at, total, what))


# ------------------------------------------- faults below the statements
@st.composite
def storage_case(draw):
    case = draw(atomic_case())
    # large: more than the cache of sqlite holds, so that pages are written before the commit
    return [case, draw(st.sampled_from(storage.MODES)), draw(st.integers(0, 10**6)), draw(st.sampled_from([0] * 9 + [2500000, 6000000]))]


def check_storage(case, ctx):
    """any change to the files of the database may be the last one, or fail"""
    case, mode, n, large = case
    if large:
        # unknown messages are not stored: a topic with a lot of data
        case = [gen.enlarge([case[0], "row", 60000, n])] + case[1:]
        big = [m for m in case[0]["data"] if m[0] == "D" and len(m[2]) > 50000]
        if big:
            case[0]["data"] += big[-1:] * (large // len(big[-1][2]))
    spec, other, _, what, json = case
    json = json and not large
    path, db, raw, stored = prepare([spec, other, 0, what, json], ctx)
    before = dbs.content(path)
    pk = db.primary_key

    def fn():
        o = DatabaseULog(dbs.handle(path), primary_key=pk) if what == "delete" else db
        action(o, what, json)()
    keep = dbs.copy_db(path, path + ".keep")
    total = storage.count(fn)
    ctx.check(total, "%s did not finish, or wrote nothing" % what)
    complete = dbs.content(path)
    ctx.check(complete != before, what + " changed nothing")
    for name in (path + "-journal", path + "-wal", path + "-shm"):
        if os.path.exists(name):
            os.unlink(name)
    os.replace(keep, path)
    at = total - 1 - n % min(total, 4) if n % 3 == 0 else n % total      # the end is where it is committed
    res = storage.run(fn, at, mode)
    try:
        after = dbs.content(path)
    except sqlite3.Error as err:
        ctx.fail("%s, %s write %d of %d: the database is damaged: %r" % (what, mode, at, total, err))
    state = "nothing" if after == before else "all" if after == complete else "a part"
    ctx.check(res in ("died", "done", "error"), "the process %s" % res)
    want = {"died": ["nothing", "all"], "done": ["all"], "error": ["nothing"]}[res]
    ctx.check(state in want, "%s (%s), %s write %d of %d: the database shows %s of it" % (what, res, mode, at, total, state))
    if state == "nothing" and not large:
        usable(path, db, spec, raw, stored, other, before, ctx, what)
    ctx.label("%s, %s: %s" % (what, mode, state))
    ctx.label("more than the cache", bool(large))
    ctx.nontrivial(res != "done" and 0 < at < total - 1)


PARTS = [
    Part("observed", atomic_case, check_observed, 400),
    Part("fault", atomic_case, check_fault, 800),
    Part("interrupt", lambda: st.tuples(atomic_case(), st.sampled_from(sorted(EXCEPTIONS)), st.booleans()).map(list), check_interrupt, 320),
    Part("dense", dense_cases, check_dense, 60),
    Part("kill", atomic_case, check_kill, 240),
    Part("storage", storage_case, check_storage, 240),
    Part("refused", refused_case, check_refused, 160),
]
