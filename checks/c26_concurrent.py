import io
import sqlite3
import threading
import time

from hypothesis import strategies as st

from vp import dbs, gen, oracle, sched, ulg
from vp.dbs import DatabaseULog, migration
from vp.runner import Part
from . import c13_migration as c13

ID = "C26"
LEVEL = "exploration"
RULE = ("generated operations (save, delete, open, load, get_dataset, lookups, and migrate_db) of two or three users run in "
        "threads that a generated schedule interleaves statement by statement; there must be a serial order of the operations, "
        "in agreement with the time, that explains all results and the final content; non-trivial: a thread was interrupted "
        "within an operation by another one that changed the database")
ASSUMPTIONS = ["an operation may fail because the database is locked, but then without effect (no waiting: the timeout is 0)",
               "statements are the smallest step: within one statement sqlite itself is trusted"]

CFG = dict(ts_bits=63, max_topics=2, max_fields=2, max_subs=3, max_defs=6, n_ops=[2, 6], nested=False)


@st.composite
def schedules(draw):
    """first some thread starts, then another one goes on for some time"""
    t = draw(st.integers(0, 2))
    first = [t, draw(st.one_of(st.integers(1, 8), st.integers(1, 60)))]
    second = [t + draw(st.integers(1, 2)), draw(st.one_of(st.integers(1, 60), st.just(5000), st.just(5000)))]
    n = st.one_of(st.integers(1, 4), st.integers(1, 12), st.integers(1, 60), st.just(5000))
    return [first, second] + draw(st.lists(st.tuples(st.integers(0, 5), n).map(list), max_size=10))


@st.composite
def users_case(draw):
    logs = draw(st.lists(gen.logs(**CFG), min_size=2, max_size=3))
    op = st.one_of(
        st.tuples(st.just("save"), st.integers(0, 2), st.booleans()),
        st.tuples(st.just("save"), st.integers(0, 2), st.booleans()),
        st.tuples(st.just("delete"), st.integers(0, 3)),
        st.tuples(st.just("delete"), st.integers(0, 3)),
        st.tuples(st.just("open"), st.integers(0, 3), st.booleans()),
        st.tuples(st.just("open"), st.integers(0, 3), st.booleans()),
        st.tuples(st.just("reload"), st.integers(0, 2), st.booleans()),
        st.tuples(st.just("get"), st.integers(0, 2), st.integers(0, 3)),
        st.tuples(st.just("lookup"), st.integers(0, 2)),
        st.tuples(st.just("exists"), st.integers(0, 3)),
    ).map(list)
    users = draw(st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=3))
    return [logs, draw(st.sampled_from([0, 1, 1, 2, 2])), users, draw(schedules())]


class Event:
    def __init__(self, user, op, start):
        self.user, self.op, self.start = user, op, start
        self.end = None
        self.result = None

    def __repr__(self):
        return "user %d %s = %s" % (self.user, "-".join(map(str, self.op)), "-".join(map(str, self.result or ("?",))))


def locked(err):
    return isinstance(err, sqlite3.OperationalError) and "locked" in str(err)


def serial_order(events, state, raws, last_pk):
    """a serial order of the events, or None; also the states at the end"""
    n = len(events)
    dead = set()

    def go(done, state, last):
        if len(done) == n:
            return [state]
        key = (done, tuple(sorted(state.items())), last)
        if key in dead:
            return None
        first_end = min(e.end for i, e in enumerate(events) if i not in done)
        for i, e in enumerate(events):
            if i in done or e.start > first_end:
                continue
            new = apply(e, state, raws, last)
            if new is not None:
                found = go(done | {i}, *new)
                if found is not None:
                    return found
        dead.add(key)
        return None
    return go(frozenset(), state, last_pk)


def apply(e, state, raws, last):
    """(state, last key) after e, None when e cannot have that result here"""
    k, r = e.op[0], e.result
    if r[0] == "locked":
        return state, last
    if k == "save":
        i = e.op[1]
        same = [pk for pk, j in state.items() if raws[j] == raws[i]]
        if r[0] == "stored":
            if same or r[1] <= last:
                return None
            return {**state, r[1]: i}, r[1]
        if r[0] == "refused":
            return (state, last) if r[1] in same or (r[1] is None and same) else None
    elif k == "delete":
        s = dict(state)
        s.pop(r[1], None)
        return s, last
    elif k in ("open", "reload", "get"):
        if r[0] == "absent":
            return (state, last) if r[1] not in state else None
        return (state, last) if r[1] in state and r[2] is not None and raws[state[r[1]]] == raws[r[2]] else None
    elif k == "lookup":
        same = [pk for pk, j in state.items() if raws[j] == raws[e.op[1]]]
        return (state, last) if (r[1] in same if same else r[1] is None) else None
    elif k == "exists":
        return (state, last) if (r[1] in state) == r[2] else None
    return None


def check_users(case, ctx):
    logs, n_stored, users, schedule = case
    users = [[[op[0], op[1] % len(logs)] + op[2:] if op[0] in ("save", "lookup") else op for op in ops] for ops in users]
    raws = [ulg.encode(s) for s in logs]
    exps = [ulg.interpret(s) for s in logs]
    path = dbs.make_db(ctx.path("db.sqlite3"))
    h = dbs.handle(path)
    state = {}
    for i in range(n_stored):
        if raws[i] in [raws[j] for j in state.values()]:
            continue
        o = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(raws[i]))
        ctx.call("save", o.save)
        state[o.primary_key] = i
    initial = dict(state)
    last_pk = max(state, default=0)
    s = sched.Scheduler(schedule)
    events, problems = [], []
    touched = set()

    def target(n):
        pks = sorted(initial)
        return pks[n % len(pks)] if pks and n < 3 else last_pk + 1

    # objects that exist before the users start
    prepared = {}
    for u, ops in enumerate(users):
        for j, op in enumerate(ops):
            if op[0] == "save":
                prepared[u, j] = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(raws[op[1]]))
            elif op[0] in ("delete", "reload", "get") and target(op[1]) in initial:
                prepared[u, j] = ctx.call("open", DatabaseULog, h, primary_key=target(op[1]), lazy=True)

    def perform(op, obj, mine):
        k = op[0]
        if k == "save":
            try:
                obj.save(append_json=op[2])
            except (KeyError, sqlite3.IntegrityError) as err:
                return "refused", obj.primary_key
            mine.append((obj, op[1]))
            return "stored", obj.primary_key
        if k == "open":
            pk = target(op[1])
            try:
                v = DatabaseULog(h, primary_key=pk, lazy=op[2])
            except KeyError:
                return "absent", pk
            return content(v, pk, op[2], "log %d, opened" % pk)
        if k == "lookup":
            return "found", DatabaseULog.primary_key_from_sha256sum(h, dbs.sha(raws[op[1]]))
        if k == "exists":
            pk = target(op[1])
            return "exists", pk, DatabaseULog.exists_in_db(h, pk)
        pk = obj.primary_key
        if k == "delete":
            obj.delete()
            return "deleted", pk
        if k == "reload":
            try:
                obj.load(lazy=op[2])
            except KeyError:
                return "absent", pk
            return content(obj, pk, op[2], "log %d, loaded again" % pk)
        if k == "get":
            i = initial.get(pk)
            keys = sorted(exps[i].datasets)
            name, multi = keys[op[2] % len(keys)]
            try:
                d = obj.get_dataset(name, multi, caching=False)
            except KeyError:
                return "absent", pk
            problems.extend("dataset of log %d: %s" % (pk, p) for p in oracle.diff_dataset(d, exps[i].datasets[(name, multi)]))
            return "there", pk, i

    def content(v, pk, lazy, what):
        # which log is it?
        diffs = []
        for i, e in enumerate(exps):
            d = oracle.diff(v, e, skip=("data",) if lazy else ())
            if not d and v.sha256sum == dbs.sha(raws[i]):
                return "there", pk, i
            if v.sha256sum == dbs.sha(raws[i]):
                diffs = d
        problems.append("%s, is only a part of a log: %s" % (what, "; ".join(diffs[:3])))
        return "there", pk, None

    def user(u, ops):
        mine = []
        for j, op in enumerate(ops):
            obj = prepared.get((u, j))
            if op[0] in ("delete", "reload", "get"):
                if obj is None and mine and op[0] == "delete":
                    obj = mine.pop()[0]
                if obj is None or (op[0] == "get" and not exps[initial[obj.primary_key]].datasets):
                    continue
            for attempt in range(3):
                e = Event(u, op, s.now())
                steps = s.clock
                before = obj.primary_key if obj is not None else None
                try:
                    e.result = perform(op, obj, mine)
                except sqlite3.OperationalError as err:
                    if not locked(err):
                        problems.append("%r raised %r" % (e, str(err)))
                    e.result = ("locked",)
                    if obj is not None and obj.primary_key != before:
                        problems.append("primary key %r after %r failed, it was %r" % (obj.primary_key, op, before))
                except Exception as err:
                    problems.append("%r raised %s: %s" % (e, type(err).__name__, err))
                    e.result = ("locked",)
                e.end = s.now()
                events.append(e)
                if e.result[0] != "locked":
                    break
                s.pause()

    s.run([lambda u=u, ops=ops: user(u, ops) for u, ops in enumerate(users)])
    history = "; ".join(map(repr, events))
    if problems:
        ctx.fail("%s (history: %s)" % ("; ".join(problems[:3]), history))
    found = serial_order(events, initial, raws, last_pk)
    ctx.check(found is not None, lambda: "no order of the operations explains their results: " + history)
    end = found[0]
    got = {pk for pk in end}
    ctx.no_diff(dbs.orphans(path, got), "after " + history)
    for pk, i in end.items():
        v = ctx.call("loading", DatabaseULog, h, primary_key=pk, lazy=False)
        ctx.no_diff(oracle.diff(v, exps[i]), "log %d after %s" % (pk, history))
    changes = [e for e in events if e.result[0] in ("stored", "deleted")]
    overlap = any(a.user != b.user and a.start < b.end and b.start < a.end for a in changes for b in events)
    ctx.count("switches within an operation", s.switches)
    ctx.label("locked", any(e.result[0] == "locked" for e in events))
    ctx.label("refused", any(e.result[0] == "refused" for e in events))
    ctx.label("read during a change", any(a.user != b.user and a.start < b.end and b.start < a.end
                                          for a in changes for b in events if b.op[0] in ("open", "reload", "get")))
    ctx.nontrivial(overlap and s.switches > 0)


# -------------------------------------------------------------- migrations
SMALL = dict(c13.CFG, n_ops=[2], max_topics=1, max_fields=2, max_defs=5, nested=False)


@st.composite
def migrate_case(draw):
    return [draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4])), draw(st.lists(gen.logs(**SMALL), max_size=1)),
            draw(st.lists(st.sampled_from(["migrate", "migrate", "migrate", "open"]), min_size=2, max_size=3)), draw(schedules()),
            draw(st.booleans())]


def check_migrate(case, ctx):
    version, specs, users, schedule, force = case
    if version:
        path, logs = c13.build([version, specs], ctx)
    else:
        path, logs = ctx.path("db.sqlite3"), []
        if force and specs:
            # a new, empty database
            dbs.real_connect(path).close()
            open(path, "a").close()
    columns, rows = c13.records(path) if version else (None, None)
    h = dbs.handle(path)
    problems, done = [], []
    s = sched.Scheduler(schedule)

    def user(kind):
        if kind == "migrate":
            try:
                migration.migrate_db(path, force=force)
                done.append(1)
            except (sqlite3.Error, FileExistsError):
                pass
            except Exception as err:
                problems.append("migrate_db raised %s: %s" % (type(err).__name__, err))
            return
        if not logs:
            return
        pk, e, sha = logs[0]
        try:
            v = DatabaseULog(h, primary_key=pk, lazy=False)
        except (ValueError, sqlite3.OperationalError):
            return
        except Exception as err:
            problems.append("opening a log during the migration raised %s: %s" % (type(err).__name__, err))
            return
        problems.extend(oracle.diff_meta(v, e) + oracle.diff_datasets(v, e))

    s.run([lambda k=k: user(k) for k in users])
    what = "%s interleaved from version %d" % (" and ".join(users), version)
    ctx.no_diff(problems, what)
    if done:
        ctx.check(dbs.version(path) == c13.LATEST, lambda: "%s: migrate_db succeeded but the version is %d" % (what, dbs.version(path)))
    c13.migrate(ctx, path, force=True)
    if version:
        now = c13.records(path, columns)[1]
        ctx.check(isinstance(now, dict), lambda: "columns are gone: %s" % now)
        ctx.no_diff(oracle.snap_diff(now, rows), what)
    c13.verify(path, logs, ctx, what, True)
    ctx.label("both succeeded", len(done) > 1)
    ctx.label("only one succeeded", len(done) == 1 and users.count("migrate") > 1)
    ctx.nontrivial(s.switches > 0 and users.count("migrate") > 1)


# -------------------------------------------------------------------- wait
@st.composite
def wait_case(draw):
    return [draw(st.lists(gen.logs(**CFG), min_size=2, max_size=2)), draw(st.sampled_from(["save", "delete", "load", "get", "lookup", "migrate"])),
            draw(st.sampled_from(["IMMEDIATE", "EXCLUSIVE"])), draw(st.sampled_from([200, 600]))]


def check_wait(case, ctx):
    """another user needs a moment for its transaction: the operation waits"""
    (one, two), op, how, ms = case
    path = dbs.make_db(ctx.path("db.sqlite3"))
    h = dbs.handle(path)
    e = ulg.interpret(one)
    o = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(one)))
    new = ctx.call("create", DatabaseULog, h, log_file=io.BytesIO(ulg.encode(dict(two, start=one["start"] ^ 1))))
    ctx.call("save", o.save)
    holder = dbs.real_connect(path, isolation_level=None, check_same_thread=False)
    holder.execute("BEGIN " + how)
    holder.execute("INSERT INTO ULog (FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, HasSync, SHA256Sum)"
                   " VALUES (1, 0, 0, 'x', 'x', 0, 1, 'other')")

    def release():
        time.sleep(ms / 1000)
        holder.execute("ROLLBACK")
    t = threading.Thread(target=release)
    t.start()
    what = "%s while another connection is busy for %d ms" % (op, ms)
    try:
        if op == "save":
            ctx.call(what, new.save)
        elif op == "delete":
            ctx.call(what, o.delete)
        elif op == "load":
            v = ctx.call(what, DatabaseULog, h, primary_key=o.primary_key, lazy=False)
            ctx.no_diff(oracle.diff(v, e), what)
        elif op == "get":
            for k in sorted(e.datasets):
                ctx.no_diff(oracle.diff_dataset(ctx.call(what, o.get_dataset, *k, caching=False), e.datasets[k]), what)
        elif op == "lookup":
            ctx.check(ctx.call(what, DatabaseULog.primary_key_from_sha256sum, h, o.sha256sum) == o.primary_key, what)
        else:
            ctx.call(what, migration.migrate_db, path)
    finally:
        t.join()
        holder.close()
    ctx.no_diff(dbs.orphans(path, {"save": [o.primary_key, new.primary_key], "delete": []}.get(op, [o.primary_key])), what)
    ctx.label("%s, %s" % (op, how))
    ctx.nontrivial(op in ("save", "delete") or how == "EXCLUSIVE")


PARTS = [
    Part("users", users_case, check_users, 2000),
    Part("wait", wait_case, check_wait, 64),
    Part("migrate", migrate_case, check_migrate, 400),
]
