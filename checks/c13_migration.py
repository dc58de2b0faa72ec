import contextlib
import io
import json
import os
import sqlite3
import sys

from hypothesis import strategies as st

from vp import cli, dbs, env, gen, oracle, storage, ulg
from vp.dbs import DatabaseULog, migration
from vp.runner import Part

ID = "C13"
LEVEL = "exploration"
RULE = ("databases of every historical schema version (frozen copies of the migration scripts), filled with generated logs, are "
        "migrated by the code under test - at once, stepwise, interrupted or killed at a generated statement or write - and generated "
        "sequences of good and bad migration scripts are applied to generated databases; non-trivial: the database held a log "
        "with data, or a script failed after another one succeeded")
ASSUMPTIONS = ["the schema versions 1 to 4 are those of the scripts frozen in data/sql",
               "timestamps below 2^53 in databases older than version 4 (they were stored as floating point)"]

CFG = dict(ts_bits=52, starts=[0, 1, 1000000, 112574307, 1710773350346000], max_topics=3, max_subs=3, max_defs=8,
           n_ops=[4, 8], max_fields=3)
LATEST = DatabaseULog.SCHEMA_VERSION
SQL = os.path.join(env.VERIF, "data", "sql")


# ------------------------------------------------------- historical databases
def script(n):
    with open(os.path.join(SQL, "pyulog.%d.sql" % n)) as f:
        return f.read()


_old = {}


def old_db(path, version):
    """an empty database of a historical version"""
    if version not in _old:
        tmp = path + ".tmp"
        con = sqlite3.connect(tmp)
        for n in range(1, version + 1):
            con.executescript(script(n))
            con.execute("PRAGMA user_version = %d" % n)
        con.commit()
        con.close()
        with open(tmp, "rb") as f:
            _old[version] = f.read()
        os.unlink(tmp)
    with open(path, "wb") as f:
        f.write(_old[version])
    return path


def insert(con, table, **values):
    cur = con.execute("INSERT INTO %s (%s) VALUES (%s)" % (table, ",".join(values), ",".join("?" * len(values))),
                      list(values.values()))
    return cur.lastrowid


def chars(numbers):
    return "".join(map(chr, numbers))


def populate(con, version, e, sha):
    """Store a log the way the code of that schema version did"""
    extra = {"SHA256Sum": sha} if version >= 2 else {}
    pk = insert(con, "ULog", FileVersion=e.version, StartTimestamp=e.start, LastTimestamp=e.last,
                CompatFlags=chars(e.compat), IncompatFlags=chars(e.incompat), SyncCount=e.syncs, HasSync=True, **extra)
    for (name, multi), d in sorted(e.datasets.items()):
        idx = [i for i, (f, _) in enumerate(d.fields) if f == "timestamp"][0]
        did = insert(con, "ULogDataset", DatasetName=name, MultiId=multi, MessageId=d.msg_id, TimestampIndex=idx, ULogId=pk)
        cols = d.columns()
        for f, t in d.fields:
            more = {}
            if version >= 3 and d.rows and sha and int(sha[:1], 16) % 2:
                more = {"ValueJson": json.dumps({str(ts): 0 for ts in d.timestamps()})}
            insert(con, "ULogField", TopicName=f, DataType=t, ValueArray=cols[f][1], DatasetId=did, **more)
    for ts, duration in e.dropouts:
        insert(con, "ULogMessageDropout", Timestamp=ts, Duration=duration, ULogId=pk)
    for level, ts, text in e.logged:
        insert(con, "ULogMessageLogging", LogLevel=level, Timestamp=ts, Message=text, ULogId=pk)
    for tag, ms in e.tagged.items():
        for level, ts, text in ms:
            insert(con, "ULogMessageLoggingTagged", LogLevel=level, Timestamp=ts, Tag=tag, Message=text, ULogId=pk)
    for name, fields in e.formats.items():
        fid = insert(con, "ULogMessageFormat", Name=name, ULogId=pk)
        for t, n, f in fields:
            insert(con, "ULogMessageFormatField", FieldType=t, ArraySize=n, Name=f, MessageId=fid)
    for i, offset in enumerate(e.offsets):
        insert(con, "ULogAppendedOffsets", SeriesIndex=i, Offset=offset, ULogId=pk)
    for key, (t, raw, value) in e.info.items():
        insert(con, "ULogMessageInfo", Key=key, Typename=t, Value=value, ULogId=pk)
    for key, lists in e.multi.items():
        mid = insert(con, "ULogMessageInfoMultiple", Key=key, Typename=e.multi_types[key], ULogId=pk)
        for i, lst in enumerate(lists):
            lid = insert(con, "ULogMessageInfoMultipleList", SeriesIndex=i, MessageId=mid)
            for j, value in enumerate(lst):
                insert(con, "ULogMessageInfoMultipleListElement", SeriesIndex=j, Value=value, ListId=lid)
    for key, value in e.params.items():
        insert(con, "ULogInitialParameter", Key=key, Value=value, ULogId=pk)
    for bit, ps in e.defaults.items():
        for key, value in ps.items():
            insert(con, "ULogDefaultParameter", DefaultType=bit, Key=key, Value=value, ULogId=pk)
    for ts, key, value in e.changed:
        insert(con, "ULogChangedParameter", Timestamp=ts, Key=key, Value=value, ULogId=pk)
    return pk


def build(case, ctx):
    version, specs = case[0], case[1]
    path = old_db(ctx.path("db.sqlite3"), version)
    con = sqlite3.connect(path)
    logs = []
    shas = set()
    for spec in specs:
        raw = ulg.encode(spec)
        sha = dbs.sha(raw)
        if sha in shas:
            continue
        shas.add(sha)
        e = ulg.interpret(spec)
        e.syncs = sum(m[0] == "S" for m in spec["data"])
        # databases know the offsets of appended data of logs that were
        # saved, whatever these offsets are
        e.offsets = [7 + int(sha[:6 + i], 16) for i in range(int(sha[6], 16) % 4)]
        logs.append((populate(con, version, e, sha), e, sha if version >= 2 else None))
    con.commit()
    con.close()
    return path, logs


_fresh = []


def fresh_schema(ctx):
    if not _fresh:
        _fresh.append(dbs.schema(dbs.make_db(ctx.path("fresh.sqlite3"))))
    return _fresh[0]


def plain_schema(s):
    """columns as a set: their position has no meaning here"""
    return {k: (v if k == "indices" else (sorted(c[1:] for c in v[0]), v[1])) for k, v in s.items()}


def migrate(ctx, path, **kw):
    with ctx.lib("migrate_db"):
        return migration.migrate_db(path, **kw)


def verify(path, logs, ctx, what, delete):
    ctx.check(dbs.version(path) == LATEST, "%s: user_version is %d" % (what, dbs.version(path)))
    got, want = plain_schema(dbs.schema(path)), plain_schema(fresh_schema(ctx))
    ctx.no_diff(oracle.snap_diff(got, want) + ["%s is new" % k for k in want.keys() - got.keys()],
                "%s: schema differs from the one of a new database" % what)
    h = dbs.handle(path)
    for pk, e, sha in logs:
        for lazy in (False, True):
            db = ctx.call("loading a migrated log", DatabaseULog, h, primary_key=pk, lazy=lazy)
            ctx.no_diff(oracle.diff_meta(db, e), "%s: log %d" % (what, pk))
            if not lazy:
                ctx.no_diff(oracle.diff_datasets(db, e), "%s: log %d" % (what, pk))
            else:
                for (name, multi), d in e.datasets.items():
                    got = ctx.call("get_dataset", db.get_dataset, name, multi)
                    ctx.no_diff(oracle.diff_dataset(got, d), "%s: log %d" % (what, pk))
        ctx.check(db.sha256sum == sha, "%s: sha256sum is %r instead of %r" % (what, db.sha256sum, sha))
        if sha:
            ctx.check(DatabaseULog.primary_key_from_sha256sum(h, sha) == pk, "%s: the hash does not find the log" % what)
    left = [pk for pk, _, _ in logs]
    ctx.no_diff(dbs.orphans(path, left), what)
    if delete:
        for pk, e, sha in logs:
            db = DatabaseULog(h, primary_key=pk)
            ctx.call("delete", db.delete)
            left.remove(pk)
            ctx.no_diff(dbs.orphans(path, left), what + ": after delete of log %d" % pk)


def records(path, columns=None):
    """{table: columns}, and the rows by table (numbers without type)"""
    con = dbs.real_connect(path)
    try:
        found = {n: [c[1] for c in con.execute('PRAGMA table_info("%s")' % n)]
                 for n, in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall()}
        columns = columns or found
        gone = ["%s.%s" % (t, c) for t, cs in columns.items() for c in cs if c not in found.get(t, [])]
        if gone:
            return columns, gone
        return columns, {t: sorted(repr([int(v) if isinstance(v, float) and not c.startswith("Value") and v == int(v) else v
                                         for c, v in zip(cs, row)])
                                   for row in con.execute('SELECT %s FROM "%s"' % (",".join('"%s"' % c for c in cs), t)))
                         for t, cs in columns.items()}
    finally:
        con.close()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def check_content(case, ctx):
    version, specs, mode, delete = case
    path, logs = build(case, ctx)
    before = read(path)
    for pk, e, sha in logs[:1]:
        ctx.raises("opening a log in a database of version %d" % version, (ValueError,), DatabaseULog, dbs.handle(path), primary_key=pk)
    spec = specs[0] if specs else {"version": 1, "start": 0, "defs": [], "data": []}
    ctx.raises("a log for a database of version %d" % version, (ValueError,), DatabaseULog, dbs.handle(path),
               log_file=io.BytesIO(ulg.encode(spec)))
    ctx.check(read(path) == before, "a refused log changed an old database")
    columns, rows = records(path)
    if mode == "noop":
        migrate(ctx, path, noop=True)
        ctx.check(read(path) == before, "noop changed the database")
        migrate(ctx, path)
    elif mode == "stepwise":
        for v in range(version + 1, LATEST + 1):
            with schema_version(v):
                migrate(ctx, path)
            ctx.check(dbs.version(path) == v, "user_version is %d after migrating to %d" % (dbs.version(path), v))
    elif mode == "cli":
        cli.run(ctx, migration.main, ["-d", path], "ulog_migratedb")
    elif mode == "force":
        migrate(ctx, path, force=True)
    else:
        migrate(ctx, path)
    now = records(path, columns)[1]
    ctx.check(isinstance(now, dict), lambda: "columns are gone: %s" % now)
    ctx.no_diff(oracle.snap_diff(now, rows), "version %d migrated (%s)" % (version, mode))
    done = read(path)
    kept = dbs.content(path)
    migrate(ctx, path)
    ctx.check(read(path) == done or dbs.content(path) == kept, "migrating an up to date database changed it")
    verify(path, logs, ctx, "version %d migrated (%s)" % (version, mode), delete)
    ctx.label("from version %d" % version)
    ctx.label(mode)
    ctx.label("several logs", len(logs) > 1)
    ctx.nontrivial(any(e.datasets for _, e, _ in logs))


@contextlib.contextmanager
def schema_version(v):
    old = DatabaseULog.SCHEMA_VERSION
    DatabaseULog.SCHEMA_VERSION = v
    try:
        yield
    finally:
        DatabaseULog.SCHEMA_VERSION = old


versions = st.sampled_from([1, 1, 2, 3, 4])


def content_cases():
    return st.tuples(versions, st.lists(gen.logs(**CFG), min_size=0, max_size=2),
                     st.sampled_from(["plain", "noop", "stepwise", "cli", "force"]), st.booleans()).map(list)


# ------------------------------------------------------------ interruptions
SMALL = dict(CFG, n_ops=[2], max_topics=1, max_fields=2, max_defs=5, nested=False)


def state(path):
    return [dbs.version(path), dbs.content(path), plain_schema(dbs.schema(path))]


def step_states(path, version, ctx):
    """the states between the migrations (made on a copy)"""
    p = dbs.copy_db(path, ctx.path("steps.sqlite3"))
    states = [state(p)]
    for v in range(version + 1, LATEST + 1):
        with schema_version(v):
            migrate(ctx, p)
        states.append(state(p))
    return states


def check_interrupted(case, ctx):
    version, specs, n, how = case
    path, logs = build(case, ctx)
    states = step_states(path, version, ctx)
    work = dbs.copy_db(path, ctx.path("count.sqlite3"))
    fault = dbs.Fault(-1, only_write=False)
    with dbs.hooked(fault.attach):
        migrate(ctx, work)
    total = fault.count
    at = n % total
    hit = False
    if how == "kill":
        hit = ctx.call("migrate_db", dbs.in_killed_process, lambda: migration.migrate_db(path), at, only_write=False)
    elif how == "watch":
        obs = dbs.CommitObserver(path, keep=state)
        try:
            with dbs.hooked(obs.attach):
                migrate(ctx, path)
            obs.look()
        finally:
            obs.close()
        for s in obs.states:
            ctx.check(s in states, "others can see version %d of a database in between two versions" % s[0])
    else:
        fault = dbs.Fault(at, only_write=False)
        with dbs.hooked(fault.attach):
            try:
                migration.migrate_db(path)
            except Exception as err:
                hit = True
                ctx.check(fault.fired, lambda: "migrate_db raised %r" % err)
    now = state(path)
    ctx.check(now in states, lambda: "after %s at statement %d of %d the database is in no state between two migrations: it says "
              "version %d%s" % (how, at, total, now[0], "; it differs from that version by %s" % "; ".join(
                  oracle.snap_diff(dict(now[1]), dict(states[now[0] - version][1]))[:2] +
                  oracle.snap_diff(dict(now[2]), dict(states[now[0] - version][2]))[:2])
                  if version <= now[0] <= LATEST else ""))
    migrate(ctx, path)
    verify(path, logs, ctx, "migration repeated after %s at statement %d of %d" % (how, at, total), True)
    ctx.label(how)
    ctx.label("interrupted between two migrations", hit and version < now[0] < LATEST)
    ctx.nontrivial((hit or how == "watch") and any(e.datasets for _, e, _ in logs))


def interrupted_cases():
    return st.tuples(versions, st.lists(gen.logs(**SMALL), min_size=0, max_size=1), st.integers(0, 10**6),
                     st.sampled_from(["kill", "interrupt", "interrupt", "watch"])).map(list)


def check_storage(case, ctx):
    """any change to the files of the database may be the last one, or fail"""
    version, specs, n, mode = case
    path, logs = build(case, ctx)
    states = step_states(path, version, ctx)
    work = dbs.copy_db(path, ctx.path("count.sqlite3"))
    total = storage.count(lambda: migration.migrate_db(work))
    ctx.check(total, "migrate_db did not finish, or wrote nothing")
    at = n % total
    res = storage.run(lambda: migration.migrate_db(path), at, mode)
    ctx.check(res in ("died", "done", "error"), "the process %s" % res)
    try:
        now = state(path)
    except sqlite3.Error as err:
        ctx.fail("%s write %d of %d of a migration: the database is damaged: %r" % (mode, at, total, err))
    ctx.check(now in states, lambda: "%s write %d of %d of a migration (%s): the database is in no state between two migrations: it says "
              "version %d" % (mode, at, total, res, now[0]))
    ctx.check(res != "done" or now == states[-1], "a failing write (%d of %d) was not reported, but the version is %d" % (at, total, now[0]))
    migrate(ctx, path)
    verify(path, logs, ctx, "migration repeated after: %s write %d of %d" % (mode, at, total), True)
    ctx.label(mode)
    ctx.label("interrupted between two migrations", version < now[0] < LATEST)
    ctx.nontrivial(res != "done" and any(e.datasets for _, e, _ in logs))


def storage_cases():
    return st.tuples(versions, st.lists(gen.logs(**SMALL), min_size=0, max_size=1), st.integers(0, 10**6),
                     st.sampled_from(storage.MODES)).map(list)


# ------------------------------------------------------------------ scripts
STATEMENTS = ["CREATE TABLE t%(n)d (x INTEGER, y TEXT);", "CREATE TABLE u%(n)d (z);", "INSERT INTO base VALUES (%(n)d, 'a;b');",
              "ALTER TABLE base ADD COLUMN c%(n)d INT;", "-- a comment; with a semicolon\n", "UPDATE base SET x = x + 1;",
              "CREATE INDEX i%(n)d ON base(x);"]
NAMES = ["sql", "sql", "{migration_id}", "a{0}b", "50%d", "with space", "äö", "v1.sql", "x'y"]
BAD = ["INSERT INTO missing VALUES (1);", "CREATE TABLE base (x);", "SELECT <BUG> FROM base;", "ALTER TABLE base RENAME COLUMN q TO r;"]
FORMS = ["ok", "ok", "ok", "ok", "spaces", "no begin", "no commit", "empty", "missing", "bad", "comment first", "end"]


@st.composite
def script_case(draw):
    n = draw(st.integers(0, 7))
    n = draw(st.integers(9, 13)) if n == 0 else 1 + n % 4
    scripts = []
    for i in range(n):
        body = draw(st.lists(st.sampled_from(range(len(STATEMENTS))), max_size=4))
        scripts.append([draw(st.sampled_from(["ok", "ok", "spaces"] if n > 4 and draw(st.integers(0, 9)) else FORMS if i else FORMS[:5] + FORMS)), body, draw(st.integers(0, 4)),
                        draw(st.integers(0, len(BAD) - 1))])
    return [scripts, draw(st.sampled_from(["new", "version", "version", "version", "zero", "negative"])),
            draw(st.one_of(st.integers(0, n + 1), st.integers(0, n + 1), st.integers(0, n + 1), st.sampled_from([127, 255, 32767, 65536, 2**31 - 1]))),
            draw(st.one_of(st.integers(0, n + 1), st.just(n))), draw(st.sampled_from([False, False, True])), draw(st.booleans()),
            draw(st.integers(0, 3)) == 0, draw(st.sampled_from(["function", "cli", "default path"])),
            draw(st.sampled_from(NAMES)), draw(st.sampled_from(NAMES))]


def render(i, item):
    form, body, at, bad = item
    stm = [STATEMENTS[k] % {"n": 100 * i + j} for j, k in enumerate(body)]
    if form == "bad":
        stm.insert(min(at, len(stm)), BAD[bad])
    text = "\n".join(stm)
    if form == "empty":
        return ""
    if form == "no begin":
        return text + "\nCOMMIT;\n"
    if form == "comment first":
        return "-- hello\nCREATE TABLE early%d (x); BEGIN;\n%s\nCOMMIT;" % (i, text)
    if form == "no commit":
        return "BEGIN;\n" + text + "\n"
    if form == "end":
        return "BEGIN;\n%s\nCOMMIT;\nCREATE TABLE late%d (x);" % (text, i)
    if form == "spaces":
        return "\n  \nBEGIN;\n" + text + "\nCOMMIT;\n\n  "
    return "BEGIN;\n" + text + "\nCOMMIT;"


def dump(path):
    con = sqlite3.connect(path)
    try:
        return list(con.iterdump())
    finally:
        con.close()


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def check_scripts(case, ctx):
    scripts, kind, version, target, noop, force, single, way, *names = case
    sql_name, db_name = names or ["sql", "sql"]
    d = os.path.dirname(ctx.path("x"))
    path = os.path.join(d, "db %s.sqlite3" % db_name)
    if way == "default path":
        path = os.path.join(d, "pyulog.sqlite3")
    sql_dir = os.path.join(d, sql_name)
    os.mkdir(sql_dir)
    texts = {}
    for i, item in enumerate(scripts, 1):
        if item[0] != "missing":
            texts[i] = render(i, item)
            with open(os.path.join(sql_dir, "pyulog.%d.sql" % i), "w") as f:
                f.write(texts[i])
    ref = os.path.join(d, "ref.sqlite3")
    start = 0
    if kind != "new":
        start = version if kind == "version" else (-1 - version if kind == "negative" else 0)
        for p in (path, ref):
            con = sqlite3.connect(p)
            con.executescript("CREATE TABLE base (x INTEGER, y TEXT); INSERT INTO base VALUES (1, 'one'); PRAGMA user_version = %d" % start)
            con.commit()
            con.close()
    else:
        sqlite3.connect(ref).close()
    refused = kind == "negative" or (kind != "new" and start == 0 and not force)
    # the reference: apply script by script
    failed = None
    applied = start
    if not refused:
        con = sqlite3.connect(ref)
        for i in range(start + 1, target + 1):
            form = scripts[i - 1][0] if i <= len(scripts) else "missing"
            if form == "missing":
                failed = (FileNotFoundError,)
                break
            if form in ("no begin", "no commit", "empty", "comment first", "end"):
                failed = (ValueError,)
                break
            if not noop:
                try:
                    con.executescript(texts[i])
                except sqlite3.Error as err:
                    con.rollback()
                    failed = (sqlite3.Error,)
                    break
                con.execute("PRAGMA user_version = %d" % i)
            applied = i
        con.commit()
        con.close()
    want = dump(ref)
    before = read(path) if kind != "new" else None

    def apply():
        if way == "function":
            migration.migrate_db(path, sql_dir=sql_dir, noop=noop, force=force)
            return
        args = ["-s", sql_dir] + ["-n"] * noop + ["-f"] * force + (["-d", path] if way == "cli" else [])
        argv = sys.argv
        sys.argv = ["ulog_migratedb"] + cli.spell("ulog_migratedb", args)
        try:
            with chdir(d if way == "default path" else env.VERIF):
                migration.main()
        finally:
            sys.argv = argv

    def run():
        if single:
            # the same by calls for one version each
            for v in range(start, target + 1):
                with schema_version(v):
                    apply()
        else:
            with schema_version(target):
                apply()
    if single and (noop or kind != "version" or start == 0):
        single = False
    if refused:
        ctx.raises("migrate_db of a database with version %d" % start, (ValueError if kind == "negative" else FileExistsError,), run)
        ctx.label("refused")
    elif failed:
        ctx.raises("migrate_db", failed, run)
        ctx.label("fails with " + failed[0].__name__)
    else:
        ctx.call("migrate_db", run)
        ctx.label("succeeds")
    if kind == "new":
        if not os.path.exists(path):
            sqlite3.connect(path).close()
    if before is not None and (noop or refused):
        ctx.check(read(path) == before, "a %s migration changed the database" % ("refused" if refused else "noop"))
    ctx.check(dump(path) == want, lambda: "content is %s instead of %s" % (oracle.short(dump(path), 700), oracle.short(want, 700)))
    v = 0 if kind == "new" and noop else (start if noop or refused else applied)
    ctx.check(dbs.version(path) == v, lambda: "user_version is %d instead of %d" % (dbs.version(path), v))
    ctx.nontrivial(not noop and not refused and (applied > start))
    ctx.label("fails after a success", bool(failed) and applied > start)
    ctx.label("noop", noop)


PARTS = [
    Part("content", content_cases, check_content, 300),
    Part("interrupted", interrupted_cases, check_interrupted, 400),
    Part("storage", storage_cases, check_storage, 120),
    Part("scripts", script_case, check_scripts, 800),
]
