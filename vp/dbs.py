"""Helpers for the database checks: databases in scratch directories, their
content, observers of commits, and injected faults."""
import contextlib
import hashlib
import os
import shutil
import sqlite3

from . import env, oracle
from .lib import ULog  # noqa: F401
from pyulog.db import DatabaseULog
from pyulog import migrate_db as migration

real_connect = sqlite3.connect
_template = {}


def make_db(path):
    """an empty database of the current schema (built by the code under test,
    once per process)"""
    if "db" not in _template:
        tmp = path + ".template"
        migration.migrate_db(tmp)
        with open(tmp, "rb") as f:
            _template["db"] = f.read()
        os.unlink(tmp)
    with open(path, "wb") as f:
        f.write(_template["db"])
    return path


def handle(path):
    return DatabaseULog.get_db_handle(path)


def content(path):
    """{table: sorted rows}, without internal tables"""
    con = real_connect(path)
    try:
        names = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'")]
        return {n: sorted(map(repr, con.execute('SELECT * FROM "%s"' % n))) for n in sorted(names)}
    finally:
        con.close()


def version(path):
    con = real_connect(path)
    try:
        return con.execute("PRAGMA user_version").fetchone()[0]
    finally:
        con.close()


def schema(path):
    con = real_connect(path)
    try:
        res = {}
        for name, in con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' ORDER BY name").fetchall():
            cols = con.execute('PRAGMA table_info("%s")' % name).fetchall()
            fks = con.execute('PRAGMA foreign_key_list("%s")' % name).fetchall()
            res[name] = (cols, sorted(f[2:] for f in fks))
        res["indices"] = sorted((r[0].lower(), r[1]) for r in con.execute(
            "SELECT name, tbl_name FROM sqlite_master WHERE type='index' AND name NOT LIKE 'sqlite_%'"))
        return res
    finally:
        con.close()


def orphans(path, pks):
    """rows that belong to no log in pks"""
    out = []
    con = real_connect(path)
    try:
        bad = con.execute("PRAGMA foreign_key_check").fetchall()
        if bad:
            out.append("rows without parent: %s" % oracle.short(bad))
        got = sorted(r[0] for r in con.execute("SELECT Id FROM ULog"))
        if got != sorted(pks):
            out.append("logs in the database: %r instead of %r" % (got, sorted(pks)))
        for n, in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            cols = [c[1] for c in con.execute('PRAGMA table_info("%s")' % n)]
            if "ULogId" in cols:
                ids = {r[0] for r in con.execute('SELECT DISTINCT ULogId FROM "%s"' % n)}
                if not ids <= set(pks):
                    out.append("%s has rows of logs %r" % (n, sorted(ids - set(pks))))
        if con.execute("PRAGMA integrity_check").fetchone()[0] != "ok":
            out.append("integrity check fails")
    finally:
        con.close()
    return out


@contextlib.contextmanager
def hooked(on_connect):
    """every connection made inside is shown to on_connect"""
    def connect(*a, **kw):
        con = real_connect(*a, **kw)
        on_connect(con)
        return con
    sqlite3.connect = connect
    try:
        yield
    finally:
        sqlite3.connect = real_connect


class CommitObserver:
    """Watches a database from a second connection; records its content
    whenever somebody else has committed"""

    def __init__(self, path, keep=content):
        self.path = path
        self.keep = keep
        self.con = real_connect(path)
        self.version = self._version()
        self.states = []
        self.statements = 0

    def _version(self):
        return self.con.execute("PRAGMA data_version").fetchone()[0]

    def attach(self, con):
        con.set_trace_callback(self.on_statement)

    def on_statement(self, sql):
        self.statements += 1
        self.look()

    def look(self):
        v = self._version()
        if v != self.version:
            self.version = v
            self.states.append(self.keep(self.path))

    def close(self):
        self.con.close()


class Fault:
    """Interrupts the n-th statement (counted over all connections)"""

    def __init__(self, n, action=None, only_write=True):
        self.n = n
        self.count = 0
        self.armed = False
        self.fired = False
        self.action = action
        self.only_write = only_write

    def attach(self, con):
        con.set_trace_callback(self.on_statement)
        if self.action is None:
            con.set_progress_handler(self.on_progress, 1)

    def on_statement(self, sql):
        word = sql.lstrip().split(None, 1)[0].upper() if sql.strip() else ""
        if self.only_write and word in ("SELECT", "PRAGMA", "--"):
            return
        if self.count == self.n:
            if self.action is not None:
                self.action()
            self.armed = True
        self.count += 1

    def on_progress(self):
        if self.armed:
            self.armed = False
            self.fired = True
            return 1
        return 0


class Interrupt:
    """Raises an exception in front of or behind the n-th call that executes something (on any connection)"""

    def __init__(self, n, make=KeyboardInterrupt, behind=False):
        self.n, self.make, self.behind = n, make, behind
        self.count = 0
        self.fired = False

    def call(self, fn, *args):
        at = self.count
        self.count += 1
        if at == self.n and not self.behind:
            self.fired = True
            raise self.make()
        res = fn(*args)
        if at == self.n:
            self.fired = True
            raise self.make()
        return res

    @contextlib.contextmanager
    def active(self):
        this = self

        class Cursor(sqlite3.Cursor):
            def execute(self, *a):
                return this.call(super().execute, *a)

            def executemany(self, *a):
                return this.call(super().executemany, *a)

            def executescript(self, *a):
                return this.call(super().executescript, *a)

        class Connection(sqlite3.Connection):
            def cursor(self, *a):
                return super().cursor(*(a or (Cursor,)))

            def commit(self):
                return this.call(super().commit)

        sqlite3.connect = lambda *a, **kw: real_connect(*a, **dict(kw, factory=Connection))
        try:
            yield
        finally:
            sqlite3.connect = real_connect


def in_killed_process(fn, n, only_write=True):
    """Run fn in a child process that dies at the n-th statement. Returns True
    when it died there, False when fn finished before"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            fault = Fault(n, action=lambda: os._exit(7), only_write=only_write)
            with hooked(fault.attach):
                fn()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == 7:
        return True
    if code == 0:
        return False
    raise RuntimeError("the child ended with %r" % code)


def copy_db(src, dst):
    shutil.copyfile(src, dst)
    return dst


def sha(raw):
    return hashlib.sha256(raw).hexdigest()
