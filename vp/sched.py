"""Runs functions in threads of which only one moves at a time: at every connect
and SQL statement a thread waits until the schedule lets it go on. The same schedule
gives the same interleaving."""
import contextlib
import threading

from . import dbs


class _Worker:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.steps = 0


class Scheduler:
    """schedule: list of [thread, number of statements]; when it is used up,
    the threads run to their end one after the other"""

    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.free = False
        self.clock = 0
        self.switches = 0

    def now(self):
        self.clock += 1
        return self.clock

    def pause(self):
        w = getattr(self.local, "worker", None)
        if w is None or self.free:
            return
        w.steps += 1
        self.back.release()
        w.go.acquire()

    def _on_statement(self, sql):
        if not sql.lstrip().startswith("--"):
            self.pause()

    def _main(self, w):
        self.local.worker = w
        w.go.acquire()
        try:
            w.fn()
        except BaseException as err:
            w.error = err
        w.done = True
        self.back.release()

    def _connect(self, *args, **kw):
        kw["timeout"] = 0
        self.pause()
        con = dbs.real_connect(*args, **kw)
        con.set_trace_callback(self._on_statement)
        return con

    @contextlib.contextmanager
    def _patched(self):
        dbs.sqlite3.connect = self._connect
        try:
            yield
        finally:
            dbs.sqlite3.connect = dbs.real_connect

    def _step(self, w):
        w.go.release()
        self.back.acquire()

    def run(self, fns):
        workers = [_Worker(i, fn) for i, fn in enumerate(fns)]
        threads = [threading.Thread(target=self._main, args=(w,), daemon=True) for w in workers]
        with self._patched():
            try:
                for t in threads:
                    t.start()
                last = None
                for t, n in self.schedule:
                    live = [w for w in workers if not w.done]
                    if not live:
                        break
                    w = live[t % len(live)]
                    for _ in range(n):
                        if w.done:
                            break
                        if last is not None and last is not w and not last.done:
                            self.switches += 1
                        last = w
                        self._step(w)
                for w in workers:
                    while not w.done:
                        self._step(w)
            finally:
                self.free = True
                for w in workers:
                    w.go.release()
                for t in threads:
                    if t.ident is not None:
                        t.join(20)
        for w in workers:
            if w.error is not None:
                raise w.error
