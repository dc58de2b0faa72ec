"""Runs the parts of one check over generated cases, in parallel shards, and
writes the evidence. See DESIGN.md ("Runner")."""
import collections
import contextlib
import errno
import hashlib
import io
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

N_SHARDS = 8
CASE_CPU_LIMIT = 40          # seconds of CPU for one case; cases take milliseconds
CASE_WALL_LIMIT = 200
NO_RESOURCES = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN)
SHRINK_SECONDS = 25
SAMPLE = bool(os.environ.get("VP_SAMPLE"))   # for tools/mutate.py: only one shard, no shrinking


class Violation(Exception):
    """The property does not hold on this case"""


class Hang(BaseException):
    """a case used up CASE_CPU_LIMIT"""


class HarnessError(Exception):
    pass


# ------------------------------------------------------------ serialisation
def to_json(v):
    if isinstance(v, (bytes, bytearray)):
        return {"__b": bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [to_json(x) for x in v]
    if isinstance(v, dict):
        return {"__d": [[to_json(k), to_json(x)] for k, x in v.items()]} \
            if any(not isinstance(k, str) or k.startswith("__") for k in v) else {k: to_json(x) for k, x in v.items()}
    if isinstance(v, float) and v != v:
        return {"__f": "nan"}
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return {"__f": repr(v)}
    return v


def from_json(v):
    if isinstance(v, list):
        return [from_json(x) for x in v]
    if isinstance(v, dict):
        if "__b" in v:
            return bytes.fromhex(v["__b"])
        if "__f" in v:
            return float(v["__f"])
        if "__d" in v:
            return {(tuple(from_json(k)) if isinstance(k, list) else from_json(k)): from_json(x) for k, x in v["__d"]}
        return {k: from_json(x) for k, x in v.items()}
    return v


def dump(case):
    return json.dumps(to_json(case), ensure_ascii=True)


# ------------------------------------------------------------------ context
class Part:
    def __init__(self, name, strategy, check, quick, thorough=None, enumerate_all=None):
        self.name = name
        self.strategy = strategy      # Hypothesis strategy (or a function returning one)
        self.check = check            # check(case, ctx)
        self.quick = quick            # number of cases over all shards
        self.thorough = thorough or quick * 15
        self.enumerate_all = enumerate_all   # instead: function returning the complete list of cases


class Ctx:
    """What a check function uses to talk about one case"""

    def __init__(self, known):
        self.labels = collections.Counter()
        self.known = known
        self.known_hits = collections.Counter()
        self.case_labels = set()
        self.is_nontrivial = False
        self.scratch = None
        self._n = 0
        self.counts = collections.Counter()

    # one case
    def begin(self):
        self.case_labels = set()
        self.is_nontrivial = False

    def end(self):
        for l in self.case_labels:
            self.labels[l] += 1

    def label(self, name, cond=True):
        if cond:
            self.case_labels.add(name)

    def count(self, name, n=1):
        self.counts[name] += n

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fail(self, msg, sig=None):
        if sig is not None and sig in self.known:
            self.known_hits[sig] += 1
            return
        raise Violation(msg)

    def check(self, cond, msg, sig=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, sig)

    def no_diff(self, diffs, what, sig=None):
        if diffs:
            self.fail(what + ": " + "; ".join(diffs[:4]) + (" (and %d more)" % (len(diffs) - 4) if len(diffs) > 4 else ""), sig)

    @contextlib.contextmanager
    def lib(self, what, allow=()):
        """code under test runs inside: an exception is a violation"""
        try:
            yield
        except (Violation, HarnessError):
            raise
        except allow:
            raise
        except OSError as err:
            if err.errno in NO_RESOURCES:
                raise HarnessError("%s: %r" % (what, err)) from err
            raise Violation("%s raised %s" % (what, describe(err))) from err
        except (Exception, SystemExit) as err:
            if type(err).__module__.startswith("hypothesis"):
                raise
            raise Violation("%s raised %s" % (what, describe(err))) from err

    def call(self, what, fn, *args, allow=(), **kwargs):
        with self.lib(what, allow):
            return fn(*args, **kwargs)

    def raises(self, what, types, fn, *args, **kwargs):
        """the call must raise one of types; returns the exception"""
        try:
            with self.lib(what, types):
                res = fn(*args, **kwargs)
        except types as err:
            return err
        raise Violation("%s did not raise %s but returned %s" % (
            what, "/".join(t.__name__ for t in types), repr(res)[:200]))

    def path(self, name):
        """a fresh path in a scratch directory of this shard"""
        self._n += 1
        d = os.path.join(self.scratch, "%d" % self._n)
        os.mkdir(d)
        return os.path.join(d, name)

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                with contextlib.suppress(OSError):
                    os.unlink(p)


def describe(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = ""
    for fr in tb[::-1]:
        if os.path.abspath(fr.filename).startswith(env.REPO):
            where = " at %s:%d in %s" % (os.path.relpath(fr.filename, env.REPO), fr.lineno, fr.name)
            break
    if not where and tb:
        where = " at %s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    return "%s: %s%s" % (type(err).__name__, str(err)[:300], where)


# ------------------------------------------------------------------- shards
def _seed_int(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class _Guard:
    """limits CPU time of one case"""

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _on_alarm(*_):
    raise Hang()


class _Quiet(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def run_one(part, case, ctx):
    """Run a check on one case; raises Violation"""
    ctx.begin()
    try:
        with _Guard():
            part.check(case, ctx)
    except (Violation, HarnessError):
        raise
    except OSError as err:
        if err.errno in NO_RESOURCES:
            raise HarnessError(describe(err)) from err
        raise Violation("unexpected %s" % describe(err)) from err
    except Exception as err:
        # not foreseen by the check: an exception of the code under test, or
        # a result in a form that the check cannot read
        if type(err).__module__.startswith("hypothesis"):
            raise
        raise Violation("unexpected %s" % describe(err)) from err
    finally:
        ctx.end()


def fails(part, case, ctx):
    try:
        run_one(part, case, ctx)
    except Violation as v:
        return str(v)
    except Hang:
        return "no result within %d s of CPU time (or %d s)" % (CASE_CPU_LIMIT, CASE_WALL_LIMIT)
    finally:
        ctx.clean()
    return None


class _Shard:
    def __init__(self, mod, tier, seed, shard, known, deadline):
        self.mod, self.tier, self.seed, self.shard = mod, tier, seed, shard
        self.deadline = deadline
        self.ctx = Ctx(known)
        self.distinct = set()
        self.evaluations = 0
        self.per_part = collections.Counter()
        self.samples = {}
        self.violation = None
        self.truncated = False

    def account(self, part, case):
        self.evaluations += 1
        self.per_part[part.name] += 1
        if self.ctx.is_nontrivial:
            text = part.name + dump(case)
            h = hashlib.sha256(text.encode()).digest()[:12]
            if h not in self.distinct:
                self.distinct.add(h)
                # keep a few samples: the second, and then a bigger one
                lst = self.samples.setdefault(part.name, [])
                if len(lst) < 2:
                    lst.append(text[len(part.name):][:1500])

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
        for part in self.mod.PARTS:
            if self.shard == 0:
                for path in regression_files(self.mod.ID, part.name):
                    with open(path) as f:
                        obj = json.load(f)
                    case = from_json(obj["case"])
                    msg = fails(part, case, self.ctx)
                    self.account(part, case)
                    self.ctx.label("regression case")
                    if msg:
                        self.violation = (part.name, case, msg, [])
                        return
            if part.enumerate_all is not None:
                for i, case in enumerate(part.enumerate_all()):
                    if i % N_SHARDS != self.shard:
                        continue
                    msg = fails(part, case, self.ctx)
                    self.account(part, case)
                    if msg:
                        self.violation = (part.name, case, msg, [])
                        return
                continue
            n = part.quick if self.tier == "quick" else part.thorough
            n = n // N_SHARDS + (1 if self.shard < n % N_SHARDS else 0)
            if n == 0:
                continue
            strategy = part.strategy() if callable(part.strategy) else part.strategy
            last = {}
            history = collections.deque(maxlen=60)

            def body(case):
                last["case"] = case
                if time.time() > self.deadline:
                    self.truncated = True
                    return
                try:
                    run_one(part, case, self.ctx)
                except Violation as v:
                    if "fail" not in last:
                        last["history"] = list(history)
                    last["fail"] = (case, str(v))
                    raise
                finally:
                    self.ctx.clean()
                    history.append(case)
                if "fail" not in last:
                    self.account(part, case)

            test = given(strategy)(body)
            test = hypothesis.seed(_seed_int(self.seed, self.mod.ID, part.name, self.shard))(test)
            test = settings(max_examples=n, database=None, deadline=None,
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                            phases=(Phase.generate,) if SAMPLE else (Phase.generate, Phase.shrink), print_blob=False)(test)
            try:
                test()
            except Hang:
                self.violation = (part.name, last["case"], "no result within %d s of CPU time (or %d s)" % (CASE_CPU_LIMIT, CASE_WALL_LIMIT), [])
            except BaseException as err:
                if "fail" not in last:
                    raise
                if isinstance(err, HarnessError):
                    raise
                case, msg = last["fail"]
                again = fails(part, case, self.ctx)
                if again:
                    self.violation = (part.name, case, again, [])
                else:
                    # only fails after the cases before it
                    self.violation = (part.name, case, msg + " (in a process that handled other cases before)",
                                      last.get("history", []))
            if self.violation:
                return

    def result(self):
        return {
            "evaluations": self.evaluations, "distinct": self.distinct, "labels": self.ctx.labels,
            "counts": self.ctx.counts, "known": self.ctx.known_hits, "per_part": self.per_part,
            "samples": self.samples, "violation": self.violation, "truncated": self.truncated,
        }


def regression_files(pid, part):
    d = os.path.join(env.VERIF, "regress", pid)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, n) for n in sorted(os.listdir(d)) if n.startswith(part + "-") and n.endswith(".json")]


def _init_worker(scratch):
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.makedirs(scratch)
    os.chdir(scratch)
    sys.stdout = _Quiet()
    if not os.environ.get("VP_DEBUG"):
        sys.stderr = _Quiet()
    import hypothesis.configuration as hc
    hc.set_hypothesis_home_dir(scratch + "-hyp")
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")


def _worker(mod, tier, seed, shard, known, deadline, scratch, conn):
    try:
        _init_worker(scratch)
        sh = _Shard(mod, tier, seed, shard, known, deadline)
        sh.ctx.scratch = scratch
        if hasattr(mod, "setup"):
            mod.setup()
        sh.run()
        conn.send(("ok", sh.result()))
    except BaseException as err:   # harness failure
        conn.send(("error", "".join(traceback.format_exception(err))[-6000:]))
    finally:
        conn.close()
        os._exit(0)


def load_known(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        items = json.load(f)
    return {k["sig"]: k for k in items.get("findings", []) if k["property"] == pid}


def write_replay(pid, part, case, msg, history):
    d = os.path.join(env.EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    obj = {"property": pid, "part": part, "message": msg, "case": to_json(case),
           "history": [to_json(c) for c in history]}
    text = json.dumps(obj, indent=1)
    name = "%s-%s-%s.json" % (pid, part, hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def run_check(mod, tier, seed, out=None):
    out = out or sys.stdout
    t0 = time.time()
    known = load_known(mod.ID)
    deadline = t0 + (600 if tier == "quick" else float(os.environ.get("VP_THOROUGH_S", "3000")))
    base = tempfile.mkdtemp(prefix="vp-%s-" % mod.ID, dir=env.scratch_root())
    mp = multiprocessing.get_context("fork")
    procs = []
    try:
        for i in range(1 if SAMPLE else N_SHARDS):
            recv, send = mp.Pipe(duplex=False)
            p = mp.Process(target=_worker, args=(mod, tier, seed, i, known, deadline, os.path.join(base, "s%d" % i), send))
            p.start()
            send.close()
            procs.append((p, recv))
        results, errors, violation = [], [], None
        pending = {r: p for p, r in procs}
        while pending:
            ready = multiprocessing.connection.wait(list(pending), timeout=60)
            for r in ready:
                p = pending.pop(r)
                try:
                    kind, val = r.recv()
                except EOFError:
                    kind, val = "error", "worker died (exit %r)" % p.exitcode
                if kind == "ok":
                    results.append(val)
                    if val["violation"] and violation is None:
                        violation = val["violation"]
                else:
                    errors.append(val)
            if violation:
                break
    finally:
        for p, _ in procs:
            if p.is_alive():
                if not (results and len(results) + len(errors) == len(procs)):
                    p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
        shutil.rmtree(base, ignore_errors=True)

    labels, counts, known_hits, per_part = (collections.Counter() for _ in range(4))
    distinct, samples, evaluations = set(), {}, 0
    for r in results:
        labels.update(r["labels"])
        counts.update(r["counts"])
        known_hits.update(r["known"])
        per_part.update(r["per_part"])
        distinct |= r["distinct"]
        evaluations += r["evaluations"]
        for k, v in r["samples"].items():
            samples.setdefault(k, []).extend(v)
    evidence = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": [{"part": k, "case": s} for k, v in sorted(samples.items()) for s in v[1:4]] or ["none"],
            "cases_per_part": dict(sorted(per_part.items())),
            "classes": dict(sorted(labels.items())),
            "counts": dict(sorted(counts.items())),
            "stopped_by_time": any(r["truncated"] for r in results),
            "known_findings_hit": dict(known_hits),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    while len(json.dumps(evidence)) > 50000 and len(evidence["coverage"]["samples"]) > 1:
        evidence["coverage"]["samples"].pop()
    os.makedirs(env.EVIDENCE, exist_ok=True)
    with open(os.path.join(env.EVIDENCE, mod.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for sig in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, known[sig]["what"]), file=out)
    if violation:
        part, case, msg, history = violation
        path = write_replay(mod.ID, part, case, msg, history)
        print("%s/%s: %s" % (mod.ID, part, msg[:1500]), file=out)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path), file=out)
        out.flush()
        return 1
    if errors:
        print("ERROR in check %s (not a verdict):\n%s" % (mod.ID, errors[0]), file=out)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
        mod.ID, evaluations, len(distinct), time.time() - t0), file=out)
    return 0


def run_replay(mod, path, out=None):
    out = out or sys.stdout
    with open(path) as f:
        obj = json.load(f)
    part = {p.name: p for p in mod.PARTS}[obj["part"]]
    known = load_known(mod.ID)
    base = tempfile.mkdtemp(prefix="vp-%s-" % mod.ID, dir=env.scratch_root())
    real = sys.stdout
    cwd = os.getcwd()
    try:
        _init_worker(os.path.join(base, "s"))
        if hasattr(mod, "setup"):
            mod.setup()
        ctx = Ctx(known)
        ctx.scratch = os.path.join(base, "s")
        for c in obj.get("history", []):
            fails(part, from_json(c), ctx)
        msg = fails(part, from_json(obj["case"]), ctx)
    finally:
        sys.stdout = real
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)
    if msg:
        print("%s/%s: %s" % (mod.ID, part.name, msg), file=real)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path), file=real)
        return 1
    print("%s: replay passes" % mod.ID, file=real)
    return 0
