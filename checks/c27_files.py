import io
import os
import re
import struct

from hypothesis import strategies as st

from pyulog import extract_gps_dump, info, params, ulog2csv
from pyulog.core import ULog
from pyulog.extract_message import extract_message
from vp import cli, dbs, events, gen, lib, oracle, ulg
from vp.runner import Part

ID = "C27"
LEVEL = "exploration"
RULE = ("every tool and function that reads a log runs, with generated options, in a directory tree with other files (with similar names) "
        "and with older, longer files in the place of its results: exactly the documented files may change, they must be the same as "
        "in an empty directory and in a repeated run, and the log stays as it is; with an input that is missing or not a readable ULog "
        "the run must fail and leave no trace; non-trivial: a result replaces an older file, or an input is refused")
ASSUMPTIONS = ["ulog2csv may create its output directory before it reads the log", "the bag writer of ROS 2 is not part of this check (C20)"]

TOOLS = ["info", "messages", "params", "params stdout", "csv", "csv", "csv function", "kml", "kml function", "gps", "gps", "extract", "load", "write", "write same", "database"]
NAMES = ["log.ulg", "log.ULG", "log.ULG", "x.Ulg", "a.ulg.ulg", "log", "a.b.ulg", "x y.ulg", "x.ulg.dat", "l\u00f6g.ulg"]
BAD = ["missing", "directory", "empty", "text", "short", "magic", "incompatible"]
messages = ulog2kml = None


def setup():
    global messages, ulog2kml
    events.install()
    from pyulog import messages
    from pyulog import ulog2kml


@st.composite
def file_case(draw):
    spec = draw(gen.logs(ts_bits=52, ts="mono", max_topics=2, max_subs=3, max_fields=3, n_ops=[4, 10], ops="DDDLLCPQIMO", max_defs=6))
    spec = cli.set_info(spec, "ver_sw_release", None, None)
    if draw(st.booleans()):
        spec = cli.set_info(spec, "sys_name", "char[3]", b"PX4")
    spec["defs"] += [["F", "gps_dump", [["uint64_t", 0, "timestamp"], ["uint8_t", 0, "instance"], ["uint8_t", 0, "len"], ["uint8_t", 4, "data"]]],
                     ["F", "vehicle_gps_position", [["uint64_t", 0, "timestamp"], ["int32_t", 0, "lat"], ["int32_t", 0, "lon"], ["int32_t", 0, "alt"]]]]
    more = []
    t = max([spec["start"]] + [ts for d in ulg.interpret(spec).datasets.values() for ts in d.timestamps()])
    if draw(st.integers(0, 3)):
        more += [["A", 0, 60000, "gps_dump"], ["A", 0, 60001, "vehicle_gps_position"]]
        for i in range(draw(st.integers(1, 4))):
            t += 300000
            more.append(["D", 60000, struct.pack("<QBB4s", t, i % 2, draw(st.sampled_from([4, 132, 0, 129])), bytes(range(i, i + 4)))])
            more.append(["D", 60001, struct.pack("<Qiii", t, 10 * i, 20, 30)])
    spec["data"] = spec["data"] + more
    return [spec, draw(st.sampled_from(TOOLS)), draw(st.sampled_from(NAMES)), draw(st.integers(0, 255)),
            draw(st.one_of(st.none(), st.none(), st.sampled_from(BAD))), draw(st.booleans())]


class Run:
    """one run in its own directories"""

    def __init__(self, ctx, sub, case, e):
        self.ctx, self.case, self.e = ctx, case, e
        self.base = ctx.path(sub)
        for d in ("", "in", "cwd", "out"):
            os.mkdir(os.path.join(self.base, d))
        self.spec, self.tool, self.name, self.opt, self.bad, self.other_dir = case
        self.log = os.path.join(self.base, "in", self.name)
        prefix = self.name[:-4] if self.name.lower().endswith(".ulg") else self.name
        self.target = "out" if self.other_dir else "in"
        raw = ulg.encode(self.spec)
        if self.bad is None:
            self.put("in/" + self.name, raw)
        elif self.bad == "directory":
            os.mkdir(self.log)
        elif self.bad != "missing":
            first = 16 + len(ulg.encode_msg(self.spec["defs"][0])) if self.spec["defs"][0][0] == "B" else 16
            flags = ulg.encode_msg(["B", [0] * 8, [2 << self.opt % 6] + [0] * 7, [0, 0, 0], b""])
            self.put("in/" + self.name, {"empty": b"", "text": b"time,value\n1,2\n" * 20, "short": raw[:self.opt % 7], "magic": b"\x55\x4c\x6f\x67\x01\x12\x34" + raw[7:],
                                         "incompatible": raw[:16] + flags + raw[first:]}[self.bad])
        # what the tool is asked for
        args, where, outs = [], None, []
        o = self.opt
        e = self.e
        topics = sorted({n for n, _ in e.datasets})
        if self.tool in ("info", "messages", "params stdout"):
            args = [[], ["-v"], ["-m", "boot_console_output", "-n"]][o % 3] if self.tool == "info" else []
        elif self.tool == "params":
            outs = [["cwd/params.txt", "out/p.csv", "cwd/p", "out/p.params", "out/my.kmz"][o % 5]]
            self.named = outs[0]
            self.no_defaults = o >> 1 & 3 == 3 and not e.compat[0] & 1
            if self.no_defaults:
                outs = []
            args = [[], ["-i"], ["-t"], ["-d", "system"]][o >> 1 & 3] + (["-f", ["csv", "octave", "qgc"][o % 3]] if not o & 4 else [])
        elif self.tool in ("csv", "csv function"):
            keep = topics
            self.messages = None
            if o & 1 and topics:
                keep = topics[:1 + (o >> 1) % 2]
                self.messages = ",".join(keep)
                args += ["-m", self.messages]
            outs = ["%s/%s_%s_%d.csv" % (self.target, prefix, n.replace("/", "_"), i) for n, i in sorted(e.datasets) if n in keep]
            if self.other_dir:
                args += ["-o", os.path.join(self.base, "out")]
        elif self.tool in ("kml", "kml function"):
            kml = "out/" + ["my.kml", "my.KML", "track.2", "my", "a b.xml", "my.kml.kml", "log.ulg"][o >> 1 & 7 if o >> 1 & 7 < 7 else 0]
            outs = ["cwd/track.kml"] if self.tool == "kml" and o & 1 else [kml]
            self.kml = os.path.join(self.base, kml)
            if "vehicle_gps_position" not in topics:
                outs = []
            if not (self.tool == "kml" and o & 1):
                args = ["-o", self.kml]
        elif self.tool == "gps":
            d = "out" if self.other_dir else "cwd"
            inst = o % 3
            outs = ["%s/%s_%d_%s_device.dat" % (d, prefix, inst, x) for x in ("to", "from")] if "gps_dump" in topics else []
            args = ["-i", str(inst)] + (["-o", os.path.join(self.base, "out")] if self.other_dir else [])
        elif self.tool == "write":
            outs = ["out/copy.ulg"]
        elif self.tool == "write same":
            outs = ["in/" + self.name]
        self.args, self.outs = args, outs
        # files that are not concerned
        decoy = b"not yours\n" * 3
        for p in ["in/%s.txt" % prefix, "in/%s_decoy_0.csv.bak" % prefix, "in/%s.csv" % prefix, "cwd/notes", "cwd/%s" % self.name, "cwd/%s_7_to_device.dat" % prefix,
                  "out/%s" % self.name, "out/%s_0.csv" % prefix, "out/my.kmz", "cwd/params.csv"]:
            if p not in outs:
                self.put(p, decoy)
        if "cwd/track.kml" not in outs:
            self.put("cwd/track.kml", decoy)

    def put(self, p, data):
        with open(os.path.join(self.base, p), "wb") as f:
            f.write(data)

    def tree(self):
        t = cli.tree(self.base)
        for b, ds, _ in os.walk(self.base):
            for d in ds:
                t[os.path.relpath(os.path.join(b, d), self.base) + "/"] = b""
        return t

    def go(self):
        """(exception or None, exit code, stdout)"""
        base, ctx, log = self.base, self.ctx, self.log
        err, code, out = None, None, ""
        old = os.getcwd()
        os.chdir(os.path.join(base, "cwd"))
        try:
            if self.tool == "extract":
                topic = sorted({n for n, i in self.e.datasets if i == 0} or {"none"})[0]
                out = repr([sorted(r) for r in extract_message(log, topic)])
            elif self.tool == "load":
                ULog(log, parse_header_only=bool(self.opt & 1))
            elif self.tool == "write":
                ULog(log).write_ulog(os.path.join(base, "out/copy.ulg"))
            elif self.tool == "write same":
                ULog(log).write_ulog(log)
            elif self.tool == "database":
                # beside the tree
                path = dbs.make_db(base + "_%d.sqlite3" % len(os.listdir(os.path.dirname(base))))
                dbs.DatabaseULog(dbs.handle(path), log_file=log).save()
            elif self.tool == "csv function":
                ulog2csv.convert_ulog2csv(log, self.messages, os.path.join(base, "out") if self.other_dir else None, ",", None, None, True)
            elif self.tool == "kml function":
                ulog2kml.convert_ulog2kml(log, self.kml, disable_str_exceptions=True)
            else:
                main, name = {"info": (info.main, "ulog_info"), "messages": (messages.main, "ulog_messages"), "params": (params.main, "ulog_params"),
                              "params stdout": (params.main, "ulog_params"), "csv": (ulog2csv.main, "ulog2csv"),
                              "gps": (extract_gps_dump.main, "ulog_extract_gps_dump"), "kml": (lambda: ulog2kml.main(), "ulog2kml")}[self.tool]
                args = list(self.args) + (["-x"] if self.tool == "gps" else ["--ignore"])
                args = [log] + ([os.path.join(base, self.named)] if self.tool == "params" else []) + args
                out, code = cli.run(ctx, main, args, name, allow=(Exception,))
        except Exception as ex:
            err = ex
        finally:
            os.chdir(old)
        return err, code, out.replace(base, "BASE")


def plain(path, data):
    """without the counters of simplekml"""
    return re.sub(rb'id="\d+"|>#\d+<', b"", data) if data and data.startswith(b"<?xml") else data


def changes(a, b):
    return sorted(p for p in set(a) | set(b) if plain(p, a.get(p)) != plain(p, b.get(p)))


def check_files(case, ctx):
    spec, tool, name, opt, bad, other_dir = case
    e = ulg.interpret(spec)
    r = Run(ctx, "one", case, e)
    raw = ulg.encode(spec)
    old = {}
    if opt & 16 and tool != "write same":
        for i, p in enumerate(r.outs):
            if opt & 32 or i == 0:
                old[p] = b"old content, much longer than the new one\r\n\x00\xff" * (2 + 100 * (opt >> 6 & 1))
                r.put(p, old[p])
                # written long ago, or by a clock that is ahead
                shift = [0, -86400 * 365, 3600, 86400 * 400][opt & 3]
                if shift:
                    at = os.stat(os.path.join(r.base, p)).st_mtime + shift
                    os.utime(os.path.join(r.base, p), (at, at))
    before = r.tree()
    res = r.go()
    after = r.tree()
    what = "%s %s" % (tool, " ".join(r.args).replace(r.base, "BASE"))
    if bad is not None:
        ctx.check(res[0] is not None or res[1] not in (0, None), lambda: "%s of an unreadable log (%s) succeeds: %r" % (what, bad, res))
        ctx.check(before == after, lambda: "%s of an unreadable log (%s) changed %r" % (what, bad, changes(before, after)))
        ctx.label("refused " + bad)
        ctx.nontrivial(True)
        ctx.label(tool)
        return
    absent = not r.outs and tool.startswith("kml")
    if tool == "params" and r.no_defaults:
        ctx.check(res[0] is not None or res[1] not in (0, None), "%s of a log without default parameters succeeds" % what)
        ctx.check(before == after, lambda: "%s without a result changed %r" % (what, changes(before, after)))
        return
    lost = tool == "extract" and not any(i == 0 for _, i in e.datasets)
    ctx.check((res[0] is None and res[1] in (None, 0)) or (absent and isinstance(res[0], KeyError)) or (lost and isinstance(res[0], AttributeError)),
              lambda: "%s fails: %r" % (what, res[:2]))
    diff = changes(before, after)
    extra = [p for p in diff if p not in r.outs]
    ctx.check(not extra, lambda: "%s changed %r, which it was not asked for" % (what, extra))
    missing = [p for p in r.outs if p not in after or after[p] == old.get(p)]
    ctx.check(not missing, lambda: "%s did not write %r" % (what, missing))
    if tool != "write same":
        ctx.check(after["in/" + name] == raw, lambda: "%s changed the log" % what)
    # the same in an empty place, and again
    f = Run(ctx, "two", case, e)
    res2 = f.go()
    fresh = f.tree()
    for p in r.outs:
        ctx.check(plain(p, after[p]) == plain(p, fresh.get(p)), lambda: "%s: %s depends on what was there before: %s, %s" % (what, p, oracle.short(after[p]), oracle.short(fresh.get(p))))
    ctx.check(type(res[0]) is type(res2[0]) and res[1:] == res2[1:], lambda: "%s: two runs give %s and %s" % (what, oracle.short(res), oracle.short(res2)))
    if tool != "write same":
        res3 = r.go()
        ctx.check(res3[1:] == res[1:] and not changes(after, r.tree()), lambda: "%s: another run changed %r" % (what, changes(after, r.tree())))
    elif e.datasets:
        ctx.check(fresh["in/" + name] == ctx.call("write_ulog", lib.written, lib.load(raw)), "a log written over its own file differs from one written elsewhere")
    ctx.label(tool)
    ctx.label("result replaces an older file", bool(old))
    ctx.nontrivial(bool(old) or (not r.outs and bool(e.datasets)))


PARTS = [Part("files", file_case, check_files, 2400)]
