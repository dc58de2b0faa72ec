import os
import struct

from hypothesis import strategies as st

from pyulog import extract_gps_dump
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C21"
LEVEL = "exploration"
RULE = ("generated logs with gps_dump messages (all lengths, directions and instances, array sizes, field orders, other topics in between) "
        "are run through ulog_extract_gps_dump; the files must hold the bytes of the chosen instance per direction in log order, and no "
        "other file may appear; non-trivial: at least two messages contribute bytes")
ASSUMPTIONS = ["the length in a message is at most the size of its data array", "one multi instance of gps_dump (PX4 tells receivers apart by the field 'instance')"]


@st.composite
def dump_case(draw):
    size = draw(st.sampled_from([79, 79, 80, 127, 8, 1, 2, 11]))
    kind = draw(st.sampled_from(["new"] * 6 + ["old", "old", "no data", "no len", "one data", "no first", "none", "empty"]))
    fields = [["uint8_t", 0, "len"], ["uint8_t", size, "data"]]
    if kind != "old":
        fields.insert(draw(st.integers(0, 2)), ["uint8_t", 0, "instance"])
    if draw(st.booleans()):
        fields.insert(0, ["uint32_t", 0, "device_id"])
    if draw(st.booleans()):
        fields = draw(st.permutations(fields))
    if kind == "no data":
        fields = [f if f[2] != "data" else ["uint8_t", size, "payload"] for f in fields]
    if kind == "one data":          # not an array
        fields = [f if f[2] != "data" else ["uint8_t", 0, "data"] for f in fields] + [["uint8_t", 3, "data2"]]
    if kind == "no first":
        fields = [f if f[2] != "data" else ["uint8_t", size, "database"] for f in fields]
    if kind == "no len":
        fields = [f if f[2] != "len" else ["uint8_t", 0, "length"] for f in fields]
    fields = [["uint64_t", 0, "timestamp"]] + list(fields)
    pad = draw(st.sampled_from([0, 0, 3]))
    spec = {"version": 1, "start": 1000, "defs": [["F", "gps_dump", fields + ([["uint8_t", pad, "_padding0"]] if pad else [])],
                                                  ["F", "other", [["uint64_t", 0, "timestamp"], ["uint8_t", 0, "len"]]]],
            "data": [["A", 0, 1, "other"]]}
    if kind != "none":
        spec["data"].append(["A", draw(st.sampled_from([0, 0, 0, 1])), 0, "gps_dump"])
    n = 0 if kind == "empty" else draw(st.sampled_from([3, 20, 8, 1]))
    chunk = draw(st.binary(min_size=29, max_size=29))
    t = 1000
    for i in range(n):
        t += draw(st.sampled_from([0, 100, 100000]))
        if kind != "none":
            ln = draw(st.one_of(st.sampled_from([0, 1, size, size, max(0, size - 1)]), st.integers(0, size)))
            v = {"timestamp": t, "len": ln | draw(st.sampled_from([0, 128])), "length": ln, "instance": draw(st.sampled_from([0, 0, 0, 1, 1, 2, 255])),
                 "device_id": 77, "data": 5}
            blob = ((bytes([i]) + chunk) * 5)[:size]
            row = b""
            for ft, k, f in fields:
                row += (blob * 3)[:k] if k else struct.pack("<" + ulg.TYPES[ft][0], v[f])
            spec["data"].append(["D", 0, row])
        spec["data"] += draw(st.sampled_from([[], [], [["O", 50]], [["S"]], [["D", 1, struct.pack("<QB", t, 5)]], [["L", 54, t, b"hi"]]]))
    return [spec, kind, draw(st.sampled_from([None, None, None, 0, 0, 1, 1, 2, 255, 3])), draw(st.sampled_from(["cwd", "dir", "dir", "same"] * 3 + ["no dir"])),
            draw(st.sampled_from(["log.ulg", "LOG.ULG", "log", "a.b.Ulg", "x.ulg.dat"])), draw(st.booleans())]


def check_dump(case, ctx):
    spec, kind, instance, where, name, ignore = case
    path = cli.save_log(ctx, spec, name)
    base = os.path.dirname(path)
    cwd = os.path.join(base, "cwd")
    os.mkdir(cwd)
    args = [path] + ([] if instance is None else ["-i", str(instance)]) + (["-x"] if ignore else [])
    target = cwd
    if where == "dir":
        target = os.path.join(base, "out")
        os.mkdir(target)
        args += ["-o", target]
    elif where == "same":
        target = base
        args += ["-o", base]
    elif where == "no dir":
        args += ["-o", os.path.join(base, "nope")]
    before = cli.tree(base)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        out, code = cli.run(ctx, extract_gps_dump.main, args, "ulog_extract_gps_dump")
    finally:
        os.chdir(old)
    after = cli.tree(base)
    ctx.label(kind)
    e = ulg.interpret(spec)
    d = next((v for (n, _), v in e.datasets.items() if n == "gps_dump"), None)
    if where == "no dir" or (d is not None and kind in ("no data", "no len", "one data", "no first")):
        ctx.check(code != 0, lambda: "exit code 0 for %s" % ("a missing directory" if where == "no dir" else "a wrong format"))
        ctx.check(after == before, "files were written in spite of an error")
        return
    ctx.check(code == 0, "exit code %r" % code)
    if d is None:
        ctx.check(after == before, "files were written for a log without gps_dump messages")
        return
    ctx.check(("%d dropouts" % len(e.dropouts) in out) if e.dropouts else "dropout" not in out,
              lambda: "printed %r for a log with %d dropouts" % (out, len(e.dropouts)))
    inst = instance or 0
    want = {"to": b"", "from": b""}
    contributing = 0
    cols = {f: d.values(f) for f, _ in d.fields}
    for i in range(len(d.rows)):
        if cols["instance"][i] != inst if "instance" in cols else inst != 0:
            continue
        ln = cols["len"][i]
        b = bytes(cols["data[%d]" % k][i] for k in range(ln & 127))
        contributing += bool(b)
        want["to" if ln & 128 else "from"] += b
    stem = name[:-4] if name.lower().endswith(".ulg") else name
    rel = os.path.relpath(target, base)
    expect = dict(before)
    for k, v in want.items():
        expect[os.path.normpath(os.path.join(rel, "%s_%d_%s_device.dat" % (stem, inst, k)))] = v
    ctx.check(sorted(after) == sorted(expect), lambda: "files %s instead of %s" % (sorted(after), sorted(expect)))
    for k in expect:
        ctx.check(after[k] == expect[k], lambda: "%s holds %d bytes %s instead of %d bytes %s" % (
            k, len(after[k]), oracle.short(after[k].hex(), 80), len(expect[k]), oracle.short(expect[k].hex(), 80)))
    ctx.label("both directions", all(want.values()))
    ctx.label("other instances", "instance" in cols and len(set(cols["instance"])) > 1)
    ctx.nontrivial(contributing > 1)


PARTS = [Part("dump", dump_case, check_dump, 4000)]
