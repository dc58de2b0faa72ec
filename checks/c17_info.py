import struct

from hypothesis import strategies as st

from pyulog import info
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C17"
LEVEL = "exploration"
RULE = ("the ulog_info tool on generated logs (summary, verbose, one info multiple message); every line of the output is compared "
        "with what the reference model says about the log; non-trivial: the log has topic data and info messages, or the "
        "requested message exists")
ASSUMPTIONS = ["timestamps below 2^53 microseconds", "info texts without line breaks in the comparison of single lines"]

CFG = dict(ts_bits=52, starts=[0, 1, 999999, 1000000, 59999999, 3600000000, 359999999999, 1710773350346000], max_topics=4, max_subs=6,
           max_defs=12, n_ops=[3, 8, 16], ops="DDDDDDIIMMMLOOOS", flag_extra=False,
           multi_types={"perf_top": "char[", "hardfault_plain": "char[", "metadata": "uint8_t[", "mk": "int32_t", "mü": "char[", "MK": "char["})
VERSIONS = [b"\x00\x00\x00\x00", b"\x3f\x01\x02\x03", b"\x40\x01\x02\x03", b"\x7f\xff\x00\x0a", b"\x80\x00\x0e\x01", b"\xbf\x01\x02\x03",
            b"\xc0\x01\x02\x03", b"\xfe\x01\x02\x03", b"\xff\x02\x0c\x01", b"\xff\xff\xff\xff"]


def version_text(raw):
    kind, patch, minor, major = raw
    if kind < 64:
        return None
    suffix = " (alpha)" if kind < 128 else " (beta)" if kind < 192 else " (RC)" if kind < 255 else ""
    return "v%d.%d.%d%s" % (major, minor, patch, suffix)


@st.composite
def info_case(draw):
    spec = draw(gen.logs(**CFG))
    version = draw(st.one_of(st.none(), st.sampled_from(VERSIONS)))
    spec = cli.set_info(spec, "ver_sw_release", "uint32_t" if version else None, version)
    corrupt = draw(st.integers(0, 5)) == 0
    if corrupt:
        used = {m[2] for m in spec["data"] if m[0] == "A"}
        free = [i for i in gen.MSG_IDS if i not in used]
        spec["data"] = spec["data"] + [["D", free[0], b"\0" * 9]]
    keys = sorted({m[3] for sec in ("defs", "data") for m in spec[sec] if m[0] == "M"})
    return [spec, draw(st.sampled_from(["plain", "verbose", "message", "message", "newline"])),
            draw(st.sampled_from(keys * 3 + ["nope", "perf"])), version, corrupt, draw(st.booleans())]


def table(lines, e, ctx):
    want = []
    for (name, multi), d in e.datasets.items():
        want.append(["%s (%d, %d)" % (name, multi, d.size), len(d.rows), d.size * len(d.rows)])
    got = []
    for line in lines:
        ctx.check(line.startswith(" "), lambda: "line %r in the table of topics" % line)
        head, n, total = line[1:].rsplit(None, 2)
        got.append([head.rstrip(), int(n), int(total)])
    names = sorted({k[0] for k in e.datasets})
    if not any(b.startswith(a) for a, b in zip(names, names[1:])):
        # ordered by name
        rank = {n: i for i, n in enumerate(names)}
        order = [rank.get(g[0].rsplit(" (", 1)[0]) for g in got]
        ctx.check(None in order or order == sorted(order), lambda: "order of the topics: %s" % oracle.short(got))
    ctx.check(sorted(got) == sorted(want), lambda: "topics %s instead of %s" % (oracle.short(got), oracle.short(want)))


def check_info(case, ctx):
    spec, mode, key, version, corrupt, ignore = case
    path = cli.save_log(ctx, spec)
    e = ulg.interpret(dict(spec, data=spec["data"][:-1]) if corrupt else spec)
    args = [path] + (["-i"] if ignore else [])
    args += {"plain": [], "verbose": ["-v"], "message": ["-m", key], "newline": ["-m", key, "-n"]}[mode]
    out, code = cli.run(ctx, info.main, args, "ulog_info")
    ctx.check(code == 0, "ulog_info ended with %r" % code)
    ctx.label(mode)
    if mode in ("message", "newline"):
        check_message(out, e, key, "\n" if mode == "newline" else "", corrupt, ctx)
        return
    verbose = mode == "verbose"
    warning = "Warning: file has data corruption(s)\n"
    ctx.check((warning in out) == corrupt, "corruption is %sreported" % ("not " if corrupt else ""))
    start = out.find("Logging start time: ")
    ctx.check(start >= 0, lambda: "no start time in %r" % out[:200])
    out = out[start:]
    want = ["Logging start time: %s, duration: %s" % (cli.hms(e.start), cli.hms(e.last - e.start))]
    if e.dropouts:
        ms = [d for _, d in e.dropouts]
        want.append("Dropouts: count: %d, total duration: %.1f s, max: %d ms, mean: %d ms" % (
            len(ms), sum(ms) / 1000., max(ms), sum(ms) // len(ms)))
    else:
        want.append("No Dropouts")
    if version and version_text(version):
        want.append("SW Version: " + version_text(version))
    want.append("Info Messages:")
    for k in sorted(e.info):
        if verbose or not k.startswith("perf_"):
            want.append(" %s: %s" % (k, e.info[k][2]))
    if e.multi:
        if verbose:
            want.append("Info Multiple Messages:")
            for k in sorted(e.multi):
                want.append(" %s: %s" % (k, e.multi[k]))
        else:
            want.append("Info Multiple Messages: " + ", ".join("[%s: %d]" % (k, len(e.multi[k])) for k in sorted(e.multi)))
    text = "\n".join(want) + "\n\n"
    ctx.check(out.startswith(text), lambda: first_difference(out, text))
    rest = out[len(text):].split("\n")
    ctx.check(rest[0].startswith("Name (multi id, message size in bytes)") and rest[-1] == "",
              lambda: "the table begins with %r and ends with %r" % (rest[0], rest[-1]))
    table(rest[1:-1], e, ctx)
    ctx.nontrivial(bool(e.datasets) and bool(e.info))
    ctx.label("dropouts", bool(e.dropouts))
    ctx.label("corrupt", corrupt)
    ctx.label("several dropouts", len(e.dropouts) > 1)


def first_difference(out, text):
    for a, b in zip(out.split("\n"), text.split("\n")):
        if a != b:
            return "line %r instead of %r" % (a, b)
    return "output ends early"


def check_message(out, e, key, separator, corrupt, ctx):
    want = ""
    if key not in e.multi:
        want = "message %s not found\n" % key
    else:
        for i, parts in enumerate(e.multi[key]):
            if isinstance(parts[0], bytes):
                want += "# %s %d (len: %d):\n" % (key, i, sum(map(len, parts)))
                want += separator.join(" ".join("%02x" % b for b in p) for p in parts) + "\n"
            else:
                want += "# %s %d:\n" % (key, i)
                want += separator.join(map(str, parts)) + "\n"
        ctx.nontrivial()
        ctx.label("binary message", isinstance(e.multi[key][0][0], bytes))
        ctx.label("text message", isinstance(e.multi[key][0][0], str))
        ctx.label("several parts", any(len(p) > 1 for p in e.multi[key]))
    if corrupt:
        ctx.check(out.endswith(want), lambda: "%r does not end with %r" % (out, want))
    else:
        ctx.check(out == want, lambda: "%r instead of %r" % (out, want))


def check_dense(case, ctx):
    spec, mode, key, *rest = gen.densified(case)
    check_info([spec, mode, "dense" if case[2] & 1 else key, *rest], ctx)


def check_large(case, ctx):
    spec, mode, key, *rest = gen.enlarged(case)
    check_info([spec, mode, "large_multi" if case[2] & 1 else key, *rest], ctx)


PARTS = [
    Part("info", info_case, check_info, 1600),
    Part("dense", lambda: gen.with_dense(info_case().filter(lambda c: not c[4]), "LIMOD"), check_dense, 30),
    Part("large", lambda: gen.with_large(info_case().filter(lambda c: not c[4]), ["value", "key", "subscriptions", "row", "value"]), check_large, 40),
]
