import os
import re

import numpy as np
from hypothesis import strategies as st

from pyulog import params
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C16"
LEVEL = "exploration"
RULE = ("the ulog_params tool on generated logs with generated initial, default and changed parameters, all output formats and "
        "options; the output, parsed back, must be the parameters of the reference model with their exact values and types; "
        "non-trivial: at least one parameter was printed")
ASSUMPTIONS = ["-t is not combined with -i or -d (the tool does not say what this means)",
               "logs for which the library prints no warning (warnings share stdout with the result)"]

CFG = dict(max_topics=2, max_subs=2, max_defs=14, n_ops=[3, 8, 12], ops="DDDPPPPPPQQQLO", max_fields=2, nested=False, nan_kv=True, flag_extra=False)


def num(text, ctx, what):
    """value of a printed number: int or float"""
    if re.fullmatch(r"-?\d+", text):
        return int(text)
    try:
        return float(text)
    except ValueError:
        ctx.fail("%s: %r is not a number" % (what, text))


@st.composite
def params_case(draw):
    spec = draw(gen.logs(**CFG))
    fmt = draw(st.sampled_from(["csv", "csv", "octave", "qgc", None]))
    mode = draw(st.sampled_from(["plain", "plain", "initial", "timestamps", "system", "current_setup", "bad"]))
    if fmt in ("octave", "qgc") and mode == "timestamps":
        mode = "plain"
    return [spec, fmt, mode, draw(st.sampled_from([None, None, ",", ";", "\t", " | "])), draw(st.booleans()), draw(st.booleans())]


def expectation(e, mode):
    """[(key, value, [(ts, changed value)])]"""
    base = e.params
    if mode in ("system", "current_setup"):
        base = e.defaults.get(0 if mode == "system" else 1, {})
    res = []
    for k in sorted(base):
        changed = [(t, v) for t, n, v in e.changed if n == k] if mode in ("plain", "timestamps") else []
        res.append((k, base[k], changed))
    return res


def check_params(case, ctx):
    spec, fmt, mode, delimiter, to_file, ignore = case
    path = cli.save_log(ctx, spec)
    e = ulg.interpret(spec)
    args = [path]
    target = None
    if to_file:
        target = os.path.join(os.path.dirname(path), "params.txt")
        args.append(target)
    if fmt:
        args += ["-f", fmt]
    if mode in ("system", "current_setup", "bad"):
        args += ["-d", mode if mode != "bad" else "both"]
    elif mode == "initial":
        args += ["-i"]
    elif mode == "timestamps":
        args += ["-t"]
    if delimiter:
        args += ["-l", delimiter]
    if ignore:
        args += ["--ignore"]
    if mode == "bad" or (mode in ("system", "current_setup") and not e.compat[0] & 1):
        err = ctx.raises("ulog_params without default parameters", (Exception, SystemExit), run_tool, ctx, args, (AssertionError, ValueError))
        ctx.label("refused")
        return
    out, code = run_tool(ctx, args)
    ctx.check(code == 0, "ulog_params ended with %r" % code)
    if to_file:
        ctx.check(out == "", "printed although there is an output file")
        with open(target, encoding="utf-8") as f:
            out = f.read()
    want = expectation(e, mode)
    ctx.check(out == "" or out.endswith("\n"), "the last line is not complete")
    lines = out.split("\n")[:-1]
    {"octave": check_octave, "qgc": check_qgc}.get(fmt, check_csv)(lines, want, mode, delimiter or ",", ctx)
    late = {n for _, n, _ in e.changed} - set(e.params) if mode in ("plain", "timestamps") and fmt != "qgc" else ()
    ctx.check(not late, "the changed parameters %s, which have no initial value, are not written" % sorted(late), sig="params-changed-only")
    ctx.label("changed parameter without initial value", bool(late))
    ctx.label(mode)
    ctx.label("format %s" % fmt)
    ctx.label("changed parameter printed", any(c for _, _, c in want))
    ctx.nontrivial(bool(want))


def run_tool(ctx, args, allow=()):
    return cli.run(ctx, params.main, args, "ulog_params", allow=allow)


def same(ctx, what, texts, values):
    got = [num(t, ctx, what) for t in texts]
    ctx.check(oracle.same(got, list(values)), lambda: "%s: %s instead of %s" % (what, texts, list(values)))


def check_csv(lines, want, mode, delimiter, ctx):
    if mode == "timestamps":
        ctx.check(len(lines) == 2 * len(want), "%d lines for %d parameters" % (len(lines), len(want)))
        for (k, v, changed), a, b in zip(want, lines[::2], lines[1::2]):
            a, b = a.split(delimiter), b.split(delimiter)
            ctx.check(a[0] == k and b[0] == "timestamp", lambda: "lines of %s begin with %r and %r" % (k, a[0], b[0]))
            same(ctx, k, a[1:], [v] + [c for _, c in changed])
            same(ctx, k + " timestamps", b[1:], [0] + [t for t, _ in changed])
        return
    ctx.check(len(lines) == len(want), "%d lines for %d parameters" % (len(lines), len(want)))
    for (k, v, changed), line in zip(want, lines):
        a = line.split(delimiter)
        ctx.check(a[0] == k, lambda: "line %r instead of the one of %s" % (line, k))
        same(ctx, k, a[1:], [v] + [c for _, c in changed])


def check_octave(lines, want, mode, delimiter, ctx):
    i = 0
    for k, v, changed in want:
        values = [v] + [c for _, c in changed]
        head = ["# name " + k] + (["# type: scalar"] if len(values) == 1 else
                                  ["# type: matrix", "# rows: 1", "# columns: %d" % len(values)])
        ctx.check(lines[i:i + len(head)] == head, lambda: "%s: %r instead of %r" % (k, lines[i:i + len(head)], head))
        i += len(head)
        ctx.check(i < len(lines), "%s: no values" % k)
        same(ctx, k, lines[i].split(), values)
        i += 1
    ctx.check(i == len(lines), "%d more lines: %r" % (len(lines) - i, lines[i:i + 3]))


def check_qgc(lines, want, mode, delimiter, ctx):
    ctx.check(len(lines) == len(want), "%d lines for %d parameters" % (len(lines), len(want)))
    for (k, v, _), line in zip(want, lines):
        a = line.split("\t")
        ctx.check(len(a) == 5 and a[:3] == ["1", "1", k], lambda: "line %r of %s" % (line, k))
        same(ctx, k, [a[3]], [v])
        ctx.check(a[4] == ("9" if isinstance(v, float) else "6"), lambda: "%s: type %s of %r" % (k, a[4], v))


PARTS = [
    Part("params", params_case, check_params, 3000),
    Part("dense", lambda: gen.with_dense(params_case(), "PQ"), lambda case, ctx: check_params(gen.densified(case), ctx), 40),
    Part("large", lambda: gen.with_large(params_case(), ["key"]), lambda case, ctx: check_params(gen.enlarged(case), ctx), 40),
]
