from vp import gen, lib, oracle, ulg
from vp.runner import Part

ID = "C01"
RULE = ("generated well-formed logs (nested formats, arrays, padding, several instances, samples interleaved with every "
        "other message type, arbitrary value bits) are decoded by pyulog and compared bit for bit with an independent "
        "model of the format; non-trivial: at least one dataset with two samples, or two datasets")
ASSUMPTIONS = ["timestamps are 64 bit unsigned, every topic has a timestamp field",
               "each (topic, instance) is subscribed once"]


def check_decode(case, ctx):
    e = ulg.interpret(case)
    u = ctx.call("loading a well-formed log", lib.load, ulg.encode(case))
    ctx.no_diff(oracle.diff_datasets(u, e), "topic data differs from the samples in the file")
    ctx.check(not u.file_corruption, "a well-formed log is reported as corrupt")
    with ctx.lib("get_dataset"):
        for (name, multi), exp in e.datasets.items():
            d = u.get_dataset(name, multi)
            ctx.no_diff(oracle.diff_dataset(d, exp), "get_dataset(%r, %d)" % (name, multi))
            if multi == 0:
                ctx.check(u.get_dataset(name) is d, "get_dataset without instance is not instance 0")
    for name, multi in oracle.absent(e):
        ctx.raises("get_dataset of an absent instance", (KeyError, IndexError, ValueError), u.get_dataset, name, multi)
    oracle.classify(ctx, e)
    ctx.label("sample written with its padding", any(
        m[0] == "D" and len(m[2]) > next(d.size for d in e.datasets.values() if d.msg_id == m[1]) for m in case["data"]))
    ctx.nontrivial(len(e.datasets) > 1 or any(len(d.rows) > 1 for d in e.datasets.values()))


def check_long(case, ctx):
    check_decode(gen.lengthen(case), ctx)


PARTS = [
    Part("decode", lambda: gen.logs(), check_decode, 3000),
    Part("twins", lambda: gen.logs(twins=True, min_topics=2, max_topics=3, min_subs=2, max_fields=3, min_upfront=2, n_ops=[6, 12]), check_decode, 900),
    Part("wide", lambda: gen.logs(big_arrays=True, max_row=3000, max_fields=12, n_ops=[4, 10]), check_decode, 600),
    Part("crowd", lambda: gen.logs(min_topics=10, max_topics=14, min_subs=12, max_subs=20, min_upfront=12, max_fields=2, max_row=40, n_ops=[20, 40],
                                   ops="DDDDDDDDDA", max_defs=2), check_decode, 160),
    Part("large", gen.large_logs, lambda case, ctx: check_decode(gen.enlarge(case), ctx), 100),
    Part("long", gen.long_logs, check_long, 16, 160),
]
