import io

from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part

ID = "C02"
RULE = ("generated logs dense in information, multi-information, parameter, default-parameter, logged, tagged and dropout "
        "messages (every value type, all default bits, undecodable text) compared with an independent model of the format; "
        "non-trivial: at least three of these kinds present")
ASSUMPTIONS = ["lenient string decoding (the default of ULog)"]

CFG = dict(lossy=True, nan_kv=True, default_bits=[0, 1, 2, 3, 4, 6, 8, 16, 32, 64, 128, 129, 255], max_topics=2, max_fields=3,
           max_subs=3, nested=False, max_defs=14, ops="DDDDLLLCCCOOOPPPQQQIIMMMSRUA", n_ops=[0, 8, 16, 24])


def check_meta(case, ctx):
    e = ulg.interpret(case)
    u = ctx.call("loading a well-formed log", lib.load, ulg.encode(case))
    ctx.no_diff(oracle.diff_meta(u, e), "content differs from what the file says")
    oracle.classify(ctx, e)
    ctx.label("default for a bit above the second", any(b > 1 for b in e.defaults))
    ctx.nontrivial(sum(map(bool, (e.info, e.multi, e.params, e.defaults, e.changed, e.logged, e.tagged, e.dropouts))) > 2)


# unusual but legal value types of multi info messages: one type per key
MULTI_TYPES = st.fixed_dictionaries({k: st.sampled_from(
    ["char[", "uint8_t[", "float[", "int32_t", "float", "uint64_t", "double", "bool", "uint8_t", "int16_t["])
    for k in gen.MULTI_KEYS})


def types_strategy():
    return MULTI_TYPES.flatmap(lambda t: gen.logs(**dict(CFG, multi_types=t, ops="DLMMMMMIIIIIP", max_defs=10)))


def check_version(case, ctx):
    spec, version = case
    e = ulg.interpret(spec)
    base = oracle.snapshot(ctx.call("loading", lib.load, ulg.encode(spec)))
    u = ctx.call("loading a log of file version %d" % version, lib.load, ulg.encode(dict(spec, version=version)))
    ctx.no_diff(oracle.snap_diff(base, oracle.snapshot(u)), "content depends on the file version")
    ctx.nontrivial(version > 1)


def check_dense(case, ctx):
    check_meta(gen.densify(case), ctx)


PARTS = [
    Part("meta", lambda: gen.logs(**CFG), check_meta, 3000),
    Part("types", types_strategy, check_meta, 1200),
    Part("messages", lambda: gen.logs(**dict(CFG, max_topics=1, max_subs=1, max_fields=1, max_defs=3, n_ops=[12, 20], ops="CCCCCLLLLOOPPQIMDS")), check_meta, 600),
    Part("version", lambda: st.tuples(gen.logs(max_topics=2, max_fields=3), st.integers(0, 255)), check_version, 300),
    Part("dense", gen.dense_logs, check_dense, 80),
    Part("large", lambda: gen.large_logs(["text", "value", "key"]), lambda case, ctx: check_meta(gen.enlarge(case), ctx), 80),
]
