import collections
import importlib.metadata
import re
import struct
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C20"
LEVEL = "exploration"
RULE = ("generated logs and generated px4_msgs definitions (types missing, fields missing, bool and int8 fields, arrays) are converted; "
        "rclpy, rosbag2_py and px4_msgs are replaced by strict recorders; every topic of the bag, its type, every message with its "
        "fields and time, the options of the writer and the printed totals are compared with the reference model; non-trivial: at "
        "least one message is written and one topic has several samples or instances")
ASSUMPTIONS = ["the ROS 2 packages are stand-ins which check types and ranges as the generated Python classes do",
               "times below 2^53 microseconds", "an array of the log is not longer than the array of the message definition"]

def direct(name):
    return "".join(w[:1].upper() + w[1:] for w in name.split("_"))


# topic -> message type (px4_msgs), as documented by PX4 for topics that share a type
TOPICS = {
    "vehicle_status": "VehicleStatus", "vehicle_attitude": "VehicleAttitude", "sensor_accel": "SensorAccel", "airspeed": "Airspeed",
    "vehicle_gps_position": "SensorGps", "estimator_attitude": "VehicleAttitude", "vehicle_attitude_groundtruth": "VehicleAttitude",
    "actuator_outputs_sim": "ActuatorOutputs", "actuator_outputs": "ActuatorOutputs", "actuator_outputs_1": "ActuatorOutputs", "estimator_aid_src_gnss_yaw": "EstimatorAidSource1d",
    "estimator_aid_src_baro_hgt": "EstimatorAidSource1d", "estimator_aid_src_gnss_pos": "EstimatorAidSource2d",
    "estimator_aid_src_gnss_vel": "EstimatorAidSource3d", "vehicle_local_position_groundtruth": "VehicleLocalPosition",
    "estimator_wind": "Wind", "wind": "Wind", "px4io_status": "Px4ioStatus", "estimator_odometry": "VehicleOdometry",
    "vehicle_odometry": "VehicleOdometry", "estimator_global_position": "VehicleGlobalPosition",
    "mc_virtual_attitude_setpoint": "VehicleAttitudeSetpoint", "config_overrides_request": "ConfigOverrides",
    "estimator_innovation_variances": "EstimatorInnovations", "vehicle_thrust_setpoint_virtual_mc": "VehicleThrustSetpoint",
    "strange_topic": None, "z9": None,
}
SHARED = [sorted(n for n, t in TOPICS.items() if (t or direct(n)) == k) for k in ("VehicleAttitude", "EstimatorAidSource1d", "Wind", "VehicleOdometry", "VehicleAttitude")]
FIELDS = ["x", "y", "q", "flag", "text", "state", "value", "vx", "var_x", "id", "level2"]
PLAIN = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double", "bool"]
ROS = {"int8_t": "int8", "uint8_t": "uint8", "int16_t": "int16", "uint16_t": "uint16", "int32_t": "int32", "uint32_t": "uint32",
       "int64_t": "int64", "uint64_t": "uint64", "float": "float", "double": "double", "bool": "boolean", "char": "uint8"}
RANGE = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-2**15, 2**15 - 1), "uint16": (0, 2**16 - 1), "int32": (-2**31, 2**31 - 1),
         "uint32": (0, 2**32 - 1), "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1)}
NP = {"float": np.float32, "double": np.float64}


# ---------------------------------------------------------------- stand-ins
def ok(t, v):
    if t == "boolean":
        return isinstance(v, bool)
    if t in RANGE:
        return isinstance(v, int) and not isinstance(v, bool) and RANGE[t][0] <= v <= RANGE[t][1]
    return isinstance(v, float)


def message_class(name, fields):
    """fields: {name: (ros type, array size or 0)}"""
    def init(self):
        for f, (t, n) in fields.items():
            zero = False if t == "boolean" else 0 if t in RANGE else 0.0
            if n:
                zero = [False] * n if t == "boolean" else np.zeros(n, dtype=NP.get(t, t if t in RANGE else None))
            object.__setattr__(self, f, zero)

    def setattr_(self, f, v):
        if f not in fields:
            raise AttributeError("%s has no field %s" % (name, f))
        t, n = fields[f]
        assert n == 0 and ok(t, v), "%s.%s: %r is not a %s" % (name, f, v, t)
        object.__setattr__(self, f, v)

    return type(name, (), {"__init__": init, "__setattr__": setattr_, "get_fields_and_field_types": classmethod(
        lambda cls: {f: t + ("[%d]" % n if n else "") for f, (t, n) in fields.items()}), "_fields": fields})


def serialize(msg):
    out = {}
    for f, (t, n) in type(msg)._fields.items():
        v = getattr(msg, f)
        if n:
            v = v.tolist() if isinstance(v, np.ndarray) else list(v)
            assert len(v) == n and all(ok(t, x) for x in v), "%s.%s: %r is not a %s[%d]" % (type(msg).__name__, f, v, t, n)
        out[f] = v
    return (type(msg).__name__, out)


class Recorder:
    def __init__(self, version):
        self.version = version
        self.opened = None
        self.closed = False
        self.topics = []
        self.writes = []
        rec = self
        v = tuple(map(int, re.findall(r"\d+", version)[:3]))

        class StorageOptions:
            def __init__(self, uri, storage_id):
                self.uri, self.storage_id = uri, storage_id

        class ConverterOptions:
            def __init__(self, input_serialization_format, output_serialization_format):
                self.formats = (input_serialization_format, output_serialization_format)

        class TopicOld:
            def __init__(self, name, type, serialization_format, offered_qos_profiles=""):
                self.fields = (name, type, serialization_format)

        class TopicNew(TopicOld):
            def __init__(self, id, name, type, serialization_format):
                assert isinstance(id, int)
                TopicOld.__init__(self, name, type, serialization_format)

        class SequentialWriter:
            def open(self, storage, converter):
                assert rec.opened is None
                rec.opened = (storage.uri, storage.storage_id, converter.formats)

            def create_topic(self, topic):
                assert rec.opened and not rec.closed
                assert topic.fields[0] not in [t[0] for t in rec.topics], "topic %s is created twice" % topic.fields[0]
                rec.topics.append(topic.fields)

            def close(self):
                rec.closed = True

            def _write(self, topic, data, ts):
                assert rec.opened and not rec.closed
                assert topic in [t[0] for t in rec.topics], "message for unknown topic %s" % topic
                assert type(ts) is int and -2**63 <= ts < 2**63, "time %r" % (ts,)
                rec.writes.append((topic, data, ts))

            if v >= (0, 32, 0):
                def write(self, topic, data, ts, seq):
                    assert isinstance(seq, int)
                    self._write(topic, data, ts)
            else:
                def write(self, topic, data, ts):
                    self._write(topic, data, ts)

        self.members = {"StorageOptions": StorageOptions, "ConverterOptions": ConverterOptions,
                        "TopicMetadata": TopicNew if v >= (0, 25, 0) else TopicOld, "SequentialWriter": SequentialWriter}


_real_version = importlib.metadata.version
_tool = None


def setup():
    global _tool
    rclpy, ser, bag = types.ModuleType("rclpy"), types.ModuleType("rclpy.serialization"), types.ModuleType("rosbag2_py")
    ser.serialize_message = serialize
    rclpy.serialization = ser
    px4, msg = types.ModuleType("px4_msgs"), types.ModuleType("px4_msgs.msg")
    px4.msg = msg
    sys.modules.update({"rclpy": rclpy, "rclpy.serialization": ser, "rosbag2_py": bag, "px4_msgs": px4, "px4_msgs.msg": msg})
    from pyulog import ulog2ros2bag
    _tool = ulog2ros2bag


# --------------------------------------------------------------- generation
@st.composite
def bag_case(draw):
    pool = draw(st.sampled_from([sorted(TOPICS)] * 3 + [v for v in SHARED if len(v) > 1]))
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
    # message definitions, one per type
    msgs = {}
    for n in names:
        t = TOPICS[n] or direct(n)
        if t not in msgs:
            fields = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=5, unique=True))
            msgs[t] = [[draw(st.sampled_from(PLAIN + ["bool", "char"])), draw(st.sampled_from([0, 0, 0, 1, 3, 4, 12])), f] for f in fields]
    types_, topics = {}, {}
    spec = {"version": 1, "start": draw(st.sampled_from([0, 112574307, 1710773350346000])), "defs": [], "data": []}
    for n in names:
        t = TOPICS[n] or direct(n)
        # the topic may be older (fewer fields, shorter arrays) or not match
        fields = [[ft, max(1, k - draw(st.sampled_from([0, 0, 1]))) if k else 0, f] for ft, k, f in msgs[t]]
        if len(fields) > 1 and draw(st.integers(0, 3)) == 0:
            fields.pop(draw(st.integers(0, len(fields) - 1)))
        odd = draw(st.sampled_from([None] * 6 + ["extra", "nested"]))
        if odd == "extra":
            fields.append([draw(st.sampled_from(PLAIN)), draw(st.sampled_from([0, 2])), "not_there"])
        elif odd == "nested":
            fields.append(["sub", draw(st.sampled_from([0, 2])), "s"])
            if not any(m[1] == "sub" for m in spec["defs"]):
                spec["defs"].append(["F", "sub", [["float", 0, "u"]]])
        fields = draw(st.permutations(fields))
        fields.insert(draw(st.sampled_from([0, 0, 0, len(fields)])), ["uint64_t", 0, "timestamp"])
        if draw(st.integers(0, 3)) == 0 and fields[-1][2] != "s":
            fields.append(["uint8_t", draw(st.integers(1, 5)), "_padding0"])
        topics[n] = fields
        spec["defs"].append(["F", n, fields])
        available = draw(st.sampled_from([True] * 7 + [False]))
        if available and not (TOPICS[n] is None and draw(st.booleans())):
            types_[t] = msgs[t]
    # a type with the name of the topic itself wins over the shared one
    own = [n for n in names if TOPICS[n] not in (None, direct(n))]
    if own and draw(st.integers(0, 3)) == 0:
        n = draw(st.sampled_from(own))
        types_[direct(n)] = msgs[TOPICS[n]]
    # a bool may be logged as int8
    bools = [f for t in types_.values() for f in t if f[0] == "bool"]
    fdict = {m[1]: [tuple(f) for f in m[2]] for m in spec["defs"]}
    flat = {n: ulg.flatten(fdict, n) for n in names}
    pairs = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from([0, 0, 1, 2, 10])), min_size=1, max_size=6, unique=True))
    for mid, (n, multi) in enumerate(pairs):
        spec["data"].append(["A", multi, mid, n])
    clock = gen.Clock(spec["start"], dict(ts="any", ts_bits=53))
    for _ in range(draw(st.sampled_from([2, 6, 14]))):
        mid = draw(st.integers(0, len(pairs) - 1))
        fields, pad = flat[pairs[mid][0]]
        row = draw(gen.sample_row(fields, clock.next(draw), {}))
        spec["data"].append(["D", mid, row + b"\0" * (pad if draw(st.booleans()) else 0)])
    flt = None
    if draw(st.integers(0, 3)) == 0:
        flt = draw(st.lists(st.sampled_from(names + ["other"]), min_size=1, max_size=3, unique=True))
    return [spec, types_, bool(bools) and draw(st.integers(0, 2)) == 0, flt,
            draw(st.sampled_from(["0.3.11", "0.9.0", "0.15.9", "0.24.1", "0.25.0", "0.26.5", "0.31.9", "0.32.0", "0.33.4", "1.0.0", "0.26.5+noble", "0.25.0.post1", "0.33.0rc1"])),
            draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([None, None, "mybag", "dir/bag.ulg"])),
            draw(st.sampled_from(["log.ulg", "a.b.ulg", "log.ulg.ulg", "plain", "x_ulg", "x.ulg.dat", "v1.2", "with space.ulg"])), draw(st.booleans())]


# -------------------------------------------------------------------- check
def type_of(topic, available):
    """message type of a topic, or None"""
    if direct(topic) in available:
        return direct(topic)
    t = TOPICS[topic]
    return t if t in available else None


def check_bag(case, ctx):
    spec, types_, as_int8, flt, version, mcap, verbose, name, filename, use_main = case
    if as_int8:
        spec = dict(spec, defs=[["F", m[1], [["int8_t" if f[0] == "bool" else f[0], f[1], f[2]] for f in m[2]]] for m in spec["defs"]])
    path = cli.save_log(ctx, spec, filename)
    e = ulg.interpret(spec, flt)
    names_of = collections.Counter("/px4/" + n + ("" if {k for t, k in e.datasets if t == n} == {0} else "_%d" % m) for n, m in e.datasets
                                   if n.startswith("actuator_outputs"))
    if names_of and max(names_of.values()) > 1:
        ctx.check(False, "two topics are written to the topic %s" % max(names_of, key=names_of.get), sig="bag-topic-collision")
        ctx.label("two topics with the same name")
        return
    classes = {t: {"timestamp": ("uint64", 0), **{f: (ROS[ft], n) for ft, n, f in fields}} for t, fields in types_.items()}
    rec = Recorder(version)
    bag, msg = sys.modules["rosbag2_py"], sys.modules["px4_msgs.msg"]
    for k in [k for k in vars(msg) if not k.startswith("__")]:
        delattr(msg, k)
    for t, f in classes.items():
        setattr(msg, t, message_class(t, f))
    for k, v in rec.members.items():
        setattr(bag, k, v)

    def fake(package):
        return version if package == "rosbag2_py" else "9.9.9"
    had = getattr(_tool, "version", None)
    importlib.metadata.version = fake
    if had is not None:
        _tool.version = fake
    try:
        if use_main:
            args = [path] + (["-o", name] if name else []) + (["--mcap"] if mcap else []) + (["-v"] if verbose else []) + \
                (["-m", ",".join(flt)] if flt else [])
            run = _tool.main
        else:
            args = []

            def run():
                _tool.convert_ulog2ros2bag(path, name, mcap, ",".join(flt) if flt else None, verbose=verbose)
        out, code = cli.run(ctx, run, args, "ulog2ros2bag")
    finally:
        importlib.metadata.version = _real_version
        if had is not None:
            _tool.version = had
    ctx.check(code == 0, "exit code %r" % code)
    want_name = name or "rosbag_" + (filename[:-4] if filename.endswith(".ulg") else filename)
    ctx.check(rec.opened == (want_name, "mcap" if mcap else "sqlite3", ("cdr", "cdr")), lambda: "the bag is opened as %s" % (rec.opened,))
    ctx.check(rec.closed, "the bag is not closed")
    instances = collections.defaultdict(set)
    for n, m in e.datasets:
        instances[n].add(m)
    want_topics, want = {}, {}
    for (n, m), d in e.datasets.items():
        t = type_of(n, classes)
        if t is None or any("." in f for f, _ in d.fields) or any(f.split("[")[0] not in classes[t] for f, _ in d.fields):
            ctx.label("topic skipped")
            continue
        topic = "/px4/" + n + ("" if instances[n] == {0} else "_%d" % m)
        want_topics[topic] = t
        cols = {f: d.values(f) for f, _ in d.fields}
        msgs = []
        for i, ts in enumerate(d.timestamps()):
            fields = {}
            for f, (rt, k) in classes[t].items():
                zero = False if rt == "boolean" else 0 if rt in RANGE else 0.0
                conv = bool if rt == "boolean" else (lambda v: v & 255) if rt == "uint8" else lambda v: v
                if k:
                    fields[f] = [conv(cols["%s[%d]" % (f, j)][i]) if "%s[%d]" % (f, j) in cols else zero for j in range(k)]
                else:
                    fields[f] = conv(cols[f][i]) if f in cols else zero
            msgs.append((fields, ts * 1000))
        want[topic] = msgs
    got_topics = {t[0]: t[1] for t in rec.topics}
    ctx.check(got_topics == {k: "px4_msgs/msg/" + v for k, v in want_topics.items()},
              lambda: "topics %s instead of %s" % (got_topics, want_topics))
    ctx.check(all(t[2] == "cdr" for t in rec.topics), "serialization format of the topics")
    got = collections.defaultdict(list)
    for topic, data, ts in rec.writes:
        got[topic].append((data, ts))
    for topic, msgs in want.items():
        ctx.check(len(got[topic]) == len(msgs), lambda: "%d messages of %s instead of %d" % (len(got[topic]), topic, len(msgs)))
        for (data, ts), (fields, wts) in zip(got[topic], msgs):
            ctx.check(ts == wts, lambda: "time of a %s message is %r instead of %r" % (topic, ts, wts))
            ctx.check(data[0] == want_topics[topic], lambda: "a %s is written to %s" % (data[0], topic))
            ctx.check(oracle.same(data[1], fields), lambda: "%s message %s instead of %s" % (topic, oracle.short(data[1]), oracle.short(fields)))
    total = re.search(r"(\d+) topics and (\d+) messages", out)
    n_msgs = sum(map(len, want.values()))
    ctx.check(total and tuple(map(int, total.groups())) == (len(want), n_msgs),
              lambda: "printed total %s, but %d topics and %d messages" % (total and total.group(0), len(want), n_msgs))
    ctx.label("several instances", any(len(i) > 1 for i in instances.values()))
    ctx.label("shared type", any(TOPICS[n] not in (None, direct(n)) for n, m in e.datasets))
    ctx.label("bool field", any(rt == "boolean" for t in want_topics.values() for rt, _ in classes[t].values()))
    ctx.label("array field", any(k for t in want_topics.values() for _, k in classes[t].values()))
    ctx.label("filtered", flt is not None)
    ctx.nontrivial(n_msgs > 0 and (any(len(m) > 1 for m in want.values()) or any(len(i) > 1 for i in instances.values())))


PARTS = [Part("bag", bag_case, check_bag, 3200)]
