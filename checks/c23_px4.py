import math
import struct

import numpy as np
from hypothesis import strategies as st

from pyulog.px4 import PX4ULog
from vp import cli, gen, lib, oracle, ulg
from vp.runner import Part

ID = "C23"
LEVEL = "exploration"
RULE = ("attitude: generated unit quaternions (random, axis rotations, near and at +-90 degrees pitch) in the attitude topics; the rotation "
        "built from the added roll, pitch and yaw must be the rotation of the quaternion, and nothing else may change; parameters and "
        "version: the answers of the helpers against tables and rules of the reference; non-trivial: a quaternion that is not the identity, "
        "or a parameter/version that decides the answer")
ASSUMPTIONS = ["quaternions have unit length within float precision",
               "beyond 87 degrees pitch roll and yaw are not unique: there only pitch is compared"]

ATT = ["vehicle_attitude", "vehicle_vision_attitude", "vehicle_attitude_groundtruth", "vehicle_attitude_setpoint"]


def from_euler(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r / 2), math.sin(r / 2), math.cos(p / 2), math.sin(p / 2), math.cos(y / 2), math.sin(y / 2)
    return [cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy]


ANGLES = [0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, 0.1, -1e-4, 3.0]
PITCHES = [0.0, math.pi / 2, -math.pi / 2, math.pi / 2 - 1e-3, -math.pi / 2 + 1e-4, 0.7, -1.2, 1.5]


@st.composite
def quaternion(draw):
    if draw(st.booleans()):
        ang = st.one_of(st.sampled_from(ANGLES), st.floats(-math.pi, math.pi))
        q = from_euler(draw(ang), draw(st.one_of(st.sampled_from(PITCHES), st.floats(-math.pi / 2, math.pi / 2))), draw(ang))
        return q if draw(st.booleans()) else [-v for v in q]
    if draw(st.integers(0, 7)) == 0:       # no attitude
        q = [draw(st.sampled_from([0.0, 1.0, 0.5])) for _ in range(4)]
        for i in draw(st.lists(st.integers(0, 3), min_size=1, unique=True)):
            q[i] = math.nan
        return q
    q = draw(st.tuples(*[st.floats(-1, 1)] * 4))
    n = math.sqrt(sum(v * v for v in q))
    return [v / n for v in q] if n > 1e-3 else [1.0, 0.0, 0.0, 0.0]


@st.composite
def attitude_case(draw):
    spec = {"version": 1, "start": 1000, "defs": [], "data": []}
    names = draw(st.lists(st.sampled_from(ATT), min_size=1, max_size=3, unique=True))
    custom = draw(st.sampled_from([None, None, None, ["vehicle_attitude"], ["my_attitude"], ["my_attitude:_d", "vehicle_attitude"], [], ["my_d"], ["my_d:_d"], ["my_q_d", "vehicle_attitude_setpoint:_d"]]))
    if custom and custom[0].startswith("my"):
        names.append(custom[0].split(":")[0])
    mid = 0
    for n in names + ["sensor"]:
        double = n == "vehicle_attitude_groundtruth" and draw(st.booleans())
        q = "q_d" if n == "vehicle_attitude_setpoint" or (n[:3] == "my_" and custom[0].endswith(":_d")) else "q"
        spec["defs"].append(["F", n, [["uint64_t", 0, "timestamp"], ["float", 0, "before"], ["double" if double else "float", 4, q],
                                      ["float", 3, "after"]]])
        for multi in draw(st.sampled_from([[0], [0], [0, 1], [2], [0, 1, 2], [1, 0, 3, 2]])):
            spec["data"].append(["A", multi, mid, n])
            for i in range(draw(st.integers(0, 5))):
                row = struct.pack("<Qf", 1000 + i, 0.5) + struct.pack("<4" + ("d" if double else "f"), *draw(quaternion()))
                spec["data"].append(["D", mid, row + struct.pack("<3f", 1, 2, 3)])
            mid += 1
    return [spec, custom]


def rotation(w, x, y, z):
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def check_attitude(case, ctx):
    spec, custom = case
    e = ulg.interpret(spec)
    u = ctx.call("loading", lib.load, ulg.encode(spec))
    px4 = ctx.call("PX4ULog", PX4ULog, u)
    def turn():
        for d in u.data_list:
            for k in [k for k in d.data if k.startswith("q")]:
                d.data[k] = np.negative(d.data[k][::-1]) if k.endswith("[1]") else d.data[k][::-1]
    if len(spec["data"]) % 3 == 1:  # with other quaternions before
        turn()
        ctx.call("add_roll_pitch_yaw", *([px4.add_roll_pitch_yaw] + ([custom] if custom is not None else [])))
        turn()
        ctx.label("changed in between")
    ctx.call("add_roll_pitch_yaw", *([px4.add_roll_pitch_yaw] + ([custom] if custom is not None else [])))
    if len(spec["data"]) % 4 == 0:  # again: nothing changes
        ctx.call("add_roll_pitch_yaw, again", *([px4.add_roll_pitch_yaw] + ([custom] if custom is not None else [])))
    asked = {"vehicle_attitude": "", "vehicle_vision_attitude": "", "vehicle_attitude_groundtruth": "", "vehicle_attitude_setpoint": "_d"}
    if custom is not None:
        asked = {c.split(":")[0]: "_d" if c.endswith(":_d") else "" for c in custom}
    ctx.check([(d.name, d.multi_id) for d in u.data_list] == sorted(e.datasets), "datasets")
    for d in u.data_list:
        exp = e.datasets[(d.name, d.multi_id)]
        added = {}
        if d.name in asked:
            sfx = asked[d.name]
            for k in ("roll", "pitch", "yaw"):
                ctx.check(k + sfx in d.data, lambda: "%s %d has no %s" % (d.name, d.multi_id, k + sfx))
                added[k] = np.asarray(d.data.pop(k + sfx), dtype=float)
                ctx.check(added[k].shape == (len(exp.rows),), "length of " + k)
        ctx.no_diff(oracle.diff_dataset(d, exp), "dataset after add_roll_pitch_yaw")
        if not added:
            continue
        q = [exp.values("q%s[%d]" % (asked[d.name], i)) for i in range(4)]
        for i in range(len(exp.rows)):
            w = [q[k][i] for k in range(4)]
            want = rotation(*w)
            r, p, y = (added[k][i] for k in ("roll", "pitch", "yaw"))
            where = "%s %d, quaternion %s: roll %r pitch %r yaw %r" % (d.name, d.multi_id, w, r, p, y)
            if any(map(math.isnan, w)):
                ctx.check(all(map(math.isnan, (r, p, y))), where + ": an unknown rotation has angles")
                ctx.label("NaN")
                continue
            ctx.check(all(map(math.isfinite, (r, p, y))), where + ": not finite")
            ctx.check(abs(p) <= math.pi / 2 + 1e-6 and abs(r) <= math.pi + 1e-6 and abs(y) <= math.pi + 1e-6, where + ": out of range")
            sp = -want[2, 0]
            ctx.check(abs(math.sin(p) - sp) < 1e-5, where + ": the sine of pitch should be %r" % sp)
            if abs(sp) < 0.9986:
                ctx.check(np.abs(rotation(*from_euler(r, p, y)) - want).max() < 1e-3, where + ": not the same rotation")
            else:
                ctx.label("gimbal lock")
            ctx.nontrivial(abs(w[0]) < 0.999)
    ctx.label("several instances", len(e.datasets) > len({k[0] for k in e.datasets}))
    ctx.label("chosen topics", custom is not None)


MAV = {0: "Generic", 1: "Fixed Wing", 2: "Quadrotor", 3: "Coaxial helicopter", 4: "Normal helicopter with tail rotor", 5: "Ground installation",
       6: "Ground Control Station", 7: "Airship, controlled", 8: "Free balloon, uncontrolled", 9: "Rocket", 10: "Ground Rover",
       11: "Surface Vessel, Boat, Ship", 12: "Submarine", 13: "Hexarotor", 14: "Octorotor", 15: "Tricopter", 16: "Flapping wing", 17: "Kite",
       18: "Onboard Companion Controller", 19: "Two-rotor VTOL (Tailsitter)", 20: "Quad-rotor VTOL (Tailsitter)", 21: "Tiltrotor VTOL",
       22: "VTOL Standard", 23: "VTOL Tailsitter", 24: "VTOL reserved 4", 25: "VTOL reserved 5", 26: "Onboard Gimbal",
       27: "Onboard ADSB Peripheral"}
RC = ["RC_MAP_ROLL", "RC_MAP_PITCH", "RC_MAP_YAW", "RC_MAP_THROTTLE", "RC_MAP_MODE_SW", "RC_MAP_AUX1", "RC_CHAN_CNT", "XRC_MAP_ROLL", "RC_MAP_x", "RC_MAP_RETURN_SW"]


@st.composite
def param_case(draw):
    defs = []
    names = draw(st.permutations(RC))[:draw(st.integers(0, 7))]
    for n in names:
        v = draw(st.sampled_from([0, 1, 2, 2, 3, 5, 8, -1]))
        defs.append(["P", "int32_t", n, struct.pack("<i", v)] if draw(st.integers(0, 5)) else ["P", "float", n, struct.pack("<f", v + draw(st.sampled_from([0, 0, 0.5, 0.25, -0.75, math.nan])))])
    if draw(st.integers(0, 6)):
        defs.append(["P", "int32_t", "MAV_TYPE", struct.pack("<i", draw(st.one_of(st.just(1), st.integers(0, 30), st.sampled_from([-1, 255]))))])
    if draw(st.booleans()):
        if draw(st.integers(0, 4)):
            defs.append(["P", "int32_t", "SYS_MC_EST_GROUP", struct.pack("<i", draw(st.sampled_from([0, 1, 2, 3, 4, -1, 100])))])
        else:
            defs.append(["P", "float", "SYS_MC_EST_GROUP", struct.pack("<f", draw(st.sampled_from([0.0, 1.0, 2.5, 0.5, 3.0, 7.25])))])
    versions = {}
    for k in ("ver_sw_release", "ver_os", "ver_x"):
        if draw(st.booleans()):
            raw = draw(st.tuples(st.sampled_from([0, 1, 63, 64, 65, 127, 128, 191, 192, 254, 255]), st.integers(0, 255), st.integers(0, 255),
                                 st.integers(0, 255)) | st.just((0, 0, 0, 0)))
            versions[k] = list(raw)
            defs.append(["I", "uint32_t", k, bytes(raw)])
    spec = {"version": 1, "start": 5, "defs": list(draw(st.permutations(defs))), "data": [["L", 54, 6, b"x"]]}
    # later changes and defaults are not initial values
    for n in draw(st.lists(st.sampled_from(RC[:4] + ["MAV_TYPE", "SYS_MC_EST_GROUP"]), max_size=3)):
        spec["data"].append(draw(st.sampled_from([["P", "int32_t", n, struct.pack("<i", 3)], ["Q", 1, "int32_t", n, struct.pack("<i", 3)]])))
    return [spec, versions]


def check_params(case, ctx):
    spec, versions = case
    e = ulg.interpret(spec)
    u = ctx.call("loading", lib.load, ulg.encode(spec))
    px4 = ctx.call("PX4ULog", PX4ULog, u)
    mav = e.params.get("MAV_TYPE")
    got = ctx.call("get_mav_type", px4.get_mav_type)
    ctx.check(got == MAV.get(mav, "unknown type"), lambda: "vehicle type of MAV_TYPE %r is %r" % (mav, got))
    group = e.params.get("SYS_MC_EST_GROUP", 2)
    want = "EKF2" if mav == 1 else {0: "INAV", 1: "LPE", 2: "EKF2", 3: "Q"}.get(group, "unknown (%s)" % group)
    got = ctx.call("get_estimator", px4.get_estimator)
    ctx.check(got == want, lambda: "estimator is %r instead of %r" % (got, want))
    for ch in range(-1, 9):
        want = [k[7:].capitalize() for k, v in e.params.items() if k[:7] == "RC_MAP_" and v == ch + 1] or None
        got = ctx.call("get_configured_rc_input_names", px4.get_configured_rc_input_names, ch)
        ctx.check(got == want, lambda: "inputs on channel %d are %r instead of %r" % (ch, got, want))
        ctx.label("two inputs on a channel", bool(want) and len(want) > 1)
        ctx.nontrivial(bool(want))
    for k in ("ver_sw_release", "ver_os", "ver_x"):
        args = [] if k == "ver_sw_release" else [k]
        v = versions.get(k)
        got = ctx.call("get_version_info", u.get_version_info, *args)
        ctx.check(got == (tuple(reversed(v)) if v else None), lambda: "version info %r of %r" % (got, v))
        text = None
        if v and v[0] >= 64:
            text = "v%d.%d.%d" % (v[3], v[2], v[1]) + (" (alpha)" if v[0] < 128 else " (beta)" if v[0] < 192 else " (RC)" if v[0] < 255 else "")
        got = ctx.call("get_version_info_str", u.get_version_info_str, *args)
        ctx.check(got == text, lambda: "version %r instead of %r" % (got, text))
        ctx.nontrivial(text is not None)
    ctx.label("fixed wing", mav == 1)


def check_type(case, ctx):
    value, group = case
    check_params([{"version": 1, "start": 5, "defs": [["P", "int32_t", "MAV_TYPE", struct.pack("<i", value)],
                                                      ["P", "int32_t", "SYS_MC_EST_GROUP", struct.pack("<i", group)]], "data": []}, {}], ctx)
    ctx.nontrivial()


PARTS = [Part("types", None, check_type, 0, enumerate_all=lambda: [[t, g] for t in range(-2, 31) for g in range(-1, 6)]), Part("attitude", attitude_case, check_attitude, 1200), Part("params", param_case, check_params, 1600)]
