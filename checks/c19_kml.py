import os
import re
import struct
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pyulog import ulog2kml
from vp import cli, gen, oracle, ulg
from vp.runner import Part

ID = "C19"
LEVEL = "exploration"
RULE = ("generated position logs (all three field conventions, with and without fix type, several position topics and instances), flight mode "
        "changes and camera triggers are converted; the KML, parsed back, must hold exactly the lines and points of a reference: "
        "samples with a fix, thinned by the minimum interval, in degrees and meters, split at flight mode changes; non-trivial: "
        "a line with two points")
ASSUMPTIONS = ["timestamps of a topic do not decrease and begin later than the minimum interval", "finite positions"]

MODES = [0, 1, 2, 3, 4, 5, 10, 14, 17, 17, 18, 21, 23, 30, 31]
# of modes 0 to 17, and so on from the start
COLORS = ["ff0000ff", "ff008000", "ffff0000", "ffee82ee", "ff00ffff", "ff00a5ff", "ff87b8de", "fffffff0", "ffe6d8ad",
          "ff00fc7c", "ff5c5ccd", "ffb469ff", "ffc4e4ff", "ffffff00", "ff7a96e9", "ffffbf00", "ff00ff00", "ffd670da"]
KINDS = {
    "int": [["int32_t", 0, "lat"], ["int32_t", 0, "lon"], ["int32_t", 0, "alt"]],
    "double": [["double", 0, "lat"], ["double", 0, "lon"], ["float", 0, "alt"]],
    "deg": [["double", 0, "latitude_deg"], ["double", 0, "longitude_deg"], ["double", 0, "altitude_msl_m"]],
}
CODES = {"int32_t": "i", "double": "d", "float": "f", "uint8_t": "B", "uint64_t": "Q", "uint32_t": "I"}
STEPS = [0, 1000, 50000, 99999, 100000, 100001, 150000, 250000, 1000000, 5000000]


def position(kind):
    if kind == "int":
        return st.tuples(st.integers(-900000000, 900000000), st.integers(-1800000000, 1800000000), st.integers(-500000, 9000000)).map(list)
    return st.tuples(st.floats(-90, 90, width=32), st.floats(-180, 180), st.floats(-500, 9000, width=32)).map(list)


@st.composite
def track(draw, start, name):
    kind = draw(st.sampled_from(sorted(KINDS)))
    with_fix = draw(st.booleans())
    n = draw(st.sampled_from([0, 1, 2, 5, 9, 14]))
    rows, t = [], start
    for _ in range(n):
        t += draw(st.sampled_from(STEPS))
        rows.append([t, draw(position(kind)), draw(st.sampled_from([3, 3, 3, 4, 5, 2, 0, 255]))])
    return {"name": name, "kind": kind, "fix": with_fix, "multi": draw(st.sampled_from([0, 0, 0, 0, 0, 1])), "rows": rows,
            "order": draw(st.permutations([0, 1, 2]))}


@st.composite
def kml_case(draw):
    start = draw(st.sampled_from([1000000, 112574307, 1710773350346000]))
    names = draw(st.sampled_from([["vehicle_gps_position"], ["vehicle_gps_position"], ["vehicle_global_position"],
                                  ["vehicle_gps_position", "vehicle_global_position"], ["vehicle_global_position", "vehicle_gps_position"]]))
    tracks = [draw(track(start, n)) for n in names]
    modes = None
    if draw(st.integers(0, 4)):
        modes, t = [], start - draw(st.sampled_from([0, 0, 500000]))
        for _ in range(draw(st.sampled_from([1, 3, 6, 10]))):
            modes.append([t, draw(st.sampled_from(MODES))])
            t += draw(st.sampled_from(STEPS))
    camera = draw(st.one_of(st.none(), st.lists(st.tuples(position("deg"), st.integers(0, 10**6)).map(list), min_size=0, max_size=3)))
    # more than what was asked for
    extra = draw(st.one_of(st.none(), track(start, "estimator_global_position")))
    return [start, tracks, modes, camera, extra, draw(st.sampled_from(["plain", "main", "options", "options"])),
            draw(st.sampled_from([0.1, 0.1, 0.2, 0.05, 0.0])), draw(st.sampled_from([0, 0, 10, -3.5])), draw(st.booleans()),
            draw(st.sampled_from(["deg", "double"])), draw(st.sampled_from([0, 0, 0, 0, 1, 3]))]


def build(case):
    start, tracks, modes, camera, extra, how, interval, offset, flag, camera_kind, camera_instance = case
    spec = {"version": 1, "start": start, "defs": [], "data": []}
    rows = []

    def topic(mid, name, multi, fields, samples):
        if not any(m[1] == name for m in spec["defs"]):
            spec["defs"].append(["F", name, fields])
        spec["data"].append(["A", multi, mid, name])
        for s in samples:
            rows.append((s[0], ["D", mid, b"".join(struct.pack("<" + CODES[f[0]], v) for f, v in zip(fields, s))]))

    for i, tr in enumerate(tracks + ([extra] if extra else [])):
        fields = [["uint64_t", 0, "timestamp"]] + [KINDS[tr["kind"]][k] for k in tr["order"]] + ([["uint8_t", 0, "fix_type"]] if tr["fix"] else [])
        topic(i, tr["name"], tr["multi"], fields,
              [[t] + [p[k] for k in tr["order"]] + ([fix] if tr["fix"] else []) for t, p, fix in tr["rows"]])
    if modes is not None:
        topic(10, "vehicle_status", 0, [["uint64_t", 0, "timestamp"], ["uint8_t", 0, "nav_state"]], modes)
    if camera is not None:
        topic(11, "camera_capture", camera_instance, [["uint64_t", 0, "timestamp"]] + KINDS[camera_kind] + [["uint32_t", 0, "seq"]],
              [[start + i] + p + [seq] for i, (p, seq) in enumerate(camera)])
    rows.sort(key=lambda r: r[0])
    spec["data"] += [r for _, r in rows]
    return spec


def model_lines(tr, modes, last, interval, offset):
    """[(mode, [(lon, lat, alt)])]"""
    changes = []
    for t, m in modes or []:
        if not changes or changes[-1][1] != m:
            changes.append((t, m))
    if modes is not None:
        changes.append((last, -1))
    mode = changes[0][1] if changes else 0
    nxt = 1
    lines = [(mode, [])]
    last_t = None
    for t, (lat, lon, alt), fix in tr["rows"]:
        if tr["fix"] and fix <= 2:
            continue
        if last_t is not None and not (t - last_t) / 1e6 > interval:
            continue
        last_t = t
        if tr["kind"] == "int":
            p = (lon / 1e7, lat / 1e7, alt / 1e3 + offset)
        else:
            p = (lon, lat, alt + offset)
        lines[-1][1].append(p)
        while nxt < len(changes) and changes[nxt][0] <= t:
            lines.append((changes[nxt][1], [p]))
            nxt += 1
    return lines


def strip(tag):
    return tag.split("}")[1] if "}" in tag else tag


def find(node, *names):
    """texts of descendants with that path of tags"""
    nodes = [node]
    for n in names:
        nodes = [c for x in nodes for c in x.iter() if strip(c.tag) == n and c is not x]
    return nodes


def coords(text):
    text = text.strip()
    if text == "0.0, 0.0, 0.0":
        return []      # how simplekml writes an empty line
    return [tuple(float(v) for v in c.split(",")) for c in text.split()]


def parse(path):
    root = ET.parse(path).getroot()
    styles = {}
    for s in find(root, "Style"):
        ls = find(s, "LineStyle")
        if ls:
            styles["#" + s.get("id")] = (find(ls[0], "color")[0].text if find(ls[0], "color") else None,
                                         find(ls[0], "width")[0].text if find(ls[0], "width") else None)
    lines, points = [], []
    for p in find(root, "Placemark"):
        name = find(p, "name")[0].text
        if find(p, "LineString"):
            ls = find(p, "LineString")[0]
            url = find(p, "styleUrl")
            inline = find(p, "LineStyle")
            style = styles.get(url[0].text) if url else None
            if inline:
                style = (find(inline[0], "color")[0].text, find(inline[0], "width")[0].text)
            mode = find(ls, "altitudeMode")
            ext = find(ls, "extrude")
            lines.append((name, coords(find(ls, "coordinates")[0].text), style, mode[0].text if mode else None,
                          ext[0].text if ext else None))
        elif find(p, "Point"):
            points.append((name, coords(find(p, "Point", "coordinates")[0].text)))
    return lines, points


def close(a, b, f32):
    tol = 2e-7 if f32 else 1e-12
    return abs(a - b) <= tol * max(1.0, abs(b))


def check_kml(case, ctx):
    start, tracks, modes, camera, extra, how, interval, offset, flag, camera_kind, camera_instance = case
    spec = build(case)
    path = cli.save_log(ctx, spec)
    out = os.path.join(os.path.dirname(path), "out.kml")
    e = ulg.interpret(spec)
    names = [t["name"] for t in tracks]
    style = None
    width, extrude, color = "3", False, None
    if how == "main":
        args = [path, "-o", out] + ([] if names[0] == "vehicle_gps_position" and flag else ["--topic", names[0]])
        if camera is not None:
            args += ["--camera-trigger", "camera_capture"]
        names, tracks = names[:1], tracks[:1]
        interval, offset = 0.1, 0
        run = lambda: cli.run(ctx, ulog2kml.main, args, "ulog2kml", allow=(KeyError,))
    else:
        kw = {}
        if how == "options":
            width, extrude = "7", flag
            style = {"line_width": 7, "extrude": flag}
            # a style may name only a part of the options
            part = (len(spec["data"]) + int(offset)) % 4
            if part == 1:
                del style["line_width"]
                width = "3"
            elif part == 2:
                del style["extrude"]
                extrude = False
            elif part == 3:
                style, width, extrude = {}, "3", False
            kw = dict(altitude_offset=offset, minimum_interval_s=interval, style=style)
            color = [lambda m: "ff00%04x" % (int(m) + 1), lambda m: "ee11%04x" % (int(m) + 1)]
            kw["colors"] = color[:len(names)] if len(names) > 1 else color[0]
        else:
            interval, offset = 0.1, 0
            names, tracks = names[:1], tracks[:1]
        if len(names) > 1:
            kw["position_topic_name"] = list(names)
        elif flag or names[0] != "vehicle_gps_position":
            kw["position_topic_name"] = names[0]
        if camera is not None:
            kw["camera_trigger_topic_name"] = "camera_capture"
        run = lambda: ulog2kml.convert_ulog2kml(path, out, **kw)
        given = {k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    if any((n, 0) not in e.datasets for n in names):
        ctx.raises("conversion of a log without position topic", (KeyError,), run)
        ctx.label("no position topic")
        return
    if how == "options" and style is not None and flag:
        # a conversion with other options before
        ctx.call("convert_ulog2kml", ulog2kml.convert_ulog2kml, path, out, **dict(kw, style={"line_width": 11, "extrude": not flag}, altitude_offset=offset + 5))
    ctx.call("convert_ulog2kml", run)
    if how != "main":
        ctx.check(given == kw, lambda: "convert_ulog2kml changed its arguments: %r instead of %r" % (kw, given))
    got_lines, got_points = ctx.call("reading the KML", parse, out)
    # last timestamp of what was loaded: position topics, vehicle status, camera
    last = start
    for (name, multi), d in e.datasets.items():
        if name in names + ["vehicle_status"] + (["camera_capture"] if camera is not None else []):
            last = max([last] + d.timestamps())
    want = []
    for i, tr in enumerate(tracks):
        for mode, pts in model_lines(tr, modes, last, interval, offset):
            want.append((tr["name"], mode, pts, tr["kind"] == "double", i))
    ctx.check([l[0] for l in got_lines] == ["%s:%d" % w[:2] for w in want], lambda: "lines %s instead of %s" % (
        [l[0] for l in got_lines], ["%s:%d" % w[:2] for w in want]))
    by_mode = {}
    for (name, pts, st_, amode, ext), (topic, mode, wpts, f32, i) in zip(got_lines, want):
        ctx.check(len(pts) == len(wpts), lambda: "line %s has %d points instead of %d" % (name, len(pts), len(wpts)))
        for p, q in zip(pts, wpts):
            ctx.check(len(p) == 3 and close(p[0], q[0], False) and close(p[1], q[1], False) and close(p[2], q[2], f32),
                      lambda: "line %s: point %s instead of %s" % (name, p, q))
        ctx.check(st_ is not None and float(st_[1] or 1) == float(width), lambda: "line %s: style %s, width should be %s" % (name, st_, width))
        ctx.check(amode == "absolute", lambda: "altitude mode %r" % amode)
        ctx.check((ext == "1") == bool(extrude), lambda: "extrude is %r" % ext)
        if color:
            ctx.check(st_[0] == color[i](mode), lambda: "line %s: color %s instead of %s" % (name, st_[0], color[i](mode)))
        else:
            ctx.check(re.fullmatch(r"[0-9a-f]{8}", st_[0] or ""), lambda: "line %s: color %r" % (name, st_[0]))
            m = COLORS[max(mode, 0) % len(COLORS)]
            ctx.check(st_[0] == m, lambda: "line %s: color %s instead of %s" % (name, st_[0], m))
            ctx.check(by_mode.setdefault(mode, st_[0]) == st_[0], lambda: "two colors for flight mode %d" % mode)
    if not color:
        known = {m: c for m, c in by_mode.items() if 0 <= m < 18}
        ctx.check(len(set(known.values())) == len(known), lambda: "flight modes share colors: %s" % known)
    cam = [] if camera is None or ("camera_capture", 0) not in e.datasets else camera
    ctx.check([p[0] for p in got_points] == ["Camera Trigger %d" % seq for _, seq in cam], lambda: "points %s" % got_points)
    for (name, pts), ((lat, lon, alt), seq) in zip(got_points, cam):
        q = (lon, lat, alt + offset)
        ctx.check(len(pts) == 1 and all(close(a, b, camera_kind == "double") for a, b in zip(pts[0], q)),
                  lambda: "%s is at %s instead of %s" % (name, pts, q))
    ctx.label(how)
    ctx.label("several modes", len({w[1] for w in want}) > 2)
    ctx.label("mode above 17", any(w[1] > 17 for w in want))
    ctx.label("sample dropped", any(len([p for w in want if w[4] == i for p in w[2]]) < len(t["rows"]) for i, t in enumerate(tracks)))
    ctx.label("camera points", bool(cam))
    ctx.label("two position topics", len(tracks) > 1)
    ctx.nontrivial(any(len(w[2]) > 1 for w in want))


PARTS = [Part("kml", kml_case, check_kml, 3000)]
