import struct

from hypothesis import strategies as st

from vp import gen, lib, oracle, ulg
from vp.runner import Part

ID = "C08"
RULE = ("a generated data section is split into one base part and up to three appended parts; each part but the last may end "
        "in a message that was cut by the crash, and may contain a corrupt stretch followed by a sync message; the load must "
        "give every message of every part exactly once; non-trivial: an appended part contributes content and the part before "
        "it ends in a cut message, or there are at least two appended parts")
ASSUMPTIONS = ["an appended part uses the subscriptions in front of it, or subscribes to a message id again for another topic instance"]


@st.composite
def appended_case(draw, **cfg):
    spec = draw(gen.logs(**cfg, max_topics=4, max_fields=3, max_subs=7, n_ops=[12, 20, 30], min_ops=6, unknown=True,
                         ops="DDDDDDLLCOPQIMSAAU", default_bits=[1, 2]))
    n = draw(st.integers(1, 3))
    cuts = []
    for _ in range(n):
        partial = draw(st.one_of(st.just(None), st.tuples(st.integers(0, 60), st.integers(1, 40))))
        junk = draw(st.one_of(st.just(None), st.just(None), st.tuples(st.integers(0, 20), st.integers(0, 600), st.booleans())))
        cuts.append([draw(st.integers(0, 40)), list(partial) if partial else None, list(junk) if junk else None])
    return [spec, cuts, draw(st.integers(0, 7))]


def reuse_ids(parts):
    """subscriptions in appended parts take the message ids of the parts before them"""
    wire, owner = {}, {}        # id in the case -> id in the file -> id in the case
    for i, part in enumerate(parts):
        inherited = sorted(owner)
        kept = []
        for m in part:
            k = m[0]
            if k == "A":
                new = m[2]
                if i and inherited and new % 3:
                    new = inherited.pop(m[2] % len(inherited))
                wire[m[2]], owner[new] = new, m[2]
            elif k in "DR" and owner[wire[m[1]]] != m[1]:
                continue            # its topic has lost the id
            kept.append(m)
        parts[i] = kept
    return [[rewired(m, wire) for m in part] for part in parts]


def rewired(m, wire):
    if m[0] == "A":
        return m[:2] + [wire[m[2]]] + m[3:]
    return [m[0], wire[m[1]]] + m[2:] if m[0] in "DR" else m


def build(case):
    """bytes, and the equivalent log without appended parts; None when empty"""
    spec, cuts, on = case
    data = spec["data"]
    points = sorted(1 + c[0] % len(data) for c in cuts)
    parts, last = [], 0
    for p in points + [len(data)]:
        parts.append(data[last:p])
        last = p
    if on & 2:
        parts = reuse_ids(parts)
    defs = [m for m in spec["defs"] if m[0] != "B"]
    # the compat flags say nothing about appended data
    flags = ["B", [1, 0, 0, 0, 0, 0, 0, 0] if on & 1 else [0] * 8, [1] + [0] * 7, [0, 0, 0], b"\5\0\0" if on & 4 else b""]
    pos = 16 + sum(len(ulg.encode_msg(m)) for m in [flags] + defs)
    blob, offs, corrupt = b"", [], False
    kept = []
    for i, part in enumerate(parts):
        raw = [ulg.encode_msg(m) for m in part]
        kept += part
        if i < len(cuts):
            partial, junk = cuts[i][1], cuts[i][2]
            if junk is not None and part:
                at = 1 + junk[0] % len(part)
                bad = struct.pack("<HB", 0, 1) + b"\xee" * junk[1]
                raw.insert(at, bad + ulg.encode_msg(["S"]))
                if junk[2]:
                    # the sync search passes further messages of this part
                    pass
                corrupt = True
            if partial is not None:
                m = data[partial[0] % len(data)]
                if m[0] == "U":
                    m = ["O", 5]
                enc = ulg.encode_msg(m)
                raw.append(enc[:min(partial[1], len(enc) - 1)])
        blob += b"".join(raw)
        offs.append(pos + len(blob))
    offs = offs[:len(cuts)]
    flags[3] = offs + [0] * (3 - len(offs))
    full = dict(spec, defs=[flags] + defs)
    raw = ulg.encode(dict(full, data=[])) + blob
    return raw, dict(full, data=kept), corrupt, parts, offs


def check_appended(case, ctx):
    raw, same, corrupt, parts, offs = build(case)
    if any(b <= a for a, b in zip(offs, offs[1:])):
        ctx.label("excluded: empty part")
        return
    e = ulg.interpret(same)
    e.corrupt = corrupt
    u = ctx.call("loading a log with data appended at %r" % offs, lib.load, raw)
    ctx.no_diff(oracle.diff(u, e), "log with data appended at %r" % offs)
    ctx.check(u.has_data_appended, "has_data_appended is not set")
    # writing it back merges the parts
    cuts = case[1]
    ctx.label("%d appended parts" % len(offs))
    ctx.label("longer flags message", case[2] & 4)
    ctx.label("part ends in a cut message", any(c[1] for c in cuts))
    ctx.label("corrupt stretch in a part", corrupt)
    subs = [{m[2] for m in p if m[0] == "A"} for p in parts]
    ctx.label("appended part uses a subscription in front of it",
              any(m[0] == "D" and m[1] not in subs[i] for i, p in enumerate(parts) for m in p))
    ctx.label("message id for two topics", sum(map(len, subs)) > len(set().union(*subs)))
    ctx.label("samples in an appended part", any(m[0] == "D" for p in parts[1:] for m in p))
    ctx.nontrivial(any(parts[1:]) and (len(offs) > 1 or any(c[1] for c in cuts)))


def check_unflagged(case, ctx):
    """offsets mean nothing without the flag"""
    spec, cuts, _ = case
    defs = [m for m in spec["defs"] if m[0] != "B"]
    flags = ["B", [1] + [0] * 7, [0] * 8, [40 + 7 * c[0] for c in cuts] + [0] * (3 - len(cuts))]
    spec = dict(spec, defs=[flags] + defs)
    u = ctx.call("loading a log with offsets but no appended flag", lib.load, ulg.encode(spec))
    ctx.no_diff(oracle.diff(u, ulg.interpret(spec)), "log with offsets but no appended flag")
    ctx.nontrivial(len(spec["data"]) > 2)


# ------------------------------------------------------- beyond 4 GiB
class HugeFile:
    """a file that repeats a message in front of its end; nothing of it is in memory"""

    def __init__(self, head, filler, count, tail):
        self.head, self.filler, self.count, self.tail = head, filler, count, tail
        self.end = len(head) + count * len(filler)
        self.pos = 0
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + (0, self.pos, self.end + len(self.tail))[whence])
        return self.pos

    def read(self, n=-1):
        left = self.end + len(self.tail) - self.pos
        n = left if n is None or n < 0 else min(n, left)
        out = []
        while n > 0:
            if self.pos < len(self.head):
                piece = self.head[self.pos:self.pos + n]
            elif self.pos < self.end:
                at = (self.pos - len(self.head)) % len(self.filler)
                piece = self.filler[at:at + n]
            else:
                piece = self.tail[self.pos - self.end:self.pos - self.end + n]
            out.append(piece)
            self.pos += len(piece)
            n -= len(piece)
        return out[0] if len(out) == 1 else b"".join(out)

    def close(self):
        self.closed = True


@st.composite
def huge(draw):
    spec = draw(gen.logs(max_topics=2, max_fields=2, max_subs=3, nested=False, n_ops=[6, 12], min_ops=4, ops="DDDLLCOPIM", unknown=False))
    n = draw(st.integers(1, 3))
    return [spec, draw(st.integers(0, 10)), sorted(draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))), draw(st.integers(-2, 2))]


def check_huge(case, ctx):
    """the first part is larger than 4 GiB (samples of a topic that is not loaded)"""
    spec, first, points, shift = case
    data = spec["data"]
    filler = ulg.frame(68, struct.pack("<H", 60001) + bytes(65533))
    count = (1 << 32) // len(filler) + shift
    first = 1 + first % len(data)
    points = [first + p % (len(data) - first + 1) for p in points]
    parts, subs, last = [], {m[2]: m for m in data if m[0] == "A"}, 0
    for p in sorted(points) + [len(data)]:
        parts.append(data[last:p])
        last = p
    topics = sorted({m[3] for m in subs.values()})
    defs = [m for m in spec["defs"] if m[0] != "B"] + [["F", "filler", [["uint64_t", 0, "timestamp"]]]]
    flags = ["B", [0] * 8, [1] + [0] * 7, [0, 0, 0]]
    extra = [["A", 0, 60001, "filler"]]
    head = ulg.encode(dict(spec, defs=[flags] + defs, data=parts[0] + extra))
    pos = len(head) + count * len(filler)
    tail, offs = b"", []
    for i, part in enumerate(parts[1:]):
        m = ulg.encode_msg(data[(shift + i) % len(data)])
        tail += ulg.frame(68, bytes(2000))[:7] if i + shift < 0 else m[:len(m) * (i + 2) // 5]        # cut by a crash
        offs.append(pos + len(tail))
        tail += b"".join(ulg.encode_msg(m) for m in part)
    flags[3] = offs + [0] * (3 - len(offs))
    head = ulg.encode(dict(spec, defs=[flags] + defs, data=parts[0] + extra))
    same = dict(spec, defs=[flags] + defs, data=sum(parts, []))
    e = ulg.interpret(same)
    f = HugeFile(head, filler, count, tail)
    u = ctx.call("loading a log of %d bytes with data appended at %r" % (f.end + len(tail), offs), lib.ULog, f, topics)
    ctx.no_diff(oracle.diff(u, e), "log of %d bytes with data appended at %r" % (f.end + len(tail), offs))
    ctx.label("%d appended parts" % len(offs))
    ctx.nontrivial(any(parts[1:]))


PARTS = [
    Part("appended", appended_case, check_appended, 3200),
    Part("unflagged", appended_case, check_unflagged, 400),
    Part("large", lambda: gen.with_large(appended_case(), gen.FEATURES), lambda case, ctx: check_appended(gen.enlarged(case), ctx), 60),
    Part("huge", huge, check_huge, 24, thorough=200),
]
