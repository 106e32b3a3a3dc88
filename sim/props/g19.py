"""G19: conversion of video keeps the picture."""
import io

import numpy as np
import numpy.random as npr

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import gsf, open_sync_source
from ..loop import run_async
from ..threads import Threads
from .g16 import PIX, pix_arrays, pix_layout

import mediagrains.numpy.convert  # noqa: E402,F401
from mediagrains import GrainFactory  # noqa: E402
from mediagrains.cogenums import CogFrameFormat  # noqa: E402
from mediagrains.numpy import VideoGrain  # noqa: E402

ID = "G19"
RUNS = {"quick": 16000, "thorough": 500000}
RULE = ("A case is one or two pictures of any format, size, layout in memory and contents, made in memory, awaited or "
        "read from a file piece by piece, and up to three users who convert these and the converted ones, change, write "
        "and read them. Which user goes next is chosen at random; in half of the cases each user is a thread that is "
        "preempted at any line of the library. The noise added to gain bits is random or as extreme as it can be, or "
        "fails for want of memory. Non-trivial: a picture was converted and noise was extreme or failed, a "
        "converted one converted again, or threads were switched.")
REAL = ["mediagrains.numpy", "mediagrains.grains", "mediagrains.gsf", "numpy"]
STUB = ["numpy.random.random_sample (values and failures drawn from the seed)",
        "thread scheduling (one thread runs at a time; switches at library lines are drawn from the seed)",
        "raw files (short reads)", "clock, uuid generation"]
ASSUMPTIONS = ["Samples have no more bits than their format says.",
               "Subsampled chroma is the mean of the samples it stands for, of neighbours in a line and of lines in pairs.",
               "Colours are BT.709, the full range of values is used, and a colour conversion is good to one step."]

# bits, RGB, horizontal and vertical shift
FMT = {0x2000: (8, 0, 0, 0), 0x2001: (8, 0, 1, 0), 0x2003: (8, 0, 1, 1), 0x2010: (8, 1, 0, 0),
       0x2100: (8, 0, 1, 0), 0x2101: (8, 0, 1, 0), 0x2104: (8, 1, 0, 0), 0x2110: (8, 1, 0, 0), 0x2111: (8, 1, 0, 0),
       0x2112: (8, 1, 0, 0), 0x2113: (8, 1, 0, 0),
       0x2804: (10, 0, 0, 0), 0x2805: (10, 0, 1, 0), 0x2807: (10, 0, 1, 1), 0x2814: (10, 1, 0, 0), 0x2906: (10, 0, 1, 0),
       0x3004: (12, 0, 0, 0), 0x3005: (12, 0, 1, 0), 0x3007: (12, 0, 1, 1), 0x3014: (12, 1, 0, 0),
       0x4004: (16, 0, 0, 0), 0x4005: (16, 0, 1, 0), 0x4007: (16, 0, 1, 1), 0x4014: (16, 1, 0, 0), 0x4105: (16, 0, 1, 0),
       0x8008: (32, 0, 0, 0), 0x8009: (32, 0, 1, 0), 0x800b: (32, 0, 1, 1), 0x8018: (32, 1, 0, 0)}
FORMATS = sorted(FMT)
# made convertible by this check, through the registry that is there for it
RGBA, PLAIN = 0x2114, 0x2010
CUSTOM_TO, CUSTOM_FROM = (0x2010, 0x2110, 0x2001), (0x2010, 0x2003)
NEVER = [0x2115, 0x2117, 0x2102, 0x2116, 0x204, 0x2080]
PADDABLE = [f for f in FORMATS if f != 0x2906]
custom = {"alpha": 0, "fail": False}


class Refused(Exception):
    pass


def make_custom(alpha):
    def to_rgba(grain_in, grain_out):
        if custom["fail"]:
            raise Refused()
        out = grain_out.data.reshape((grain_in.height, grain_in.width, 4))
        for c, n in enumerate("RGB"):
            out[:, :, c] = getattr(grain_in.component_data, n).transpose()
        out[:, :, 3] = alpha
    return to_rgba


def from_rgba(grain_in, grain_out):
    if custom["fail"]:
        raise Refused()
    for n in "RGB":
        getattr(grain_out.component_data, n)[:, :] = getattr(grain_in.component_data, n)


def register(alpha):
    custom["alpha"] = alpha
    custom["fail"] = False
    VideoGrain.grain_conversion(F(PLAIN), F(RGBA))(make_custom(alpha))


F = CogFrameFormat
for _f in CUSTOM_TO[1:]:
    VideoGrain.grain_conversion_two_step(F(_f), F(PLAIN), F(RGBA))
register(0)
VideoGrain.grain_conversion(F(RGBA), F(PLAIN))(from_rgba)
for _f in CUSTOM_FROM[1:]:
    VideoGrain.grain_conversion_two_step(F(RGBA), F(PLAIN), F(_f))


# ---------------------------------------------------------------------------------------------------------------------
# cases


def near(rng, fmt):
    """another format, more often one that differs little"""
    k = rng.randrange(6)
    if k == 0 or fmt not in FMT:
        return rng.choice(FORMATS)
    d = FMT[fmt]
    if k == 1:
        same = [f for f in FORMATS if FMT[f][0] == d[0]]
    elif k < 4:
        same = [f for f in FORMATS if FMT[f][1:] == d[1:]]
    elif k == 4:
        same = [f for f in FORMATS if FMT[f][1] == d[1]]
    else:
        same = [f for f in FORMATS if FMT[f][1] != d[1]]
    return rng.choice(same)


def gen_ops(rng, fmts):
    ops, known = [], list(fmts)
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        k = rng.randrange(16)
        if k < 11:
            # the latest ones are taken more often
            which = rng.choice([-1, -1, -1, rng.randrange(len(known))])
            if rng.randrange(14) == 0:
                f = rng.choice(NEVER + [RGBA, RGBA])
            elif rng.randrange(4) == 0 and len(known) > 1:
                f = rng.choice(known)
            else:
                f = near(rng, known[which])
            ops.append(["convert", which, f, rng.choice(["convert", "convert", "asformat"])])
            known.append(f)
        elif k == 11:
            ops.append(["change", rng.randrange(8), rng.randrange(999)])
        elif k < 14:
            ops.append(["file", rng.choice([-1, rng.randrange(8)]), rng.randrange(4)])
            known.append(known[-1])
        elif k == 14:
            ops.append(["register", rng.randrange(256)])
        else:
            ops.append(["refuse", rng.randrange(2)])
    return ops


def gen_source(rng):
    fmt = rng.choice(FORMATS + [0x2906, 0x2906, 0x2805])
    if rng.randrange(25) == 0:
        fmt = rng.choice([RGBA] + NEVER[:4])
    w = 2 * rng.choice([1, 1, 2, 3, 3, 4, 5, 8])
    if fmt == 0x2906 or rng.randrange(8) == 0:
        w = 2 * rng.choice([1, 2, 3, 4, 6, 7, 23, 24, 25, 26, 48, 50])
    h = rng.choice([2, 2, 4, 6])
    if rng.randrange(8) == 0:
        h = rng.choice([1, 3])
    if rng.randrange(12) == 0:
        w = max(1, w - 1)
    plain = fmt not in PADDABLE or rng.randrange(4) > 0
    return {"fmt": fmt, "w": w, "h": h, "pad": 0 if plain else 2 * rng.randrange(4), "off": 0 if plain else 2 * rng.randrange(4),
            "kind": rng.choice([0, 0, 0, 1, 2, 3, 3, 4, 4, 5, 6]), "seed": rng.randrange(1 << 30),
            "via": rng.choice(["bytearray", "bytearray", "bytes", "array", "grain", "await", "file", "set", "made"]),
            "short": rng.randrange(4), "ids": rng.randrange(4), "rate": rng.choice([[25, 1], [50, 1], [30000, 1001]]),
            "dur": rng.choice([[1, 25], [1, 50], [1001, 30000]]), "layout": rng.randrange(4),
            "times": [rng.randrange(1000), rng.randrange(1000)]}


def generate(rng, tier):
    sources = [gen_source(rng) for _ in range(rng.choice([1, 1, 2]))]
    if len(sources) == 2 and rng.randrange(2):
        # frames of one video
        sources[1].update({k: sources[0][k] for k in ("fmt", "w", "h", "pad", "off")})
    users = [gen_ops(rng, [s["fmt"] for s in sources]) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(users) > 1 and len(sources) == 2 and sources[0]["fmt"] == sources[1]["fmt"] and rng.randrange(2):
        # who are converted alike, each by its own user
        for i, u in enumerate(users):
            to = rng.choice(FORMATS) if rng.randrange(2) or i == 0 else users[0][0][2]
            u.insert(0, ["convert", i % 2, to, "convert"])
    return {"sources": sources, "users": users, "threads": rng.randrange(2), "gap": rng.choice([2, 5, 12, 40]),
            "noise": rng.randrange(6), "nseed": rng.randrange(1 << 30),
            "nomem": rng.randrange(1, 10) if rng.randrange(5) == 0 else 0}


# ---------------------------------------------------------------------------------------------------------------------
# pictures


def v210_samples(data, w, h):
    words = np.frombuffer(bytes(data), "<u4").reshape((h, -1))
    seq = np.stack([words & 0x3ff, words >> 10 & 0x3ff, words >> 20 & 0x3ff], axis=2).reshape((h, -1))
    return {"Y": seq[:, 1::2][:, :w].T, "U": seq[:, 0::4][:, :w // 2].T, "V": seq[:, 2::4][:, :w // 2].T}


def read_planes(data, fmt, w, h, comps):
    """The samples of a picture, by component, [x, y]"""
    if fmt == 0x2906:
        return v210_samples(data, w, h)
    return dict(zip(PIX[fmt][3], [np.array(a) for a in pix_arrays(data, fmt, comps)]))


def contents(rs, kind, shape, bits):
    top = (1 << bits) - 1
    if kind == 1:
        return np.full(shape, top, np.uint64)
    if kind == 2:
        return np.zeros(shape, np.uint64)
    if kind == 3:
        return rs.randint(0, 2, shape).astype(np.uint64) * np.uint64(top)
    r = rs.randint(0, 1 << 31, shape).astype(np.uint64) << np.uint64(2) | rs.randint(0, 4, shape).astype(np.uint64)
    if kind == 4:
        return np.uint64(top) - r % np.uint64(min(top, 1 << rs.randint(1, bits + 1)))
    if kind == 5:
        return np.uint64(1 << (bits - 1)) - np.uint64(1) + r % np.uint64(3)
    if kind == 6:
        # at or next to where rounding changes
        n = rs.randint(1, bits)
        v = (r & np.uint64(top)) >> np.uint64(n) << np.uint64(n)
        return np.clip(v.astype(np.int64) + (1 << (n - 1)) - rs.randint(0, 3, shape), 0, top).astype(np.uint64)
    return r & np.uint64(top)


def picture(s):
    """The bytes and components of a source picture"""
    fmt, w, h = s["fmt"], s["w"], s["h"]
    comps, size = pix_layout(fmt, w, h, s["pad"], s["off"]) if fmt in PIX else ([[w, h, w * 4, w * h * 4, 0]], w * h * 4)
    comps = [dict(zip(("width", "height", "stride", "length", "offset"), c)) for c in comps]
    rs = npr.RandomState(s["seed"])
    data = bytearray(rs.bytes(size))
    if fmt == 0x2906:
        seq = np.zeros((h, comps[0]["stride"] // 4 * 3), "<u4")
        n = w * 2
        seq[:, :n] = contents(rs, s["kind"], (h, n), 10)
        words = seq[:, 0::3] | seq[:, 1::3] << 10 | seq[:, 2::3] << 20
        data[:] = words.astype("<u4").tobytes()
    elif fmt in FMT or fmt in PIX:
        for a in pix_arrays(data, fmt, comps):
            a[...] = contents(rs, s["kind"], a.shape, FMT.get(fmt, (8,))[0]).astype(a.dtype)
    return data, comps


def ok_size(fmt, w, h):
    if fmt not in FMT:
        return True
    d = FMT[fmt]
    return not (d[2] and w % 2) and not (d[3] and h % 2)


def bounds(planes, f1, f2):
    """What the samples may be at least and at most in another format"""
    d1, rgb1, hs1, vs1 = FMT[f1]
    d2, rgb2, hs2, vs2 = FMT[f2]
    s = 2.0 ** (d2 - d1)
    top = float((1 << d2) - 1)
    step = max(1.0, s)
    p = {}
    for n, a in planes.items():
        a = a.astype(np.float64) * s
        # if bits are lost first, the highest values may be lowered to what is left
        p[n] = (np.minimum(a, top), a + (s - 1 if s > 1 else 0))
    down = 0.5 if s < 1 else 0.0
    slack = dict.fromkeys(p, (down, down))
    eps = 1e-9 * top

    def each(n, f):
        p[n] = (f(p[n][0]), f(p[n][1]))

    def up(hs, vs):
        for n in "UV":
            each(n, lambda a: np.repeat(np.repeat(a, 1 << hs, axis=0), 1 << vs, axis=1))

    means = 0
    if rgb1 and not rgb2:
        m = {"Y": (0.2126, 0.7152, 0.0722), "U": (-0.2126 / 1.8556, -0.7152 / 1.8556, 0.5),
             "V": (0.5, -0.7152 / 1.5748, -0.0722 / 1.5748)}
        q = {}
        for n, k in m.items():
            lo = hi = 0.0 if n == "Y" else 2.0 ** (d2 - 1)
            for c, x in zip("RGB", k):
                lo, hi = lo + x * p[c][0 if x > 0 else 1], hi + x * p[c][1 if x > 0 else 0]
            q[n] = (lo, hi)
        p = q
        slack = dict.fromkeys(p, (down + step, down + step))
        eps = 1e-6 * top
        hs1 = vs1 = 0
    elif rgb2 and not rgb1:
        up(hs1, vs1)
        mid = 2.0 ** (d2 - 1)
        (y0, y1), (u0, u1), (v0, v1) = p["Y"], (p["U"][0] - mid, p["U"][1] - mid), (p["V"][0] - mid, p["V"][1] - mid)
        gu, gv = 0.0722 * 1.8556 / 0.7152, 0.2126 * 1.5748 / 0.7152
        p = {"R": (y0 + 1.5748 * v0, y1 + 1.5748 * v1), "G": (y0 - gu * u1 - gv * v1, y1 - gu * u0 - gv * v0),
             "B": (y0 + 1.8556 * u0, y1 + 1.8556 * u1)}
        slack = dict.fromkeys(p, (down * 2.86 + step, down * 2.86 + step))
        eps = 1e-6 * top
        hs1 = vs1 = hs2 = vs2 = 0
    if not rgb2:
        up(max(0, hs1 - hs2), max(0, vs1 - vs2))
        for on, axis in ((hs2 > hs1, 0), (vs2 > vs1, 1)):
            if on:
                means += 1
                for n in "UV":
                    each(n, (lambda a: (a[0::2] + a[1::2]) / 2) if axis == 0 else (lambda a: (a[:, 0::2] + a[:, 1::2]) / 2))
    noise = s - 1 if rgb1 != rgb2 and s > 1 else 0
    out = {}
    for n, (lo, hi) in p.items():
        extra = 0.5 * step * means if n in "UV" else 0.0
        a, b = slack[n]
        # where colours are converted before bits are added these are the highest values there are
        highest = ((1 << d1) - 1) * s if s > 1 else top
        out[n] = (np.clip(lo - a - extra, 0, highest) - eps, np.clip(np.maximum(hi + b + extra, 0) + noise, 0, top) + eps)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# running


class Noise:
    """Stands in for numpy.random.random_sample"""

    def __init__(self, env, case):
        self.env = env
        self.mode = case["noise"]
        self.rs = npr.RandomState(case["nseed"])
        self.nomem = case["nomem"]
        self.calls = 0
        self.failed = 0
        self.extreme = 0

    def __call__(self, size=None):
        self.calls += 1
        if self.nomem and self.calls == self.nomem:
            self.failed += 1
            self.env.fault("no-memory")
            raise MemoryError()
        most = 1 - 2.0 ** -53
        mode = self.mode
        if mode == 3:
            mode = 1 + self.calls % 2
        if mode in (1, 2):
            self.extreme += 1
            return np.full(size, 0.0 if mode == 1 else most)
        if mode == 4:
            self.extreme += 1
            return self.rs.randint(0, 2, size) * most
        return self.rs.random_sample(size)


class Holder:
    def __init__(self, g, fmt, w, h, comps, data, own):
        self.g = g
        self.fmt = fmt
        self.w = w
        self.h = h
        self.comps = comps
        self.data = bytes(data)
        self.own = own
        self.made = 0
        self.meta = None

    def planes(self):
        return read_planes(bytearray(self.data), self.fmt, self.w, self.h, self.comps)


async def deliver(data):
    return data


async def wait_for(g):
    await g


def np_parse(meta, data):
    return VideoGrain(meta=meta, data=data) if meta["grain"].get("grain_type") == "video" else GrainFactory(meta, data)


def source(env, s):
    data, comps = picture(s)
    meta = {"@_ns": "urn:x-ipstudio:ns:0.1", "grain": {
        "grain_type": "video", "source_id": str(M.uid("s", s["ids"])), "flow_id": str(M.uid("f", s["ids"])),
        "origin_timestamp": "%d:5" % s["times"][0], "sync_timestamp": "%d:7" % s["times"][1],
        "creation_timestamp": "3:3",
        "rate": dict(zip(("numerator", "denominator"), s["rate"])),
        "duration": dict(zip(("numerator", "denominator"), s["dur"])),
        "cog_frame": {"format": s["fmt"], "width": s["w"], "height": s["h"], "layout": s["layout"], "extension": 0,
                      "components": comps}}}
    via = s["via"]
    if via == "file" and not s["off"] and s["fmt"] in PIX:
        g = reread(env, VideoGrain(meta=meta, data=data), s["short"])
        env.probe("from-file")
    elif via == "grain":
        g = VideoGrain(grain=GrainFactory(meta, data))
    elif via == "await":
        g = VideoGrain(meta=meta, data=deliver(bytes(data)))
        run_async(env, lambda loop: wait_for(g))
    elif via == "set":
        g = VideoGrain(meta=meta, data=bytearray(len(data)))
        g.data = data
    elif via == "array":
        g = VideoGrain(meta=meta, data=np.frombuffer(bytes(data), np.uint8))
    elif via == "made" and not s["pad"] and not s["off"] and s["fmt"] in PIX:
        g = VideoGrain(src_id=M.uid("s", s["ids"]), flow_id=M.uid("f", s["ids"]), cog_frame_format=F(s["fmt"]),
                       width=s["w"], height=s["h"])
        a = np.frombuffer(data, g.data.dtype)
        g.data[:] = a
    else:
        g = VideoGrain(meta=meta, data=bytes(data) if via == "bytes" else data)
    return Holder(g, s["fmt"], s["w"], s["h"], comps, data, False)


def reread(env, g, short):
    f = io.BytesIO()
    enc = gsf.GSFEncoder(f)
    enc.add_segment().add_grain(g)
    enc.dump()
    b = f.getvalue()
    try:
        got = R.parse_file(b)["grains"]
    except R.RefError as e:
        env.fail("wrong-file", "%s", e)
    with env.oracle("the grain in the file"):
        want = M.canon(g)
    env.check(len(got) == 1 and got[0][1] == want, "wrong-file", "not the grain that was written: %s",
              M.diff(want, got[0][1]) if got else "nothing")
    src, _ = open_sync_source(env, b, {"tr": ["bytesio", "buf", "raw", "raw"][short % 4], "short": short})
    _, segs = gsf.loads(b, parse_grain=np_parse) if short == 0 else gsf.load(src, parse_grain=np_parse)
    gs = [x for v in segs.values() for x in v]
    env.check(len(gs) == 1, "wrong-file", "%d grains read", len(gs))
    return gs[0]


class User:
    def __init__(self, w, n, ops):
        self.w = w
        self.n = n
        self.ops = ops
        self.hs = list(w.sources)

    def run(self):
        for op in self.ops:
            self.do(op)

    def do(self, op):
        self.w.env.ev(self.n, op)
        getattr(self, "op_" + op[0])(*op[1:])
        for h in self.hs:
            self.same(h, "after " + op[0])

    def pick(self, which):
        return self.hs[which] if which == -1 else self.hs[which % len(self.hs)]

    def same(self, h, when):
        if bytes(h.g) != h.data:
            self.w.env.fail("changed", "%s: a grain of format %x has changed", when, h.fmt)

    def op_convert(self, which, f2, how):
        w, env = self.w, self.w.env
        h = self.pick(which)
        if len(self.hs) > 9 or not ok_size(f2, h.w, h.h) or not ok_size(h.fmt, h.w, h.h):
            return
        f1, noise = h.fmt, w.noise
        if (f1 == RGBA and f2 == RGBA) or f1 == f2:
            out = getattr(h.g, how)(F(f2))
            if how == "asformat":
                env.check(out is h.g, "wrong-result", "asformat made another grain of the same format")
                return
            self.keep(h, out, f2, h.comps)
            env.check(bytes(out) == h.data, "wrong-picture", "converted to its own format, %x, the data differs", f1)
            return
        possible = (f1 in FMT and f2 in FMT) or (f1 in CUSTOM_TO and f2 == RGBA) or (f1 == RGBA and f2 in CUSTOM_FROM)
        alpha, fails = custom["alpha"], custom["fail"] and RGBA in (f1, f2)
        before = noise.failed
        try:
            out = getattr(h.g, how)(F(f2))
        except NotImplementedError:
            env.check(not possible, "wrong-result", "%x can't be converted to %x", f1, f2)
            env.probe("not-implemented")
            return
        except MemoryError:
            env.check(noise.failed > before or len(w.users) > 1 and w.case["nomem"], "unexpected-exception",
                      "MemoryError out of converting %x to %x", f1, f2)
            return
        except Refused:
            env.check(fails, "unexpected-exception", "the conversion of %x to %x was refused", f1, f2)
            env.fault("conversion-refused")
            return
        env.check(possible, "wrong-result", "%x was converted to %x", f1, f2)
        env.check(not fails, "wrong-result", "%x converted to %x, though that failed", f1, f2)
        w.converted += 1
        if h.made:
            w.again += 1
        what = "%x to %x" % (f1, f2)
        h2 = self.keep(h, out, f2, None)
        h2.made = h.made + 1
        with env.oracle(what):
            b = bytearray(h2.data)
            if f2 == RGBA:
                a = np.frombuffer(b, np.uint8).reshape((h.h, h.w, 4))
                env.check((a[:, :, 3] == alpha).all(), "wrong-conversion",
                          "%s: not done by the conversion registered last", what)
                f2, planes = PLAIN, {n: a[:, :, i].T for i, n in enumerate("RGB")}
                env.probe("custom")
            else:
                planes = h2.planes()
            if f1 == RGBA:
                f1 = PLAIN
            src = h.planes()
            self.compare(src, f1, planes, f2, h.w, h.h, what)
        env.probe("conversion-of-depth" if FMT[f1][0] != FMT[f2][0] else "conversion")

    def compare(self, src, f1, got, f2, w, h, what):
        env = self.w.env
        d, rgb, hs, vs = FMT[f2]
        want = bounds(src, f1, f2)
        for n, (lo, hi) in want.items():
            a = got[n]
            env.check(a.shape == lo.shape, "wrong-picture", "%s: %s has %r samples", what, n, a.shape)
            bad = (a < lo) | (a > hi)
            if bad.any():
                x, y = (int(i[0]) for i in np.nonzero(bad))
                env.fail("wrong-picture", "%s, %dx%d: %s at %d, %d is %d, it has to be from %.1f to %.1f", what, w, h, n, x,
                         y, a[x, y], lo[x, y], hi[x, y])

    def keep(self, h, out, fmt, comps):
        """a converted grain, which has to have the metadata of the original"""
        env, g = self.w.env, h.g
        with env.oracle("the converted grain"):
            for k in ("source_id", "origin_timestamp", "sync_timestamp", "rate", "duration", "cog_frame_layout", "width",
                      "height", "grain_type"):
                env.check(getattr(out, k) == getattr(g, k), "wrong-metadata", "%s is %r, not %r", k, getattr(out, k),
                          getattr(g, k))
            env.check(out.cog_frame_format == fmt, "wrong-metadata", "format %r, not %x", out.cog_frame_format, fmt)
            env.check((out.flow_id == g.flow_id) == (fmt == h.fmt), "wrong-metadata", "flow id %s of %s", out.flow_id,
                      g.flow_id)
            other = self.w.flows.setdefault((g.flow_id, h.fmt, fmt), out.flow_id)
            env.check(other == out.flow_id, "wrong-metadata", "the grains of a flow get different flow ids")
            if comps is None:
                comps, size = pix_layout(fmt if fmt != RGBA else 0x2110, h.w, h.h)
                comps = [dict(zip(("width", "height", "stride", "length", "offset"), c)) for c in comps]
                env.check(len(bytes(out)) == size == out.length, "wrong-metadata", "%d bytes of data, length %d, in %d", size,
                          out.length, len(bytes(out)))
            env.check([dict(c.items()) for c in out.components] == comps, "wrong-metadata", "components %r, not %r",
                      [dict(c.items()) for c in out.components], comps)
        for u in self.w.users:
            for x in u.hs:
                env.check(x.g is not out and not (x.g.data is not None and np.shares_memory(x.g.data, out.data)), "shared",
                          "the converted grain shares its data with another one")
        h2 = Holder(out, fmt, h.w, h.h, comps, bytes(out), True)
        h2.made = h.made
        self.hs.append(h2)
        return h2

    def op_change(self, which, seed):
        """one's own grain is painted over"""
        h = self.pick(which)
        if not h.own or h.fmt not in PIX or h.fmt not in FMT:
            return
        env = self.w.env
        d = bytearray(h.data)
        s = {"fmt": h.fmt, "w": h.w, "h": h.h, "pad": 0, "off": 0, "seed": seed, "kind": seed % 7}
        if h.comps != picture(s)[1]:
            return
        d = picture(s)[0]
        if seed % 2 or not h.g.data.flags.writeable:
            h.g.data = d
        elif h.fmt != 0x2906 and seed % 3:
            for a, b in zip(h.g.component_data, pix_arrays(d, h.fmt, h.comps)):
                a[:, :] = b
            d = bytearray(bytes(h.g))
            with env.oracle("component data"):
                for n, a in read_planes(d, h.fmt, h.w, h.h, h.comps).items():
                    env.check((a == getattr(h.g.component_data, n)).all(), "changed", "component %s differs", n)
        else:
            h.g.data[:] = np.frombuffer(d, h.g.data.dtype)
        h.data = bytes(d)
        env.fault("grain-changed-by-its-user")

    def op_file(self, which, short):
        h = self.pick(which)
        if len(self.hs) > 9 or h.fmt not in PIX or any(c["offset"] for c in h.comps[:1]) or not h.own:
            return
        g = reread(self.w.env, h.g, short)
        with self.w.env.oracle("the grain read"):
            self.w.env.check(bytes(g) == h.data, "wrong-file", "not the data that was written")
        h2 = Holder(g, h.fmt, h.w, h.h, h.comps, h.data, True)
        h2.made = h.made
        self.hs.append(h2)
        self.w.env.probe("through-file")

    def op_register(self, alpha):
        if not self.w.threaded:
            register(alpha)

    def op_refuse(self, on):
        if not self.w.threaded:
            custom["fail"] = bool(on)


class World:
    pass


def valid(case):
    for s in case["sources"]:
        if (s["fmt"] not in FMT and s["fmt"] != RGBA and s["fmt"] not in NEVER[:4]) or not 1 <= s["w"] <= 200 or \
                not 1 <= s["h"] <= 20 or not 0 <= s["pad"] <= 8 or not 0 <= s["off"] <= 8:
            raise SkipCase()
        if (s["pad"] or s["off"]) and s["fmt"] not in PADDABLE or not ok_size(s["fmt"], s["w"], s["h"]):
            raise SkipCase()
        if s["fmt"] not in PIX and s["via"] in ("file", "made"):
            raise SkipCase()
        if s["pad"] % 2 or s["off"] % 2 or len(s["times"]) != 2:
            raise SkipCase()
        if any(len(s[k]) != 2 or min(s[k]) < 1 for k in ("rate", "dur")):
            raise SkipCase()
    if not case["sources"] or not case["users"] or case["gap"] < 1:
        raise SkipCase()


def execute(env, case):
    valid(case)
    w = World()
    w.env, w.case = env, case
    w.converted = w.again = 0
    w.flows = {}
    w.noise = Noise(env, case)
    w.threaded = bool(case["threads"] and len(case["users"]) > 1)
    register(0)
    saved = npr.random_sample, npr.default_rng
    npr.seed(case["nseed"] & 0xffffffff)
    npr.random_sample = w.noise
    npr.default_rng = lambda seed=None: saved[1](case["nseed"] if seed is None else seed)
    switches = 0
    try:
        w.users = []
        w.sources = [source(env, s) for s in case["sources"]]
        w.users = [User(w, n, ops) for n, ops in enumerate(case["users"])]
        for h in w.sources:
            w.users[0].same(h, "to start with")
        if w.threaded:
            t = Threads(env, case["gap"])
            t.run([u.run for u in w.users])
            switches = t.switches
            if switches:
                env.faults["thread-preempted"] += switches
        else:
            todo = [list(u.ops) for u in w.users]
            while any(todo):
                i = [k for k, ops in enumerate(todo) if ops]
                i = i[env.choose(len(i))]
                w.users[i].do(todo[i].pop(0))
    finally:
        npr.random_sample, npr.default_rng = saved
        register(0)
    for u in w.users:
        for h in u.hs:
            u.same(h, "at the end")
    if w.noise.extreme:
        env.faults["extreme-noise"] += w.noise.extreme
    if w.again:
        env.probe("converted-again")
    env.nontrivial = bool(w.converted and (w.noise.extreme or w.noise.failed or w.again or switches))
