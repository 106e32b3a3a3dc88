"""G16: every view of a grain agrees with its history; copies are independent."""
import asyncio
import io
import json
import warnings
from copy import copy, deepcopy
from decimal import Decimal
from fractions import Fraction
from uuid import UUID

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import gsf
from ..loop import run_async

import numpy as np  # noqa: E402
from mediagrains import GrainFactory  # noqa: E402
from mediagrains import grains as BG  # noqa: E402
from mediagrains import numpy as NG  # noqa: E402
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout  # noqa: E402
from mediagrains.utils.iobytes import IOBytes  # noqa: E402
from mediatimestamp.immutable import TimeOffset, TimeRange, Timestamp  # noqa: E402
import mediagrains.numpy.convert  # noqa: E402,F401

warnings.simplefilter("ignore", DeprecationWarning)
warnings.simplefilter("ignore", RuntimeWarning)

ID = "G16"
RUNS = {"quick": 60000, "thorough": 700000}
RULE = ("A case is one grain of any type (also as numpy grain, with data given directly, arriving later or still in a "
        "file) and up to four users of it, who at random times change and look at it through all its interfaces, copy "
        "it deeply, convert it, write it to a file, and go on with the copies. After every step everything that can be "
        "read from every grain and every list element taken earlier is compared with a plain model. Non-trivial: the "
        "grain was changed at least twice, through two different interfaces or after it was copied. Reads of deferred data "
        "fail, and awaits are cancelled.")
REAL = ["mediagrains.grains", "mediagrains.numpy grains and conversions", "mediagrains.utils.iobytes",
        "mediagrains.gsf encoder"]
STUB = ["clock and selector (virtual time)", "numpy.random (seeded)"]
ASSUMPTIONS = ["The meta dictionary and the data element handed to a constructor belong to the grain afterwards.",
               "Numpy grains keep format and dimensions, or are given new data when these have changed.",
               "What a shallow copy shares with its original is not looked at."]

COMMON = ["src_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"]
KWARGS = COMMON + ["cog_frame_format", "cog_frame_layout", "origin_width", "origin_height", "coded_width", "coded_height",
                   "is_key_frame", "temporal_offset", "unit_offsets", "cog_audio_format", "samples", "channels",
                   "sample_rate", "priming", "remainder", "event_type", "topic", "width", "height"]
KWARG_DEFAULTS = {"origin_width": 1920, "origin_height": 1080, "samples": 0, "channels": 0,
                  "sample_rate": 48000, "priming": 0, "remainder": 0}
SECTION_DEFAULTS = {
    1: {"format": 0xfffffffe, "width": 0, "height": 0, "layout": 0xfffffffe, "extension": 0, "components": []},
    2: {"format": 0xfffffffe, "layout": 0xfffffffe, "origin_width": 0, "origin_height": 0, "coded_width": 0,
        "coded_height": 0, "length": 0, "unit_offsets": []},
    3: {"format": 0xffffffff, "samples": 0, "channels": 0, "sample_rate": 0},
    4: {"format": 0xffffffff, "samples": 0, "channels": 0, "priming": 0, "remainder": 0, "sample_rate": 48000},
    5: {"type": "", "topic": "", "data": []},
}

CLS = {0: BG.Grain, 1: BG.VideoGrain, 2: BG.CodedVideoGrain, 3: BG.AudioGrain, 4: BG.CodedAudioGrain, 5: BG.EventGrain}
NPCLS = {1: NG.VideoGrain, 3: NG.AudioGrain}
SECT = {1: "cog_frame", 2: "cog_coded_frame", 3: "cog_audio", 4: "cog_coded_audio", 5: "event_payload"}
NAME = {0: "Grain", 1: "VideoGrain", 2: "CodedVideoGrain", 3: "AudioGrain", 4: "CodedAudioGrain", 5: "EventGrain"}

# ---------------------------------------------------------------------------------------------------------------------
# array layouts: code -> (kind, bytes per value, parameters, names of the components)

YUV, RGB, BGR = "YUV", "RGB", "BGR"
PIX = {}
for _c in (0x2000, 0x2001, 0x2003, 0x2804, 0x2805, 0x2807, 0x3004, 0x3005, 0x3007, 0x4004, 0x4005, 0x4007, 0x8008, 0x8009,
           0x800b):
    PIX[_c] = ("planar", {0: 1, 4: 2, 8: 4}[_c & 0xc], (_c & 1, _c >> 1 & 1), YUV)
for _c in (0x2010, 0x2814, 0x3014, 0x4014, 0x8018):
    PIX[_c] = ("planar", {0: 1, 4: 2, 8: 4}[_c & 0xc], (0, 0), RGB)
PIX[0x2101] = ("packed", 1, (4, ((1, 2), (0, 4), (2, 4))), YUV)
PIX[0x2100] = ("packed", 1, (4, ((0, 2), (1, 4), (3, 4))), YUV)
PIX[0x4105] = ("packed", 2, (4, ((1, 2), (0, 4), (2, 4))), YUV)
PIX[0x2104] = ("packed", 1, (6, ((0, 3), (1, 3), (2, 3))), RGB)
for _c, _n in ((0x2110, RGB), (0x2114, RGB), (0x2112, BGR), (0x2116, BGR)):
    PIX[_c] = ("packed", 1, (8, ((0, 4), (1, 4), (2, 4))), _n)
for _c, _n in ((0x2111, RGB), (0x2115, RGB), (0x2113, BGR), (0x2117, BGR)):
    PIX[_c] = ("packed", 1, (8, ((1, 4), (2, 4), (3, 4))), _n)
PIX[0x2906] = ("v210", 4, None, "")
SND = {0: (2, "<i2"), 1: (2, "<i2"), 2: (2, "<i2"), 4: (4, "<i4"), 5: (3, "<u1"), 6: (3, "<u1"), 8: (4, "<i4"),
       9: (4, "<i4"), 10: (4, "<i4"), 0x18: (4, "<f4"), 0x19: (4, "<f4"), 0x1a: (4, "<f4"), 0x2c: (8, "<f8"),
       0x2d: (8, "<f8"), 0x2e: (8, "<f8")}


def strided(shape, dt, data, off, strides):
    """np.ndarray doesn't check this properly"""
    end = off + sum((n - 1) * x for n, x in zip(shape, strides)) + np.dtype(dt).itemsize
    if end > len(data):
        raise ValueError("too short")
    return np.ndarray(shape, dt, data, off, strides)


def pix_layout(fmt, w, h, pad=0, off=0):
    """components [w, h, stride, length, offset] and the number of bytes"""
    kind, bpv, par, _ = PIX[fmt]
    out, at = [], off * bpv
    if kind == "planar":
        for c in range(3):
            cw, ch = (w >> par[0], h >> par[1]) if c else (w, h)
            stride = (cw + pad) * bpv
            out.append([cw, ch, stride, stride * ch, at])
            at += stride * ch
    else:
        stride = (w + 47) // 48 * 128 if kind == "v210" else w * par[0] * bpv // 2 + pad * bpv
        out.append([w, h, stride, stride * h, at])
        at += stride * h
    return out, at


def pix_arrays(data, fmt, comps):
    """the components in some bytes, [x, y]"""
    kind, bpv, par, _ = PIX[fmt]
    dt = "<u%d" % bpv
    out = []
    if kind == "planar":
        for c in comps:
            out.append(strided((c["width"], c["height"]), dt, data, c["offset"], (bpv, c["stride"])))
    elif kind == "packed":
        c = comps[0]
        for first, step in par[1]:
            out.append(strided((c["width"] * 2 // step if par[0] == 4 else c["width"], c["height"]), dt, data,
                                  c["offset"] + first * bpv, (step * bpv, c["stride"])))
    return out


def snd_size(fmt, ch, samples):
    if fmt not in SND:
        return 0
    return (ch + (ch & 1) if fmt & 3 == 1 else ch) * samples * SND[fmt][0]


def snd_arrays(data, fmt, ch, samples):
    size, dt = SND[fmt]
    if fmt in (4, 5, 6):
        if size == 3:
            b = np.frombuffer(bytes(data), "<u1").reshape((-1, 3)).astype("<u4")
            v = (b[:, 0] << 8 | b[:, 1] << 16 | b[:, 2] << 24).astype("<u4").view("<i4")
        else:
            v = (np.frombuffer(bytes(data), "<u4") << 8).astype("<u4").view("<i4")
        data, size, dt = bytearray(v.tobytes()), 4, "<i4"
    if fmt & 3 and len(data) < (ch + (ch & 1) if fmt & 3 == 1 else ch) * samples * size:
        return []
    out = []
    for c in range(ch):
        if not samples:
            out.append(np.zeros(0, dt))
        elif fmt & 3 == 0:
            # (short data gives short planes)
            out.append(np.frombuffer(data, dt)[c * samples:(c + 1) * samples])
        elif fmt & 3 == 1:
            out.append(strided((samples,), dt, data, (c // 2 * 2 * samples + c % 2) * size, (2 * size,)))
        else:
            out.append(strided((samples,), dt, data, c * size, (ch * size,)))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# cases

def gen_pix(rng):
    fmt = rng.choice(sorted(PIX))
    w = 2 * rng.choice([1, 1, 2, 3, 4, 6]) if fmt != 0x2906 else rng.choice([6, 12, 48, 50])
    plain = fmt == 0x2906 or rng.randrange(3) > 0
    return [fmt, w, 2 * rng.randrange(1, 3), 0 if plain else 2 * rng.randrange(3), 0 if plain else 2 * rng.randrange(3)]


def gen_snd(rng):
    return [rng.choice(sorted(SND)), rng.choice([1, 2, 2, 3, 4]), rng.choice([0, 1, 2, 5, 11])]


LIST_OPS = ["append", "append", "insert", "insert", "set", "set", "del", "delslice", "pop", "popi", "setslice", "extend",
            "iadd", "clear", "reverse", "remove", "index", "count", "contains", "get", "getslice", "self-extend",
            "reversed"]


def gen_list_op(rng):
    return [rng.choice(LIST_OPS), rng.randrange(-4, 5), rng.randrange(-4, 5), rng.randrange(64), rng.randrange(8)]


def gen_op(rng, t, npg):
    k = rng.choice(["attr"] * 4 + ["tl"] * 3 + ["tlset", "tlel", "tlel", "meta", "data", "poke", "deepcopy", "copy",
                                                "encode", "take", "take", "look", "eq", "await", "rebuild"])
    if t == 1 and not npg and rng.randrange(3) == 0:
        k = rng.choice(["comp", "comp", "compel", "compel", "npwrap"])
    elif t == 2 and rng.randrange(3) == 0:
        k = rng.choice(["uo", "uo", "uoset"])
    elif t == 5 and rng.randrange(2) == 0:
        k = rng.choice(["ev", "evset", "evel", "evel", "evel", "evmeta"])
    elif npg and rng.randrange(3) == 0:
        k = rng.choice(["reform", "convert", "convert", "asformat", "poke", "poke"] if t == 1 else ["reform", "poke"])
    h = rng.randrange(4)
    n, m = rng.randrange(1 << 16), rng.randrange(1 << 16)
    if k in ("tl", "comp", "uo"):
        return [k, h, gen_list_op(rng)]
    if k in ("convert", "asformat"):
        return [k, h, rng.choice(sorted(PIX))]
    if k == "reform":
        return [k, h, gen_pix(rng) if t == 1 else gen_snd(rng), n, rng.randrange(5)]
    return [k, h, n, m]


def generate(rng, tier):
    npg = rng.randrange(5) < 2
    d = M.gen_grain(rng, 1, 9, [rng.choice([1, 1, 3])] if npg else None)
    shape = None
    if npg:
        shape = gen_pix(rng) if d["t"] == 1 else gen_snd(rng)
    make = rng.choice(["factory", "class", "args", "kw"])
    if d["t"] == 0:
        make = rng.choice(["factory", "factory", "kw"])
    users = rng.choice([1, 1, 2, 3, 4])
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9, 14])):
        ops.append([rng.randrange(users), rng.choice([0, 0, 0, 1, 2, 5])] + gen_op(rng, d["t"], npg))
    return {"d": d, "np": npg, "shape": shape, "make": make, "users": users, "ops": ops,
            "form": rng.choice(["bytes", "bytes", "bytearray", "bytearray", "memoryview", "none", "iobytes", "await"]),
            "after": rng.choice([0, 1, 2, 4, 8]), "n": rng.randrange(1 << 16),
            # bits: what isn't given to the constructor, how the rest is, what can't be made a grain of
            "lack": rng.choice([0] * 12 + [(1 << 18) - 1] + [1 << rng.randrange(18)] * 4 +
                               [rng.randrange(1 << 18) & rng.randrange(1 << 18)] * 4),
            "as": rng.randrange(64) if rng.randrange(3) == 0 else 0, "bad": rng.randrange(12)}


def valid(case):
    try:
        d, npg = case["d"], case["np"]
        M.need_valid([d], 9)
        if npg and d["t"] not in (1, 3):
            raise SkipCase()
        if case["make"] not in ("factory", "class", "args", "kw") or (d["t"] == 0 and case["make"] not in ("factory", "kw")):
            raise SkipCase()
        if not 0 <= case["lack"] < 1 << 18 or not 0 <= case["as"] < 64 or not 0 <= case["bad"] < 99:
            raise SkipCase()
        if case["form"] not in ("bytes", "bytearray", "memoryview", "none", "iobytes", "await"):
            raise SkipCase()
        if not 1 <= case["users"] <= 8 or not 0 <= case["after"] < 100 or not 0 <= case["n"] < 1 << 16:
            raise SkipCase()
        shapes = [case["shape"]] if npg else []
        for op in case["ops"]:
            u, at, k, h = op[:4]
            if not 0 <= u < case["users"] or not 0 <= at < 100 or not isinstance(h, int) or h < 0:
                raise SkipCase()
            if k in ("tl", "comp", "uo"):
                o, i, j, n, v = op[4]
                if o not in LIST_OPS or not all(isinstance(x, int) for x in (i, j, n, v)) or n < 0 or v < 0 or \
                        abs(i) > 9 or abs(j) > 9:
                    raise SkipCase()
            elif k in ("convert", "asformat"):
                if op[4] not in PIX or not npg or d["t"] != 1:
                    raise SkipCase()
            elif k == "reform":
                if not npg:
                    raise SkipCase()
                shapes.append(op[4])
                if not 0 <= op[5] < 1 << 16 or not 0 <= op[6] < 9:
                    raise SkipCase()
            elif not (0 <= op[4] < 1 << 16 and 0 <= op[5] < 1 << 16):
                raise SkipCase()
        for s in shapes:
            if d["t"] == 1:
                fmt, w, h, pad, off = s
                if fmt not in PIX or not (0 < w < 60 and w % 2 == 0 and 0 < h < 9 and h % 2 == 0 and 0 <= pad < 9 and
                                          0 <= off < 9 and pad % 2 == 0 and off % 2 == 0):
                    raise SkipCase()
                if fmt == 0x2906 and (pad or off or w < 6):
                    raise SkipCase()
            else:
                fmt, ch, samples = s
                if fmt not in SND or not (0 < ch < 9 and 0 <= samples < 50):
                    raise SkipCase()
    except (KeyError, TypeError, ValueError, IndexError):
        raise SkipCase()


# ---------------------------------------------------------------------------------------------------------------------
# the model

def ns_of(s):
    neg = s.startswith("-")
    sec, _, ns = s.lstrip("-").partition(":")
    v = int(sec) * 10**9 + int(ns or 0)
    return -v if neg else v


def plain(x):
    """What some metadata says, however it is said"""
    return json.loads(json.dumps(x))


def norm(meta, t):
    m = plain(meta)
    g = m["grain"]
    for k in ("origin_timestamp", "sync_timestamp", "creation_timestamp"):
        g[k] = ns_of(g[k])
    for k in ("source_id", "flow_id"):
        g[k] = str(UUID(g[k]))
    g.setdefault("timelabels", [])
    if t == 2:
        g["cog_coded_frame"].setdefault("unit_offsets", [])
    return m


class Holder:
    """A grain, and what it has to be"""

    def __init__(self, g, t, npg, meta, data):
        self.g, self.t, self.np = g, t, npg
        self.meta = meta          # normal form, see norm()
        self.data = data          # None or bytearray
        self.pending = None
        self.views = []           # (what, object, model dict)
        self.fmt = None           # arrays were made for this
        self.wide = None
        self.tight = True
        self.fixed = False        # the data can't be written to

    @property
    def m(self):
        return self.meta["grain"]

    @property
    def s(self):
        return self.meta["grain"][SECT[self.t]]

    def arrays_made(self):
        """the arrays of a numpy grain follow the parameters it had when it was given its data"""
        if not self.np:
            return
        if self.data is None:
            self.fmt = None
        elif self.t == 1:
            self.fmt = (self.s["format"], deepcopy(self.s["components"]))
        else:
            self.fmt = (self.s["format"], self.s["channels"], self.s["samples"])
            self.wide = bytearray(self.data)

    def arrays(self):
        if self.fmt is None:
            return []
        try:
            if self.t == 1:
                return pix_arrays(self.data, *self.fmt)
            return snd_arrays(self.wide if self.fmt[0] in (4, 5, 6) else self.data, *self.fmt)
        except (TypeError, ValueError):
            # the data is too short for them
            return []


def fr(x):
    return Fraction(x["numerator"], x["denominator"])


def fdict(f):
    return {"numerator": f.numerator, "denominator": f.denominator}


TS = ("origin_timestamp", "sync_timestamp", "creation_timestamp")
ATTRS = {
    0: ["source_id", "src_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"],
    1: ["cog_frame_format", "format", "cog_frame_layout", "layout", "width", "height", "extension", "source_aspect_ratio",
        "pixel_aspect_ratio"],
    2: ["cog_frame_format", "format", "cog_frame_layout", "layout", "origin_width", "origin_height", "coded_width",
        "coded_height", "is_key_frame", "temporal_offset", "source_aspect_ratio", "pixel_aspect_ratio"],
    3: ["cog_audio_format", "format", "samples", "channels", "sample_rate"],
    4: ["cog_audio_format", "format", "samples", "channels", "sample_rate", "priming", "remainder"],
    5: ["event_type", "topic"],
}


def set_attr(h, name, n, v):
    """Sets an attribute of the model; returns what to set the real one to"""
    m = h.m
    if name in ("source_id", "src_id", "flow_id"):
        u = M.uid("g16", n % 5)
        m["flow_id" if name == "flow_id" else "source_id"] = str(u)
        return [u, str(u), u.hex, str(u).upper()][v % 4]
    if name in TS:
        sec, ns = [n, 0, 2**40 + n, n % 7][v // 4 % 4], [0, n % 10**9, 999999999, n * 7919 % 10**9][n % 4]
        sign = -1 if v % 3 == 0 and (sec or ns) else 1
        m[name] = sign * (sec * 10**9 + ns)
        return [Timestamp(sec, ns, sign), TimeOffset(sec, ns, sign), ("-" if sign < 0 else "") + "%d:%d" % (sec, ns)][v % 3]
    if name in ("rate", "duration", "source_aspect_ratio", "pixel_aspect_ratio"):
        f = [Fraction(n % 61 + 1, [1, 2, 1001][v % 3]), Fraction(n % 100), Fraction(n % 50, 4), Fraction(n % 300, 100),
             Fraction(n % 99 + 1, n % 13 + 1)][n % 5]
        if "aspect" in name and not f:
            f = Fraction(16, 9)
        (m if name in ("rate", "duration") else h.s)[name] = fdict(f)
        if v % 5 == 0:
            return str(f)
        if v % 5 == 1 and Fraction(float(f)) == f:
            return float(f)
        if v % 5 == 2 and 100 % f.denominator == 0:
            return Decimal(f.numerator) / Decimal(f.denominator)
        if v % 5 == 3 and f.denominator == 1:
            return int(f)
        return f
    if name in ("cog_frame_format", "format", "cog_audio_format"):
        if h.t in (1, 2):
            x = CogFrameFormat((M.VFMT if h.t == 1 else M.CVFMT)[n % len(M.VFMT if h.t == 1 else M.CVFMT)])
        else:
            x = CogAudioFormat((M.AFMT if h.t == 3 else M.CAFMT)[n % len(M.AFMT if h.t == 3 else M.CAFMT)])
        h.s["format"] = int(x)
        return int(x) if v % 2 else x
    if name in ("cog_frame_layout", "layout"):
        x = CogFrameLayout(M.LAYOUT[n % len(M.LAYOUT)])
        h.s["layout"] = int(x)
        return int(x) if v % 2 else x
    if name == "is_key_frame":
        x = [True, False, None][n % 3]
        h.s.pop(name, None)
        if x is not None:
            h.s[name] = x
        return int(x) if x is not None and v % 2 else x
    if name == "temporal_offset":
        x = [None, 0, -1, n, -n][n % 5]
        h.s.pop(name, None)
        if x is not None:
            h.s[name] = x
        return x
    if name in ("event_type", "topic"):
        x = ["", "x%d" % n, "\u00e9\u4e2d", "\U0001f600\"\\"][n % 4]
        h.s["type" if name == "event_type" else "topic"] = x
        return x
    x = [n, 0, 1, 65535, n % 97][v % 5]
    h.s[name] = x
    return x


def attempt(f):
    try:
        return f()
    except (ValueError, ArithmeticError) as e:
        return type(e).__name__


def expected_attrs(h):
    m, t = h.m, h.t
    out = {"grain_type": M.TYPES[t]}
    for k in ("source_id", "flow_id"):
        out[k] = UUID(m[k])
    out["src_id"] = out["source_id"]
    for k in TS:
        out[k] = Timestamp.from_nanosec(m[k])
    out["rate"], out["duration"] = fr(m["rate"]), fr(m["duration"])
    ots = out["origin_timestamp"]
    final, media, toff = ots, None, None
    if t in (1, 2):
        s = h.s
        out["cog_frame_format"] = out["format"] = CogFrameFormat(s["format"])
        out["cog_frame_layout"] = out["layout"] = CogFrameLayout(s["layout"])
        for k in ("source_aspect_ratio", "pixel_aspect_ratio"):
            out[k] = fr(s[k]) if k in s else None
        media = out["rate"] or None
        if t == 1:
            for k in ("width", "height", "extension"):
                out[k] = s[k]
            out["expected_length"] = max([0] + [c["offset"] + c["length"] for c in s["components"]])
        else:
            for k in ("origin_width", "origin_height", "coded_width", "coded_height"):
                out[k] = s[k]
            out["is_key_frame"], out["temporal_offset"] = s.get("is_key_frame"), s.get("temporal_offset")
            if media is not None and out["temporal_offset"] is not None:
                toff = (out["temporal_offset"], media)
    elif t in (3, 4):
        s = h.s
        out["cog_audio_format"] = out["format"] = CogAudioFormat(s["format"])
        for k in ("samples", "channels", "sample_rate") + (("priming", "remainder") if t == 4 else ()):
            out[k] = s[k]
        if s["sample_rate"]:
            media = Fraction(s["sample_rate"])
            final = attempt(lambda: ots + TimeOffset.from_count(s["samples"] - 1, s["sample_rate"], 1))
        if t == 3:
            out["expected_length"] = snd_size(s["format"], s["channels"], s["samples"])
    elif t == 5:
        out["event_type"], out["topic"] = h.s["type"], h.s["topic"]
    out["media_rate"] = media
    out["final_origin_timestamp()"] = final
    calls = {}
    if not isinstance(final, str):
        calls["origin_timerange()"] = lambda: TimeRange(ots, final, TimeRange.INCLUSIVE)
        shift = TimeOffset.from_count(toff[0], toff[1].numerator, toff[1].denominator) if toff else None
        calls["presentation_origin_timestamp"] = lambda: ots if toff is None else ots + shift
        calls["final_presentation_origin_timestamp()"] = lambda: final if toff is None else final + shift
        calls["presentation_origin_timerange()"] = lambda: TimeRange(
            ots if toff is None else ots + shift, final if toff is None else final + shift, TimeRange.INCLUSIVE)
        calls["normalise_time"] = lambda: ots if media is None else ots.normalise(media.numerator, media.denominator)
    for k, f in calls.items():
        out[k] = attempt(f)
    return out


def read_attr(g, k):
    if k == "normalise_time":
        return attempt(lambda: g.normalise_time(g.origin_timestamp))
    return attempt(lambda: getattr(g, k[:-2])() if k.endswith("()") else getattr(g, k))


def label(n, v):
    """A time label: the model's, and one to hand in"""
    f = Fraction(n % 60, [1, 1, 1001][n % 3])
    m = {"tag": ["", "t%d" % (n % 5), "\u00e9" * 4][n % 3],
         "timelabel": {"frames_since_midnight": n % 11, "frame_rate_numerator": f.numerator,
                       "frame_rate_denominator": f.denominator, "drop_frame": bool(n & 1)}}
    x = deepcopy(m)
    if v % 4 == 1:
        x = BG.Grain.TIMELABEL(x)
    elif v % 4 == 2:
        del x["timelabel"]["drop_frame"]
        m["timelabel"]["drop_frame"] = False
        if n % 2:
            del x["tag"]
            m["tag"] = ""
    elif v % 4 == 3:
        x = BG.Grain.TIMELABEL()
        x.tag, x.count, x.rate, x.drop_frame = m["tag"], m["timelabel"]["frames_since_midnight"], f, n & 1
    return m, x


def component(n, v):
    m = {"stride": n % 7, "offset": n % 50, "width": n % 5, "height": n % 3, "length": n % 31}
    return m, BG.VideoGrain.COMPONENT(dict(m)) if v % 2 else dict(m)


def datum(n):
    m = {"path": "/%d" % (n % 9)}
    val = [0, "", "x", [1, [n % 5]], {"a": n % 5}, True, 1.5, False]
    if n & 16:
        m["pre"] = deepcopy(val[n // 32 % 8])
    if n & 512:
        m["post"] = deepcopy(val[n // 1024 % 8])
    return m


def value(h, n):
    """data of the right size for the grain as it is"""
    if h.np:
        if h.t == 1:
            size = max(c["offset"] + c["length"] for c in h.s["components"])
        else:
            size = snd_size(h.s["format"], h.s["channels"], h.s["samples"])
    else:
        size = [0, 1, 7, n % 40][n % 4]
    b = M.payload(n, size, 0)
    if h.np and h.t == 3 and h.s["format"] >= 0x18:
        # no NaN, which is not equal to itself
        b = bytes(x & 0x3f for x in b)
    return b


class Flaky(io.BytesIO):
    """A file some of whose reads fail"""
    failing = 0

    def read(self, n=-1):
        if self.failing:
            self.failing -= 1
            raise OSError(5, "read")
        return super().read(n)


class Raw:
    """Something that can only give its bytes"""

    def __init__(self, b):
        self.b = bytes(b)

    def __bytes__(self):
        return self.b

    def __eq__(self, other):
        return isinstance(other, (Raw, bytes, bytearray, memoryview, IOBytes)) and self.b == bytes(other)


class World:
    def __init__(self, env, case, loop):
        self.env, self.case, self.loop = env, case, loop
        self.hs = []
        self.changes = set()
        self.awaitables = []
        self.file = None

    # -- comparing ----------------------------------------------------------------------------------------------------
    def same(self, h, what):
        env, g = self.env, h.g
        with env.oracle(what):
            got = norm(g.meta, h.t)
            if got != h.meta:
                env.fail("wrong-metadata", "%s: %s", what, M.diff(h.meta, got))
            for k, v in expected_attrs(h).items():
                x = read_attr(g, k)
                env.check(x == v and type(x) is type(v), "wrong-attribute", "%s: %s is %r, not %r", what, k, x, v)
            self.labels(h, what)
            if h.t == 1:
                self.components(h, what)
            elif h.t == 2:
                uo = h.s["unit_offsets"]
                env.check(list(g.unit_offsets) == uo and len(g.unit_offsets) == len(uo) and g.unit_offsets == uo and
                          not g.unit_offsets != uo, "wrong-list", "%s: unit offsets are %r, not %r", what,
                          list(g.unit_offsets), uo)
                env.check(repr(g.unit_offsets) == repr(uo), "wrong-list", "%s: repr of unit offsets", what)
            elif h.t == 5:
                self.events(h, what)
            self.data(h, what)
            for what2, obj, ref in h.views:
                self.element(what2, obj, ref, "%s: %s taken before" % (what, what2))

    def labels(self, h, what):
        env, g, ref = self.env, h.g, h.m["timelabels"]
        tl = g.timelabels
        env.check(len(tl) == len(ref), "wrong-list", "%s: %d time labels, not %d", what, len(tl), len(ref))
        for i, r in enumerate(ref):
            self.element("label", tl[i], r, "%s: label %d" % (what, i))
            env.check(tl[i - len(ref)] == r, "wrong-list", "%s: label %d from the end", what, i)
        env.check([dict(x) for x in tl] == ref and [dict(x) for x in tl[:]] == ref and tl == ref and not tl != ref,
                  "wrong-list", "%s: the time labels are %r, not %r", what, list(tl), ref)

    def element(self, kind, x, r, what):
        env = self.env
        if kind == "label":
            t = r["timelabel"]
            got = (dict(x), x["tag"], x["timelabel"], x.tag, x.count, x.rate, x.drop_frame, len(x), x == r, x != r)
            want = (r, r["tag"], t, r["tag"], t["frames_since_midnight"],
                    Fraction(t["frame_rate_numerator"], t["frame_rate_denominator"]), t["drop_frame"], 2, True, False)
        elif kind == "component":
            got = (dict(x), x.stride, x.offset, x.width, x.height, x.length, x["stride"], len(x), x == r, x != r)
            want = (r, r["stride"], r["offset"], r["width"], r["height"], r["length"], r["stride"], len(r), True, False)
        else:
            got = (dict(x), x.path, x.pre, x.post, x["path"], len(x), sorted(x), x == r, x != r)
            want = (r, r["path"], r.get("pre"), r.get("post"), r["path"], len(r), sorted(r), True, False)
        env.check(got == want, "wrong-list", "%s is %r, not %r", what, got, want)

    def components(self, h, what):
        env, ref = self.env, h.s["components"]
        cs = h.g.components
        env.check(len(cs) == len(ref), "wrong-list", "%s: %d components, not %d", what, len(cs), len(ref))
        for i, r in enumerate(ref):
            self.element("component", cs[i], r, "%s: component %d" % (what, i))
        env.check([dict(x) for x in cs] == ref and [dict(x) for x in cs[:]] == ref and cs == ref and not cs != ref,
                  "wrong-list", "%s: the components are %r, not %r", what, list(cs), ref)

    def events(self, h, what):
        env, ref = self.env, h.s["data"]
        ev = h.g.event_data
        env.check(len(ev) == len(ref), "wrong-list", "%s: %d event data, not %d", what, len(ev), len(ref))
        for i, r in enumerate(ref):
            self.element("datum", ev[i], r, "%s: datum %d" % (what, i))
        env.check(ev == ref, "wrong-list", "%s: event data", what)

    def data(self, h, what):
        env, g = self.env, h.g
        env.check(len(g) == 2 and g[0] is g.meta and g[-2] is g.meta and g[:1] == (g.meta,), "wrong-tuple",
                  "%s: the metadata in the tuple", what)
        if h.t == 5:
            d = g.data
            env.check(json.loads(d) == h.s, "wrong-data", "%s: payload is %.200r, not %.200r", what, d, h.s)
            env.check(g.length == len(d) and g[1] == d and g[1:] == (d,), "wrong-data", "%s: length %d, not %d", what,
                      g.length, len(d))
            env.check(g == (g.meta, d), "wrong-tuple", "%s: not equal to its tuple", what)
            return
        want = h.data
        d = g.data
        if want is None:
            env.check(d is None and not g.has_data() and g[1] is None, "wrong-data", "%s: has data %.40r", what, d)
            env.check(g.data_is_pending() == (h.pending is not None), "wrong-data", "%s: pending", what)
            env.check(g.length == 0, "wrong-length", "%s: no data, length is %d", what, g.length)
        else:
            env.check(d is not None and g.has_data() and not g.data_is_pending(), "wrong-data", "%s: no data", what)
            env.check(bytes(g) == bytes(want) and bytes(d) == bytes(want) and bytes(g[1]) == bytes(want) and
                      bytes(g[-1]) == bytes(want), "wrong-data", "%s: the data is %.60s, not %.60s", what,
                      bytes(g).hex(), want.hex())
            env.check(g.length == len(want), "wrong-length", "%s: length is %d, not %d", what, g.length, len(want))
        if h.t in (0, 2, 4):
            env.check(g.expected_length == len(want or b""), "wrong-length", "%s: expected length is %d, not %d", what,
                      g.expected_length, len(want or b""))
        if not h.np:
            env.check(g == (g.meta, d), "wrong-tuple", "%s: not equal to its tuple", what)
            env.check(repr(g).startswith(NAME[h.t] + "("), "wrong-tuple", "%s: repr %.30r", what, g)
            return
        ref = h.arrays()
        got = g.component_data if h.t == 1 else g.channel_data
        env.check(len(got) == len(ref), "wrong-arrays", "%s: %d arrays, not %d", what, len(got), len(ref))
        for i, (a, b) in enumerate(zip(got, ref)):
            env.check(a.shape == b.shape and a.dtype == b.dtype, "wrong-arrays", "%s: array %d is %r %r, not %r %r", what,
                      i, a.shape, a.dtype, b.shape, b.dtype)
            env.check(a.tobytes() == b.tobytes(), "wrong-arrays", "%s: array %d is %r, not %r", what, i, a.tolist(),
                      b.tolist())
        if h.t == 1 and ref:
            for name, i in zip(PIX[h.fmt[0]][3], range(3)):
                env.check(getattr(got, name) is got[i], "wrong-arrays", "%s: component %s is not array %d", what, name, i)

    def all(self, what):
        for i, h in enumerate(self.hs):
            h.views = [v for v in h.views if any(v[2] is x for x in self.elements(h, v[0]))]
            self.same(h, "%s: grain %d" % (what, i))

    def elements(self, h, kind):
        return h.m["timelabels"] if kind == "label" else h.s["components" if kind == "component" else "data"]

    # -- making -------------------------------------------------------------------------------------------------------
    def make(self):
        env, case, d = self.env, self.case, self.case["d"]
        t, npg = d["t"], case["np"]
        meta = M.meta_of(d)
        form = case["form"]
        if npg:
            self.shape_meta(meta["grain"][SECT[t]], t, case["shape"])
        kw = case["make"] == "kw"
        if kw:
            g0 = meta["grain"]
            kwargs = {"src_id": UUID(g0["source_id"]), "flow_id": UUID(g0["flow_id"]),
                      "origin_timestamp": Timestamp.from_nanosec(ns_of(g0["origin_timestamp"])),
                      "sync_timestamp": Timestamp.from_nanosec(ns_of(g0["sync_timestamp"])),
                      "creation_timestamp": Timestamp.from_nanosec(ns_of(g0["creation_timestamp"])),
                      "rate": fr(g0["rate"]), "duration": fr(g0["duration"])}
            for k in ("rate", "duration"):
                g0[k] = fdict(kwargs[k])
            g0.pop("timelabels", None)
            s = g0.get(SECT.get(t))
            if t in (1, 2):
                kwargs.update(cog_frame_format=CogFrameFormat(s["format"]), cog_frame_layout=CogFrameLayout(s["layout"]))
                for k in ("source_aspect_ratio", "pixel_aspect_ratio"):
                    s.pop(k, None)
            if t == 1:
                fmt, w, hh = case["shape"][:3] if npg else gen_plain(d)
                kwargs.update(cog_frame_format=CogFrameFormat(fmt), width=w, height=hh)
                s.update(format=fmt, width=w, height=hh, extension=0)
                s["components"] = [dict(zip(("width", "height", "stride", "length", "offset"), c))
                                   for c in pix_layout(fmt, w, hh)[0]]
            elif t == 2:
                for k in ("origin_width", "origin_height", "coded_width", "coded_height", "is_key_frame",
                          "temporal_offset", "unit_offsets"):
                    if k in s:
                        kwargs[k] = deepcopy(s[k])
            elif t in (3, 4):
                kwargs["cog_audio_format"] = CogAudioFormat(s["format"])
                if t == 3 and not npg:
                    s["samples"], s["channels"] = s["samples"] % 50, s["channels"] % 5
                for k in ("samples", "channels", "sample_rate") + (("priming", "remainder") if t == 4 else ()):
                    kwargs[k] = s[k]
            elif t == 5:
                kwargs.update(event_type=s["type"], topic=s["topic"]) if s else kwargs.update(
                    event_type=d["p"]["type"], topic=d["p"]["topic"])
            lacking = self.lacking(kwargs, KWARGS)
            if t == 0:
                lacking = [k for k in lacking if k not in ("src_id", "flow_id")]
            if t == 1:
                lacking = [k for k in lacking if k in COMMON or k == "cog_frame_layout" or
                           k == "width" or (k == "height" and "width" not in lacking)]
                w, hh = 1920 if "width" in lacking else w, 1080 if "height" in lacking else hh
                s.update(width=w, height=hh)
                s["components"] = [dict(zip(("width", "height", "stride", "length", "offset"), c))
                                   for c in pix_layout(fmt, w, hh)[0]]
            elif npg:
                lacking = [k for k in lacking if k in COMMON or k == "sample_rate"]
            for k in lacking:
                del kwargs[k]
                if k in KWARG_DEFAULTS:
                    s[k] = KWARG_DEFAULTS[k]
                elif k in ("coded_width", "coded_height"):
                    s[k] = s["origin" + k[5:]]
                elif k in ("is_key_frame", "temporal_offset", "unit_offsets"):
                    s.pop(k)
                elif k in ("cog_audio_format", "cog_frame_format"):
                    s["format"] = 0xffffffff if k == "cog_audio_format" else 0xfffffffe
                elif k == "cog_frame_layout":
                    s["layout"] = 0xfffffffe
                elif k in ("rate", "duration"):
                    g0[k] = fdict([Fraction(25), Fraction(1, 25)][k == "duration"] if t else Fraction(0))
                elif k in ("src_id", "flow_id"):
                    g0["flow_id" if k == "flow_id" else "source_id"] = str(UUID(int=0))
            if t == 0:
                form = "none"
        h = Holder(None, t, npg, None, None)
        if kw and t == 5:
            meta["grain"]["event_payload"] = {"type": "" if "event_type" in lacking else d["p"]["type"],
                                              "topic": "" if "topic" in lacking else d["p"]["topic"], "data": []}
        elif t == 5:
            meta["grain"]["event_payload"] = json.loads(M.event_bytes(d))
        h.meta = norm(meta, t)
        if t == 2:
            h.s.setdefault("length", 0)
        if not kw:
            lacking = self.lack_meta(h, meta)
        before = Timestamp.get_time().to_nanosec()
        self.bad_grains(h, meta)
        b = bytearray(value(h, case["n"]))
        if kw and t == 1 and not npg:
            b = bytearray(max(c["offset"] + c["length"] for c in h.s["components"]))
        data, h.data = self.formed(h, form, b)
        if kw and data is None and t:
            # made up by the constructor
            size = {1: lambda: len(b), 3: lambda: snd_size(h.s["format"], h.s["channels"], h.s["samples"])}.get(
                t, lambda: 0)()
            if t == 1:
                size = max(c["offset"] + c["length"] for c in h.s["components"])
            elif t == 2 and case["n"] & 1:
                size = kwargs["length"] = case["n"] % 41
            h.data = bytearray(size)
        elif data is None and t not in (0, 5):
            h.data = bytearray()
            if npg:
                # (there is nothing arrays could be made of)
                data, h.data = bytes(b), bytearray(b)
        if form == "await" and h.data is None and t == 5:
            data = M.event_bytes(d)
        h.fixed = not isinstance(data, bytearray) and data is not None
        cls = NPCLS[t] if npg else CLS[t]
        if kw and t == 0:
            h.g = GrainFactory(**kwargs)
        elif kw:
            if data is not None and t != 5:
                kwargs["data"] = data
            h.g = cls(**kwargs)
        elif case["make"] == "factory" and not npg:
            h.g = GrainFactory(meta, None if t == 5 else data)
        elif case["make"] == "class":
            h.g = cls(meta=meta, data=None if t == 5 else data)
        else:
            h.g = cls(meta, None if t == 5 else data)
        if npg and t == 1:
            h.tight = kw or not (case["shape"][3] or case["shape"][4])
        if "creation_timestamp" in lacking:
            ns = h.g.creation_timestamp.to_nanosec()
            env.check(before < ns < Timestamp.get_time().to_nanosec(), "wrong-attribute",
                      "made at %d, but created at %d", before, ns)
            h.m["creation_timestamp"] = ns
        if "origin_timestamp" in lacking:
            h.m["origin_timestamp"] = h.m["creation_timestamp"]
        if "sync_timestamp" in lacking:
            h.m["sync_timestamp"] = h.m["origin_timestamp"]
        h.arrays_made()
        self.hs.append(h)
        if self.file is not None and not npg and t != 5 and len(b):
            self.fail_reads(h.g, case["n"])

    def lacking(self, given, order):
        """what of the things given to the constructor isn't, after all"""
        bits = self.case["lack"]
        return [k for i, k in enumerate(order) if bits >> (i if i < 16 else i - 9) & 1 and k in given]

    def lack_meta(self, h, meta):
        """Metadata needn't be complete, nor made of text and numbers alone"""
        case, t, g = self.case, h.t, meta["grain"]
        section = SECT.get(t)
        order = ["source_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"]
        lacking = self.lacking(g, order)
        for k in lacking:
            del g[k]
            if k in ("source_id", "flow_id"):
                h.m[k] = str(UUID(int=0))
            elif k in ("rate", "duration"):
                h.m[k] = fdict(Fraction(0))
        bits, how = case["lack"] >> 7, case["as"]
        if bits & 1:
            meta.pop("@_ns")
        if bits & 2 and (t == 0 or h.np or case["make"] != "factory"):
            del g["grain_type"]
        if bits & 4 and g.get("timelabels") == []:
            del g["timelabels"]
        if section is not None and not h.np:
            if bits & 8:
                del g[section]
                h.m[section] = deepcopy(SECTION_DEFAULTS[t])
            elif t != 1:
                for i, k in enumerate(SECTION_DEFAULTS[t]):
                    if bits >> 4 + i & 1:
                        g[section].pop(k, None)
                        h.s[k] = deepcopy(SECTION_DEFAULTS[t][k])
        if lacking == order and section not in g and "grain_type" not in g and not g.get("timelabels") and \
                (h.np or case["make"] != "factory" or t == 0):
            del meta["grain"]
        for k in ("source_id", "flow_id"):
            if how & 1 and k in g:
                g[k] = UUID(g[k])
        for k in TS:
            if how & 6 and k in g:
                ns = h.m[k]
                g[k] = (Timestamp if how & 2 else TimeOffset).from_nanosec(ns)
        for i, k in enumerate(("rate", "duration")):
            if how >> 3 + i & 1 and k in g:
                g[k] = fr(g[k])
                h.m[k] = fdict(g[k])
        return lacking

    def bad_grains(self, h, meta):
        """None of these is made"""
        env, n, t = self.env, self.case["bad"], h.t
        cls = NPCLS[t] if h.np else CLS[t]
        ids = {"src_id": UUID(int=1), "flow_id": UUID(int=2)}
        if n < 4:
            k, x = ["src_id", "flow_id"][n % 2], ["urn:x", 5][n // 2]
            tries = [lambda: (cls if t else GrainFactory)(**{**ids, k: x})]
            if t == 0:
                tries += [lambda: GrainFactory(**{**ids, k: None})]
            want = AttributeError
        elif n < 8 and t == 0:
            tries, want = [lambda: BG.Grain(None, None)], ValueError
        elif n < 11:
            bad = deepcopy(meta) if not isinstance(meta, dict) or "grain" in meta else {"grain": {}}
            bad["grain"][TS[n % 3]] = [5, 1.5, None, b"1:0"][n % 4]
            tries, want = [lambda: cls(bad, None), lambda: GrainFactory(bad, None)], ValueError
        else:
            return
        for f in tries:
            try:
                g = f()
            except want:
                env.fault("impossible-grain")
            else:
                env.fail("wrong-attribute", "a grain was made of nonsense: %r" % (g,))

    def fail_reads(self, g, n):
        """the data can't be loaded at first"""
        env = self.env
        uses = [lambda: bytes(g), lambda: bytes(g.data), lambda: g.data[0], lambda: g == (g.meta, b""),
                lambda: deepcopy(g), lambda: list(g.data)]
        for k in range(n % 4):
            if not isinstance(g.data, IOBytes):
                break
            self.file.failing = 1
            env.fault("read-eio")
            try:
                uses[n // 4 % 97 * (k + 1) % len(uses)]()
            except OSError:
                pass
            else:
                env.check(self.file.failing, "wrong-data", "a read error was ignored")
            self.file.failing = 0
            env.check(g.length == len(g.data), "wrong-length", "after a read error: length is %d", g.length)

    def shape_meta(self, s, t, shape):
        if t == 1:
            fmt, w, h, pad, off = shape
            s.update(format=fmt, width=w, height=h)
            s["components"] = [dict(zip(("width", "height", "stride", "length", "offset"), c))
                               for c in pix_layout(fmt, w, h, pad, off)[0]]
        else:
            s.update(format=shape[0], channels=shape[1], samples=shape[2])

    def formed(self, h, form, b):
        """Some bytes as a data element, and what becomes of the model's data"""
        if h.t == 5:
            return None, None
        if form == "none":
            return None, None
        if form == "bytearray":
            return bytearray(b), b
        if form == "memoryview":
            return memoryview(bytes(b)), b
        if form == "iobytes":
            n = self.case["n"] % 9
            self.file = Flaky(b"x" * n + bytes(b) + b"y")
            return IOBytes(self.file, n, len(b)), b
        if form == "await":
            src = {}

            async def arrive():
                await asyncio.sleep(self.case["after"] * 0.001)
                if h.pending is src:
                    h.pending = None
                    h.data = bytearray(b)
                    h.fixed = True
                    h.arrays_made()
                return bytes(b)
            h.pending = src
            c = arrive()
            self.awaitables.append(c)
            return c, None
        return bytes(b), b

    # -- acting -------------------------------------------------------------------------------------------------------
    def change(self, kind):
        self.changes.add(kind)
        if len(self.changes) > 1:
            self.env.nontrivial = True

    def holder(self, i):
        return self.hs[i % len(self.hs)]

    def note(self, h, kind, i):
        """someone keeps an element of a list"""
        ref = self.elements(h, kind)
        if not ref:
            return
        i %= len(ref)
        lst = {"label": lambda: h.g.timelabels, "component": lambda: h.g.components, "datum": lambda: h.g.event_data}[kind]()
        h.views.append((kind, lst[i], ref[i]))
        del h.views[:-6]

    def handed_in(self, x, was, what):
        self.env.check(plain_of(x) == was, "input-changed", "%s: what was handed in has become %r, was %r", what, plain_of(x),
                       was)

    def list_op(self, h, kind, op):
        env, g = self.env, h.g
        what, i, j, n, v = op
        if kind == "tl":
            lib, ref, mk = (lambda: g.timelabels), h.m["timelabels"], label
        elif kind == "comp":
            lib, ref, mk = (lambda: g.components), h.s["components"], component
        else:
            lib, ref, mk = (lambda: g.unit_offsets), h.s["unit_offsets"], lambda n, v: (n, n)
        mine, theirs = mk(n, v)
        if kind == "tl" and v == 7:
            # an element of another grain's list
            for o in self.hs:
                if o.m["timelabels"]:
                    k = n % len(o.m["timelabels"])
                    mine, theirs = deepcopy(o.m["timelabels"][k]), o.g.timelabels[k]
                    break
        more, theirs2 = mk(n + 1, v + 1)
        was, was2 = plain_of(theirs), plain_of(theirs2)
        L = lib()
        size = len(ref)

        def both(f, f2=None):
            out = []
            for fn, arg in ((f, ref), (f2 or f, L)):
                try:
                    out.append(plain_of(fn(arg)))
                except (IndexError, ValueError) as e:
                    out.append(type(e).__name__)
            env.check(out[0] == out[1], "wrong-list", "%s of the %s list of %d gives %r, not %r", op, kind, size, out[1],
                      out[0])
        cut = slice([None, i][n & 1], [None, j][n >> 1 & 1], [None, 1, 2, -1][n >> 2 & 3])
        if what == "append":
            both(lambda x: x.append(mine), lambda x: x.append(theirs))
        elif what == "insert":
            both(lambda x: x.insert(i, mine), lambda x: x.insert(i, theirs))
        elif what == "set":
            def put(x, e):
                x[i] = e
            both(lambda x: put(x, mine), lambda x: put(x, theirs))
        elif what == "del":
            both(lambda x: x.__delitem__(i))
        elif what == "delslice":
            both(lambda x: x.__delitem__(cut))
        elif what == "pop":
            both(lambda x: x.pop())
        elif what == "popi":
            both(lambda x: x.pop(i))
        elif what == "setslice":
            # not always as many as there are
            k = max(0, len(ref[cut]) + [0, 0, 0, 1, 2, -1, -2, 0][v])
            if k != len(ref[cut]):
                h.views = [x for x in h.views if x[0] != {"tl": "label", "comp": "component"}.get(kind)]
            es = [mk(n + 3 * q, v + q) for q in range(k)]

            def puts(x, e):
                x[cut] = e
            both(lambda x: puts(x, [e[0] for e in es]), lambda x: puts(x, [e[1] for e in es]))
        elif what in ("extend", "iadd"):
            def more_of(x, e):
                if what == "extend":
                    x.extend(e)
                else:
                    x += e
            both(lambda x: more_of(x, [mine, more]), lambda x: more_of(x, [theirs, theirs2]))
        elif what == "self-extend":
            if size > 12:
                return
            ref.extend([deepcopy(x) for x in ref])
            L.extend(lib())
        elif what == "clear":
            both(lambda x: x.clear())
        elif what == "reverse":
            both(lambda x: x.reverse())
        elif what == "remove":
            e = deepcopy(ref[i % size]) if size else mine
            both(lambda x: x.remove(e))
        elif what == "index":
            e = deepcopy(ref[i % size]) if size and v else mine
            both(lambda x: x.index(e))
        elif what == "count":
            e = deepcopy(ref[i % size]) if size and v else mine
            both(lambda x: x.count(e))
        elif what == "contains":
            e = deepcopy(ref[i % size]) if size and v else mine
            both(lambda x: e in x)
        elif what == "get":
            both(lambda x: x[i])
        elif what == "getslice":
            both(lambda x: list(x[cut]))
        elif what == "reversed":
            both(lambda x: list(reversed(x)))
        if what in ("del", "delslice", "pop", "popi", "remove", "clear") and size and not ref and kind in ("tl", "uo"):
            # with the last one goes the list
            m = g.meta["grain"] if kind == "tl" else g.meta["grain"]["cog_coded_frame"]
            env.check(("timelabels" if kind == "tl" else "unit_offsets") not in m, "list-left",
                      "%s: the grain still has a list, of nothing", op)
        self.handed_in(theirs, was, op)
        self.handed_in(theirs2, was2, op)
        if what in ("reverse", "set", "setslice"):
            self.changes.add(kind)
        if kind == "tl" and v == 7:
            return
        spoil(theirs)
        spoil(theirs2)

    def do(self, op):
        env = self.env
        kind = op[0]
        h = self.holder(op[1])
        g, args = h.g, op[2:]
        env.ev("op", kind)
        if kind in ("tl", "comp", "uo"):
            if (kind == "comp" and (h.t != 1 or h.np)) or (kind == "uo" and h.t != 2):
                return
            if args[0][0] == "reverse":
                # which of the elements taken before are which now is open
                h.views = [x for x in h.views if x[0] != {"tl": "label", "comp": "component"}.get(kind)]
            self.list_op(h, kind, args[0])
            self.change(kind)
        elif kind == "attr":
            n, v = args
            names = ATTRS[0] + (ATTRS[h.t] if h.t else [])
            if h.np:
                names = [x for x in names if x not in ("format", "cog_frame_format", "cog_audio_format", "width", "height",
                                                       "samples", "channels")]
            name = names[n % len(names)]
            x = set_attr(h, name, v, n // 64)
            setattr(g, name, x)
            self.change("attr")
        elif kind == "tlset":
            self.set_labels(h, *args)
        elif kind == "tlel":
            self.edit_label(h, *args)
        elif kind == "compel":
            n, v = args
            if h.t != 1 or h.np or not h.s["components"]:
                return
            i = n % len(h.s["components"])
            k = ("stride", "offset", "width", "height", "length")[v % 5]
            c = self.kept(h, "component", i) or h.g.components[i]
            h.s["components"][i][k] = v
            if v & 64:
                c[k] = v
            else:
                setattr(c, k, v)
            self.change("component")
        elif kind == "uoset":
            n, v = args
            if h.t != 2:
                return
            new = [(n * k) % 1000 for k in range(v % 5)]
            arg = [list(new), tuple(new), iter(new), None, g.unit_offsets][n % 5]
            if n % 5 == 3:
                new = []
            elif n % 5 == 4:
                new = list(h.s["unit_offsets"])
            g.unit_offsets = arg
            h.s["unit_offsets"] = list(new)
            if isinstance(arg, list):
                env.check(arg == new, "input-changed", "unit offsets handed in")
                arg.append(5)
            self.change("uo")
        elif kind == "ev":
            n, v = args
            if h.t != 5:
                return
            m = datum(n)
            g.append(m["path"], **{k: deepcopy(x) for k, x in m.items() if k != "path"})
            h.s["data"].append(m)
            self.change("ev")
        elif kind == "evset":
            self.set_events(h, *args)
        elif kind == "evel":
            self.edit_event(h, *args)
        elif kind == "evmeta":
            n, v = args
            if h.t != 5:
                return
            m = datum(n)
            if v // 3 % 3 == 0 and h.s["data"]:
                # another element in the place of one
                i = v % len(h.s["data"])
                g.meta["grain"]["event_payload"]["data"][i] = deepcopy(m)
                h.s["data"][i] = m
            elif v // 3 % 3 == 1 and len(h.s["data"]) > 1:
                g.meta["grain"]["event_payload"]["data"].reverse()
                h.s["data"].reverse()
            elif v % 3 == 0:
                g.meta["grain"]["event_payload"]["data"].append(deepcopy(m))
                h.s["data"].append(m)
            elif v % 3 == 1 and h.s["data"]:
                del g.meta["grain"]["event_payload"]["data"][0]
                del h.s["data"][0]
            else:
                g.meta["grain"]["event_payload"]["topic"] = m["path"]
                h.s["topic"] = m["path"]
            self.change("meta")
        elif kind == "meta":
            self.edit_meta(h, *args)
        elif kind == "data":
            self.set_data(h, *args)
        elif kind == "poke":
            self.poke(h, *args)
        elif kind == "reform":
            self.reform(h, *args)
        elif kind == "take":
            n, v = args
            kinds = ["label"] + (["component"] if h.t == 1 else ["datum"] if h.t == 5 else [])
            self.note(h, kinds[n % len(kinds)], v)
        elif kind == "deepcopy":
            if h.pending is not None or len(self.hs) > 4:
                return
            self.add_copy(h, deepcopy(g), "the deep copy")
            env.probe("deepcopy")
        elif kind == "copy":
            if h.pending is not None:
                return
            h2 = self.twin(h, copy(g))
            self.same(h2, "the copy")
        elif kind == "eq":
            self.equal(h, *args)
        elif kind in ("convert", "asformat"):
            self.convert(h, kind, args[0])
        elif kind == "npwrap":
            self.np_wrap(h)
        elif kind == "rebuild":
            # another grain of what this one says
            if h.pending is not None:
                return
            b = None if h.t == 5 else g.data
            g2 = (NPCLS[h.t](meta=plain(g.meta), data=b"" if b is None else bytes(b)) if h.np and h.data is not None else
                  GrainFactory(plain(g.meta), g.data) if not h.np else None)
            if g2 is not None and (h.data is not None or h.t == 5):
                self.same(self.twin(h, g2), "another grain with the same metadata and data")
        elif kind == "encode":
            self.encode()
        elif kind == "look":
            repr(g)
            list(g)
            hasattr(g, "nothing")
            n = args[0] % 99 if args else 3
            try:
                g.length = n
                set_it = True
            except AttributeError:
                set_it = False
            env.check(set_it == (h.pending is not None), "wrong-length", "the length of a grain %s data that is awaited was %s",
                      "with" if h.pending is not None else "without", "set" if set_it else "refused")
            if set_it:
                env.check(g.length == n, "wrong-length", "the length said to come is %d, not %d", g.length, n)
                g.length = 0

    def kept(self, h, kind, i):
        ref = self.elements(h, kind)[i]
        for k, obj, r in h.views:
            if r is ref:
                return obj
        return None

    def twin(self, h, g):
        h2 = Holder(g, h.t, h.np, deepcopy(h.meta), None if h.data is None else bytearray(h.data))
        h2.fmt, h2.wide, h2.tight = deepcopy(h.fmt), deepcopy(h.wide), h.tight
        if h.np:
            h2.arrays_made()
        return h2

    def add_copy(self, h, g, what):
        env = self.env
        h2 = self.twin(h, g)
        env.check(type(g) is type(h.g), "wrong-copy", "%s is a %s", what, type(g).__name__)
        env.check(g is not h.g and g.meta is not h.g.meta, "wrong-copy", "%s shares its metadata", what)
        self.same(h2, what)
        with env.oracle(what):
            env.check(g == h.g and not g != h.g and h.g == g, "wrong-copy", "%s is not equal to the grain", what)
        h2.fixed = h.fixed and not h.np
        self.hs.append(h2)

    def equal(self, h, n, v):
        env, g = self.env, h.g
        o = self.holder(n)
        if h.pending is not None or o.pending is not None:
            return
        with env.oracle("comparing"):
            want = o is h or (h.meta == o.meta and (h.t == 5 or (h.data is None) == (o.data is None) and
                                                    bytes(h.data or b"") == bytes(o.data or b"")) and h.t == o.t)
            if not want and h.meta == o.meta and h.t == o.t:
                env.probe("differ-in-data-only")
            # (timestamps and ids can be written in several ways)
            same_text = plain(g.meta) == plain(o.g.meta)
            env.check((g == o.g) == (want and same_text), "wrong-comparison", "the grains compare as %r", g == o.g)
            env.check((g != o.g) == (not (want and same_text)), "wrong-comparison", "the grains compare as %r", g == o.g)
            env.check(not g == 5 and g != "x" and not g == (1, 2, 3) and g != None, "wrong-comparison",  # noqa: E711
                      "the grain is equal to something else")

    def set_labels(self, h, n, v):
        g = h.g
        how = n % 7
        h.views = [x for x in h.views if x[0] != "label"]
        if how == 0:
            g.timelabels = g.timelabels
        elif how == 1:
            g.timelabels = []
            h.m["timelabels"] = []
        elif how in (2, 3):
            pairs = [label(n + 7 * k, v + k) for k in range(v % 4)]
            arg = [x for _, x in pairs]
            was = [plain_of(x) for x in arg]
            g.timelabels = arg if how == 2 else iter(arg)
            h.m["timelabels"] = [m for m, _ in pairs]
            for x, w in zip(arg, was):
                self.handed_in(x, w, "time labels")
                spoil(x)
            arg.append(5)
        elif how == 4:
            o = self.holder(v)
            g.timelabels = o.g.timelabels
            h.m["timelabels"] = deepcopy(o.m["timelabels"])
        elif how == 5:
            f = Fraction(n % 60, 1001)
            g.add_timelabel("a%d" % (v % 9), v % 99, f, bool(v & 1))
            h.m["timelabels"].append({"tag": "a%d" % (v % 9), "timelabel": {
                "frames_since_midnight": v % 99, "frame_rate_numerator": f.numerator,
                "frame_rate_denominator": f.denominator, "drop_frame": bool(v & 1)}})
        else:
            if len(h.m["timelabels"]) > 12:
                return
            ms = [label(n, v)[0]]
            g.timelabels += [deepcopy(ms[0])]
            h.m["timelabels"] += ms
        self.change("tlset")

    def edit_label(self, h, n, v):
        ref = h.m["timelabels"]
        if not ref:
            return
        i = n % len(ref)
        r = ref[i]
        x = self.kept(h, "label", i) if v & 1 else None
        if x is None:
            x = h.g.timelabels[i - (len(ref) if v & 2 else 0)]
        k = v // 4 % 5
        if k == 0:
            x.tag = r["tag"] = "e%d" % (v % 7)
        elif k == 1:
            x.count = r["timelabel"]["frames_since_midnight"] = v
        elif k == 2:
            f = Fraction(v % 60, 1001)
            x.rate = f if v & 32 else str(f)
            r["timelabel"]["frame_rate_numerator"], r["timelabel"]["frame_rate_denominator"] = f.numerator, f.denominator
        elif k == 3:
            r["timelabel"]["drop_frame"] = bool(v & 32)
            x.drop_frame = v & 32
        else:
            x["tag"] = r["tag"] = "i%d" % (v % 7)
        self.change("label")

    def set_events(self, h, n, v):
        env, g = self.env, h.g
        if h.t != 5:
            return
        views, h.views = h.views, []
        ms = [datum(n + 37 * k) for k in range(v % 4)]
        how = n % 5
        if how == 0:
            arg = deepcopy(ms)
            g.event_data = arg
            env.check(arg == ms, "input-changed", "event data handed in")
            for x in arg:
                x["path"] = "spoilt"
            arg.append(5)
        elif how == 1:
            o = self.holder(v)
            g.event_data = o.g.event_data
            ms = deepcopy(o.s["data"])
        elif how == 2:
            g.event_data = g.event_data[::-1]
            ms = h.s["data"][::-1]
        else:
            p = {"type": "T%d" % (v % 3), "topic": ["", "\u00e9"][v % 2], "data": ms}
            if v & 64 and ms:
                ms[0]["pre"] = None
            if n // 5 % 6 == 0:
                # not what the data of an event is
                for k in [("type",), ("topic",), ("data",), ("type", "topic"), ("topic", "data"), ("data", "type"),
                          ("data", "type", "topic")][n // 30 % 7]:
                    del p[k]
                text = json.dumps(p)
                try:
                    g.data = text if how == 3 else text.encode("utf-8")
                except ValueError:
                    h.views = views
                    return
                env.fail("accepted", "event data without all of its parts was accepted: %s", text)
            text = json.dumps(dict(p, data=[dict(x, extra=1) for x in ms] if v & 32 else ms), ensure_ascii=bool(v & 16))
            g.data = text if how == 3 else text.encode("utf-8")
            h.s["type"], h.s["topic"] = p["type"], p["topic"]
        h.s["data"] = ms
        self.change("evset")

    def edit_event(self, h, n, v):
        if h.t != 5 or not h.s["data"]:
            return
        i = n % len(h.s["data"])
        r = h.s["data"][i]
        x = self.kept(h, "datum", i) if v & 1 else None
        if x is None:
            x = h.g.event_data[i]
        k = v // 2 % 7
        val = [0, "", [n % 4], {"q": n % 4}, False, n][v // 16 % 6]
        if k == 0:
            x.path = r["path"] = "/e%d" % (v % 9)
        elif k in (1, 2):
            name = ("pre", "post")[k - 1]
            setattr(x, name, deepcopy(val))
            r[name] = val
        elif k in (3, 4):
            name = ("pre", "post")[k - 3]
            setattr(x, name, None)
            r.pop(name, None)
        elif k == 5:
            x["post"] = deepcopy(val)
            r["post"] = val
        else:
            try:
                del r["pre"]
                want = None
            except KeyError:
                want = "KeyError"
            try:
                del x["pre"]
                got = None
            except KeyError:
                got = "KeyError"
            self.env.check(got == want, "wrong-list", "deleting a key of a datum gives %r, not %r", got, want)
        self.change("datum")

    def edit_meta(self, h, n, v):
        """straight in the dictionary"""
        gm = h.g.meta["grain"]
        how = n % 6
        if how == 0:
            u = str(M.uid("g16", v % 5))
            gm["source_id"] = h.m["source_id"] = u
        elif how == 1:
            gm["sync_timestamp"] = "%d:%d" % (v, n)
            h.m["sync_timestamp"] = v * 10**9 + n
        elif how == 2:
            h.views = [x for x in h.views if x[0] != "label"]
            ms = [label(n + 5 * k, 0)[0] for k in range(v % 3)]
            h.m["timelabels"] = ms
            gm["timelabels"] = deepcopy(ms)
        elif how == 3:
            h.views = [x for x in h.views if x[0] != "label"]
            h.m["timelabels"] = []
            gm.pop("timelabels", None)
        elif how == 4:
            gm["rate"] = {"numerator": v, "denominator": 4}
            h.m["rate"] = {"numerator": v, "denominator": 4}
        elif h.t == 1 and not h.np:
            m = component(v, 0)[0]
            gm["cog_frame"]["components"].append(dict(m))
            h.s["components"].append(m)
        elif h.t == 2:
            gm["cog_coded_frame"]["unit_offsets"] = [v, n]
            h.s["unit_offsets"] = [v, n]
        elif h.t == 5:
            gm["event_payload"]["type"] = h.s["type"] = "m%d" % (v % 5)
        self.change("meta")

    def set_data(self, h, n, v):
        g = h.g
        if h.t == 5:
            return
        if v % 6 == 0:
            g.data = None
            h.data, h.pending, h.fmt = None, None, None
        else:
            if h.np and len(h.s.get("components", [1])) == 0:
                return
            b = value(h, n)
            if h.np and v % 7 == 0:
                # not all of it has come
                b = b[:n % (len(b) // 24 + 1) * 24]
            form = v % 6
            g.data = [None, b, bytearray(b), memoryview(b), bytes(b) if h.np or v // 6 % 3 else Raw(b),
                      np.frombuffer(bytearray(b), dtype=np.uint8) if h.np and b else bytearray(b)][form]
            h.data, h.pending = bytearray(b), None
            h.fixed = form not in (2, 5)
            h.arrays_made()
        self.change("data")

    def reform(self, h, shape, n, form):
        if not h.np or h.pending is not None:
            return
        g, s = h.g, h.s
        self.shape_meta(s, h.t, shape)
        h.views = [x for x in h.views if x[0] == "label"]
        if h.t == 1:
            g.cog_frame_format = CogFrameFormat(shape[0])
            g.width, g.height = shape[1:3]
            del g.components[:]
            for c in s["components"]:
                g.components.append(dict(c))
            h.tight = not (shape[3] or shape[4])
        else:
            g.cog_audio_format, g.channels, g.samples = CogAudioFormat(shape[0]), shape[1], shape[2]
        self.set_data(h, n, form + 1)
        self.change("reform")

    def poke(self, h, n, v):
        """into the data, in place"""
        g = h.g
        if h.data is None or not len(h.data) or h.t == 5:
            return
        d = g.data
        if not h.np:
            if isinstance(d, bytearray) and len(d):
                d[n % len(d)] = v & 255
                h.data[n % len(h.data)] = v & 255
                self.change("poke")
            return
        self.env.check(d.flags.writeable == (not h.fixed) or h.fixed, "wrong-data", "the data can't be written to")
        if not d.flags.writeable:
            return
        if h.t == 3 and (h.fmt is None or h.fmt[0] in (4, 5, 6)):
            return
        ref = h.arrays()
        arrs = g.component_data if h.t == 1 else g.channel_data
        if v & 1 and len(ref) and ref[n % len(ref)].size:
            k = n % len(ref)
            at = tuple(v % q for q in ref[k].shape)
            arrs[k][at] = v % 100
            ref[k][at] = v % 100
        else:
            size = d.itemsize
            i = n % len(d)
            d[i] = v % 100
            h.data[i * size:(i + 1) * size] = np.array([v % 100], d.dtype).tobytes()
        self.change("poke")

    def convert(self, h, how, fmt):
        env, g = self.env, h.g
        if not h.np or h.t != 1 or h.data is None or h.pending is not None or len(self.hs) > 4:
            return
        if h.s["format"] == 0x2906 and not h.tight:
            return
        if len(h.data) < max(c["offset"] + c["length"] for c in h.s["components"]):
            return
        try:
            out = getattr(g, how)(CogFrameFormat(fmt))
        except NotImplementedError:
            env.check((h.s["format"], fmt) not in MUST_CONVERT, "wrong-copy", "can't convert %x to %x", h.s["format"], fmt)
            return
        env.probe(how)
        if fmt == h.s["format"]:
            if how == "asformat":
                env.check(out is g, "wrong-copy", "asformat made another grain of the same format")
            else:
                self.add_copy(h, out, "the converted grain")
            return
        env.check(out is not g, "wrong-copy", "%s gives the grain itself", how)
        with env.oracle("the converted grain"):
            m = norm(out.meta, 1)
            for k in ("source_id", "origin_timestamp", "sync_timestamp"):
                env.check(m["grain"][k] == h.m[k], "wrong-copy", "%s: %s is %r, not %r", how, k, m["grain"][k], h.m[k])
            for k in ("rate", "duration"):
                env.check(fr(m["grain"][k]) == fr(h.m[k]), "wrong-copy", "%s: %s is %r, not %r", how, k, m["grain"][k],
                          h.m[k])
            s = m["grain"]["cog_frame"]
            env.check(m["grain"]["flow_id"] != h.m["flow_id"], "wrong-copy", "%s: the flow id is the same", how)
            comps, size = pix_layout(fmt, h.s["width"], h.s["height"])
            want = {"format": fmt, "width": h.s["width"], "height": h.s["height"], "layout": h.s["layout"],
                    "components": [dict(zip(("width", "height", "stride", "length", "offset"), c)) for c in comps]}
            for k, x in want.items():
                env.check(s[k] == x, "wrong-copy", "%s to %x: %s is %r, not %r", how, fmt, k, s[k], x)
            b = bytes(out)
            env.check(len(b) == size, "wrong-copy", "%s to %x: %d bytes, not %d", how, fmt, len(b), size)
        h2 = Holder(out, 1, True, m, bytearray(b))
        h2.arrays_made()
        self.same(h2, "the converted grain")
        self.hs.append(h2)

    def np_wrap(self, h):
        """a numpy grain of a grain"""
        if h.t != 1 or h.np or h.s["format"] not in PIX or h.data is None or h.pending is not None:
            return
        if [[c[k] for k in ("width", "height", "stride", "length", "offset")] for c in h.s["components"]] != \
                pix_layout(h.s["format"], h.s["width"], h.s["height"])[0] or \
                len(h.data) != pix_layout(h.s["format"], h.s["width"], h.s["height"])[1]:
            return
        if isinstance(h.g.data, IOBytes):
            return
        h2 = self.twin(h, NG.VideoGrain(grain=h.g))
        h2.np = True
        h2.arrays_made()
        self.same(h2, "a numpy grain of the grain")
        self.env.probe("np-wrap")

    def encode(self):
        env = self.env
        hs = [h for h in self.hs if h.pending is None]
        for h in hs:
            if not encodable(h):
                return
        f = io.BytesIO()
        enc = gsf.GSFEncoder(f)
        seg = enc.add_segment()
        for h in hs:
            seg.add_grain(h.g)
        enc.dump()
        try:
            got = R.parse_file(f.getvalue())["grains"]
        except R.RefError as e:
            env.fail("wrong-file", "%s", e)
        env.check(len(got) == len(hs), "wrong-file", "%d grains in the file, not %d", len(got), len(hs))
        with env.oracle("encoding"):
            for (lid, x), h in zip(got, hs):
                want = M.canon(h.g)
                if want != x:
                    env.fail("wrong-file", "in the file: %s", M.diff(want, x))
        env.probe("encode")

    async def wait(self, g):
        await g

    async def user(self, u):
        env = self.env
        for op in self.case["ops"]:
            if op[0] != u:
                continue
            await asyncio.sleep(op[1] * 0.001)
            env.step()
            if op[2] == "await":
                h = self.holder(op[3])
                if op[4] % 3 == 0 and h.pending is not None:
                    env.fault("await-cancelled")
                    task = self.loop.create_task(self.wait(h.g))
                    await asyncio.sleep(op[5] % 5 * 0.001)
                    task.cancel()
                    await asyncio.gather(task, return_exceptions=True)
                    self.all("after an await that was cancelled")
                    continue
                await h.g
                env.check(h.pending is None, "wrong-data", "awaited, but there is no data")
            else:
                self.do(op[2:])
            self.all("after %s" % op[2])


MUST_CONVERT = {(0x2001, 0x2101), (0x2101, 0x2001), (0x2001, 0x2003), (0x2003, 0x2001), (0x2906, 0x2805), (0x2805, 0x2906),
                (0x2104, 0x2010), (0x2000, 0x2001), (0x4005, 0x4105)}


def gen_plain(d):
    fmt = sorted(PIX)[d["p"]["w"] % len(PIX)]
    return fmt, 2 * (d["p"]["h"] % 5 + 1), 2 * (d["p"]["ext"] % 2 + 1)


def encodable(h):
    """inside what the format can hold"""
    m, u = h.m, 1 << 32
    if any(len(x["tag"].encode()) > 16 for x in m["timelabels"]):
        return False
    if any(not (0 <= x["numerator"] < u and 0 <= x["denominator"] < u) for x in (m["rate"], m["duration"])):
        return False
    for k in ("origin_timestamp", "sync_timestamp"):
        if abs(m[k]) >= (1 << 48) * 10**9:
            return False
    if h.t == 1:
        at = 0
        for c in h.s["components"]:
            # (offsets aren't written)
            if c["offset"] != at:
                return False
            at += c["length"]
    return True


def plain_of(x):
    if isinstance(x, (BG.Grain.TIMELABEL, BG.VideoGrain.COMPONENT, BG.EventGrain.DATA)):
        x = dict(x)
    if isinstance(x, (list, tuple)):
        return [plain_of(y) for y in x]
    return deepcopy(x)


def spoil(x):
    """what was handed in is used for something else"""
    if isinstance(x, BG.Grain.TIMELABEL):
        x.tag, x.count, x.drop_frame, x.rate = "spoilt", 4711, not x.drop_frame, 7
    elif isinstance(x, BG.VideoGrain.COMPONENT):
        x.stride = x.offset = 4711
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], dict):
                spoil(x[k])
            else:
                x[k] = 4711


async def main(env, case, loop):
    np.random.seed(case["n"])
    w = World(env, case, loop)
    w.make()
    w.all("when made")
    tasks = [loop.create_task(w.user(u)) for u in range(case["users"])]
    try:
        await asyncio.gather(*tasks)
    finally:
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        for c in w.awaitables:
            c.close()
    w.all("at the end")


def execute(env, case):
    valid(case)
    run_async(env, lambda loop: main(env, case, loop))
