"""G18: comparing recordings finds every difference, and only differences."""
import copy
import io
import math
import re

import numpy as np

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import MODES, gsf, open_sync_source, quiet
from .g16 import PIX, SND, gen_pix, gen_snd, pix_arrays, pix_layout, snd_arrays, snd_size

from mediagrains import GrainFactory  # noqa: E402
from mediagrains.comparison import compare_grain, compare_grains_pairwise, compute_psnr  # noqa: E402
from mediagrains.comparison import options as O  # noqa: E402
from mediatimestamp.immutable import TimeOffset, Timestamp  # noqa: E402

ID = "G18"
RUNS = {"quick": 40000, "thorough": 1000000}
RULE = ("A case is two recordings, one an edited copy of the other (attributes, samples, missing, additional and "
        "exchanged grains), each a file read piece by piece with or without deferred data, or grains in memory, plain "
        "or numpy; comparison options; and read errors during the comparison. Non-trivial: the recordings differ, or a "
        "read error was hit.")
REAL = ["mediagrains.comparison", "mediagrains.gsf synchronous decoder", "mediagrains.grains", "mediagrains.numpy",
        "mediagrains.utils.iobytes", "io.Buffered*"]
STUB = ["raw files (short reads, read errors)"]
ASSUMPTIONS = ["No data and data of no length are not told apart.", "Zeros of different sign are not told apart.",
               "Whether data left out of a comparison is the same isn't asked for."]

COMMON = ["grain_type", "src_id", "flow_id", "rate", "duration", "length", "origin_timestamp", "sync_timestamp",
          "creation_timestamp", "timelabels"]
OWN = {0: [],
       1: ["cog_frame_format", "width", "height", "cog_frame_layout"],
       2: ["cog_frame_format", "coded_width", "coded_height", "origin_width", "origin_height", "is_key_frame",
           "temporal_offset", "cog_frame_layout", "unit_offsets"],
       3: ["cog_audio_format", "samples", "channels", "sample_rate"],
       4: ["cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder"],
       5: ["event_type", "topic", "event_data"]}
PKEY = {"cog_frame_format": "fmt", "cog_audio_format": "fmt", "cog_frame_layout": "layout", "width": "w", "height": "h",
        "coded_width": "cw", "coded_height": "ch", "origin_width": "ow", "origin_height": "oh", "is_key_frame": "key",
        "temporal_offset": "toff", "unit_offsets": "uo", "samples": "samples", "channels": "ch", "sample_rate": "sr",
        "priming": "prim", "remainder": "rem", "event_type": "type", "topic": "topic", "event_data": "data"}
ALIAS = {"src_id": "source_id", "cog_frame_format": "format", "cog_audio_format": "format",
         "cog_frame_layout": "layout"}
INTS = ["length", "width", "height", "coded_width", "coded_height", "origin_width", "origin_height", "temporal_offset",
        "samples", "channels", "sample_rate", "priming", "remainder"]
TIMES = ["origin_timestamp", "sync_timestamp", "creation_timestamp"]
EXCLUDES = COMMON + sorted({a for v in OWN.values() for a in v}) + sorted(set(ALIAS.values())) + ["data"] * 6
LISTS = ["timelabels", "unit_offsets", "event_data"]
OPS = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
       ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


# ---------------------------------------------------------------------------------------------------------------------
# cases


def gen_any(rng, n, major):
    if rng.randrange(2):
        return [M.gen_grain(rng, n, major), []]
    d = M.gen_grain(rng, n, major, [rng.choice([1, 3])])
    p = d["p"]
    if d["t"] == 1:
        fmt, w, h, pad, _ = gen_pix(rng)
        comps, size = pix_layout(fmt, w, h, pad)
        p.update(fmt=fmt, w=w, h=h, comps=[c[:4] for c in comps])
        d["len"] = size
    else:
        fmt, ch, samples = gen_snd(rng)
        p.update(fmt=fmt, ch=ch, samples=samples)
        d["len"] = snd_size(fmt, ch, samples)
        if fmt >= 0x18 and rng.randrange(4):
            d["pk"] = 1
    return [d, gen_ed(rng, d) if d["pk"] == 1 else []]


def gen_ed(rng, d):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        k = rng.choice(["xor"] * 4 + ["f"] * 2 + ["cut", "app", "ins", "del"])
        if k == "f" and not (d["t"] == 3 and d["p"]["fmt"] in SND and d["p"]["fmt"] >= 0x18):
            k = "xor"
        out.append([k, rng.choice([0, 1, rng.randrange(300), rng.randrange(1000)]),
                    rng.choice([1, 1, 2, 3, 4, 128, rng.randrange(1, 256)])])
    return out


def edit(rng, x, n, major):
    """Change one thing about a grain."""
    d, ed = copy.deepcopy(x)
    p = d.get("p")
    k = rng.randrange(14)
    other = M.gen_grain(rng, n, major, [d["t"]])
    if k < 4 and d["t"] not in (0, 5):
        return [d, ed + gen_ed(rng, d)]
    if k < 8 and p:
        key = rng.choice(sorted(p))
        p[key] = copy.deepcopy(other["p"][key])
    elif k == 8:
        d["ots" if rng.randrange(2) else "sts"] = near(rng, d["ots"], major) if rng.randrange(2) else other["ots"]
    elif k == 9:
        if d["tl"] and rng.randrange(2):
            i = rng.randrange(len(d["tl"]))
            f = rng.randrange(4)
            d["tl"][i][f] = ["x", d["tl"][i][1] ^ 1, [50, 1], 1 - d["tl"][i][3]][f]
        elif d["tl"] and rng.randrange(2):
            d["tl"].pop(rng.randrange(len(d["tl"])))
        else:
            d["tl"].insert(rng.randrange(len(d["tl"]) + 1), ["x", 1, [25, 1], 0])
    elif k == 10:
        d["cts"] = [1, 1600000000 + rng.randrange(3), rng.randrange(3)]
    elif k == 11 and d["t"] == 5 and p["data"]:
        i = rng.randrange(len(p["data"]))
        p["data"][i][rng.randrange(1, 3)] = rng.choice([None, M.gen_json(rng)])
    elif k == 12:
        y = gen_any(rng, n, major)
        for key in ("src", "flow", "ots", "sts", "rate", "dur", "tl"):
            y[0][key] = copy.deepcopy(d[key])
        return y
    else:
        key = rng.choice(["src", "flow", "rate", "dur"])
        d[key] = copy.deepcopy(other[key])
    return [d, ed]


def near(rng, t, major):
    s, sec, ns = t
    ns += rng.choice([-1, 1, 40000000])
    if not 0 <= ns < 10**9:
        ns = 5
    return [s, sec, ns]


def gen_exp(rng):
    return [rng.choice(sorted(OPS)), rng.choice([0, 0, 1, -1, rng.randrange(-9, 10), 40000000, rng.randrange(-10**9, 10**9)])]


def gen_opt(rng):
    k = rng.randrange(10)
    if k < 4:
        return ["ex", rng.choice(EXCLUDES)]
    if k < 6:
        return ["inc"] if rng.randrange(2) else ["inc", rng.choice(EXCLUDES)]
    if k < 8:
        o = ["exp", rng.choice(TIMES + INTS if rng.randrange(2) else TIMES)] + gen_exp(rng)
        return o if rng.randrange(3) else o + [rng.choice("&|")] + gen_exp(rng)
    return ["psnr", rng.choice(["<", "<=", ">", ">="]),
            [rng.choice([None, 0, 5, 8.5, 10, 20, 60, "inf"]) for _ in range(rng.choice([1, 2, 3, 3, 4]))]]


def gen_side(rng):
    s = {"kind": rng.choice(["file", "file", "obj"]), "np": rng.choice([0, 0, 1])}
    if s["kind"] == "file":
        s.update(tr=rng.choice(["bytesio", "buf", "raw", "raw"]), short=rng.randrange(3), lm=rng.randrange(3),
                 arm=rng.choice([None, None, None, None, [rng.choice([0, 1, 2, 5, rng.randrange(40)]),
                                                          rng.choice([1, 1, 2])]]))
    else:
        s.update(form=rng.choice(["bytes", "bytes", "bytearray", "memoryview", "none"]),
                 it=rng.choice(["list", "iter", "gen"]))
    return s


def generate(rng, tier):
    h = M.gen_head(rng, 2)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    a = [gen_any(rng, k, h["major"]) for k in range(n)]
    b = copy.deepcopy(a)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2])):
        if not b or rng.randrange(6) == 0:
            k = rng.choice(["drop", "ins", "swap", "end"])
            if k == "drop" and b:
                b.pop(rng.randrange(len(b)))
            elif k == "end" and b:
                b = b[:rng.randrange(len(b))]
            elif k == "swap" and len(b) > 1:
                i = rng.randrange(len(b) - 1)
                b[i], b[i + 1] = b[i + 1], b[i]
            elif len(b) < 6:
                b.insert(rng.randrange(len(b) + 1), gen_any(rng, 40, h["major"]))
        else:
            i = rng.randrange(len(b))
            b[i] = edit(rng, b[i], 50, h["major"])
    if rng.randrange(2):
        a, b = b, a
    case = {"head": h, "ga": a, "gb": b, "sa": gen_side(rng), "sb": gen_side(rng),
            "opts": [gen_opt(rng) for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3]))]}
    case["api"] = rng.choice(["pair", "pair", "single"])
    case["last"] = int(rng.randrange(4) == 0)
    case["order"] = [rng.randrange(8) for _ in range(rng.randrange(1, 6))]
    return case


def valid(case):
    try:
        h = case["head"]
        if not M.valid_head(h) or case["api"] not in ("pair", "single") or len(case["ga"]) > 20 or len(case["gb"]) > 20:
            raise SkipCase()
        for d, ed in case["ga"] + case["gb"]:
            c = d
            if d["t"] in (1, 3) and d["p"]["fmt"] in (PIX if d["t"] == 1 else SND):
                c = dict(d, p=dict(d["p"], fmt=M.VFMT[0] if d["t"] == 1 else 0))
            if not M.valid_grain(c, h["major"]):
                raise SkipCase()
            for k, a, b in ed:
                if k not in ("xor", "f", "cut", "app", "ins", "del") or not 0 <= a < 10**4 or not 0 <= b < 256 or \
                        d["t"] in (0, 5):
                    raise SkipCase()
            if "cts" in d and not (d["cts"][0] == 1 and 0 <= d["cts"][1] < 2**40 and 0 <= d["cts"][2] < 10**9):
                raise SkipCase()
        for s in (case["sa"], case["sb"]):
            if s["kind"] == "file":
                if s["tr"] not in ("bytesio", "buf", "raw") or s["short"] not in (0, 1, 2) or s["lm"] not in (0, 1, 2):
                    raise SkipCase()
                if s["arm"] is not None and not (0 <= s["arm"][0] < 1000 and 0 < s["arm"][1] < 10):
                    raise SkipCase()
            elif s["kind"] != "obj" or s["form"] not in ("bytes", "bytearray", "memoryview", "none") or \
                    s["it"] not in ("list", "iter", "gen"):
                raise SkipCase()
        for o in case["opts"]:
            if o[0] == "ex":
                ok = o[1] in EXCLUDES
            elif o[0] == "exp":
                ok = o[1] in TIMES + INTS and o[2] in OPS and -10**10 < o[3] < 10**10 and (
                    len(o) == 4 or len(o) == 7 and o[4] in ("&", "|") and o[5] in OPS and -10**10 < o[6] < 10**10)
            elif o[0] == "psnr":
                ok = o[1] in ("<", "<=", ">", ">=") and all(x is None or x == "inf" or 0 <= x < 1000 for x in o[2])
            else:
                ok = o == ["inc"] or len(o) == 2 and o[0] == "inc" and o[1] in EXCLUDES
            if not ok:
                raise SkipCase()
        for k in case["order"]:
            if not 0 <= k < 100:
                raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError, AttributeError):
        raise SkipCase()


FLOATS = [0.0, 1.0, -1.0, 0.5, 1e-30, 3e38, float("inf"), float("-inf"), float("nan"), -0.25]


def data_of(d, ed):
    """the bytes of the payload"""
    b = bytearray(M.data_of(d))
    for k, i, v in ed:
        if k == "app":
            b += bytes([v]) * (1 + i % 9)
        elif not b:
            continue
        elif k == "xor":
            b[i % len(b)] ^= v
        elif k == "cut":
            del b[len(b) - min(len(b), 1 + i % 9):]
        elif k == "ins":
            b.insert(i % (len(b) + 1), v)
        elif k == "del":
            del b[i % len(b)]
        elif k == "f":
            dt = "<f4" if d["p"]["fmt"] < 0x2c else "<f8"
            w = int(dt[2])
            at = i % len(b) // w * w
            if at + w <= len(b):
                b[at:at + w] = np.array([FLOATS[v % len(FLOATS)]]).astype(dt).tobytes()
    return bytes(b)


def npable(d, data):
    """do parameters and data make an array?"""
    p = d.get("p")
    if d["t"] == 1:
        return p["fmt"] in PIX and layout_ok(p) and len(data) == sum(c[3] for c in p["comps"]) > 0
    if d["t"] == 3:
        return p["fmt"] in SND and p["fmt"] not in (4, 5, 6) and len(data) == snd_size(p["fmt"], p["ch"], p["samples"]) > 0
    return True


def layout_ok(p):
    if p["w"] % 2 or p["h"] % 2 or not 0 < p["w"] < 100 or not 0 < p["h"] < 100:
        return False
    want, _ = pix_layout(p["fmt"], p["w"], p["h"])
    return len(want) == len(p["comps"]) and all(
        x[:2] == y[:2] and x[2] <= y[2] < 10**4 and y[3] == y[2] * y[1] for x, y in zip(want, p["comps"]))


# ---------------------------------------------------------------------------------------------------------------------
# the sides


class Side:
    """One of the recordings, and what is in it."""

    def __init__(self, env, h, s, grains):
        self.env, self.s = env, s
        self.raw = self.dec = None
        self.items = []                 # (descriptor, data), as they come out
        self.got = []
        datas = [data_of(d, ed) for d, ed in grains]
        self.np = s["np"] and all(npable(d, b) for (d, _), b in zip(grains, datas))
        if s["kind"] == "file":
            lids = [x["lid"] for x in h["segs"]]
            b = R.enc_file(h, [], terminator=False)[0]
            for i, ((d, _), x) in enumerate(zip(grains, datas)):
                b += R.enc_grain(lids[i % len(lids)], d, h["major"], data=x)
            b += R.TERMINATOR
            self.f, self.raw = open_sync_source(env, b, s)
            self.items = [(d, x or None, True) for (d, _), x in zip(grains, datas)]
        else:
            self.grains = []
            for (d, _), x in zip(grains, datas):
                if s["form"] == "none" and d["t"] not in (0, 5) and not self.np:
                    x = None
                self.items.append((d, x or None, False))
                self.grains.append(self.make(d, x))

    def parse(self, meta, data):
        if self.np:
            return M.np_parse(meta, data)
        return GrainFactory(meta, data)

    def make(self, d, x):
        m = M.meta_of(d)
        s, sec, ns = d.get("cts", [1, 1600000000, 0])
        m["grain"]["creation_timestamp"] = str(Timestamp(sec, ns, s).to_sec_nsec())
        if d["t"] == 5:
            return self.parse(m, x)
        form = self.s["form"]
        if x is not None and form == "bytearray" or self.np:
            x = bytearray(x or b"")
        elif x is not None and form == "memoryview":
            x = memoryview(x)
        return self.parse(m, x)

    def enter(self):
        if self.s["kind"] == "file":
            self.dec = gsf.GSFDecoder(file_data=self.f, parse_grain=self.parse)
            self.session = self.dec.__enter__()

    def leave(self):
        if self.dec is not None:
            if self.raw is not None:
                self.raw.rf.clear()
            self.dec.__exit__(None, None, None)

    def arm(self):
        if self.raw is not None and self.s["arm"] is not None:
            at, n = self.s["arm"]
            for k in range(n):
                self.raw.rf[self.raw.nread + at + k] = "eio"

    def disarm(self):
        if self.raw is not None:
            self.raw.rf.clear()

    def source(self):
        """The grains one after the other, as something to iterate over."""
        if self.s["kind"] == "file":
            def decoded():
                for g, _ in self.session.grains(loading_mode=MODES[self.s["lm"]]):
                    self.got.append(g)
                    yield g
            return decoded()
        if self.s["it"] == "list":
            return Counted(self.grains, self.got)
        if self.s["it"] == "iter":
            return iter(Counted(self.grains, self.got))

        def made():
            for g in self.grains:
                self.got.append(g)
                yield g
        return made()


class Counted:
    def __init__(self, grains, got):
        self.grains, self.got = grains, got

    def __iter__(self):
        for g in self.grains:
            self.got.append(g)
            yield g


# ---------------------------------------------------------------------------------------------------------------------
# the model


def value(d, data, attr):
    p = d.get("p")
    if attr == "grain_type":
        return M.TYPES[d["t"]]
    if attr in ("src_id", "flow_id"):
        return M.ids_of(d)[attr == "flow_id"]
    if attr in ("rate", "duration"):
        return M.frac(d["rate" if attr == "rate" else "dur"])
    if attr == "length":
        return len(data or b"")
    if attr in TIMES:
        return M.ts_ns(d.get("cts", [1, 1600000000, 0]) if attr[0] == "c" else d[attr[0] + "ts"])
    if attr == "timelabels":
        return [[x[0], x[1], str(M.frac(x[2])), bool(x[3])] for x in d["tl"]]
    if attr == "event_data":
        import json
        return json.loads(M.event_bytes(d))["data"]
    v = p[PKEY[attr]]
    return v or [] if attr == "unit_offsets" else v


def float_words(p, a):
    n = {0x18: 4, 0x19: 4, 0x1a: 4, 0x2c: 8, 0x2d: 8, 0x2e: 8}.get(p["fmt"])
    return np.frombuffer(a, "<f%d" % n) if n and len(a) % n == 0 else None


def same_data(A, B):
    """True, False or None: can't be told"""
    a, b = A[1], B[1]
    if a is b:
        return True if A[2] and B[2] else None
    if a is None or b is None:
        return False
    if a == b:
        return True
    if A[0]["t"] == 3:
        x, y = float_words(A[0]["p"], a), float_words(A[0]["p"], b)
        if x is not None and y is not None and len(x) == len(y) and np.array_equal(x, y):
            return None
    return False


def psnr_top(fmt):
    return 1.0 if fmt >= 0x18 else 2 ** (15 if SND[fmt][0] == 2 else 31)


def psnr_of(A, B):
    """list of numbers, None: there are none, or "?"."""
    (d, a, _), (e, b, _) = A, B
    p, q = d["p"], e["p"]
    if d["t"] == 1:
        if p["fmt"] not in PIX:
            return None if p["fmt"] in (0xfffffffe,) else "?"
        if not layout_ok(p) or not layout_ok(q):
            return "?"
        if a is None or b is None or (p["w"], p["h"]) != (q["w"], q["h"]) or PIX[p["fmt"]][0] == "v210":
            return None
        if not npable(d, a) or not npable(e, b):
            return "?"
        xs, ys = (pix_arrays(y, z["fmt"], [dict(zip(("width", "height", "stride", "length", "offset"), c))
                                           for c in M.expected(x)["p"][7]]) for x, y, z in ((d, a, p), (e, b, q)))
        top = (1 << (p["fmt"] >> 10)) - 1
    else:
        if p["fmt"] not in SND:
            return None if p["fmt"] > 0x80 else "?"
        if not 0 < p["ch"] * p["samples"] < 10**4 or not 0 < q["ch"] * q["samples"] < 10**4:
            return "?"
        if a is None or b is None or (p["ch"], p["samples"]) != (q["ch"], q["samples"]):
            return None
        for x, y in ((p, a), (q, b)):
            if len(y) != snd_size(x["fmt"], x["ch"], x["samples"]):
                return "?"
        xs, ys = snd_arrays(a, p["fmt"], p["ch"], p["samples"]), snd_arrays(b, q["fmt"], q["ch"], q["samples"])
        top = psnr_top(p["fmt"])
    out = []
    with np.errstate(all="ignore"):
        for x, y in zip(xs, ys):
            mse = float(np.mean((x.astype("f8") - y.astype("f8")) ** 2)) if x.size else math.nan
            if math.isnan(mse):
                out.append("?")
            elif mse == 0:
                out.append(math.inf)
            elif math.isinf(mse):
                out.append(-math.inf)
            else:
                out.append(10 * math.log10(top * top / mse))
    return out


def psnr_ok(ps, op, thr):
    """True, False or None"""
    res = True
    for x, t in zip(ps, thr):
        if t is None:
            continue
        if t == "inf":
            t = math.inf
        if x == "?" or (not math.isinf(x) and abs(x - t) < 1e-6):
            res = None if res else res
        elif not OPS[op](x, t):
            return False
    return res


def exp_ok(o, diff):
    one = OPS[o[2]](diff, o[3])
    if len(o) == 4:
        return one
    two = OPS[o[5]](diff, o[6])
    return one and two if o[4] == "&" else one or two


class Verdict:
    """attr -> (equal, excluded)"""

    def __init__(self, A, B, opts):
        d, e = A[0], B[0]
        self.attrs = {}
        self.index = None
        ex = {o[1] for o in opts if o[0] == "ex"}
        # (all but the time of creation is included anyway)
        if ["inc"] not in opts and ["inc", "creation_timestamp"] not in opts:
            ex.add("creation_timestamp")

        def out(a):
            return a in ex or ALIAS.get(a) in ex

        def put(a, eq):
            self.attrs[a] = (eq, out(a))
        own = d["t"] == e["t"]
        for a in COMMON + (OWN[d["t"]] if own else []):
            x, y = value(d, A[1], a), value(e, B[1], a)
            exps = [o for o in opts if o[0] == "exp" and o[1] == a]
            if a in TIMES and exps:
                if abs(x - y) > 10**9 * 2**47 or a[0] == "c" and (A[2] or B[2]):
                    put(a, None)
                else:
                    put(a, all(exp_ok(o, x - y) for o in exps))
            elif a in INTS and exps and None not in (x, y) and not (a == "length" and 5 in (d["t"], e["t"])):
                put(a, all(exp_ok(o, x - y) for o in exps))
            elif a == "creation_timestamp" and (A[2] or B[2]):
                put(a, None)        # not in the file
            elif a == "length" and 5 in (d["t"], e["t"]):
                put(a, None)
            else:
                put(a, x == y)
        if own and d["t"] == 5:
            if all(self.attrs[a][0] for a in OWN[5]) and not any(o[0] == "exp" and o[1] == "length" for o in opts):
                put("length", True)
            if any(out(a) for a in OWN[5]):
                self.attrs["length"] = (self.attrs["length"][0], True)
            return
        if not own or (d["t"] and d["p"]["fmt"] != e["p"]["fmt"]):
            self.attrs["data"] = (False, True)
            return
        ps = [o for o in opts if o[0] == "psnr"]
        if out("data"):
            put("data", None)
        elif ps and d["t"] in (1, 3):
            x = psnr_of(A, B)
            if x == "?":
                # parameters and data aren't consistent
                raise SkipCase()
            oks = [x is not None and psnr_ok(x, o[1], o[2]) for o in ps]
            put("data", False if False in oks else None if None in oks else True)
        else:
            eq = same_data(A, B)
            put("data", eq)
            if eq is False and A[1] is not None and B[1] is not None:
                self.index = next((i for i, (x, y) in enumerate(zip(A[1], B[1])) if x != y), min(len(A[1]), len(B[1])))

    def overall(self):
        rel = [eq for eq, ex in self.attrs.values() if not ex]
        return False if False in rel else None if None in rel else True


def check_options(env, opts):
    """Options by themselves"""
    names = [o[1] for o in opts if o[0] in ("ex", "exp")] + ["data"]
    for a in names:
        for b in names:
            for kind in (O.Exclude, O.Include):
                x, y = getattr(kind, a), getattr(kind, b)
                env.check((x == y) is (a == b) and (x != y) is (a != b), "wrong-options", "%r == %r", x, y)
            x, y = getattr(O.Exclude, a), getattr(O.Include, b)
            env.check(not x == y and x != y, "wrong-options", "%r == %r", x, y)
    x = getattr(O.ExpectedDifference, names[0]) > 5
    for y in [5, None, O.Exclude.data] + [getattr(O.ExpectedDifference, b) < 9 for b in names if b != names[0]]:
        for f in (lambda: x & y, lambda: x | y):
            try:
                f()
            except (TypeError, ValueError):
                continue
            env.fail("wrong-options", "%r could be combined with %r", x, y)


def with_op(op, x, y):
    return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
            ">": lambda: x > y, ">=": lambda: x >= y}[op]()


def options_of(opts):
    out = []
    for o in opts:
        if o[0] == "ex":
            out.append(getattr(O.Exclude, o[1]))
        elif o[0] == "inc":
            out.append(getattr(O.Include, (o + ["creation_timestamp"])[1]))
        else:
            if o[0] == "exp":
                x, cls = getattr(O.ExpectedDifference, o[1]), TimeOffset.from_nanosec if o[1] in TIMES else int
                y = with_op(o[2], x, cls(o[3]))
                if len(o) > 4:
                    z = with_op(o[5], getattr(O.ExpectedDifference, o[1]), cls(o[6]))
                    y = y & z if o[4] == "&" else y | z
                out.append(y)
            else:
                out.append(with_op(o[1], O.PSNR.data, [math.inf if t == "inf" else t for t in o[2]]))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# checks


WORDS = {1: ["<u1"], 2: ["<u2", "<i2"], 4: ["<u4", "<i4", "<f4"], 8: ["<u8", "<i8", "<f8"]}
FIRST = re.compile(r"first different values are \S+\[(\d+)\] == (\S+) and \S+\[(\d+)\] == (\S+)$")
MARK = {True: "\u2705", False: "\u274c", None: "\u25ef"}


def mark(r):
    return MARK[None if r.excluded() else bool(r)]


def check_result(env, r, A, B, v, what):
    """one pair of grains"""
    want = v.overall()
    env.check(type(bool(r)) is bool, "malformed-result", "%s: no truth value", what)
    if want is not None:
        env.check(bool(r) is want, "wrong-verdict", "%s: reported as %s, but they %s%s", what,
                  "matching" if r else "different", "match" if want else "differ in ",
                  "" if want else ", ".join(a for a, (eq, ex) in v.attrs.items() if eq is False and not ex))
    failing = r.failing_attributes()
    env.check(len(set(failing)) == len(failing) and set(failing) <= set(v.attrs), "wrong-attributes",
              "%s: failing attributes %r of %r", what, failing, sorted(v.attrs))
    env.ev("compared", A[0]["t"], B[0]["t"], failing, [a for a, (_, ex) in v.attrs.items() if ex])
    text, msg = str(r), r.msg
    env.check(text.lstrip().startswith(mark(r)), "wrong-description", "%s: described as %r", what, text[:60])
    repr_ok(env, r, what)
    for a, (eq, ex) in v.attrs.items():
        c = getattr(r, a)
        env.check(c.excluded() is ex, "wrong-attributes", "%s: %s %s", what, a,
                  "excluded" if c.excluded() else "not excluded")
        env.check((a in failing) is not bool(c), "wrong-attributes", "%s: %s is %s and %s the failing attributes", what, a,
                  bool(c), "among" if a in failing else "not among")
        if eq is not None and not (a == "data" and ex):
            env.check(bool(c) is eq, "wrong-attributes", "%s: %s reported as %s", what, a,
                      "equal" if c else "different")
        env.check(str(c).startswith(mark(c)), "wrong-description", "%s: %s described as %r", what, a, str(c)[:60])
        env.check(str(c) in text.replace("\n  ", "\n") or "\n" in str(c), "wrong-description",
                  "%s: %s missing in the description", what, a)
        if a in LISTS:
            x, y = value(A[0], A[1], a), value(B[0], B[1], a)
            bad = [n for n in range(max(len(x), len(y))) if n >= len(x) or n >= len(y) or x[n] != y[n]]
            env.check(c.failing_keys() == bad, "wrong-attributes", "%s: elements %r of %s differ, reported were %r", what,
                      bad, a, c.failing_keys())
            for n in range(max(len(x), len(y))):
                env.check(bool(c[n]) is (n not in bad), "wrong-attributes", "%s: element %d of %s is %s", what, n, a,
                          bool(c[n]))
            if a == "event_data":
                for n, (m, o) in enumerate(zip(x, y)):
                    bad = {k for k in {**m, **o} if k not in m or k not in o or m[k] != o[k]}
                    env.check(set(c[n].failing_keys()) == bad and all(bool(c[n][k]) is (k not in bad) for k in {**m, **o}),
                              "wrong-attributes", "%s: %s of element %d differ, reported were %r", what, sorted(bad), n,
                              c[n].failing_keys())
        if not c:
            env.check(c.msg in msg, "wrong-description", "%s: %s missing in the message", what, a)
    if v.index is not None:
        check_first(env, r.data, A[1], B[1], v.index, what)


def repr_ok(env, r, what):
    with env.oracle("describing a result"):
        repr(r)


def check_first(env, c, a, b, index, what):
    """where data differs"""
    x, y = list(c.a), list(c.b)
    ws = len(a) // len(x) if x else len(b) // len(y)
    env.check(len(x) * ws == len(a) and len(y) * ws == len(b), "wrong-words",
              "%s: %d and %d words of %d and %d bytes of data", what, len(x), len(y), len(a), len(b))
    if ws == 3:
        def words(s):
            return [[int.from_bytes(s[i:i + 3], "little", signed=True) for i in range(0, len(s), 3)]]
    else:
        def words(s):
            return [np.frombuffer(s, dt).tolist() for dt in WORDS[ws]]
    for got, data in ((x, a), (y, b)):
        env.check(any(repr(got) == repr(w) for w in words(data)), "wrong-words", "%s: not the words of the data", what)
    m = FIRST.search(c.msg)
    i = index // ws
    if m:
        env.check(int(m[1]) == int(m[3]) == i and m[2] == str(x[i]) and m[4] == str(y[i]), "wrong-place",
                  "%s: %r, but data differs first at %d", what, m[0], i)
    else:
        env.check(i >= min(len(x), len(y)), "wrong-place", "%s: no first difference, which is at %d", what, i)


def compared(env, sides, f):
    """f(), which fails if and only if reading does"""
    before = env.faults["read-eio"]
    try:
        r = f()
    except OSError as e:
        env.check(env.faults["read-eio"] > before, "unexpected-error", "failed without a read error: %r", e)
        env.probe("comparison-failed")
        return None
    env.check(env.faults["read-eio"] == before, "error-lost", "a read error during the comparison went unnoticed")
    return r


def execute(env, case):
    valid(case)
    with np.errstate(all="ignore"):
        quiet(lambda: run(env, case))


def state(env, side):
    if side.s["kind"] != "obj":
        return None
    return [(M.canon(g, b""), str(g.creation_timestamp)) for g in side.grains]


def run(env, case):
    opts = case["opts"]
    check_options(env, opts)
    real = options_of(opts)
    sides = [Side(env, case["head"], case["sa"], case["ga"]), Side(env, case["head"], case["sb"], case["gb"])]
    if case["sa"]["kind"] == "file" or case["sb"]["kind"] == "file":
        # the time of creation isn't recorded
        opts = [o for o in opts if o not in (["inc"], ["inc", "creation_timestamp"])]
        real = options_of(opts)
    before = [state(env, s) for s in sides]
    for s in sides:
        s.enter()
    try:
        if case["api"] == "pair":
            pairwise(env, case, sides, opts, real)
        else:
            singly(env, case, sides, opts, real)
    finally:
        for s in sides:
            s.leave()
    env.check(before == [state(env, s) for s in sides], "grains-changed", "the comparison changed what was compared")
    if case["ga"] != case["gb"]:
        env.nontrivial = True


def pairwise(env, case, sides, opts, real):
    sa, sb = sides
    A, B = sa.items, sb.items
    vs = [Verdict(x, y, opts) for x, y in zip(A, B)]
    n = 0
    certain = True
    for v in vs:
        n += 1
        w = v.overall()
        if w is None:
            certain = False
        if w is False:
            break
    for s in sides:
        s.arm()
    r = compared(env, sides, lambda: compare_grains_pairwise(sa.source(), sb.source(), *real,
                                                             return_last_only=bool(case["last"])))
    if r is None:
        env.nontrivial = True
        return
    with env.oracle("reading a result"):
        env.ev("pairs", len(r.children), bool(r))
        ended = None
        if not certain:
            # follow it
            n = max([x for x in (len(sa.got), len(sb.got))] + [0])
            n = min(n, len(vs))
            w = None
            got = bool(r)
        else:
            w = all(v.overall() for v in vs) and len(A) == len(B)
            env.check(bool(r) is w, "wrong-verdict", "recordings of %d and %d grains reported as %s, but they %s: %s",
                      len(A), len(B), "matching" if r else "different", "match" if w else "differ", r.msg[:400])
        mism = any(v.overall() is False for v in vs[:n])
        ended = certain and not mism and len(A) != len(B)
        most = n + (0 if mism else 1)
        env.check(len(sa.got) <= most and len(sb.got) <= most, "read-too-far",
                  "%d and %d grains were taken to compare %d", len(sa.got), len(sb.got), n)
        text = str(r)
        env.check(text.startswith(MARK[bool(r)]), "wrong-description", "described as %r", text[:60])
        r.msg
        repr_ok(env, r, "recordings")
        if not certain:
            return
        if case["last"]:
            env.check(len(r.children) == (1 if n or ended else 0), "wrong-results", "%d results, not only the last",
                      len(r.children))
            if n and not ended:
                check_result(env, r.children[0], A[n - 1], B[n - 1], vs[n - 1], "the last pair")
                env.check(r[n - 1] is r.children[0], "wrong-results", "the last result isn't at its place")
        else:
            env.check(len(r.children) == n + ended, "wrong-results", "%d results of %d pairs", len(r.children), n)
            for i in range(n):
                env.check(r[i] is r.children[i], "wrong-results", "result %d isn't at its place", i)
                env.check(r[i].a is sa.got[i] and r[i].b is sb.got[i], "wrong-results",
                          "result %d isn't about that pair", i)
                check_result(env, r[i], A[i], B[i], vs[i], "pair %d" % i)
        if ended:
            c = r.children[-1]
            env.check(not c, "wrong-results", "a missing grain doesn't count")
            x = (sa if len(A) > len(B) else sb).got[n]
            env.check((c.a if len(A) > len(B) else c.b) is x and (c.b if len(A) > len(B) else c.a) is None,
                      "wrong-results", "the result about a missing grain isn't about that grain")
        else:
            env.check(len(r) == n, "wrong-results", "length %d after comparing %d pairs", len(r), n)
        env.check(set(r.failing_keys()) == {c.key for c in r.children if not c}, "wrong-results", "failing keys %r",
                  r.failing_keys())
    if case["sa"]["kind"] == "file" and case["sa"]["lm"]:
        env.probe("deferred")


def singly(env, case, sides, opts, real):
    lists = []
    for s in sides:
        lists.append(list(s.source()))
    n = min(len(x) for x in lists)
    (sa, sb), (la, lb) = sides, lists
    env.check(len(la) == len(sa.items) and len(lb) == len(sb.items), "grain-count", "grains are missing")
    if not n:
        return
    for k in case["order"]:
        i = k % n
        j = (k // 2) % n if k % 3 == 0 else i
        env.step()
        for s in sides:
            s.arm()
        flip = k % 5 == 4 and not any(o[0] == "exp" for o in opts)
        a, b, A, B = la[i], lb[j], sa.items[i], sb.items[j]
        if flip:
            a, b, A, B = b, a, B, A
        v = Verdict(A, B, opts)
        r = compared(env, sides, lambda: compare_grain(a, b, *real))
        for s in sides:
            s.disarm()
        if r is None:
            env.nontrivial = True
            r = compared(env, sides, lambda: compare_grain(a, b, *real))
        with env.oracle("reading a result"):
            check_result(env, r, A, B, v, "grain %d and %d" % (i, j))
        if A[0]["t"] != B[0]["t"] or A[0]["t"] not in (1, 3):
            check_psnr(env, a, b, None)
        elif A[0]["p"]["fmt"] == B[0]["p"]["fmt"]:
            want = psnr_of(A, B)
            check_psnr(env, a, b, want)
            if want not in (None, "?") and k % 3 == 0:
                # of samples that go up to half of what is usual
                top = (1 << (A[0]["p"]["fmt"] >> 10)) - 1 if A[0]["t"] == 1 else psnr_top(A[0]["p"]["fmt"])
                check_psnr(env, a, b, [x if isinstance(x, str) or math.isinf(x) else x - 10 * math.log10(4) for x in want],
                           top / 2)
        elif A[0]["t"] == 3:
            check_psnr(env, a, b, None)


def check_psnr(env, a, b, want, *top):
    if want == "?":
        return
    try:
        got = compute_psnr(a, b, *top)
    except (NotImplementedError, AttributeError, ValueError) as e:
        env.check(want is None, "wrong-psnr", "no PSNR: %s", e)
        return
    env.check(want is not None, "wrong-psnr", "a PSNR of what has none: %r", got[:5])
    env.check(len(got) == len(want) and all(x == "?" or x == y or abs(x - y) < 1e-6 for x, y in zip(want, got)),
              "wrong-psnr", "PSNR %r, expected %r", got, want)
