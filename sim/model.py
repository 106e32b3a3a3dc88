"""Grain and file descriptors (small JSON values), how to build real grains from them, and their canonical form.

A descriptor is the specification of one grain.  `to_grain` builds the library object, `canon` reads a library object
back into a plain comparable value through its public attributes, `expected` computes the same value from the
descriptor alone.
"""
import hashlib
import json
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction
from uuid import UUID

from .core import SkipCase

TYPES = ["empty", "video", "coded_video", "audio", "coded_audio", "event"]
VFMT = [0x2001, 0x2003, 0x2010, 0x2100, 0x2805, 0x2906, 0x4004, 0x8009, 0xfffffffe]
CVFMT = [0x200, 0x202, 0x204, 0x207, 0x209, 0xfffffffe]
AFMT = [0x00, 0x01, 0x02, 0x04, 0x06, 0x0a, 0x1a, 0x2e, 0xffffffff]
CAFMT = [0x200, 0x201, 0x202, 0xffffffff]
LAYOUT = [0, 1, 2, 3, 4, 0xfffffffe]


def uid(*parts):
    return UUID(bytes=hashlib.sha256(repr(parts).encode()).digest()[:16])


def payload(n, length, kind=0):
    if length <= 0:
        return b""
    if kind == 1:
        return bytes(length)
    if kind == 2:
        pat = b"grai\x00\x00\x00\x00SSBBgrsg\x09\x00\x00\x00grdt\x10\x00\x00\x00head\x08\x00\x00\x00"
        pat = pat[n % len(pat):] + pat
        return (pat * (length // len(pat) + 1))[:length]
    return hashlib.shake_128(b"payload%d" % n).digest(length)


# ---------------------------------------------------------------------------------------------------------------------
# generation


def gen_string(rng, maxlen):
    """A short unicode string with no NULs (the format NUL-terminates fixed strings)."""
    k = rng.randrange(10)
    if k == 0:
        return ""
    alphabet = "abcXYZ019 -_:/" if k < 7 else "a\u00e9\u4e2d\U0001f600z"
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(1, maxlen + 1)))


def clip(s, nbytes):
    while len(s.encode("utf-8")) > nbytes:
        s = s[:-1]
    return s


def gen_rational(rng, zero_ok=True):
    k = rng.randrange(8)
    if k == 0 and zero_ok:
        return [0, 1]
    if k == 1:
        return [rng.choice([1, 0xffffffff]), rng.choice([1, 0xfffffffe])]
    f = rng.choice([Fraction(25), Fraction(30000, 1001), Fraction(1, 25), Fraction(48000), Fraction(1001, 60000),
                    Fraction(16, 9), Fraction(rng.randrange(1, 1000), rng.randrange(1, 1000))])
    return [f.numerator, f.denominator]


def gen_ts(rng, major):
    k = rng.randrange(10)
    if k == 0:
        sec, ns = 0, 0
    elif k == 1:
        sec, ns = (1 << 48) - 1, 999999999
    elif k == 2:
        sec, ns = rng.choice([rng.getrandbits(48), edge(rng, 48)]), rng.choice([rng.randrange(10**9), edge(rng, 29)])
    else:
        sec, ns = 1_500_000_000 + rng.randrange(10**6), rng.choice([0, 1, 999999999, rng.randrange(10**9)])
    sign = 1
    if major != 7 and rng.randrange(4) == 0 and (sec or ns):
        sign = -1
    return [sign, sec, ns]


def gen_len(rng, big=False):
    k = rng.randrange(12)
    if k == 0:
        return 0
    if k < 4:
        return rng.randrange(1, 9)
    if k < 9:
        return rng.randrange(1, 200)
    if k < 11 or not big:
        return rng.choice([255, 256, 257, 511, 512, 513, 1000])
    if rng.randrange(5) == 0:
        # what buffers and fields of 16 bits hold, and more
        return rng.choice([65535, 65536, 65537, 70001, 131072, 200003])
    return rng.randrange(1000, 9000)


def gen_json(rng, depth=0):
    k = rng.randrange(7 if depth < 2 else 5)
    if k == 0:
        return rng.randrange(-10**6, 10**6)
    if k == 1:
        return rng.choice([True, False])
    if k in (2, 3):
        return gen_string(rng, 8)
    if k == 4:
        return rng.randrange(100) / 4.0
    if k == 5:
        return [gen_json(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {gen_string(rng, 4): gen_json(rng, depth + 1) for _ in range(rng.randrange(3))}


def edge(rng, bits):
    """A number at or next to a power of two, or next to the largest one of so many bits."""
    k = rng.randrange(4)
    if k == 0:
        n = (1 << bits) - 1 - rng.randrange(4)
    else:
        n = (1 << rng.randrange(bits)) + rng.randrange(-1, 2)
    return max(0, min(n, (1 << bits) - 1))


def s32(rng):
    """Signed, never the largest one: 0x7fffffff stands for "none" in the format."""
    k = rng.randrange(4)
    if k == 0:
        return rng.choice([0, 1, -1, 0x7ffffffe, -0x80000000, -0x7fffffff])
    if k == 1:
        return rng.choice([1, -1]) * rng.randrange(300)
    n = edge(rng, 31)
    if n == 0x7fffffff or rng.randrange(2):
        n = -n
    return n if k == 2 else rng.choice([n, -0x80000000 + rng.randrange(4)])


def u32(rng):
    if rng.randrange(4) == 0:
        return edge(rng, 32)
    return rng.choice([0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32),
                       rng.randrange(4096), rng.randrange(4096)])


def gen_grain(rng, n, major, types=None, big=False):
    t = rng.choice(types) if types else rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 5])
    d = {"t": t, "n": n, "src": rng.randrange(4), "flow": rng.randrange(4),
         "ots": gen_ts(rng, major), "sts": gen_ts(rng, major),
         "rate": gen_rational(rng), "dur": gen_rational(rng), "tl": []}
    if rng.randrange(4) == 0:
        for _ in range(rng.randrange(1, 4)):
            d["tl"].append([clip(gen_string(rng, 18), 16), u32(rng), gen_rational(rng), rng.randrange(2)])
    if t not in (0, 5):
        d["len"] = gen_len(rng, big)
        d["pk"] = rng.choice([0, 0, 0, 1, 2])
    if t == 1:
        d["p"] = {"fmt": rng.choice(VFMT), "layout": rng.choice(LAYOUT), "w": u32(rng), "h": u32(rng),
                  "ext": rng.choice([0, 0, u32(rng)]),
                  "sar": rng.choice([None, gen_rational(rng, False)]),
                  "par": rng.choice([None, gen_rational(rng, False)]),
                  "comps": [[u32(rng), u32(rng), u32(rng), rng.randrange(10**6)] for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, rng.randrange(40)]))]}
    elif t == 2:
        old = major < 9
        d["p"] = {"fmt": rng.choice(CVFMT), "layout": rng.choice(LAYOUT), "ow": u32(rng), "oh": u32(rng),
                  "cw": u32(rng), "ch": u32(rng),
                  "key": rng.choice([True, False] if old else [True, False, None]),
                  "toff": s32(rng) if old or rng.randrange(3) else None,
                  "uo": rng.choice([None, [u32(rng) for _ in range(rng.randrange(1, 5))]])}
    elif t == 3:
        d["p"] = {"fmt": rng.choice(AFMT), "ch": rng.choice([rng.randrange(65536), edge(rng, 16)]), "samples": u32(rng), "sr": u32(rng)}
    elif t == 4:
        d["p"] = {"fmt": rng.choice(CAFMT), "ch": rng.choice([rng.randrange(65536), edge(rng, 16)]), "samples": u32(rng), "sr": u32(rng),
                  "prim": u32(rng), "rem": u32(rng)}
    elif t == 5:
        data = []
        for _ in range(rng.randrange(4)):
            data.append([gen_string(rng, 12), rng.choice([None, gen_json(rng)]), rng.choice([None, gen_json(rng)])])
        d["p"] = {"type": gen_string(rng, 20), "topic": gen_string(rng, 20), "data": data}
    return d


def gen_np_grain(rng, n, major):
    """A grain that can also be held as an array: parameters and data length agree."""
    d = gen_grain(rng, n, major, [rng.choice([1, 3])])
    if d["t"] == 1:
        w, h = 2 * rng.randrange(1, 6), rng.randrange(1, 4)
        fmt, bpv = rng.choice([(0x2001, 1), (0x2805, 2), (0x4005, 2), (0x8009, 4)])
        comps = [[w, h, w * bpv, w * h * bpv]] + [[w // 2, h, w // 2 * bpv, w // 2 * h * bpv]] * 2
        d["p"].update({"fmt": fmt, "w": w, "h": h, "ext": 0, "comps": [list(c) for c in comps]})
        d["len"] = sum(c[3] for c in comps)
    else:
        fmt, size = rng.choice([(0, 2), (1, 2), (2, 2), (8, 4), (10, 4)])
        ch, samples = 2 * rng.randrange(1, 3), rng.randrange(1, 30)
        d["p"].update({"fmt": fmt, "ch": ch, "samples": samples, "sr": 48000})
        d["len"] = ch * samples * size
    return d


def np_parse(meta, data):
    from mediagrains import GrainFactory
    from mediagrains.numpy import AudioGrain, VideoGrain
    t = meta["grain"].get("grain_type")
    if t == "video":
        return VideoGrain(meta=meta, data=data)
    if t == "audio":
        return AudioGrain(meta=meta, data=data)
    return GrainFactory(meta, data)


def gen_created(rng):
    return rng.choice([[1970, 1, 1, 0, 0, 0], [2026, 2, 28, 23, 59, 59], [9999, 12, 31, 23, 59, 59], [1, 1, 1, 0, 0, 0],
                       [rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24),
                        rng.randrange(60), rng.randrange(60)]])


def gen_tags(rng, nmax=3):
    return [[gen_string(rng, 12), gen_string(rng, 30)] for _ in range(rng.randrange(nmax))]


def gen_segments(rng, nmax=3, flows=True):
    n = rng.randrange(1, nmax + 1)
    ids = rng.sample([1, 2, 3, 5, 8, 255, 256, 65535], n)
    if rng.randrange(2):
        ids = list(range(1, n + 1))
    segs = []
    for lid in ids:
        s = {"lid": lid, "id": rng.randrange(10**6), "tags": gen_tags(rng), "flow": None}
        if flows and rng.randrange(3) == 0:
            s["flow"] = {"src": rng.randrange(4), "flow": rng.randrange(4),
                         "fmt": rng.choice(["urn:x-nmos:format:video", "urn:x-nmos:format:audio", "f" * 64, "", "f" * 63 + "\u00e9",
                                            "\u4e2d" * 30, "f" * 62 + "\u4e2d" + "f", "\u00e9" + "f" * 99]),
                         "data": rng.choice(["", '{"a": 1}', '{"\u00e9": "\u4e2d"}', "x" * 300])}
        segs.append(s)
    return segs


# ---------------------------------------------------------------------------------------------------------------------
# descriptor accessors (tolerant of shrinking: anything malformed is a SkipCase)


def event_bytes(d):
    p = d["p"]
    data = []
    for path, pre, post in p["data"]:
        x = {"path": path}
        if pre is not None:
            x["pre"] = pre
        if post is not None:
            x["post"] = post
        data.append(x)
    return json.dumps({"type": p["type"], "topic": p["topic"], "data": data}).encode()


def data_of(d):
    if d["t"] == 0:
        return b""
    if d["t"] == 5:
        return event_bytes(d)
    return payload(d["n"], d["len"], d.get("pk", 0))


def ids_of(d):
    return uid("src", d["src"]), uid("flow", d["flow"])


def ts_ns(t):
    return t[0] * (t[1] * 10**9 + t[2])


def frac(r):
    if r[0] == 0 or r[1] == 0:
        return Fraction(0)
    return Fraction(r[0], r[1])


def expected(d):
    """Canonical value of the grain a descriptor specifies."""
    src, flow = ids_of(d)
    t = d["t"]
    out = {"type": TYPES[t], "src": src.hex, "flow": flow.hex, "ots": ts_ns(d["ots"]), "sts": ts_ns(d["sts"]),
           "rate": str(frac(d["rate"])), "dur": str(frac(d["dur"])),
           "tl": [[x[0], x[1], str(frac(x[2])), bool(x[3])] for x in d["tl"]]}
    p = d.get("p")
    if t == 1:
        off = 0
        comps = []
        for w, h, s, ln in p["comps"]:
            comps.append([w, h, s, ln, off])
            off += ln
        out["p"] = [p["fmt"], p["layout"], p["w"], p["h"], p["ext"],
                    None if p["sar"] is None else str(frac(p["sar"])),
                    None if p["par"] is None else str(frac(p["par"])), comps]
    elif t == 2:
        out["p"] = [p["fmt"], p["layout"], p["ow"], p["oh"], p["cw"], p["ch"], p["key"], p["toff"], p["uo"] or []]
    elif t == 3:
        out["p"] = [p["fmt"], p["ch"], p["samples"], p["sr"]]
    elif t == 4:
        out["p"] = [p["fmt"], p["ch"], p["samples"], p["sr"], p["prim"], p["rem"]]
    if t == 5:
        out["event"] = json.dumps(json.loads(event_bytes(d)), sort_keys=True)
    else:
        out["data"] = data_of(d).hex()
    return out


def no_data(exp):
    """expected() for a grain whose data was deliberately not loaded."""
    out = dict(exp)
    if "event" in out:
        out["event"] = json.dumps({"type": "", "topic": "", "data": []}, sort_keys=True)
    else:
        out["data"] = ""
    return out


def _ts_ns_of(ts):
    return ts.to_nanosec()


def canon(g, data=None):
    """Canonical value of a library grain (data: bytes to use instead of g.data)."""
    t = g.grain_type
    out = {"type": t, "src": g.source_id.hex, "flow": g.flow_id.hex, "ots": _ts_ns_of(g.origin_timestamp),
           "sts": _ts_ns_of(g.sync_timestamp), "rate": str(Fraction(g.rate)), "dur": str(Fraction(g.duration)),
           "tl": [[x["tag"], x["timelabel"]["frames_since_midnight"],
                   str(frac([x["timelabel"]["frame_rate_numerator"], x["timelabel"]["frame_rate_denominator"]])),
                   bool(x["timelabel"]["drop_frame"])] for x in g.timelabels]}
    if t == "video":
        sar, par = g.source_aspect_ratio, g.pixel_aspect_ratio
        out["p"] = [int(g.cog_frame_format), int(g.cog_frame_layout), g.width, g.height, g.extension,
                    None if sar is None else str(Fraction(sar)), None if par is None else str(Fraction(par)),
                    [[c.width, c.height, c.stride, c.length, c.offset] for c in g.components]]
    elif t == "coded_video":
        out["p"] = [int(g.cog_frame_format), int(g.cog_frame_layout), g.origin_width, g.origin_height, g.coded_width,
                    g.coded_height, g.is_key_frame, g.temporal_offset, list(g.unit_offsets)]
    elif t == "audio":
        out["p"] = [int(g.cog_audio_format), g.channels, g.samples, g.sample_rate]
    elif t == "coded_audio":
        out["p"] = [int(g.cog_audio_format), g.channels, g.samples, g.sample_rate, g.priming, g.remainder]
    if t == "event":
        out["event"] = json.dumps({"type": g.event_type, "topic": g.topic, "data": [dict(x) for x in g.event_data]},
                                  sort_keys=True)
    else:
        if data is None:
            data = g.data
        out["data"] = (b"" if data is None else bytes(data)).hex()
    return out


def diff(exp, got):
    ks = [k for k in sorted(set(exp) | set(got)) if exp.get(k) != got.get(k)]
    parts = []
    for k in ks[:3]:
        a, b = str(exp.get(k)), str(got.get(k))
        if len(a) > 80 or len(b) > 80:
            i = 0
            while i < min(len(a), len(b)) and a[i] == b[i]:
                i += 1
            a = "len %d ...%s" % (len(a), a[max(0, i - 8):i + 24])
            b = "len %d ...%s" % (len(b), b[max(0, i - 8):i + 24])
        parts.append("%s: expected %s got %s" % (k, a, b))
    return "; ".join(parts)


# ---------------------------------------------------------------------------------------------------------------------
# real grains


def meta_of(d):
    from mediatimestamp.immutable import Timestamp
    src, flow = ids_of(d)
    t = d["t"]
    g = {"grain_type": TYPES[t], "source_id": str(src), "flow_id": str(flow),
         "origin_timestamp": str(Timestamp(d["ots"][1], d["ots"][2], d["ots"][0]).to_sec_nsec()),
         "sync_timestamp": str(Timestamp(d["sts"][1], d["sts"][2], d["sts"][0]).to_sec_nsec()),
         "creation_timestamp": "1600000000:0",
         "rate": {"numerator": d["rate"][0], "denominator": d["rate"][1]},
         "duration": {"numerator": d["dur"][0], "denominator": d["dur"][1]}}
    if d["tl"]:
        g["timelabels"] = [{"tag": x[0], "timelabel": {"frames_since_midnight": x[1], "frame_rate_numerator": x[2][0],
                                                       "frame_rate_denominator": x[2][1], "drop_frame": bool(x[3])}}
                           for x in d["tl"]]
    p = d.get("p")
    if t == 1:
        comps, off = [], 0
        for w, h, s, ln in p["comps"]:
            comps.append({"width": w, "height": h, "stride": s, "length": ln, "offset": off})
            off += ln
        cf = {"format": p["fmt"], "layout": p["layout"], "width": p["w"], "height": p["h"], "extension": p["ext"],
              "components": comps}
        if p["sar"] is not None:
            cf["source_aspect_ratio"] = {"numerator": p["sar"][0], "denominator": p["sar"][1]}
        if p["par"] is not None:
            cf["pixel_aspect_ratio"] = {"numerator": p["par"][0], "denominator": p["par"][1]}
        g["cog_frame"] = cf
    elif t == 2:
        cf = {"format": p["fmt"], "layout": p["layout"], "origin_width": p["ow"], "origin_height": p["oh"],
              "coded_width": p["cw"], "coded_height": p["ch"]}
        if p["key"] is not None:
            cf["is_key_frame"] = p["key"]
        if p["toff"] is not None:
            cf["temporal_offset"] = p["toff"]
        if p["uo"]:
            cf["unit_offsets"] = list(p["uo"])
        g["cog_coded_frame"] = cf
    elif t == 3:
        g["cog_audio"] = {"format": p["fmt"], "channels": p["ch"], "samples": p["samples"], "sample_rate": p["sr"]}
    elif t == 4:
        g["cog_coded_audio"] = {"format": p["fmt"], "channels": p["ch"], "samples": p["samples"],
                                "sample_rate": p["sr"], "priming": p["prim"], "remainder": p["rem"]}
    return {"@_ns": "urn:x-ipstudio:ns:0.1", "grain": g}


def to_grain(d, data=None):
    """data: override for the payload (e.g. an awaitable)."""
    from mediagrains import GrainFactory
    return GrainFactory(meta_of(d), data_of(d) if data is None else data)


def spoil(g, d, major, which):
    """Give a grain a value that no file can say.  Returns how to take that back."""
    from mediatimestamp.immutable import Timestamp

    def attr(name, bad):
        old = getattr(g, name)
        setattr(g, name, bad)
        return lambda: setattr(g, name, old)

    def item(xs, bad, i=0):
        old = xs[i]
        xs[i] = bad
        return lambda: xs.__setitem__(i, old)
    ways = [lambda: attr("rate", Fraction(2**32 + 1)), lambda: attr("duration", Fraction(1.1))]
    if major == 7:
        ways += [lambda: attr("origin_timestamp", Timestamp(1, 0, -1)),
                 lambda: attr("sync_timestamp", Timestamp(0, 1, -1))]
    if d["tl"]:
        ways += [lambda: attr_of(g.timelabels[0], "count", 2**32), lambda: attr_of(g.timelabels[-1], "rate",
                                                                                   Fraction(1, 2**32))]
    if d["t"] == 0:
        ways += [lambda: attr("grain_type", "smell")]
    elif d["t"] == 1:
        ways += [lambda: attr("width", 2**32), lambda: attr("extension", -1), lambda: attr("height", -1)]
        if d["p"]["comps"]:
            ways += [lambda: attr_of(g.components[-1], "stride", -2), lambda: attr_of(g.components[0], "length", 2**32)]
    elif d["t"] == 2:
        ways += [lambda: attr("coded_width", -1), lambda: attr("origin_height", 2**33)]
        if d["p"]["toff"] is not None:
            ways += [lambda: attr("temporal_offset", 2**31), lambda: attr("temporal_offset", -2**31 - 1)]
        if d["p"]["uo"]:
            ways += [lambda: item(g.unit_offsets, 2**32, -1)] * 2
    elif d["t"] in (3, 4):
        ways += [lambda: attr("channels", 65536), lambda: attr("samples", 2**32), lambda: attr("sample_rate", -1)]
        if d["t"] == 4:
            ways += [lambda: attr("priming", -1), lambda: attr("remainder", 2**32)]
    return ways[which % len(ways)]()


def attr_of(o, name, bad):
    old = getattr(o, name)
    setattr(o, name, bad)
    return lambda: setattr(o, name, old)


def _isint(x, lo, hi):
    return isinstance(x, int) and not isinstance(x, bool) and lo <= x <= hi


def valid_grain(d, major):
    """Is this descriptor inside the format's value range (used to discard shrink candidates)?"""
    try:
        if not _isint(d["t"], 0, 5) or not isinstance(d["n"], int):
            return False
        for k in ("ots", "sts"):
            s, sec, ns = d[k]
            if s not in (1, -1) or not _isint(sec, 0, 2**48 - 1) or not _isint(ns, 0, 10**9 - 1):
                return False
            if s < 0 and (major == 7 or not (sec or ns)):
                return False
        for r in [d["rate"], d["dur"]] + [x[2] for x in d["tl"]]:
            if not valid_rat(r, True):
                return False
        for x in d["tl"]:
            if len(x[0].encode()) > 16 or not _isint(x[1], 0, 2**32 - 1) or x[3] not in (0, 1):
                return False
        t, p = d["t"], d.get("p")
        if t in (1, 2, 3, 4) and not _isint(d["len"], 0, 1 << 20):
            return False
        u = 2**32 - 1
        if t == 1:
            ok = p["fmt"] in VFMT and p["layout"] in LAYOUT and all(_isint(p[k], 0, u) for k in ("w", "h", "ext"))
            ok = ok and all(p[k] is None or valid_rat(p[k], False) for k in ("sar", "par"))
            return ok and all(len(c) == 4 and all(_isint(v, 0, u) for v in c) for c in p["comps"])
        if t == 2:
            ok = p["fmt"] in CVFMT and p["layout"] in LAYOUT and all(_isint(p[k], 0, u) for k in ("ow", "oh", "cw", "ch"))
            ok = ok and p["key"] in (True, False, None) and (p["toff"] is None or _isint(p["toff"], -2**31, 2**31 - 2))
            if major < 9 and (p["key"] is None or p["toff"] is None):
                return False
            return ok and (p["uo"] is None or all(_isint(v, 0, u) for v in p["uo"]))
        if t == 3:
            return p["fmt"] in AFMT and _isint(p["ch"], 0, 65535) and all(_isint(p[k], 0, u) for k in ("samples", "sr"))
        if t == 4:
            return p["fmt"] in CAFMT and _isint(p["ch"], 0, 65535) and all(
                _isint(p[k], 0, u) for k in ("samples", "sr", "prim", "rem"))
        if t == 5:
            return (isinstance(p["type"], str) and isinstance(p["topic"], str) and
                    all(len(x) == 3 and isinstance(x[0], str) for x in p["data"]))
        return True
    except (KeyError, TypeError, ValueError, AttributeError):
        return False


def valid_rat(r, zero_ok):
    if not (isinstance(r, list) and len(r) == 2 and all(_isint(v, 0, 2**32 - 1) for v in r)) or r[1] == 0:
        return False
    return zero_ok or r[0] != 0


def need_valid(grains, major):
    for d in grains:
        if not valid_grain(d, major):
            raise SkipCase()


def valid_head(h):
    try:
        if h["major"] not in (7, 8, 9) or len(h["created"]) != 6:
            return False
        datetime(*h["created"])
        lids = [s["lid"] for s in h["segs"]]
        if len(set(lids)) != len(lids):
            return False
        for s in h["segs"]:
            if not _isint(s["lid"], 0, 65535) or not isinstance(s["id"], int):
                return False
            if s["flow"] is not None and (s["flow"]["fmt"].endswith("\0") or not isinstance(s["flow"]["data"], str)):
                return False
        for k, v in h["tags"] + [t for s in h["segs"] for t in s["tags"]]:
            if not isinstance(k, str) or not isinstance(v, str) or k.endswith("\0") or v.endswith("\0"):
                return False
        return True
    except (KeyError, TypeError, ValueError, AttributeError):
        return False


def gen_head(rng, nseg=3, major=None):
    return {"major": major or rng.choice([7, 8, 9, 9]), "id": rng.randrange(10**6), "created": gen_created(rng),
            "tz": rng.choice([None, 0, 330, -480, "season"]), "tags": gen_tags(rng), "segs": gen_segments(rng, nseg)}


class Seasonal(tzinfo):
    """A zone of which the distance from UTC depends on the day, as most have it"""

    def offset(self, local):
        # (changed at the half of each month, so that today is of no use for other days)
        return timedelta(hours=1 + (local.day > 15), minutes=local.month)

    def utcoffset(self, dt):
        return self.offset(dt) if dt is not None else None

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return "season"


def created_dt(h):
    """The datetime handed to the encoder for this head descriptor (an aware one denotes the same instant)."""
    dt = datetime(*h["created"])
    tz = h.get("tz")
    if tz is None:
        return dt
    try:
        if tz == "season":
            zone = Seasonal()
            for local in (dt + zone.offset(dt), dt + zone.offset(dt + timedelta(hours=2))):
                # (some instants have no name in such a zone, around a change of the offset)
                if local - zone.offset(local) == dt:
                    return local.replace(tzinfo=zone)
            return dt
        return dt.replace(tzinfo=timezone.utc).astimezone(timezone(timedelta(minutes=tz)))
    except OverflowError:
        return dt


def expected_head(h, counts):
    """counts: dict lid -> expected count value or None (any)."""
    segs = []
    for s in h["segs"]:
        x = {"lid": s["lid"], "id": uid("seg", s["id"]).hex, "tags": [list(t) for t in s["tags"]],
             "count": counts.get(s["lid"])}
        if s["flow"] is not None:
            f = s["flow"]
            x["flow"] = [uid("src", f["src"]).hex, uid("flow", f["flow"]).hex, clip(f["fmt"], 64), f["data"]]
        segs.append(x)
    return {"id": uid("file", h["id"]).hex, "created": list(h["created"]), "tags": [list(t) for t in h["tags"]],
            "segs": segs}


def canon_head(fh):
    c = fh["created"]
    off = c.utcoffset()
    if off is not None:
        c = c - off
    segs = []
    for s in fh["segments"]:
        x = {"lid": s["local_id"], "id": s["id"].hex, "tags": [list(t) for t in s["tags"]], "count": s["count"]}
        if s.get("flow") is not None:
            f = s["flow"]
            x["flow"] = [f["source_id"].hex, f["flow_id"].hex, f["format"], f["data"]]
        segs.append(x)
    return {"id": fh["id"].hex, "created": [c.year, c.month, c.day, c.hour, c.minute, c.second],
            "tags": [list(t) for t in fh["tags"]], "segs": segs}


def check_head(env, exp, got, what):
    """exp counts may be None (any), a value, or a tuple of allowed values."""
    for k in ("id", "created", "tags"):
        env.check(exp[k] == got[k], "head-mismatch", "%s: header %s expected %r got %r", what, k, exp[k], got[k])
    env.check(len(exp["segs"]) == len(got["segs"]), "head-mismatch", "%s: %d segments, expected %d", what,
              len(got["segs"]), len(exp["segs"]))
    # segment order in the header is not a promise; identity is the local id
    gs = {s["lid"]: s for s in got["segs"]}
    for s in exp["segs"]:
        g = gs.get(s["lid"])
        env.check(g is not None, "head-mismatch", "%s: segment %d missing", what, s["lid"])
        for k in ("id", "tags", "flow"):
            env.check(s.get(k) == g.get(k), "head-mismatch", "%s: segment %d %s expected %r got %r", what, s["lid"], k,
                      s.get(k), g.get(k))
        c = s.get("count")
        if c is None:
            continue
        if not isinstance(c, tuple):
            c = (c,)
        ok = g["count"] in c or ("neg" in c and g["count"] < 0)
        env.check(ok, "count-mismatch", "%s: segment %d count %d, expected %s", what, s["lid"], g["count"],
                  " or ".join(str(x) for x in c))


def check_seq(env, exp, got, what):
    """exp/got: lists of (lid, canon).  Exact equality with a helpful message."""
    for i, (e, g) in enumerate(zip(exp, got)):
        if e[0] != g[0]:
            env.fail("grain-mismatch", "%s: grain %d belongs to segment %r, expected %r", what, i, g[0], e[0])
        if e[1] != g[1]:
            env.fail("grain-mismatch", "%s: grain %d differs: %s", what, i, diff(e[1], g[1]))
    env.check(len(exp) == len(got), "grain-count", "%s: %d grains, expected %d", what, len(got), len(exp))
