"""Elementary streams built from the published formats (H.264 Annex B, ADTS AAC, raw video and audio), with what a
wrapper has to make of them known by construction.  Nothing here imports the code under test."""
import random
from fractions import Fraction

from .core import SkipCase

# ---------------------------------------------------------------------------------------------------------------------
# raw media: name -> (enum value, bytes per frame)

VIDEO = {
    "U8_444": (0x2000, 3, 1), "U8_422": (0x2001, 2, 1), "U8_420": (0x2003, 3, 2), "U8_444_RGB": (0x2010, 3, 1),
    "YUYV": (0x2100, 2, 1), "UYVY": (0x2101, 2, 1), "RGB": (0x2104, 3, 1), "RGBx": (0x2110, 4, 1),
    "ABGR": (0x2117, 4, 1), "S16_444_10BIT": (0x2804, 6, 1), "S16_422_10BIT": (0x2805, 4, 1),
    "S16_420_10BIT": (0x2807, 3, 1), "S16_422_12BIT": (0x3005, 4, 1), "S16_444_RGB": (0x4014, 6, 1),
    "S16_420": (0x4007, 3, 1), "v216": (0x4105, 4, 1), "S32_444": (0x8008, 12, 1), "S32_422": (0x8009, 8, 1),
    "S32_420": (0x800b, 6, 1), "v210": (0x2906, 0, 1),
}
AUDIO = {
    "S16_PLANES": (0x0, 2), "S16_PAIRS": (0x1, 2), "S16_INTERLEAVED": (0x2, 2), "S24_PLANES": (0x4, 4),
    "S24_PAIRS": (0x5, 3), "S24_INTERLEAVED": (0x6, 3), "S32_PLANES": (0x8, 4), "S32_PAIRS": (0x9, 4),
    "S32_INTERLEAVED": (0xa, 4), "FLOAT_PLANES": (0x18, 4), "FLOAT_PAIRS": (0x19, 4), "FLOAT_INTERLEAVED": (0x1a, 4),
    "DOUBLE_PLANES": (0x2c, 8), "DOUBLE_PAIRS": (0x2d, 8), "DOUBLE_INTERLEAVED": (0x2e, 8),
}


def video_frame_size(fmt, w, h):
    if fmt == "v210":
        return (w + 47) // 48 * 128 * h
    _, n, d = VIDEO[fmt]
    return w * h * n // d


def audio_grain_size(fmt, channels, samples):
    _, n = AUDIO[fmt]
    if fmt.endswith("PAIRS"):
        channels += channels % 2
    return n * channels * samples


def noise(seed, n, style=0):
    """n bytes; with style 1, 2 full of zeros and ones, which look like start codes and sync words."""
    r = random.Random("media-%d" % seed)
    if style == 1:
        return bytes(r.choice((0, 0, 0, 1, 3, 255)) for _ in range(n))
    if style == 2:
        return bytes(r.choice((0xff, 0xf1, 0xf9, 0x50, 0)) for _ in range(n))
    return r.randbytes(n)


# ---------------------------------------------------------------------------------------------------------------------
# ADTS AAC

AAC_RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
AAC_CHANNELS = [0, 1, 2, 3, 4, 5, 6, 8]


def gen_aac(rng, n):
    return {"mpeg2": rng.randrange(2), "profile": rng.randrange(4), "rate": rng.randrange(13),
            "ch": rng.choice([1, 1, 2, 2, 2, 3, 4, 5, 6, 7]),
            "frames": [[rng.choice([0, 1, 2, 5, 30, 200, rng.randrange(900), rng.randrange(900)])
                        if rng.randrange(12) else rng.choice([2040, 4089, rng.randrange(8000)]),
                        int(rng.randrange(4) == 0), rng.randrange(2048), rng.randrange(3)] for _ in range(n)]}


def aac_frames(a):
    """[frame bytes]"""
    if not (0 <= a["rate"] < 13 and 1 <= a["ch"] <= 7 and 0 <= a["profile"] <= 3):
        raise SkipCase()
    out = []
    for k, (size, crc, fullness, style) in enumerate(a["frames"]):
        if not 0 <= size <= 8000 or not 0 <= fullness < 2048:
            raise SkipCase()
        body = (b"\x12\x34" if crc else b"") + noise(k, size, style)
        length = 7 + len(body)
        v = 0xfff
        for bits, x in ((1, 1 if a["mpeg2"] else 0), (2, 0), (1, 0 if crc else 1), (2, a["profile"]), (4, a["rate"]),
                        (1, k & 1), (3, a["ch"]), (1, 0), (1, 0), (1, 0), (1, k & 1), (13, length), (11, fullness),
                        (2, 0)):
            v = v << bits | x
        out.append(v.to_bytes(7, "big") + body)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# H.264

class Bits:
    def __init__(self):
        self.s = []

    def u(self, n, v):
        if v < 0 or v >> n:
            raise SkipCase()
        if n:
            self.s.append(format(v, "0%db" % n))

    def ue(self, v):
        if v < 0 or v > 0xfffffffe:
            raise SkipCase()
        b = format(v + 1, "b")
        self.s.append("0" * (len(b) - 1) + b)

    def se(self, v):
        self.ue(2 * v - 1 if v > 0 else -2 * v)

    def done(self, tail=b""):
        """Complete to bytes: random data goes on where the bits stop, then the trailing bits."""
        s = "".join(self.s)
        if tail:
            s += "".join(format(x, "08b") for x in tail)
        s += "1"
        s += "0" * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, "big")


def escape(rbsp):
    out = bytearray()
    zeros = 0
    for x in rbsp:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    return bytes(out)


HIGH = [100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135]
SAR = 17


def gen_sps(rng, sid):
    high = rng.randrange(2)
    s = {"id": sid, "profile": rng.choice(HIGH) if high else rng.choice([66, 77, 88]), "flags": rng.choice([0, 0xe0]),
         "level": rng.choice([0, 10, 31, 40, 51]), "cf": rng.choice([0, 1, 1, 2, 3]), "sep": rng.randrange(2),
         "bd": [rng.randrange(7), rng.randrange(7)],
         "scaling": None if rng.randrange(3) else rng.randrange(1 << 30),
         "fn": rng.choice([0, 0, 4, 12]), "poc": rng.randrange(3), "lsb": rng.choice([0, 4, 12]),
         "daz": rng.randrange(2), "cycle": [rng.randrange(-40, 40) for _ in range(rng.choice([0, 1, 3]))],
         "refs": rng.randrange(17), "gaps": rng.randrange(2), "w": rng.choice([1, 2, 45, 120, rng.randrange(1, 300)]),
         "h": rng.choice([1, 2, 30, 68, rng.randrange(1, 300)]), "mbs_only": rng.choice([1, 1, 1, 0]),
         "mbaff": rng.randrange(2), "d8": rng.randrange(2),
         "crop": None if rng.randrange(3) else [rng.randrange(4) for _ in range(4)], "vui": None}
    if rng.randrange(4):
        s["vui"] = {
            "ar": rng.choice([None, None, 1, rng.randrange(17), [rng.randrange(1, 65536), rng.randrange(1, 65536)],
                              [rng.randrange(3), rng.randrange(3)]]),
            "over": rng.choice([None, 0, 1]),
            "vst": rng.choice([None, None, [5, 0, None], [rng.randrange(8), 1, [1, 1, 1]], [0, 0, [9, 16, 0]]]),
            "chroma": rng.choice([None, None, [0, 1]]),
            "timing": rng.choice([None, [1, 50, 1], [1, 50, 1], [1001, 60000, 1], [1001, 48000, 0], [1, 2, 1],
                                  [1000, 60000, 0], [1, 120, 0], [0x01000000, 0x02000003, 1], [90000, 7200000, 1],
                                  [1001, 120000, 1]]),
            "rest": rng.randrange(16)}
    return s


def sps_rbsp(s):
    b = Bits()
    b.u(8, 0x67)
    b.u(8, s["profile"])
    b.u(8, s["flags"])
    b.u(8, s["level"])
    b.ue(s["id"])
    if s["profile"] in HIGH:
        b.ue(s["cf"])
        if s["cf"] == 3:
            b.u(1, s["sep"])
        b.ue(s["bd"][0])
        b.ue(s["bd"][1])
        b.u(1, 0)
        b.u(1, 0 if s["scaling"] is None else 1)
        if s["scaling"] is not None:
            r = random.Random("sl%d" % s["scaling"])
            for i in range(8 if s["cf"] != 3 else 12):
                there = r.randrange(2)
                b.u(1, there)
                if there:
                    last = 8
                    for _ in range(16 if i < 6 else 64):
                        nxt = r.randrange(1, 255) if r.randrange(30) else 0
                        d = (nxt - last + 128) % 256 - 128
                        b.se(d)
                        if nxt == 0:
                            break
                        last = nxt
    b.ue(s["fn"])
    b.ue(s["poc"])
    if s["poc"] == 0:
        b.ue(s["lsb"])
    elif s["poc"] == 1:
        b.u(1, s["daz"])
        b.se(-3)
        b.se(4)
        b.ue(len(s["cycle"]))
        for x in s["cycle"]:
            b.se(x)
    b.ue(s["refs"])
    b.u(1, s["gaps"])
    b.ue(s["w"] - 1)
    b.ue(s["h"] - 1)
    b.u(1, s["mbs_only"])
    if not s["mbs_only"]:
        b.u(1, s["mbaff"])
    b.u(1, s["d8"])
    b.u(1, 0 if s["crop"] is None else 1)
    if s["crop"] is not None:
        for x in s["crop"]:
            b.ue(x)
    v = s["vui"]
    b.u(1, 0 if v is None else 1)
    if v is not None:
        b.u(1, 0 if v["ar"] is None else 1)
        if isinstance(v["ar"], int):
            b.u(8, v["ar"])
        elif v["ar"] is not None:
            b.u(8, 255)
            b.u(16, v["ar"][0])
            b.u(16, v["ar"][1])
        b.u(1, 0 if v["over"] is None else 1)
        if v["over"] is not None:
            b.u(1, v["over"])
        b.u(1, 0 if v["vst"] is None else 1)
        if v["vst"] is not None:
            b.u(3, v["vst"][0])
            b.u(1, v["vst"][1])
            b.u(1, 0 if v["vst"][2] is None else 1)
            for x in v["vst"][2] or ():
                b.u(8, x)
        b.u(1, 0 if v["chroma"] is None else 1)
        for x in v["chroma"] or ():
            b.ue(x)
        b.u(1, 0 if v["timing"] is None else 1)
        if v["timing"] is not None:
            b.u(32, v["timing"][0])
            b.u(32, v["timing"][1])
            b.u(1, v["timing"][2])
        b.u(4, v["rest"])
    return b.done()


def cat(s):
    """ChromaArrayType"""
    if s["profile"] not in HIGH:
        return 1
    return 0 if s["cf"] == 3 and s["sep"] else s["cf"]


def separate(s):
    return s["profile"] in HIGH and s["cf"] == 3 and s["sep"] == 1


def sps_size(s):
    """(coded width, coded height, width, height)"""
    cw = s["w"] * 16
    ch = s["h"] * 16 * (2 - s["mbs_only"])
    sw, sh = {0: (1, 1), 1: (2, 2), 2: (2, 1), 3: (1, 1)}[cat(s)]
    left, right, top, bottom = s["crop"] or [0, 0, 0, 0]
    return cw, ch, cw - sw * (left + right), ch - sh * (2 - s["mbs_only"]) * (top + bottom)


def gen_pps(rng, pid, sid):
    return {"id": pid, "sps": sid, "cabac": rng.randrange(2), "bfp": rng.randrange(2),
            "fmo": None if rng.randrange(5) else rng.choice([0, 1, 2, 3, 6]), "groups": rng.randrange(1, 8),
            "map": rng.randrange(1, 40), "refs": [rng.randrange(3), rng.randrange(3)],
            "qp": [rng.randrange(-10, 10), rng.randrange(-3, 3), rng.randrange(-12, 12)], "red": rng.randrange(2),
            "ext": rng.randrange(2)}


def pps_rbsp(p):
    b = Bits()
    b.u(8, 0x68)
    b.ue(p["id"])
    b.ue(p["sps"])
    b.u(1, p["cabac"])
    b.u(1, p["bfp"])
    if p["fmo"] is None:
        b.ue(0)
    else:
        g = p["groups"]
        b.ue(g)
        b.ue(p["fmo"])
        if p["fmo"] == 0:
            for k in range(g + 1):
                b.ue(k * 7)
        elif p["fmo"] == 2:
            for k in range(g):
                b.ue(k)
                b.ue(k + 3)
        elif p["fmo"] in (3, 4, 5):
            b.u(1, 1)
            b.ue(5)
        elif p["fmo"] == 6:
            b.ue(p["map"] - 1)
            for k in range(p["map"]):
                b.u(g.bit_length(), k % (g + 1))
    b.ue(p["refs"][0])
    b.ue(p["refs"][1])
    b.u(1, 0)
    b.u(2, 1)
    for x in p["qp"]:
        b.se(x)
    b.u(1, 1)
    b.u(1, 0)
    b.u(1, p["red"])
    if p["ext"]:
        b.u(1, 1)
        b.u(1, 0)
        b.se(2)
    return b.done()


def slice_nals(sl, s, p):
    """The NAL units of one slice: [(header byte, rbsp)]"""
    nut = {"idr": 5, "non": 1, "part": 2}[sl["nut"]]
    b = Bits()
    b.u(8, sl["ref"] << 5 | nut)
    b.ue(sl["mb"])
    b.ue(sl["type"])
    b.ue(p["id"])
    if separate(s):
        b.u(2, sl["mb"] % 3)
    b.u(s["fn"] + 4, sl["fn"] % (1 << (s["fn"] + 4)))
    if not s["mbs_only"]:
        b.u(1, sl["field"])
        if sl["field"]:
            b.u(1, sl["bottom"])
    if nut == 5:
        b.ue(sl["idr_id"])
    field = sl["field"] and not s["mbs_only"]
    if s["poc"] == 0:
        b.u(s["lsb"] + 4, sl["lsb"] % (1 << (s["lsb"] + 4)))
        if p["bfp"] and not field:
            b.se(sl["db"])
    if s["poc"] == 1 and not s["daz"]:
        b.se(sl["d0"])
        if p["bfp"] and not field:
            b.se(sl["d1"])
    if p["red"]:
        b.ue(sl["red"])
    elif sl["red"]:
        raise SkipCase()
    out = [b.done(noise(sl["seed"], sl["len"], sl["style"]))]
    if nut == 2:
        for t in (3, 4):
            if sl["len"] % t == 0:
                out.append(bytes([sl["ref"] << 5 | t]) + b"\xa0" + noise(sl["seed"] + t, 5, sl["style"]) + b"\x80")
    return out


def effective(sl, s, p):
    """What of a slice header tells one picture from the next (H.264 7.4.1.2.4)"""
    field = bool(sl["field"]) and not s["mbs_only"]
    idr = sl["nut"] == "idr"
    e = {"pps": p["id"], "fn": sl["fn"] % (1 << (s["fn"] + 4)), "field": field,
         "bottom": sl["bottom"] if field else None, "ref0": sl["ref"] == 0, "idr": idr,
         "idr_id": sl["idr_id"] if idr else None}
    if s["poc"] == 0:
        e["lsb"] = sl["lsb"] % (1 << (s["lsb"] + 4))
        e["db"] = sl["db"] if p["bfp"] and not field else 0
    if s["poc"] == 1:
        e["d0"] = sl["d0"] if not s["daz"] else 0
        e["d1"] = sl["d1"] if not s["daz"] and p["bfp"] and not field else 0
    return e


def gen_slice(rng, base):
    sl = dict(base)
    sl["seed"] = rng.randrange(1 << 20)
    sl["len"] = rng.choice([0, 1, 3, 10, 40, rng.randrange(200)])
    sl["style"] = rng.choice([0, 0, 1])
    return sl


DIFF = ["pps", "fn", "field", "ref0", "idr", "idr_id", "lsb", "db", "d0", "d1", "bottom", "none"]
STARTERS = ["aud", "sei", "sps", "pps", "aud-sei", "spsext", "res18", "subset"]


def gen_h264(rng, n, big=False):
    spss = [gen_sps(rng, rng.choice([0, 0, 1, 31]))]
    if rng.randrange(4) == 0:
        spss.append(gen_sps(rng, 5))
    used = [s["id"] for s in spss]
    ppss = []
    for k in range(rng.choice([1, 1, 2, 3])):
        ppss.append(gen_pps(rng, [0, 1, 255][k], rng.choice(used[:1] * 3 + used)))
    base = {"nut": "idr", "ref": 1, "mb": 0, "type": 7, "pps": 0, "fn": 0, "field": rng.randrange(2), "bottom": 0,
            "idr_id": 0, "lsb": 0, "db": 0, "d0": 0, "d1": 0, "red": 0}
    aus = []
    for k in range(n):
        pre = []
        if k:
            base = dict(base)
            if base["nut"] == "idr" and rng.randrange(3):
                base["nut"] = rng.choice(["non", "non", "part"])
            what = rng.choice(DIFF)
            if what == "pps":
                base["pps"] = rng.randrange(len(ppss))
            elif what == "field":
                base["field"] ^= 1
            elif what == "bottom":
                base["bottom"] ^= 1
            elif what == "ref0":
                base["ref"] = 0 if base["ref"] else rng.randrange(1, 4)
                if base["ref"] == 0 and base["nut"] == "idr":
                    base["nut"] = "non"
            elif what == "idr":
                base["nut"] = "idr" if base["nut"] != "idr" else "non"
                if base["nut"] == "idr":
                    base["ref"] = base["ref"] or 1
            elif what in ("db", "d0", "d1"):
                base[what] = rng.randrange(-5, 6)
            elif what != "none":
                base[what] += rng.choice([1, 1, 2, 3])
            if rng.randrange(3) == 0:
                pre = [rng.choice(STARTERS)]
        else:
            pre = [rng.choice(["aud", "none"])]
        base["type"] = rng.choice([2, 7, 4, 9, 7, 0, 5, 1, 6, 3, 8])
        slices = []
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            sl = gen_slice(rng, base)
            if big:
                sl["len"] = rng.choice([10, 1000, 5000, 9000])
            sl["mb"] = j * rng.randrange(1, 40)
            if j and rng.randrange(4) == 0:
                sl["type"] = rng.choice([2, 7, 0, 5, 1])
            if sl["ref"]:
                sl["ref"] = rng.choice([sl["ref"], sl["ref"], 1, 2, 3])
            if base["nut"] == "part" and rng.randrange(2):
                sl["nut"] = "non"
            slices.append(sl)
        if rng.randrange(4) == 0:
            sl = gen_slice(rng, base)
            sl["red"] = rng.choice([1, 2])
            sl["fn"] += rng.choice([0, 0, 1])
            slices.append(sl)
        post = rng.choice([[]] * 6 + [["filler"], ["eoseq"], ["aux"], ["ext"], ["unspec"]])
        if k == n - 1 and rng.randrange(4) == 0:
            post = post + ["eostream"]
        aus.append({"pre": pre, "sets": int(k == 0 or rng.randrange(6) == 0), "slices": slices, "post": post,
                    "resps": rng.randrange(1 << 20) if base["nut"] == "idr" and rng.randrange(6) == 0 else None,
                    "sc": rng.randrange(1 << 12), "repps": rng.choice([None] * 9 + [rng.randrange(1 << 20)]),
                    "short": int(rng.randrange(9) == 0)})
    return {"sps": spss, "pps": ppss, "aus": aus, "lead": rng.choice([0, 0, 0, 1, 3])}


def h264_stream(c):
    """-> [(bytes of the access unit, [unit offsets], is key frame)], info of the first one"""
    out = []
    info = None
    spss = {s["id"]: s for s in c["sps"]}
    ppss = [dict(p) for p in c["pps"]]
    prev = None
    def shape(x, n):
        if x is not None and (not isinstance(x, list) or len(x) != n or any(not isinstance(y, int) for y in x)):
            raise SkipCase()
    for s in c["sps"]:
        shape(s["crop"], 4)
        shape(s["bd"], 2)
        if s["vui"] is not None:
            shape(s["vui"]["chroma"], 2)
            shape(s["vui"]["timing"], 3)
            if not isinstance(s["vui"]["ar"], int):
                shape(s["vui"]["ar"], 2)
            if s["vui"]["vst"] is not None:
                shape(s["vui"]["vst"][2], 3)
        if s["bd"] is None or max(s["bd"]) > 6 or not 0 <= s["poc"] <= 2:
            raise SkipCase()
        if s["fn"] > 12 or s["lsb"] > 12 or not isinstance(s["cycle"], list):
            raise SkipCase()
    for p in c["pps"]:
        shape(p["refs"], 2)
        shape(p["qp"], 3)
        if p["fmo"] not in (None, 0, 1, 2, 3, 4, 5, 6) or p["refs"] is None or p["qp"] is None or p["groups"] > 7:
            raise SkipCase()
    for s in c["sps"]:
        if not (1 <= s["w"] <= 2000 and 1 <= s["h"] <= 2000) or s["id"] > 31 or s["cf"] > 3:
            raise SkipCase()
        if s["vui"] and s["vui"]["timing"] and 0 in s["vui"]["timing"][:2]:
            raise SkipCase()
        if min(sps_size(s)) <= 0:
            raise SkipCase()
    if len({p["id"] for p in ppss}) != len(ppss) or any(p["id"] > 255 or p["groups"] < 1 for p in ppss):
        raise SkipCase()
    for k, au in enumerate(c["aus"]):
        nals = []
        starter = False
        for x in au["pre"]:
            if "aud" in x:
                nals.append(b"\x09\xf0")
                starter = True
            if "sei" in x:
                nals.append(b"\x06\x05\x04\x01\x02\x03\x04\x80")
                starter = True
            if x == "spsext":
                nals.append(b"\x0f\x88\x84\x80")
                starter = True
            if x == "res18":
                nals.append(b"\x12\x12")
                starter = True
            if x == "subset":
                # a subset sequence parameter set says nothing about this picture
                nals.append(b"\x6f" + sps_rbsp(dict(c["sps"][0], w=1, h=1, fn=3))[1:])
                starter = True
        if au["repps"] is not None:
            # a parameter set is sent again with other contents
            r = random.Random("pps%d" % au["repps"])
            q = r.randrange(len(ppss))
            ppss[q] = gen_pps(r, ppss[q]["id"], ppss[q]["sps"])
        again = au.get("resps") is not None and all(sl["nut"] == "idr" for sl in au["slices"])
        if again:
            # so is one of the other kind, which also makes what refers to it start again
            r = random.Random("sps%d" % au["resps"])
            sid = r.choice(sorted(spss))
            spss[sid] = gen_sps(r, sid)
            if min(sps_size(spss[sid])) <= 0:
                raise SkipCase()
        if k == 0 or au["sets"] or "sps" in au["pre"] or again:
            for sid in [s["id"] for s in c["sps"]]:
                nals.append(sps_rbsp(spss[sid]))
                starter = True
        if k == 0 or au["sets"] or again or au["repps"] is not None or "pps" in au["pre"]:
            for p in ppss:
                if p["sps"] not in spss:
                    raise SkipCase()
                nals.append(pps_rbsp(p))
                starter = True
        prim = []
        if not au["slices"] or au["slices"][0]["red"]:
            raise SkipCase()
        for sl in au["slices"]:
            if not 0 <= sl["pps"] < len(ppss) or sl["len"] > 20000 or not 0 <= sl["ref"] <= 3 or sl["type"] > 9:
                raise SkipCase()
            if sl["nut"] == "idr" and sl["ref"] == 0:
                raise SkipCase()
            p = ppss[sl["pps"]]
            s = spss[p["sps"]]
            sl = dict(sl)
            if sl["red"] and not p["red"]:
                continue
            e = effective(sl, s, p)
            if not sl["red"]:
                if prim and e != prim[0][0]:
                    raise SkipCase()
                prim.append((e, sl, s))
            nals += slice_nals(sl, s, p)
        if prev is not None and not starter:
            # two pictures in a row with nothing between them have to differ in one of these
            if not any(prim[0][0].get(x) != prev.get(x) for x in prim[0][0] if x in prev):
                return None
        prev = prim[0][0]
        for x in au["post"]:
            nals.append({"filler": b"\x0c\xff\xff\x80", "eoseq": b"\x0a", "eostream": b"\x0b",
                         "ext": b"\x14\x80\x11\x22\x80", "unspec": b"\x18\x00\x80",
                         "aux": b"\x13\x88\x84\x21\xa0"}[x])
        b = bytearray(c["lead"] if k == 0 else 0)
        offsets = []
        for j, rbsp in enumerate(nals):
            sc = au["sc"] >> (2 * (j % 6)) & 3
            if j == 0 and k and au.get("short"):
                pass
            elif j == 0 or sc & 1:
                b += b"\x00"
            elif sc == 2:
                b += b"\x00\x00"
            offsets.append(len(b))
            b += b"\x00\x00\x01" + escape(rbsp)
        key = all(sl["type"] in (2, 4, 7, 9) for _, sl, _ in prim)
        if info is None:
            s = prim[0][2]
            cw, ch, w, h = sps_size(s)
            rate = None
            if s["vui"] and s["vui"]["timing"]:
                num, scale, _ = s["vui"]["timing"]
                rate = Fraction(scale, num * (1 if prim[0][0]["field"] else 2))
            info = {"cw": cw, "ch": ch, "w": w, "h": h, "rate": rate, "each": []}
        info["each"].append(picture_info(prim[0][2], prim[0][0]["field"], key))
        out.append((b, offsets, key))
    # zeros after the last unit of one picture, before the start of the next
    for k in range(len(out) - 1):
        zeros = 0 if c["aus"][k + 1].get("short") else c["aus"][k]["sc"] % 5 // 2
        out[k] = (bytes(out[k][0]) + bytes(zeros), out[k][1], out[k][2])
    if out:
        out[-1] = (bytes(out[-1][0]), out[-1][1], out[-1][2])
    return out, info


def picture_info(s, field, key):
    """What the parameter sets say about one picture"""
    cw, ch, w, h = sps_size(s)
    timing = s["vui"] and s["vui"]["timing"]
    ar = s["vui"]["ar"] if s["vui"] else None
    if isinstance(ar, list):
        # (0 makes it unspecified)
        ar = Fraction(ar[0], ar[1]) if ar[0] and ar[1] else "?"
    else:
        ar = Fraction(*RATIOS[ar or 0]) if (ar or 0) < len(RATIOS) else None
    return {"profile": s["profile"], "flags": s["flags"], "level": s["level"],
            "bit_depth": s["bd"][0] + 8 if s["profile"] in HIGH else 8, "coded_width": cw, "coded_height": ch,
            "width": w, "height": h, "sample_aspect_ratio": ar,
            "frame_rate": Fraction(timing[1], timing[0] * (1 if field else 2)) if timing else None,
            "fixed_frame_rate": bool(timing[2]) if timing else None, "key_frame": key}


# table E-1, without 255
RATIOS = [(0, 1), (1, 1), (12, 11), (10, 11), (16, 11), (40, 33), (24, 11), (20, 11), (32, 11), (80, 33), (18, 11),
          (15, 11), (64, 33), (160, 99), (4, 3), (3, 2), (2, 1)]


def gen_h264_ok(rng, n, big=False):
    while True:
        c = gen_h264(rng, n, big)
        try:
            if h264_stream(c) is not None:
                return c
        except SkipCase:
            pass


# ---------------------------------------------------------------------------------------------------------------------
# time

def near(ns, x, tol=1):
    """ns within tol nanoseconds of x seconds"""
    return abs(Fraction(ns) - x * 10**9) <= tol
