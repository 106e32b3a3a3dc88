"""G14: test pattern generators are repeatable and independent of each other."""
import math
import struct
from fractions import Fraction

from ..core import SkipCase
from ..threads import Threads
from .. import model as M

from mediagrains import cogenums as CE  # noqa: E402
from mediagrains.grains import VideoGrain
from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K  # noqa: E402
from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay  # noqa: E402
from mediagrains.patterngenerators.video.still import StillPatternGenerator  # noqa: E402
from mediatimestamp import CountRange, TimeOffset, TimeRange, Timestamp, TimeValue, TimeValueRange  # noqa: E402

ID = "G14"
RUNS = {"quick": 9000, "thorough": 300000}
RULE = ("A case is up to four generators with random parameters (some made from others, some alike in all but one "
        "parameter) and up to three users, each with its own list of accesses: single points in every form of key, "
        "membership, ranges in every form, unbounded ones too, of which several are read in turn, and changes to the "
        "grains got before. Which user goes next is chosen at random; in half of the cases each user is a thread that "
        "is preempted at any line of the library. Non-trivial: a range was open while other accesses were made, and "
        "a grain was changed.")
REAL = ["mediagrains.patterngenerators", "mediagrains.grains", "mediatimestamp"]
STUB = ["thread scheduling (one thread runs at a time; switches at library lines are drawn from the seed)",
        "clock, uuid generation"]
ASSUMPTIONS = ["A still's template grain is not changed after the generator is made.",
               "One iterator is not used by two threads at once.",
               "Integer keys count frames; they are not used with audio generators."]
FROZEN = ()

# offset and range of luma, middle of chroma, bits, bytes per value; horizontal and vertical shift come from the name
BITS = {"U8": (8, 1), "S16_10BIT": (10, 2), "S16_12BIT": (12, 2), "S16": (16, 2)}
VFMT = ["U8_444", "U8_422", "U8_420", "S16_444_10BIT", "S16_422_10BIT", "S16_420_10BIT", "S16_444_12BIT",
        "S16_422_12BIT", "S16_420_12BIT", "S16_444", "S16_422", "S16_420"]
AFMT = ["%s_%s" % (a, b) for a in ("S16", "S24", "S32", "FLOAT", "DOUBLE") for b in ("PLANES", "PAIRS", "INTERLEAVED")]
RATES = [[25, 1], [50, 1], [30000, 1001], [60000, 1001], [24, 1], [24000, 1001], [1, 1], [12, 5]]
BARS = [(0xFFFF, 0x8000, 0x8000), (0xE1FF, 0x0000, 0x9400), (0xB200, 0xABFF, 0x0000), (0x95FF, 0x2BFF, 0x15FF),
        (0x69FF, 0xD400, 0xEA00), (0x4C00, 0x5400, 0xFFFF), (0x1DFF, 0xFFFF, 0x6BFF), (0x0000, 0x8000, 0x8000)]
DEFAULTS = {"height": 100, "speed": 1.0, "rate": Fraction(25, 1), "cog_frame_format": CE.CogFrameFormat.U8_444,
            "intensity": 0.75, "samples": 1920, "channels": 1, "sample_rate": 48000, "frequency": 1000, "volume": 0.5,
            "cog_audio_format": CE.CogAudioFormat.S16_INTERLEAVED}
VIDEO_KINDS = ("luma", "bars", "bar", "still")
MUT = ["data", "data", "replace", "times", "ids", "component", "labels", "rate", "format"]


def gen_gen(rng, prev):
    vids = [i for i, g in enumerate(prev) if g["k"] in VIDEO_KINDS]
    if prev and rng.randrange(3) == 0:
        # like an earlier one, except for one thing
        g = dict(prev[rng.randrange(len(prev))])
        if g["k"] == "bar":
            g.update(rng.choice([{"height": rng.randrange(1, 7)}, {"speed": rng.choice([0, 1, 2, 3, 0.5])}]))
        elif g["k"] in ("luma", "bars", "still"):
            g.update(rng.choice([{"int": rng.choice([1.0, 0.75, 0.5])}, {"w": rng.choice([16, 24, 32, 48])},
                                 {"h": rng.choice([2, 4, 6])}, {"fmt": rng.choice(VFMT)}, {"rate": rng.choice(RATES)},
                                 {"ids": rng.randrange(99)}, {"seed": rng.randrange(99)}]))
        else:
            g.update(rng.choice([{"fmt": rng.choice(AFMT)}, {"freq": rng.choice([44, 97, 100, 48])},
                                 {"vol": rng.choice([1.0, 0.25])}, {"samples": rng.choice([64, 100, 160])},
                                 {"ch": rng.choice([1, 2, 3])}, {"sr": rng.choice([1000, 441])},
                                 {"ids": rng.randrange(99)}]))
        return g
    if vids and rng.randrange(3) == 0:
        return {"k": "bar", "src": rng.choice(vids), "height": rng.choice([0, 1, 2, 3, 4, 8, 9, 100]),
                "speed": rng.choice([0, 1, 1, 1.0, 2, 3, 0.5, 0.3, 1.7, 7])}
    if rng.randrange(2):
        return {"k": rng.choice(["luma", "bars", "bars", "still"]), "w": rng.choice([16, 16, 20, 24, 32, 34, 48, 64, 2]),
                "h": rng.choice([2, 2, 4, 6, 8] * 5 + [104]), "fmt": rng.choice(VFMT + ["U8_444"] * 3),
                "rate": rng.choice(RATES),
                "int": rng.choice([0.75, 1.0, 0.5, 0.1, 0]), "ids": rng.randrange(99), "seed": rng.randrange(99)}
    return {"k": rng.choice(["tone", "tone", "tone", "tone1k", "silence"]),
            "fmt": rng.choice(AFMT + ["S16_INTERLEAVED"] * 4),
            "samples": rng.choice([48, 64, 100, 160, 1, 37, 441] * 3 + [1920]), "ch": rng.choice([1, 1, 2, 2, 3, 4, 6]),
            "sr": rng.choice([1000, 1000, 800, 2205, 4410, 8000, 48000]) if rng.randrange(8) else 48000, "ids": rng.randrange(99),
            "freq": rng.choice([100, 1000, 44, 97, 48, 0, 400, 1, 399, 44.5]),
            "vol": rng.choice([0.5, 0.25, 1.0, 0.999, 0, 0.001])}


def gen_ops(rng, ngens):
    ops = []
    base = rng.choice([0, 7, 1000, 10445000000])
    for _ in range(rng.choice([2, 4, 6, 10])):
        k = rng.randrange(20)
        g = rng.randrange(ngens)
        n = base + rng.randrange(12)
        if k < 6:
            ops.append(["get", g, n, rng.randrange(9)])
        elif k < 7:
            ops.append(["in", g, n, rng.randrange(2)])
        elif k < 11:
            ops.append(["open", g, n, rng.choice([0, 1, 2, 3, 5]), rng.randrange(14), rng.choice([1, 1, 2, 3])])
            if ops[-1][4] == 13 and rng.randrange(2):
                # long steps, which are given as a time
                ops[-1][5] = rng.choice([6, 9, 18, 90, 1001, 3333])
        elif k < 16:
            ops.append(["next", rng.randrange(4), rng.choice([1, 1, 2, 4, 9])])
        elif k < 19:
            ops.append(["change", rng.randrange(4), rng.choice(MUT), rng.randrange(99)])
        else:
            ops.append(["off", g, n, rng.randrange(1, 99)])
    return ops


def generate(rng, tier):
    gens = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        gens.append(gen_gen(rng, gens))
    return {"gens": gens, "users": [gen_ops(rng, len(gens)) for _ in range(rng.choice([1, 2, 2, 3]))],
            "threads": rng.randrange(2), "gap": rng.choice([1, 3, 12, 40, 150])}


# ---------------------------------------------------------------------------------------------------------------------
# what the generators have to yield

class Spec:
    """A generator's parameters, with what has to come of them"""

    def __init__(self, case, i, depth=0):
        g = self.g = case["gens"][i]
        self.k = g["k"]
        self.src = None
        if self.k == "bar":
            if not 0 <= g["src"] < i or case["gens"][g["src"]]["k"] not in VIDEO_KINDS or not 0 <= g["height"] <= 100 \
                    or not 0 <= g["speed"] <= 10:
                raise SkipCase()
            self.src = Spec(case, g["src"], depth + 1)
            self.base = self.src.base
        elif self.k in ("luma", "bars", "still"):
            self.base = g
            if g["w"] < 2 or g["w"] % 2 or g["w"] > 200 or g["h"] < 2 or g["h"] % 2 or g["h"] > 128 or \
                    g["fmt"] not in VFMT or not 0 <= g["int"] <= 1:
                raise SkipCase()
        else:
            self.base = g
            if g["fmt"] not in AFMT or not 1 <= g["samples"] <= 2000 or not 1 <= g["ch"] <= 16 or \
                    not 0 <= g["freq"] < 200000 or not 0 <= g["vol"] <= 1 or not 100 <= g["sr"] <= 200000:
                raise SkipCase()
        b = self.base
        self.video = self.k in VIDEO_KINDS
        if self.video:
            num, den = b["rate"]
            if num < 1 or den < 1 or Fraction(num, den) > 1000 or Fraction(num, den) < Fraction(1, 1000):
                raise SkipCase()
            self.rate = Fraction(num, den)
            parts = b["fmt"].split("_")
            self.bits, self.bpv = BITS["_".join([parts[0]] + parts[2:])]
            self.hs, self.vs = {"444": (0, 0), "422": (1, 0), "420": (1, 1)}[parts[1]]
            self.dims = [(b["w"], b["h"])] + [(b["w"] >> self.hs, b["h"] >> self.vs)] * 2
            self.fill = self.planes()
        else:
            self.rate = Fraction(b["sr"], b["samples"])
        self.source_id = M.uid(2 * b["ids"])
        self.flow_id = M.uid(2 * b["ids"] + 1)

    def make(self, made):
        g, b = self.g, self.base
        if self.k == "bar":
            return MovingBarOverlay(made[g["src"]], **self.brief({"height": g["height"], "speed": g["speed"]}))
        ids = (self.source_id, self.flow_id)
        if self.k == "luma":
            return LumaSteps(*ids, b["w"], b["h"], **self.brief({
                "rate": self.rate, "cog_frame_format": getattr(CE.CogFrameFormat, b["fmt"])}))
        if self.k == "bars":
            return ColourBars(*ids, b["w"], b["h"], **self.brief({
                "intensity": b["int"], "rate": self.rate, "cog_frame_format": getattr(CE.CogFrameFormat, b["fmt"])}))
        if self.k == "still":
            return StillPatternGenerator(VideoGrain(
                src_id=ids[0], flow_id=ids[1], rate=self.rate, duration=1 / self.rate, width=b["w"], height=b["h"],
                cog_frame_format=getattr(CE.CogFrameFormat, b["fmt"]),
                cog_frame_layout=CE.CogFrameLayout.FULL_FRAME, data=bytearray(b"".join(
                    line for p in self.fill for line in p))))
        kw = {"samples": b["samples"], "channels": b["ch"], "sample_rate": b["sr"],
              "cog_audio_format": getattr(CE.CogAudioFormat, b["fmt"])}
        if self.k == "silence":
            return Silence(*ids, **self.brief(kw))
        kw["volume"] = b["vol"]
        if self.k == "tone1k":
            return Tone1K(*ids, **self.brief(kw))
        kw["frequency"] = b["freq"]
        return Tone(*ids, **self.brief(kw))

    def brief(self, kw):
        """What has its default value can be left out"""
        if self.base["ids"] % 3:
            kw = {k: v for k, v in kw.items() if v != DEFAULTS[k]}
        return kw

    def check_made(self, env, gen, i):
        b, what = self.base, "generator %d (%s)" % (i, self.k)
        want = {"src_id": self.source_id, "flow_id": self.flow_id, "rate": self.rate}
        if self.video:
            want.update(width=b["w"], height=b["h"], cog_frame_format=getattr(CE.CogFrameFormat, b["fmt"]))
        else:
            want.update(samples=b["samples"], channels=b["ch"], sample_rate=b["sr"],
                        cog_audio_format=getattr(CE.CogAudioFormat, b["fmt"]))
        with env.oracle(what):
            for k, v in want.items():
                env.check(getattr(gen, k) == v, "wrong-parameter", "%s has %s %s, not %s", what, k, getattr(gen, k), v)

    def value(self, v):
        return v.to_bytes(self.bpv, "little")

    def planes(self):
        """The lines of each plane, without any bars"""
        b, out = self.base, []
        shift = self.bits - 8
        for c in range(3):
            w, h = self.dims[c]
            if b["k"] == "still":
                raw = M.payload(b["seed"] * 3 + c, w * h * self.bpv, 0)
                out.append([raw[y * w * self.bpv:(y + 1) * w * self.bpv] for y in range(h)])
                continue
            line = b""
            for x in range(w):
                pos = x * 8 // w
                if b["k"] == "luma":
                    v = (16 << shift) + pos * ((235 - 16) << shift) // 8 if c == 0 else 128 << shift
                else:
                    v = BARS[pos][c] >> (16 - self.bits)
                    if c == 0:
                        v = int(v * b["int"])
                line += self.value(v)
            out.append([line] * h)
        return out

    def video_planes(self, count):
        if self.k != "bar":
            return [list(p) for p in self.fill]
        out = self.src.video_planes(count)
        fnum = int(self.g["speed"] * count)
        for c in range(3):
            w, h = self.dims[c]
            vs = self.vs if c else 0
            black = self.value((16 if c == 0 else 128) << (self.bits - 8)) * w
            for y in range(self.g["height"] >> vs):
                out[c][((fnum >> vs) + y) % h] = black
        return out

    def samples(self, count):
        b = self.base
        freq = {"silence": 0, "tone1k": 1000}.get(self.k, int(b["freq"]))
        vol = 0 if self.k == "silence" else b["vol"]
        return [math.sin(2 * math.pi * ((n * freq) % b["sr"]) / b["sr"]) * vol
                for n in range(count * b["samples"], (count + 1) * b["samples"])]

    def check(self, env, g, count, what):
        """g has to be the grain for that count"""
        b = self.base
        with env.oracle(what):
            ns = Timestamp.from_count(count, self.rate.numerator, self.rate.denominator)
            env.check(g.origin_timestamp == ns, "wrong-time", "%s: origin timestamp %s is not that of period %d, %s",
                      what, g.origin_timestamp, count, ns)
            env.check(g.sync_timestamp == ns, "wrong-time", "%s: sync timestamp %s, origin timestamp %s", what,
                      g.sync_timestamp, ns)
            env.check(g.rate == self.rate and g.duration == 1 / self.rate, "wrong-rate",
                      "%s: rate %s and duration %s from a generator of rate %s", what, g.rate, g.duration, self.rate)
            env.check((g.source_id, g.flow_id) == (self.source_id, self.flow_id), "wrong-ids", "%s: wrong ids", what)
            env.check(len(g.timelabels) == 0, "wrong-labels", "%s: has time labels", what)
            data = bytes(g.data)
            env.check(g.length == g.expected_length == len(data), "wrong-length",
                      "%s: %d bytes of data, %s are expected for its format", what, len(data), g.expected_length)
            if self.video:
                self.check_video(env, g, data, count, what)
            else:
                env.check((g.channels, g.samples, g.sample_rate) == (b["ch"], b["samples"], b["sr"]) and
                          g.cog_audio_format == getattr(CE.CogAudioFormat, b["fmt"]),
                          "wrong-format", "%s: wrong format", what)
                self.check_audio(env, data, count, what)

    def check_video(self, env, g, data, count, what):
        b = self.base
        env.check((g.width, g.height, g.cog_frame_format) ==
                  (b["w"], b["h"], getattr(CE.CogFrameFormat, b["fmt"])), "wrong-format", "%s: wrong format", what)
        env.check(len(g.components) == 3, "wrong-format", "%s: %d components", what, len(g.components))
        for c, lines in enumerate(self.video_planes(count)):
            w, h = self.dims[c]
            comp = g.components[c]
            env.check((comp.width, comp.height) == (w, h), "wrong-format", "%s: component %d is %dx%d", what, c,
                      comp.width, comp.height)
            for y, line in enumerate(lines):
                at = comp.offset + y * comp.stride
                if data[at:at + len(line)] != line:
                    env.fail("wrong-picture", "%s: line %d of component %d (%s) isn't what it is in that picture", what,
                             y, c, b["fmt"])

    def check_audio(self, env, data, count, what):
        b = self.base
        kind, layout = b["fmt"].split("_")
        ch, n = b["ch"], b["samples"]
        want = self.samples(count)
        if layout == "PLANES":
            want = want * ch
        elif layout == "PAIRS":
            want = [x for x in want for _ in range(2)] * ((ch + 1) // 2)
        else:
            want = [x for x in want for _ in range(ch)]
        if layout == "PAIRS" and ch % 2:
            # what goes with the last of an odd number of channels is anything
            skip = set(range(n * (ch - 1) + 1, n * (ch + 1), 2))
        else:
            skip = ()
        if kind == "FLOAT":
            got, scale, tol = struct.unpack("<%df" % len(want), data), 1, 1e-6
        elif kind == "DOUBLE":
            got, scale, tol = struct.unpack("<%dd" % len(want), data), 1, 1e-8
        else:
            size = {"S16": 2, "S24": 4 if layout == "PLANES" else 3, "S32": 4}[kind]
            env.check(len(data) == size * len(want), "wrong-length", "%s: %d bytes of audio for %d samples", what,
                      len(data), len(want))
            got = [int.from_bytes(data[k:k + size], "little", signed=True) for k in range(0, len(data), size)]
            scale, tol = 1 << (int(kind[1:]) - 1), 1 if kind != "S32" else 8
        for k, (x, y) in enumerate(zip(got, want)):
            if k not in skip and abs(x - max(-scale, min(y * scale, scale - (kind[0] == "S")))) > tol:
                env.fail("wrong-sound", "%s: value %d is %s, it has to be %s (%s)", what, k, x, y * scale, b["fmt"])


class TS:
    def __init__(self, ts):
        self.ts = ts

    def __mediatimestamp__(self):
        return self.ts


class TR:
    def __init__(self, tr):
        self.tr = tr

    def __mediatimerange__(self):
        return self.tr


NOTHING = object()


class User:
    def __init__(self, w, n, ops):
        self.w = w
        self.n = n
        self.ops = ops
        self.iters = []     # [generator index, iterator, next count, step, remaining or None]
        self.grains = []    # [spec, grain, count, untouched]

    def run(self):
        for k in range(len(self.ops)):
            self.do(k)

    def do(self, k):
        op = self.ops[k]
        self.w.env.ev(self.n, op)
        getattr(self, "op_" + op[0])(*op[1:])

    def got(self, gi, g, count, what):
        env, spec = self.w.env, self.w.specs[gi]
        what = "%s %s %d (generator %d, %s)" % (what, "period", count, gi, spec.k)
        spec.check(env, g, count, what)
        for u in self.w.users:
            for x in u.grains:
                env.check(x[1] is not g, "shared", "%s: this grain has been yielded before", what)
        self.grains.append([spec, g, count, True, what])

    def op_get(self, gi, n, form):
        env = self.w.env
        spec, gen = self.w.specs[gi], self.w.gens[gi]
        r = spec.rate
        ts = Timestamp.from_count(n, r.numerator, r.denominator)
        if form == 4 and not spec.video:
            form = 0
        if form == 0:
            g = gen[ts]
        elif form == 1:
            g = gen[TimeOffset(ts.sec, ts.ns)]
        elif form == 2:
            g = gen[TimeValue(n, rate=r)]
        elif form == 3:
            g = gen[TimeValue(ts)]
        elif form == 4:
            g = gen[n]
        elif form == 5:
            g = gen[TS(ts)]
        elif form == 6:
            g = gen.get(TimeValue(n, rate=r))
        elif form == 7:
            g = gen.get(TimeValue(ts), NOTHING)
        else:
            g = gen[TimeValue(n * 2, rate=r * 2)]
        env.check(g is not None and g is not NOTHING, "no-grain", "generator %d (%s) has no grain for period %d", gi,
                  spec.k, n)
        self.got(gi, g, n, "single")

    def op_in(self, gi, n, form):
        env, spec, gen = self.w.env, self.w.specs[gi], self.w.gens[gi]
        tv = TimeValue(n, rate=spec.rate)
        env.check((tv if form else tv.as_timestamp()) in gen, "no-grain",
                  "generator %d (%s) says it has no grain for period %d", gi, spec.k, n)

    def op_off(self, gi, n, part):
        """A point between two periods: whatever it gives, it does so every time"""
        env, spec, gen = self.w.env, self.w.specs[gi], self.w.gens[gi]
        if not 0 < part < 99:
            raise SkipCase()
        ts = Timestamp.from_count(n * 100 + part, spec.rate.numerator * 100, spec.rate.denominator)
        a = gen.get(TimeValue(ts), NOTHING)
        b = gen.get(TimeValue(ts), NOTHING)
        env.check((a is NOTHING) == (b is NOTHING), "not-repeatable", "generator %d: asked twice for %s", gi, ts)
        if not spec.video:
            at = ts.to_count(spec.base["sr"], 1)
            env.check((a is NOTHING) == (at % spec.base["samples"] != 0), "wrong-grid",
                      "generator %d: %s grain at sample %d, grains have %d samples", gi,
                      "no" if a is NOTHING else "a", at, spec.base["samples"])
            if a is not NOTHING:
                spec.check(env, a, at // spec.base["samples"], "between two periods")
        if a is not NOTHING:
            with env.oracle("grain between two periods"):
                env.check(a is not None, "not-default", "generator %d: get(%s, default) gives None", gi, ts)
                env.check(a is not b and bytes(a.data) == bytes(b.data) and
                          a.origin_timestamp == b.origin_timestamp, "not-repeatable",
                          "generator %d gives different grains for %s", gi, ts)
                if spec.video and spec.k != "bar":
                    spec.check_video(env, a, bytes(a.data), n, "between two periods")
            env.probe("off-grid-grain")
        else:
            try:
                gen[ts]
            except KeyError:
                env.probe("off-grid-none")
            else:
                env.fail("not-repeatable", "generator %d: get says there is no grain at %s, [] gives one", gi, ts)

    def op_open(self, gi, n, length, form, step):
        spec, gen = self.w.specs[gi], self.w.gens[gi]
        r = spec.rate
        if length < 0 or step < 1:
            raise SkipCase()

        def ts(k):
            return Timestamp.from_count(k, r.numerator, r.denominator)

        last = n + length
        left = length + 1   # periods from n on
        if form == 0:
            it, left = gen[ts(n):], None
        elif form == 1:
            it = gen[ts(n):ts(last)]
        elif form == 2:
            it, left = gen[ts(n)::step], None
        elif form == 3:
            it = gen[ts(n):ts(last):step]
        elif form == 4:
            it = gen[TimeRange(ts(n), ts(last), TimeRange.INCLUSIVE)]
            step = 1
        elif form == 5:
            it = gen[TimeRange(ts(n), ts(last), TimeRange.INCLUDE_START)]
            step, left = 1, left - 1
        elif form == 6:
            it, left, step = gen[TimeRange.from_start(ts(n))], None, 1
        elif form == 7:
            it, step = gen[CountRange(n, last)], 1
        elif form == 8:
            it, step = gen[TimeValueRange(n, last, rate=r)], 1
        elif form == 9:
            it, left, step = gen[TimeValueRange.from_start(TimeValue(n, rate=r))], None, 1
        elif form == 10:
            it, step = gen[TR(TimeRange(ts(n), ts(last), TimeRange.INCLUSIVE))], 1
        elif form == 11:
            it, step = gen[n:last], 1
        elif form == 12:
            it, left, step = gen[TimeValueRange(ts(n), ts(last), TimeValueRange.INCLUDE_END)], length, 1
            n += 1
        else:
            # a step given as time; where it does not divide evenly the points may lie between periods
            if (10**9 * r.denominator * step) % r.numerator or not spec.video:
                it, step = gen[ts(n):ts(last)], 1
            else:
                n -= n % step
                it, left = gen[ts(n)::ts(step)], None
        if form in (0, 1):
            step = 1
        self.iters.append([gi, it, n, step, left, form])

    def op_next(self, which, times):
        env = self.w.env
        if not self.iters:
            return
        st = self.iters[which % len(self.iters)]
        if len(self.iters) > 1 or len(self.w.users) > 1:
            self.w.overlapped = True
        for _ in range(min(times, 30)):
            gi, it, n, step, left, form = st
            try:
                g = next(it)
            except StopIteration:
                g = None
            if left is not None and left <= 0:
                env.check(g is None, "too-many", "generator %d: a range (form %d) goes on after its end, to %s", gi, form,
                          getattr(g, "origin_timestamp", None))
                return
            env.check(g is not None, "too-few", "generator %d: a range (form %d) ends before period %d", gi, form, n)
            self.got(gi, g, n, "range form %d step %d" % (form, step))
            st[2] += step
            if left is not None:
                st[4] -= step

    def op_change(self, which, how, n):
        if not self.grains:
            return
        x = self.grains[-1 - which % min(4, len(self.grains))]
        g = x[1]
        x[3] = False
        self.w.changed = True
        if how == "data" and len(g.data) and isinstance(g.data, bytearray):
            g.data[n % len(g.data)] ^= 0xff
            g.data[:] = b"\xaa" * len(g.data)
        elif how == "replace":
            g.data = b"other"
        elif how == "times":
            g.origin_timestamp = g.sync_timestamp = Timestamp(n, 5)
        elif how == "ids":
            g.source_id = g.flow_id = M.uid(1000 + n)
        elif how == "component" and x[0].video and len(g.components):
            g.components[n % len(g.components)].stride = 1
            g.components[n % len(g.components)].offset = 77
        elif how == "labels":
            g.add_timelabel("x", 1, 25, 1)
        elif how == "rate":
            g.rate = Fraction(7, 3)
            g.duration = Fraction(1, 9)
        elif how == "format":
            if x[0].video:
                g.width = 1
                g.format = CE.CogFrameFormat.UYVY
            else:
                g.samples = 1
                g.format = CE.CogAudioFormat.S8_PLANES if hasattr(CE.CogAudioFormat, "S8_PLANES") else 0


class World:
    pass


def execute(env, case):
    w = World()
    w.env = env
    w.overlapped = w.changed = False
    if not case["gens"] or not case["users"] or case["gap"] < 1:
        raise SkipCase()
    w.specs = [Spec(case, i) for i in range(len(case["gens"]))]
    for ops in case["users"]:
        for op in ops:
            if op[0] in ("get", "in", "open", "off") and (not 0 <= op[1] < len(w.specs) or op[2] < 0):
                raise SkipCase()
    w.gens = []
    for s in w.specs:
        w.gens.append(s.make(w.gens))
        s.check_made(env, w.gens[-1], len(w.gens) - 1)
    w.users = [User(w, n, ops) for n, ops in enumerate(case["users"])]
    if case["threads"] and len(w.users) > 1:
        t = Threads(env, case["gap"])
        t.run([u.run for u in w.users])
        if t.switches:
            env.faults["thread-preempted"] += t.switches
            w.overlapped = True
    else:
        at = [0] * len(w.users)
        live = [i for i, u in enumerate(w.users) if u.ops]
        while live:
            i = live[env.choose(len(live))]
            w.users[i].do(at[i])
            at[i] += 1
            if at[i] == len(w.users[i].ops):
                live.remove(i)
    buffers = {}
    for u in w.users:
        for spec, g, count, untouched, what in u.grains:
            if untouched:
                spec.check(env, g, count, "afterwards, " + what)
                other = buffers.setdefault(id(g.data), g)
                env.check(other is g or isinstance(g.data, bytes), "shared", "%s: its data is another grain's, too", what)
    if w.changed:
        env.fault("grain-changed-by-its-user")
    if w.overlapped:
        env.probe("overlap")
    env.nontrivial = w.overlapped and w.changed
