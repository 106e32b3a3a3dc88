"""G20: the hypothesis strategies draw the grains that were asked for."""
import copy
import hashlib
import json
import math
import random
import re
import struct
import uuid
from fractions import Fraction

from .. import seams
from ..core import SkipCase
from .g16 import PIX, pix_layout, snd_size

import hypothesis.strategies as st
from hypothesis.configuration import set_hypothesis_home_dir
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.choice import ChoiceTemplate
from hypothesis.internal.conjecture.data import ConjectureData
from hypothesis.internal.conjecture.providers import HypothesisProvider
from hypothesis.internal.constants_ast import Constants
from mediatimestamp.immutable import Timestamp

import mediagrains.grains as BG  # noqa: E402
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout  # noqa: E402
from mediagrains.hypothesis import strategies as S  # noqa: E402

set_hypothesis_home_dir("/dev/null/none")       # nothing is to be written anywhere

ID = "G20"
RUNS = {"quick": 16000, "thorough": 500000}
RULE = ("A case is up to three strategies for grains, of any type, with each of their parameters left out, set to None or "
        "DONOTSET, fixed or a strategy, and a history of draws from them, in any order, by a simulated test engine: with "
        "random choices, with the simplest ones, with the choices of an earlier draw again or made simpler, and draws "
        "given up half way. Drawn grains are changed, serve as templates for further strategies, and the clock moves. "
        "Non-trivial: grains were drawn from at least two strategies or with choices from an earlier draw, and one was "
        "changed, given up or drawn from a template.")
REAL = ["mediagrains.hypothesis.strategies", "mediagrains.grains", "hypothesis.strategies", "mediatimestamp"]
STUB = ["hypothesis engine (choices are drawn from the seed, replayed, simplified and cut off)", "clock, uuid generation"]
ASSUMPTIONS = ["The hypothesis library makes valid values of the strategies it is given."]

TYPES = ["empty", "event", "audio", "video", "coded_audio", "coded_video"]
CLS = {"empty": BG.Grain, "event": BG.EventGrain, "audio": BG.AudioGrain, "video": BG.VideoGrain,
       "coded_audio": BG.CodedAudioGrain, "coded_video": BG.CodedVideoGrain}
GTYPE = {"empty": "empty", "event": "event", "audio": "audio", "video": "video", "coded_audio": "coded_audio",
         "coded_video": "coded_video"}
TIMES = ["creation_timestamp", "origin_timestamp", "sync_timestamp"]
COMMON = ["src_id", "flow_id"] + TIMES + ["rate", "duration"]
PARAMS = {"empty": [],
          "event": ["event_type", "topic", "event_data"],
          "audio": ["format", "samples", "channels", "sample_rate"],
          "coded_audio": ["format", "samples", "channels", "priming", "remainder", "sample_rate"],
          "video": ["format", "width", "height", "cog_frame_layout"],
          "coded_video": ["format", "coded_width", "coded_height", "cog_frame_layout", "origin_width", "origin_height",
                          "is_key_frame", "temporal_offset", "unit_offsets"]}
UNSET = {"creation_timestamp", "origin_timestamp", "sync_timestamp", "rate", "duration", "priming", "remainder"}
LEFTOUT = {"rate", "duration", "priming", "remainder"}      # DONOTSET is what they are when they are left out
TOPIC = re.compile(r'[a-zA-Z0-9_\-]+[a-zA-Z0-9_\-/]*\n?\Z')
URN = re.compile(r"urn:[a-z0-9][a-z0-9-]{0,31}:[a-z0-9()+,\-.:=@;$_!*'%/?#]+\n?\Z")
VFMT = sorted(PIX)
AFMT = [0, 1, 2, 4, 5, 6, 8, 9, 10, 0x18, 0x19, 0x1a, 0x2c, 0x2d, 0x2e]
EVENTS = [[], [["/a", 1, 2]], [["/a/b", True, "x"], ["c", {"numerator": 1, "denominator": 3}, 5]],
          [["x", [1, [2]], {"k": [3]}]]]
OFFSETS = [None, [], [0], [0, 4, 100], [3, 9, 27, 81]]
ATTRS = sorted({p for ps in PARAMS.values() for p in ps if p != "format"} | set(COMMON) |
               {"cog_audio_format", "cog_frame_format"})


class Provider(HypothesisProvider):
    _local_constants = Constants()      # hypothesis would look for constants in the sources of the program

    def draw_bytes(self, min_size=0, max_size=10**10):
        if min_size == max_size > 64:
            # much faster, and not less random
            return self._random.choice([bytes, self._random.randbytes, self._random.randbytes])(min_size)
        return super().draw_bytes(min_size, max_size)


# ---------------------------------------------------------------------------------------------------------------------
# cases


def gen_arg(rng, name, t):
    """[how, values]: None, DONOTSET, one value, a strategy for a few values"""
    k = rng.randrange(8)
    if k == 0:
        return ["none", []]
    if k < 3 and name in UNSET:
        return ["unset", []]
    if k < 6:
        return ["fixed", [rng.randrange(1000)]]
    return ["strategy", [rng.randrange(1000) for _ in range(rng.choice([1, 2, 3]))]]


def gen_maker(rng):
    t = rng.choice(TYPES)
    args = {}
    if rng.randrange(6):
        names = COMMON + PARAMS[t]
        for n in rng.sample(names, rng.randrange(len(names) + 1)):
            args[n] = gen_arg(rng, n, t)
    kind = rng.choice(["grains", "own", "own", "data"])
    if kind == "data":
        args = {}
    return {"kind": kind, "type": t, "args": args}


def generate(rng, tier):
    makers = [gen_maker(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 9])):
        k = rng.randrange(20)
        s = rng.randrange(1 << 30)
        which = rng.choice([-1, rng.randrange(8)])
        if k < 7:
            ops.append(["draw", which, s])
        elif k == 7:
            ops.append(["simplest", which, s])
        elif k == 8:
            ops.append(["again", which, s])
        elif k < 11:
            ops.append(["simpler", which, s])
        elif k == 11:
            ops.append(["cut", which, s])
        elif k < 15:
            ops.append(["template", which, s])
            if rng.randrange(3):
                ops.append(["draw", -1, rng.randrange(1 << 30)])
        elif k < 18:
            ops.append(["change", which, s])
        elif k == 18:
            ops.append(["attr", rng.randrange(len(ATTRS)), s])
        else:
            ops.append(["clock", rng.randrange(3), s])
    return {"makers": makers, "ops": ops}


def valid(case):
    try:
        assert 1 <= len(case["makers"]) <= 4 and 1 <= len(case["ops"]) <= 30
        for m in case["makers"]:
            assert m["type"] in TYPES and m["kind"] in ("grains", "own", "data")
            assert m["kind"] != "data" or not m["args"]
            for n, (how, vs) in m["args"].items():
                assert n in COMMON + PARAMS[m["type"]]
                assert how in ("none", "unset", "fixed", "strategy") and (how != "unset" or n in UNSET)
                assert all(isinstance(v, int) and 0 <= v < 1000 for v in vs)
                assert len(vs) == 1 if how == "fixed" else how != "strategy" or 1 <= len(vs) <= 3
        for o in case["ops"]:
            assert len(o) == 3 and o[0] in ("draw", "simplest", "again", "simpler", "cut", "template", "change", "attr",
                                            "clock")
            assert isinstance(o[1], int) and -1 <= o[1] < 1000 and isinstance(o[2], int) and o[2] >= 0
    except (AssertionError, KeyError, TypeError, ValueError, AttributeError):
        raise SkipCase()


# ---------------------------------------------------------------------------------------------------------------------
# values of parameters


def value(name, t, n):
    """A value for a parameter, as the caller gives it"""
    if name in ("src_id", "flow_id"):
        return uuid.UUID(int=(n * 0x1_0000_0001 << 64) + n * 77 + (name == "flow_id"))
    if name in TIMES:
        return Timestamp(n * 1_000_003 % 3_000_000_000, n * 999_983 % 1_000_000_000)
    if name in ("rate", "duration"):
        return [Fraction(n, 7), n % 120, "%d/%d" % (n, n % 9 + 1), Fraction(30000, 1001), 0][n % 5]
    if name == "event_type":
        return "urn:x-%d:kind" % n
    if name == "topic":
        return "/topic/%d" % n
    if name == "event_data":
        return [{"path": p, "pre": copy.deepcopy(a), "post": copy.deepcopy(b)} for p, a, b in EVENTS[n % len(EVENTS)]]
    if name == "format":
        return {"audio": lambda: CogAudioFormat(AFMT[n % len(AFMT)]),
                "coded_audio": lambda: CogAudioFormat(0x200 + n % 3),
                "video": lambda: CogFrameFormat(VFMT[n % len(VFMT)]),
                "coded_video": lambda: CogFrameFormat(0x200 + n % 10)}[t]()
    if name in ("samples", "channels"):
        return n % 24 + 1
    if name == "sample_rate":
        return [48000, 44100, 96000, 8000, 32000][n % 5]
    if name == "cog_frame_layout":
        return CogFrameLayout(n % 5)
    if name == "is_key_frame":
        return bool(n % 2)
    if name == "temporal_offset":
        return n % 50
    if name == "unit_offsets":
        v = OFFSETS[n % len(OFFSETS)]
        return None if v is None else list(v)
    if name in ("priming", "remainder"):
        return n * 7
    # width, height and such
    return 2 * (n % 30 + 1)


def plain(x):
    """What can be compared for equality, type included"""
    if isinstance(x, dict):
        return ["dict", [[k, plain(x[k])] for k in sorted(x)]]
    if isinstance(x, (list, tuple)):
        return ["list", [plain(v) for v in x]]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, Fraction, float)):
        return str(Fraction(x))
    return str(x)


def event_items(g):
    return [plain({"path": e.path, "pre": e.pre, "post": e.post}) for e in g.event_data]


def items_of(v):
    return [plain(e) for e in v]


def bare(x):
    """The meta dictionary as plain values"""
    if isinstance(x, dict):
        return {str(k): bare(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [bare(v) for v in x]
    if isinstance(x, (bool, int, str)) or x is None:
        return repr(x)
    return str(x)


def snapshot(g):
    d = g.data
    if g.grain_type == "event":
        data = json.dumps([g.event_type, g.topic, event_items(g)])
    else:
        data = None if d is None else hashlib.md5(d).hexdigest()
    m = bare(dict(g.meta))
    return json.dumps([m, data, g.grain_type, type(g).__name__], sort_keys=True)


def read(g, name):
    if name == "src_id":
        return g.source_id
    if name == "format":
        return g.cog_audio_format if "audio" in g.grain_type else g.cog_frame_format
    if name == "event_data":
        return event_items(g)
    if name == "unit_offsets":
        return list(g.unit_offsets)
    return getattr(g, name)


def domain(name, t, v):
    """None, or what is wrong with a value that the default strategy drew"""
    def num(lo, hi):
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v and (hi is None or v <= hi)
    if name in ("src_id", "flow_id"):
        ok = isinstance(v, uuid.UUID)
    elif name in TIMES:
        ok = isinstance(v, Timestamp)
    elif name in ("rate", "duration"):
        ok = isinstance(v, Fraction) and v >= 0
    elif name == "event_type":
        ok = isinstance(v, str) and URN.match(v)
    elif name == "topic":
        ok = isinstance(v, str) and TOPIC.match(v)
    elif name == "event_data":
        ok = isinstance(v, list) and all(event_ok(e) for e in v)
    elif name == "cog_audio_format" or name == "format" and "audio" in t:
        ok = isinstance(v, CogAudioFormat) and (v < 0x200 if t == "audio" else v in (0x200, 0x201, 0x202))
    elif name == "cog_frame_format" or name == "format":
        ok = isinstance(v, CogFrameFormat) and (v & 0x200 == 0 if t == "video" else 0x200 <= v <= 0x209)
    elif name in ("samples", "channels"):
        ok = num(1, None)
    elif name == "sample_rate":
        ok = v in (48000, 44100)
    elif name == "cog_frame_layout":
        ok = isinstance(v, CogFrameLayout) and v != 0xfffffffe
    elif name == "is_key_frame":
        ok = isinstance(v, bool)
    elif name == "temporal_offset":
        ok = isinstance(v, int)
    elif name == "unit_offsets":
        ok = v is None or isinstance(v, list) and all(isinstance(x, int) and x >= 0 for x in v) and v == sorted(v)
    elif name in ("priming", "remainder"):
        ok = num(0, None)
    elif name.endswith("width"):
        ok = v == 240
    else:
        ok = v == 135
    return None if ok else "%s=%r" % (name, v)


def scalar_ok(x):
    if isinstance(x, (bool, int)):
        return True
    if isinstance(x, dict):
        return set(x) == {"numerator", "denominator"} and all(type(v) is int for v in x.values()) and x["denominator"] > 0
    return isinstance(x, str) and re.match(r"-?\d+:\d+\Z", x)


def event_ok(e):
    return isinstance(e, dict) and set(e) == {"path", "pre", "post"} and isinstance(e["path"], str) and \
        TOPIC.match(e["path"]) and scalar_ok(e["pre"]) and scalar_ok(e["post"])


# ---------------------------------------------------------------------------------------------------------------------
# drawing


class Draw:
    """What one draw gave: a value, or why there is none"""


def draw(strategy, seed=None, choices=None, limit=None, simplest=False):
    out = Draw()
    if seed is not None:
        d = ConjectureData(random=random.Random(seed), provider=Provider, max_choices=limit)
    elif simplest:
        d = ConjectureData(random=random.Random(0), provider=Provider, prefix=[ChoiceTemplate("simplest", count=None)],
                           max_choices=limit)
    else:
        d = ConjectureData(random=random.Random(0), provider=Provider,
                           prefix=list(choices) + [ChoiceTemplate("simplest", count=None)], max_choices=limit)
    out.value, out.why = None, None
    try:
        with BuildContext(d, is_final=False, wrapped_test=lambda: None):
            out.value = d.draw(strategy)
    except StopTest:
        out.why = "stopped"
    except UnsatisfiedAssumption:
        out.why = "rejected"
    out.choices = list(d.choices)
    return out


class Maker:
    """A strategy and what is known of what it draws"""

    def __init__(self, w, spec):
        self.type, self.kind, self.template = spec["type"], spec["kind"], None
        self.given, self.strats = {}, {}
        kwargs = {}
        for n in sorted(spec["args"]):
            how, vs = spec["args"][n]
            if how == "none":
                kwargs[n] = None
            elif how == "unset":
                kwargs[n] = S.DONOTSET
            else:
                got = [value(n, self.type, v) for v in vs]
                self.given[n] = [value(n, self.type, v) for v in vs]
                w.inputs.append((got, repr(got)))
                kwargs[n] = got[0] if how == "fixed" else st.sampled_from(got)
        # what an argument that the caller gave as None is: the same as one left out, or drawn
        self.how = {n: spec["args"][n][0] if n in spec["args"] else "unset" if n in LEFTOUT else "none"
                    for n in COMMON + PARAMS[self.type]}
        if self.given.get("unit_offsets") == [None] and self.how["unit_offsets"] == "fixed":
            self.how["unit_offsets"] = "none"
        if self.kind == "data":
            self.strategy = S.grains_with_data(self.type)
        elif self.kind == "own":
            self.strategy = getattr(S, self.type + "_grains")(**kwargs)
        else:
            self.strategy = S.grains(self.type, **kwargs)


class World:
    pass


def frac(x):
    return Fraction(x)


def check_drawn(w, m, g, before, after, simplest):
    env, t = w.env, m.type
    env.check(type(g) is CLS[t] and g.grain_type == GTYPE[t], "class", "a %s for %s grains", type(g).__name__, t)
    for n in COMMON + PARAMS[t]:
        how, v = m.how[n], read(g, n)
        if m.kind == "data" and n in ("width", "height", "origin_width", "origin_height"):
            env.check(v == (16 if "width" in n else 9), "small-picture", "%s=%r of grains with data", n, v)
        elif how in ("fixed", "strategy"):
            want = m.given[n]
            if n in ("rate", "duration"):
                ok = v in [frac(x) for x in want] and isinstance(v, Fraction)
            elif n == "event_data":
                ok = v in [items_of(x) for x in want]
            elif n == "unit_offsets":
                ok = v in [x or [] for x in want]
            else:
                ok = any(v == x and type(v) is type(x) for x in want)
            env.check(ok, "asked-for", "%s of a %s grain is %r, asked for %r", n, t, v, want)
        elif how == "none":
            if n == "event_data":
                v = [{"path": e.path, "pre": e.pre, "post": e.post} for e in g.event_data]
            bad = domain(n, t, v)
            env.check(bad is None, "domain", "drawn for a %s grain: %s", t, bad)
            if simplest and n in ("src_id", "flow_id"):
                env.check(v == uuid.UUID(int=0), "shrinks-to-zero", "the simplest %s is %s", n, v)
        elif n in ("rate", "duration"):
            if t == "empty":
                env.check(v in (0, Fraction(25) if n == "rate" else Fraction(1, 25)), "default", "%s is %r", n, v)
            else:
                env.check(v == (Fraction(25) if n == "rate" else Fraction(1, 25)), "default", "%s of a %s grain is %r",
                          n, t, v)
        elif n in ("priming", "remainder"):
            env.check(v == 0, "default", "%s is %r", n, v)
        elif n == "creation_timestamp":
            env.check(before <= v.to_nanosec() <= after, "time-of-drawing", "creation timestamp is %s", v)
        elif n == "origin_timestamp":
            env.check(v == g.creation_timestamp, "unset-timestamp", "origin %s, created %s", v, g.creation_timestamp)
        else:
            env.check(v == g.origin_timestamp, "unset-timestamp", "sync %s, origin %s", v, g.origin_timestamp)
    if t in ("audio", "video"):
        size = expected_size(g)
        data = bytes(g.data)
        env.check(size is None or len(data) == size, "data-size", "%d bytes for %s %r, %r needed", len(data), t,
                  read(g, "format"), size)
        env.check(g.length == len(data) == g.expected_length, "data-size", "length %d, expected %d, %d bytes of data",
                  g.length, g.expected_length, len(data))
        if m.kind == "data":
            check_floats(w, g, data)
        else:
            env.check(not any(data), "zero-data", "the data of a drawn %s grain isn't all zero", t)
    elif t.startswith("coded"):
        data = bytes(g.data)
        env.check(g.length == len(data), "data-size", "length %d, %d bytes of data", g.length, len(data))
        env.check(m.kind == "data" or not any(data), "zero-data", "the data of a drawn %s grain isn't all zero", t)
    elif t == "empty":
        env.check(g.data is None and g.length == 0, "zero-data", "an empty grain has data")


def expected_size(g):
    if g.grain_type == "audio":
        return None if int(g.cog_audio_format) not in AFMT else snd_size(int(g.cog_audio_format), g.channels, g.samples)
    if int(g.cog_frame_format) in PIX and g.width % 2 == g.height % 2 == 0:
        return pix_layout(int(g.cog_frame_format), g.width, g.height)[1]
    return None


def check_floats(w, g, data):
    if g.grain_type == "audio" and int(g.cog_audio_format) in (0x18, 0x19, 0x1a, 0x2c, 0x2d, 0x2e):
        c, n = ("f", 4) if int(g.cog_audio_format) < 0x20 else ("d", 8)
        vs = struct.unpack("@%d%s" % (len(data) // n, c), data)
        w.env.check(all(math.isfinite(x) and math.copysign(1, x) > 0 for x in vs), "float-samples",
                    "samples drawn for %r are not all finite, or negative", g.cog_audio_format)


def record(w, m, d, g):
    e = Draw()
    e.maker, e.choices, e.grain, e.snap = m, d.choices, g, snapshot(g)
    w.drawn.append(e)


def unchanged(w, what):
    for i, e in enumerate(w.drawn):
        w.env.check(snapshot(e.grain) == e.snap, "changed", "grain %d of %d changed: %s", i, len(w.drawn), what)
    for v, r in w.inputs:
        w.env.check(repr(v) == r, "input-changed", "what the caller passed, %s, is %r: %s", r, v, what)


def examine(w, m, d, before, simplest=False):
    """Check what was drawn"""
    g = d.value
    after = w.now()
    if m.template is None:
        check_drawn(w, m, g, before, after, simplest)
    else:
        check_from_template(w, m, g)
    record(w, m, d, g)


def check_from_template(w, m, g):
    env, t = w.env, m.template
    env.check(type(g) is type(t), "class", "%s from a template that is a %s", type(g).__name__, type(t).__name__)
    a, b = json.loads(m.tsnap), json.loads(snapshot(g))
    env.check(a[0] == b[0], "template", "a grain from a template has other metadata: %r instead of %r", b[0], a[0])
    env.check(a[2:] == b[2:], "template", "%r instead of %r", b[2:], a[2:])
    data = bytes(g.data)
    if m.data is not None:
        env.check(data in m.data, "template-data", "%d bytes, not those asked for", len(data))
    else:
        env.check(len(data) == m.size, "template-data", "%d bytes drawn, %d needed", len(data), m.size)
        check_floats(w, g, data)


def step(w, op):
    env = w.env
    name, which, seed = op
    rng = random.Random(seed)
    if name in ("draw", "simplest", "cut"):
        i = which % len(w.makers)
        m = w.makers[i]
        before = w.now()
        if name == "cut":
            d = draw(m.strategy, seed=seed, limit=rng.randrange(1, 16))
            if d.why is not None:
                env.fault("draw-cut-off")
                unchanged(w, "draw cut off")
                w.upset += 1
                return
        elif name == "simplest":
            d = draw(m.strategy, simplest=True)
        else:
            d = draw(m.strategy, seed=seed)
            n = 0
            while d.why is not None and n < (12 if m.template is None or m.size <= 4000 else 1):
                # no example of this: bad luck can't last
                n += 1
                env.fault("draw-without-example")
                d = draw(m.strategy, seed=seed * 31 + n)
        if m.template is not None and m.data is None and m.size > 4000:
            # hypothesis makes no examples as large as that
            if d.why is not None:
                unchanged(w, "draw cut off")
                return
        env.check(d.why is None, "no-example", "%s of %s grains gave no example: %s", name, m.type, d.why)
        w.used.add(i)
        examine(w, m, d, before, simplest=name == "simplest")
        env.ev(name, i, m.kind, m.type, w.drawn[-1].snap[:2000])
    elif name in ("again", "simpler"):
        if not w.drawn:
            return
        e = w.drawn[which % len(w.drawn)]
        choices = list(e.choices)
        before = w.now()
        if name == "simpler" and choices:
            env.fault("choices-simplified")
            k = rng.randrange(3)
            if k == 0:
                choices = choices[:rng.randrange(len(choices))]
            elif k == 1:
                i = rng.randrange(len(choices))
                del choices[i:i + rng.choice([1, 1, 2, 4])]
            else:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    i = rng.randrange(len(choices))
                    c = choices[i]
                    choices[i] = {bool: lambda c: False, int: lambda c: c // 2, float: lambda c: 0.0,
                                  bytes: lambda c: bytes(len(c)), str: lambda c: c[:len(c) // 2]}[type(c)](c)
        d = draw(e.maker.strategy, choices=choices)
        if name == "again":
            env.check(d.why is None, "not-repeatable", "the choices of an example give none: %s", d.why)
            env.check(d.choices == e.choices, "not-repeatable", "the choices of an example lead to other ones")
        elif d.why is not None:
            env.fault("draw-without-example")
            unchanged(w, "draw without example")
            return
        w.repeated += 1
        examine(w, e.maker, d, before)
        if name == "again" and not e.__dict__.get("touched") and clockless(e.maker):
            env.check(w.drawn[-1].snap == e.snap, "not-repeatable", "the same choices gave another grain:\n%s\n%s",
                      e.snap[:600], w.drawn[-1].snap[:600])
        env.ev(name, e.maker.type, w.drawn[-1].snap[:2000])
    elif name == "template":
        todo = [e for e in w.drawn if e.grain.grain_type in ("audio", "video", "coded_audio", "coded_video")]
        if not todo or len(w.makers) > 8:
            return
        e = todo[which % len(todo)]
        m = Maker.__new__(Maker)
        m.type, m.kind, m.template, m.tsnap = e.maker.type, "template", e.grain, e.snap
        m.data, arg = None, None
        m.size = expected_size_of(e.grain)
        if m.size is None:
            m.size = len(bytes(e.grain.data))
        if rng.randrange(3) == 0:
            n = len(bytes(e.grain.data))
            m.data = [bytes(rng.randrange(256) for _ in range(min(n, 40))).ljust(n, b"\x55")
                      for _ in range(rng.choice([1, 2]))]
            arg = m.data[0] if len(m.data) == 1 else st.sampled_from(m.data)
        m.strategy = S.grains_from_template_with_data(e.grain, data=arg) if rng.randrange(2) or arg is not None else \
            S.grains_from_template_with_data(e.grain)
        w.frozen.add(id(e))
        w.makers.append(m)
        w.templates += 1
        env.ev("template", m.type, m.size, arg is None)
    elif name == "change":
        todo = [e for e in w.drawn if id(e) not in w.frozen]
        if not todo:
            return
        e = todo[which % len(todo)]
        # values in event data given by the caller are used as they are, as hypothesis does with all values
        change(rng, e.grain, e.maker.template is None and e.maker.how.get("event_data") == "none")
        e.touched = True
        e.snap = snapshot(e.grain)
        w.changed += 1
        env.ev("change", e.snap[:300])
    elif name == "attr":
        attribute(w, ATTRS[which % len(ATTRS)], seed, rng)
    else:
        seams.advance([1, 10**9, 10**15][which % 3] + seed % 1000)
        if which % 3:
            env.fault("clock-jump")
    unchanged(w, name)


def expected_size_of(g):
    return expected_size(g) if g.grain_type in ("audio", "video") else None


def clockless(m):
    return m.template is not None or m.kind == "data" or m.how["creation_timestamp"] != "unset"


def change(rng, g, deep):
    k = rng.randrange(6)
    if k == 0:
        g.source_id = uuid.UUID(int=rng.randrange(1 << 100))
    elif k == 1:
        g.origin_timestamp = Timestamp(rng.randrange(1000), 5)
    elif k == 2:
        g.add_timelabel("tag%d" % rng.randrange(3), rng.randrange(1000), Fraction(25))
    elif k == 3 and g.grain_type == "video":
        g.components[0].offset = rng.randrange(1, 9)
    elif k == 3 and g.grain_type == "event":
        g.append("/new", rng.randrange(9), None)
    elif k == 4 and g.grain_type == "event" and deep:
        for e in g.event_data:
            for x in (e.pre, e.post):
                if isinstance(x, list):
                    x.append(rng.randrange(9))
                elif isinstance(x, dict):
                    x["more"] = rng.randrange(9)
    elif k == 3 and g.grain_type == "coded_video":
        g.unit_offsets.append(9999)
    elif g.grain_type in ("audio", "video", "coded_audio", "coded_video") and k == 4 and len(g.data) and \
            not isinstance(g.data, bytes) and not (isinstance(g.data, memoryview) and g.data.readonly):
        g.data[rng.randrange(len(g.data))] ^= 0xff
    else:
        g.rate = Fraction(rng.randrange(1, 99), 3)


def attribute(w, name, seed, rng):
    """The strategies for attributes, by themselves"""
    env = w.env
    t = rng.choice(TYPES)
    fits = {"cog_audio_format": ("audio", "coded_audio"), "cog_frame_format": ("video", "coded_video")}
    k = rng.randrange(8)
    if k == 0:
        for f in (lambda: S.strategy_for_grain_attribute("no_such", grain_type=t), lambda: S.grains("no_such")):
            try:
                f()
            except ValueError:
                continue
            env.fail("accepted", "an unknown attribute or type of grain was accepted")
        env.ev("unknown")
        return
    if name in fits and t not in fits[name] and t not in ("empty", "event"):
        t = fits[name][seed % 2]
    if name in fits and t not in fits[name]:
        try:
            S.strategy_for_grain_attribute(name, grain_type=t)
        except ValueError:
            env.ev("refused", name, t)
            return
        env.fail("accepted", "a strategy for %s of %s grains", name, t)
    s = S.strategy_for_grain_attribute(name, grain_type=t) if name in fits or rng.randrange(2) else \
        S.strategy_for_grain_attribute(name)
    d = draw(s, seed=seed)
    for n in range(12):
        if d.why is not None:
            d = draw(s, seed=seed + n * 7919)
    env.check(d.why is None, "no-example", "no example of %s: %s", name, d.why)
    bad = domain(name, t, d.value)
    env.check(bad is None, "domain", "the strategy for %s of %s grains gave %s", name, t, bad)
    again = draw(s, choices=d.choices)
    env.check(again.why is None and repr(again.value) == repr(d.value), "not-repeatable",
              "%s: the same choices gave %r, then %r", name, d.value, again.value)
    if k == 1:
        d = draw(st.tuples(S.shrinking_uuids(), S.fraction_dicts(min_value=0, max_value=7)), seed=seed)
        if d.why is None:
            u, f = d.value
            env.check(isinstance(u, uuid.UUID), "domain", "%r isn't a uuid", u)
            env.check(scalar_ok(f) and 0 <= Fraction(f["numerator"], f["denominator"]) <= 7 and
                      math.gcd(f["numerator"], f["denominator"]) == 1, "domain", "%r isn't a fraction from 0 to 7", f)
    env.ev("attr", name, t, repr(d.value)[:200])


def execute(env, case):
    valid(case)
    w = World()
    w.env, w.case = env, case
    w.inputs, w.drawn, w.used, w.frozen = [], [], set(), set()
    w.repeated = w.templates = w.changed = w.upset = 0

    def now():
        from mediatimestamp.immutable import Timestamp as T
        return T.get_time().to_nanosec()
    w.now = now
    w.makers = [Maker(w, m) for m in case["makers"]]
    for op in case["ops"]:
        env.step()
        step(w, op)
    unchanged(w, "at the end")
    env.sim_time = 0.0
    env.nontrivial = bool((len(w.used) > 1 or w.repeated) and (w.changed or w.upset or w.templates))
