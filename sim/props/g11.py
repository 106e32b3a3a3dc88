"""G11: wrapping an elementary stream in grains conserves every byte."""
import io
from fractions import Fraction

from .. import media as MD
from .. import model as M
from ..core import SkipCase
from ..disk import SimPipeIn, SimRaw, opened
from ..drv import gsf  # noqa: F401  (loads the package under test)

from mediagrains.cogenums import CogAudioFormat, CogFrameFormat  # noqa: E402
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, VideoGrain  # noqa: E402
from mediagrains.tools._file_or_pipe import InputStreamWrapper  # noqa: E402
from mediagrains.utils.h264_parser import H264Parser  # noqa: E402
from mediagrains.utils import ADTSAACGrainWrapper, GrainWrapper, H264GrainWrapper  # noqa: E402
from mediatimestamp.immutable import Timestamp  # noqa: E402

ID = "G11"
RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("A case is one to three elementary streams (raw video, raw audio, ADTS AAC or H.264, the latter two built from "
        "the published formats with random parameter sets, headers, access unit layouts and payloads that look like "
        "start codes), each wrapped from its own input that delivers its bytes in pieces of its own choosing, with the "
        "wrappers' iterations interleaved, grains modified after they were yielded, read errors, and inputs that end "
        "anywhere. Non-trivial: some input delivered fewer bytes than it was asked for, and two grains were yielded.")
REAL = ["mediagrains.utils grain wrappers", "mediagrains.utils H.264 and ADTS parsers", "mediagrains.grains",
        "mediagrains.tools._file_or_pipe.InputStreamWrapper", "bitstring", "io.Buffered*"]
STUB = ["raw files and pipes (short reads, read errors, early end)"]
ASSUMPTIONS = ["Inputs are blocking.", "The metadata of a stream does not change after its first frame.",
               "Frame sizes are even in both directions for formats with subsampled chroma."]
TR = ["bytesio", "buf", "buf", "raw", "raw", "pipe", "pipe", "rawpipe"]
RATES = [[25, 1], [50, 1], [30000, 1001], [24000, 1001], [60000, 1001], [24, 1], [1, 1], [1, 3], [120, 1]]


def gen_stream(rng, tier):
    kind = rng.choice(["video", "audio", "aac", "h264", "h264"])
    s = {"kind": kind, "start": [rng.choice([0, 0, 1, 417798915, 1600000000]),
                                 rng.choice([0, 0, 0, 40000000, 999999999, rng.randrange(10**9)])],
         "sync": rng.choice([None, None, 3]), "seed": rng.randrange(1 << 20),
         "style": rng.randrange(3), "tr": rng.choice(TR), "short": rng.choice([0, 1, 1, 2]), "cut": None,
         "faults": [], "damage": []}
    if kind == "video":
        s["m"] = {"fmt": rng.choice(sorted(MD.VIDEO)), "w": rng.choice([2, 4, 8, 16, 48, 50]),
                  "h": rng.choice([2, 4, 6, 10]), "rate": rng.choice(RATES), "n": rng.choice([0, 1, 2, 3, 5, 8]),
                  "tail": rng.choice([0, 0, 0, 1, rng.randrange(400)])}
    elif kind == "audio":
        s["m"] = {"fmt": rng.choice(sorted(MD.AUDIO)), "ch": rng.choice([1, 2, 2, 3, 5, 8]),
                  "samples": rng.choice([1, 2, 16, 40, rng.randrange(1, 100)]),
                  "sr": rng.choice([48000, 44100, 32000, 96000, 7350]), "n": rng.choice([0, 1, 2, 3, 5, 12]),
                  "tail": rng.choice([0, 0, 0, 1, rng.randrange(400)])}
    elif kind == "aac":
        s["m"] = MD.gen_aac(rng, rng.choice([0, 1, 2, 3, 5, 9]))
        s["m"]["samples"] = rng.choice([0, None, 1024, 2048, 960])
        s["m"]["tsr"] = rng.choice([48000, 44100])
        s["m"]["tch"] = rng.choice([1, 2])
    else:
        big = rng.randrange(25) == 0
        s["m"] = MD.gen_h264_ok(rng, rng.choice([0, 1, 2, 2, 3, 4, 6]), big)
        s["m"]["rate"] = rng.choice(RATES)
        if big and s["tr"] in ("raw", "rawpipe"):
            s["short"] = 0
    k = rng.randrange(12)
    if k == 0:
        s["cut"] = rng.randrange(1 << 16)
    elif k == 1 and s["tr"] != "bytesio":
        s["faults"] = [{"op": "read", "n": rng.randrange(12), "kind": "eio"}]
    elif k == 2 and kind in ("aac", "h264"):
        s["damage"] = [[rng.choice(["flip", "flip", "ins", "del"]), rng.randrange(rng.choice([8, 40, 200, 1 << 16])),
                        rng.choice([0, 1, 255, rng.randrange(256)])] for _ in range(rng.choice([1, 1, 2, 5]))]
    return s


def generate(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    return {"streams": [gen_stream(rng, tier) for _ in range(n)],
            "order": [rng.randrange(n) for _ in range(rng.choice([0, 10, 30]))],
            "spoil": rng.randrange(3), "share": rng.randrange(2)}


class Exp:
    """What wrapping one stream has to give"""

    def __init__(self, s):
        m = s["m"]
        self.rate = None
        self.frames = []
        self.meta = []
        kind = s["kind"]
        if s["style"] not in (0, 1, 2) or not (0 <= s["start"][0] < 2**40 and 0 <= s["start"][1] < 10**9):
            raise SkipCase()
        if kind in ("video", "audio"):
            if kind == "video":
                if m["fmt"] not in MD.VIDEO or m["w"] < 2 or m["h"] < 2 or m["w"] % 2 or m["h"] % 2:
                    raise SkipCase()
                size = MD.video_frame_size(m["fmt"], m["w"], m["h"])
                self.rate = Fraction(*m["rate"])
                meta = {"width": m["w"], "height": m["h"], "cog_frame_format": CogFrameFormat[m["fmt"]]}
            else:
                if m["fmt"] not in MD.AUDIO or m["ch"] < 1 or m["samples"] < 1 or m["sr"] < 1:
                    raise SkipCase()
                size = MD.audio_grain_size(m["fmt"], m["ch"], m["samples"])
                self.rate = Fraction(m["sr"], m["samples"])
                meta = {"channels": m["ch"], "samples": m["samples"], "sample_rate": m["sr"],
                        "cog_audio_format": CogAudioFormat[m["fmt"]]}
            if size * m["n"] + m["tail"] > 200000 or m["n"] < 0 or m["tail"] < 0:
                raise SkipCase()
            data = MD.noise(s["seed"], size * m["n"] + m["tail"], s["style"])
            self.frames = [data[k:k + size] for k in range(0, len(data), size)]
            self.meta = [meta] * len(self.frames)
        elif kind == "aac":
            if m["samples"] not in (None, 0, 1024, 2048, 960):
                raise SkipCase()
            self.frames = MD.aac_frames(m)
            samples = m["samples"] or 1024
            sr = MD.AAC_RATES[m["rate"]]
            self.rate = Fraction(sr, samples)
            self.meta = [{"channels": MD.AAC_CHANNELS[m["ch"]], "sample_rate": sr, "samples": samples,
                          "cog_audio_format": CogAudioFormat.AAC}] * len(self.frames)
        elif kind == "h264":
            r = MD.h264_stream(m)
            if r is None:
                raise SkipCase()
            aus, info = r
            if sum(len(a[0]) for a in aus) > 100000:
                raise SkipCase()
            self.frames = [a[0] for a in aus]
            self.offsets = [a[1] for a in aus]
            self.infos = info["each"] if info is not None else []
            self.rate = info["rate"] if info is not None and info["rate"] is not None else Fraction(*m["rate"])
            if self.rate <= 0 or self.rate > 10**6 or self.rate < Fraction(1, 10**4):
                raise SkipCase()
            for b, offsets, key in aus:
                self.meta.append({"origin_width": info["w"], "origin_height": info["h"], "coded_width": info["cw"],
                                  "coded_height": info["ch"], "is_key_frame": key, "unit_offsets": offsets,
                                  "temporal_offset": None, "cog_frame_format": CogFrameFormat.H264})
        else:
            raise SkipCase()
        self.data = b"".join(self.frames)
        self.total = len(self.data)
        self.cut = None
        if s["cut"] is not None:
            self.cut = s["cut"] % (self.total + 1)
            self.data = self.data[:self.cut]
        if s["damage"] and (kind not in ("aac", "h264") or self.cut is not None):
            raise SkipCase()
        if s["damage"]:
            d = bytearray(self.data)
            for k, p, v in s["damage"]:
                if k not in ("flip", "ins", "del") or not 0 <= v < 256 or p < 0:
                    raise SkipCase()
                if k == "ins":
                    d.insert(p % (len(d) + 1), v)
                elif d and k == "del":
                    del d[p % len(d)]
                elif d:
                    d[p % len(d)] ^= v or 1
            self.data = bytes(d)


def aac_size(b):
    """How long the frame which begins here says it is; None if there is no header of one"""
    if len(b) < 7 or b[0] != 0xff or b[1] >> 4 != 0xf or b[2] >> 2 & 15 > 12:
        return None
    n = (b[3] & 3) << 11 | b[4] << 3 | b[5] >> 5
    return n if n >= 7 else None


def template(s, e):
    m = s["m"]
    kw = {"flow_id": M.uid("flow", 1), "src_id": M.uid("src", 1), "origin_timestamp": Timestamp(*s["start"])}
    if s["sync"] is not None:
        kw["sync_timestamp"] = Timestamp(*s["start"])
    kind = s["kind"]
    if kind == "video":
        return VideoGrain(rate=e.rate, duration=1 / e.rate, width=m["w"], height=m["h"],
                          cog_frame_format=CogFrameFormat[m["fmt"]], **kw)
    if kind == "audio":
        return AudioGrain(rate=e.rate, duration=1 / e.rate, sample_rate=m["sr"], channels=m["ch"],
                          samples=m["samples"], cog_audio_format=CogAudioFormat[m["fmt"]], **kw)
    if kind == "aac":
        return CodedAudioGrain(rate=Fraction(0, 1), duration=Fraction(1, 50), sample_rate=m["tsr"], channels=m["tch"],
                               samples=m["samples"], cog_audio_format=CogAudioFormat.AAC, **kw)
    r = Fraction(*m["rate"])
    return CodedVideoGrain(rate=r, duration=1 / r, origin_width=1920, origin_height=1080, coded_width=0,
                           coded_height=0, cog_frame_format=CogFrameFormat.H264, **kw)


def open_input(env, s, data):
    tr = s["tr"]
    for f in s["faults"]:
        if f["op"] != "read" or f["kind"] != "eio" or tr == "bytesio":
            raise SkipCase()
    if tr == "bytesio":
        return io.BytesIO(data)
    if tr in ("pipe", "rawpipe"):
        p = SimPipeIn(env, data, short=s["short"], faults=s["faults"])
        return InputStreamWrapper(io.BufferedReader(p, 512)) if tr == "pipe" else p
    raw = SimRaw(env, data, writable=False, short=s["short"], faults=s["faults"])
    if tr == "buf":
        return opened(raw, "rb")
    if tr == "raw":
        return raw
    raise SkipCase()


WRAP = {"video": GrainWrapper, "audio": GrainWrapper, "aac": ADTSAACGrainWrapper, "h264": H264GrainWrapper}


class Wrapped:
    def __init__(self, env, k, s):
        self.env, self.k, self.s = env, k, s
        self.exp = Exp(s)
        self.what = "%s stream %d" % (s["kind"], k)
        self.gen = WRAP[s["kind"]](template(s, self.exp), open_input(env, s, self.exp.data)).grains()
        self.got = []
        self.pos = 0
        self.ended = False

    def step(self, spoil):
        env, s, e = self.env, self.s, self.exp
        if self.ended:
            return
        env.step()
        try:
            g = next(self.gen)
        except StopIteration:
            self.ended = True
            self.end(None)
            return
        except OSError as x:
            self.ended = True
            env.check(bool(s["faults"]), "error", "%s: %r", self.what, x)
            self.end(x)
            return
        except ValueError as x:
            self.ended = True
            if s["damage"]:
                env.probe("damage-refused")
                if s["kind"] == "aac":
                    env.check(aac_size(e.data[self.pos:]) is None, "error", "%s: %r, where a frame begins", self.what, x)
                return
            # the last frame is incomplete
            env.check(e.cut is not None and s["kind"] == "aac", "error", "%s: %r", self.what, x)
            self.end(x)
            return
        k = len(self.got)
        data = bytes(g.data)
        env.ev("grain", self.k, k, len(data))
        if s["damage"]:
            # what is wrong is anybody's guess, but no byte is lost or made up
            env.check(data and data == e.data[self.pos:self.pos + len(data)], "wrong-data",
                      "%s: grain %d has other bytes than the (damaged) input at %d", self.what, k, self.pos)
            if s["kind"] == "aac":
                # (frames say themselves where they end)
                n = aac_size(e.data[self.pos:])
                env.check(n is not None, "wrong-split", "%s: grain %d is made of what is no frame, at %d", self.what, k,
                          self.pos)
                env.check(len(data) == min(n, len(e.data) - self.pos), "wrong-split", "%s: grain %d has %d bytes, the "
                          "frame says it has %d", self.what, k, len(data), n)
            self.pos += len(data)
            self.got.append((len(data), 0))
            return
        with env.oracle("looking at a wrapped grain"):
            ts = g.origin_timestamp.to_nanosec()
            sync = g.sync_timestamp.to_nanosec()
            meta = {x: getattr(g, x) for x in e.meta[k]} if k < len(e.meta) else {}
            rate, duration = g.rate, g.duration
            ids = (g.source_id, g.flow_id)
        env.check(data == e.data[self.pos:self.pos + len(data)], "wrong-data",
                  "%s: grain %d has other bytes than the input at %d", self.what, k, self.pos)
        env.check(k < len(e.frames), "wrong-split", "%s: more grains than frames", self.what)
        self.pos += len(data)
        whole = e.cut is None or self.pos < e.cut
        want = e.frames[k]
        if whole or data == want:
            env.check(len(data) == len(want), "wrong-split", "%s: grain %d has %d bytes, the frame has %d", self.what,
                      k, len(data), len(want))
            if "unit_offsets" in meta:
                meta["unit_offsets"] = list(meta["unit_offsets"])
            env.check(meta == e.meta[k], "wrong-metadata", "%s: grain %d has %r, should have %r", self.what, k, meta,
                      e.meta[k])
        elif s["kind"] == "h264":
            # what there is of the frame, possibly with a bit of another which cannot be told from it
            env.check(len(data) < len(want) + len((e.frames + [b""])[k + 1]), "wrong-split",
                      "%s: grain %d, the last, has %d bytes, the frame has %d", self.what, k, len(data), len(want))
            if len(data) > len(want):
                env.probe("end-of-input-in-next-header")
        else:
            env.check(len(data) <= len(want), "wrong-split", "%s: grain %d, the last, has %d bytes, the frame has %d",
                      self.what, k, len(data), len(want))
        if not (e.cut is not None and k == 0 and data != want):
            env.check(rate == e.rate and duration == 1 / e.rate, "wrong-metadata",
                      "%s: grain %d has rate %s and duration %s, the stream has %s", self.what, k, rate, duration,
                      e.rate)
        env.check(ids == (M.uid("src", 1), M.uid("flow", 1)), "wrong-metadata", "%s: ids of grain %d", self.what, k)
        # the time line: from the start (moved onto a grid, at the most) in exact steps
        start = Fraction(s["start"][0] * 10**9 + s["start"][1], 10**9)
        if not self.got:
            env.check(abs(Fraction(ts, 10**9) - start) < 1 / rate, "wrong-time",
                      "%s: starts at %d, should start at %s", self.what, ts, s["start"])
            exact = start * rate
            if exact.denominator == 1:
                env.check(MD.near(ts, start), "wrong-time", "%s: starts at %d, should start at %s", self.what, ts,
                          s["start"])
            self.t0 = ts
            # where that is on the grid of the media
            self.count = round(Fraction(ts, 10**9) * rate)
            self.grid = MD.near(ts, self.count / rate)
        else:
            env.check(ts > self.got[-1][1], "wrong-time", "%s: grain %d is not later than the one before", self.what, k)
        if self.grid:
            env.check(MD.near(ts, (self.count + k) / rate), "wrong-time", "%s: grain %d at %d, should be at %s",
                      self.what, k, ts, float((self.count + k) / rate))
        else:
            env.check(MD.near(ts, Fraction(self.t0, 10**9) + k / rate, 2), "wrong-time",
                      "%s: grain %d at %d, the first at %d", self.what, k, ts, self.t0)
        env.check(sync == ts, "wrong-time", "%s: grain %d is to be synchronised to %d, not %d", self.what, k, sync, ts)
        self.got.append((len(data), ts))
        if spoil:
            # what is done to a grain is no matter to the ones that follow
            g.origin_timestamp = Timestamp(5, 5)
            g.rate = Fraction(7, 1)
            g.data = b"other data"
            if spoil == 2:
                if s["kind"] == "h264":
                    g.unit_offsets = [9]
                    g.origin_width = 1
                elif s["kind"] == "video":
                    g.components[0].length = 3
                    g.width = 1
                else:
                    g.channels = 100

    def end(self, x):
        env, e = self.env, self.exp
        if x is None:
            if e.cut is not None and self.s["kind"] == "h264" and b"\0\0\1" not in e.data:
                # this is not even the start of one
                return
            if self.s["damage"] and self.s["kind"] == "h264" and b"\0\0\1" not in e.data[self.pos:]:
                return
            env.check(self.pos == len(e.data), "lost-data", "%s: %d bytes in grains of %d in the input", self.what,
                      self.pos, len(e.data))
            if e.cut is None and not self.s["damage"]:
                env.check(len(self.got) == len(e.frames), "wrong-split", "%s: %d grains for %d frames", self.what,
                          len(self.got), len(e.frames))
        elif e.cut is not None and not isinstance(x, OSError):
            # only the last, incomplete frame is missing
            whole = 0
            at = 0
            for f in e.frames:
                at += len(f)
                if at >= e.cut:
                    break
                whole += 1
            env.check(len(self.got) >= whole, "lost-data", "%s: %d grains of %d complete frames, then %r",
                      self.what, len(self.got), whole, x)
            env.probe("incomplete-frame-error")


def parse(env, w, k):
    """The parser on its own, whose input grows little by little"""
    e = w.exp
    p = H264Parser()
    buf, at, n = bytearray(), 0, 0
    steps = [1 + env.choose(400) for _ in range(4)]
    while n < len(e.frames) - 1:
        size = None
        if buf:
            with env.oracle("%s: parsing" % w.what):
                size, offsets, info = p.parse_frame(bytes(buf))
        if size is None:
            env.check(offsets is None and info is None if buf else True, "wrong-split", "%s: offsets of no frame", w.what)
            env.check(at < len(e.data), "wrong-split", "%s: no frame found at the end of the data", w.what)
            m = steps[env.choose(4)]
            buf += e.data[at:at + m]
            at += m
            continue
        env.check(size == len(e.frames[n]), "wrong-split", "%s: frame %d parsed as %d bytes of %d", w.what, n, size,
                  len(e.frames[n]))
        env.check(list(offsets) == e.offsets[n], "wrong-metadata", "%s: units of frame %d", w.what, n)
        same_info(env, w, n, info)
        del buf[:size]
        n += 1
    buf += e.data[at:]
    if e.frames:
        with env.oracle("%s: parsing the last frame" % w.what):
            offsets = list(p.get_nalu_byte_offsets(bytes(buf)))
            info = p.parse_frame_info(bytes(buf), nalu_byte_offsets=offsets if env.choose(2) else None)
        env.check(offsets == e.offsets[-1], "wrong-metadata", "%s: units of frame %d", w.what, n)
        same_info(env, w, n, info)
        env.probe("parser-alone")


def same_info(env, w, n, info):
    for a, x in w.exp.infos[n].items():
        env.check(x == "?" or getattr(info, a) == x, "wrong-metadata", "%s: %s of frame %d is %r, should be %r", w.what, a, n,
                  getattr(info, a), x)


def execute(env, case):
    try:
        ws = [Wrapped(env, k, s) for k, s in enumerate(case["streams"])]
    except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError):
        raise SkipCase()
    for s in case["streams"]:
        if s["cut"] is not None:
            env.fault("input-ends-early")
        if s["damage"]:
            env.fault("input-damaged")
    for k in case["order"]:
        if not 0 <= k < len(ws):
            raise SkipCase()
        ws[k].step(case["spoil"])
    for w in ws:
        while not w.ended:
            w.step(case["spoil"])
    for k, w in enumerate(ws):
        if w.s["kind"] == "h264" and w.exp.cut is None and not w.s["faults"] and not w.s["damage"] and len(w.exp.data) < 3000:
            parse(env, w, k)
    env.nontrivial = env.faults["short-read"] > 0 and max(len(w.got) for w in ws) > 1
