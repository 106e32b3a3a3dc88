"""G12: the command line tools give the same result through pipes as through files."""
import json
from fractions import Fraction

from .. import gsfref as R
from .. import media as MD
from .. import model as M
from ..cli import PREFIX, Run
from ..core import SkipCase
from .g11 import Exp, gen_stream

from mediagrains.tools.extract_from_gsf import extract_gsf_essence, gsf_probe
from mediagrains.tools.wrap_in_gsf import wrap_audio_in_gsf, wrap_video_in_gsf

ID = "G12"
RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("A case is a chain of tool runs: media of random format, size, rate and start time is wrapped and extracted or "
        "probed again, or a file with several segments of all grain types, possibly cut short, is extracted with a "
        "random choice of segments or probed, each run with named files, pipes or redirected files on either side "
        "that transfer bytes in pieces of their own choosing, and with read errors, write errors and full disks. "
        "Non-trivial: a tool run moved data through a pipe, or met a fault, and grains were involved.")
REAL = ["mediagrains.tools (argument parsing, file_or_pipe, wrap, extract, probe)", "mediagrains.gsf",
        "mediagrains.utils grain wrappers", "mediagrains.grains", "mediajson", "io.Buffered*"]
STUB = ["sys.argv and the standard streams", "open() of the tools' files (short transfers, errors, full disks)",
        "uuid1/uuid4 and wall clock"]
ASSUMPTIONS = ["Named files are seekable; standard input and output may be anything.",
               "Each tool run owns its output from its beginning."]


def gen_io(rng, write=True):
    io = {"in": rng.choice(["file", "pipe", "pipe", "redir"]), "out": rng.choice(["file", "pipe", "redir"]),
          "ru": rng.choice([0, 0, 0, 1, 2, 3]), "si": rng.choice([0, 1, 1, 2]), "so": rng.choice([0, 1, 1, 2]), "faults": [], "cap": None}
    k = rng.randrange(16)
    if k == 0:
        io["faults"] = [{"op": "read", "n": rng.choice([rng.randrange(4), rng.randrange(40)]), "kind": "eio"}]
    elif k == 1 and write:
        io["faults"] = [{"op": "write", "n": rng.choice([rng.randrange(4), rng.randrange(40)]),
                         "kind": rng.choice(["eio", "enospc"])}]
    return io


def gen_small_grain(rng, n, major, types):
    d = M.gen_grain(rng, n, major, types, rng.randrange(2) == 0)
    if d["t"] in (3, 4):
        d["p"]["sr"] = rng.choice([48000, 44100, 8000, 1])
        d["p"]["samples"] = rng.choice([1, 2, 480, 1920, 1024, rng.randrange(1, 3000)])
    for k in ("ots", "sts"):
        s = rng.choice([1, 1, 1, -1]) if major != 7 else 1
        d[k] = [s, rng.choice([1, 2, 5, 417798915, 1600000000]), rng.choice([0, 1, 40000000, rng.randrange(10**9)])]
    return d


def generate(rng, tier):
    if rng.randrange(2):
        s = gen_stream(rng, tier)
        s["faults"] = []
        s["damage"] = []
        if s["kind"] in ("video", "h264"):
            s["m"]["rate"] = [rng.choice([25, 24, 30, 50, 60, 1, 120]), 1]
        if s["kind"] == "aac":
            s["opts"] = rng.randrange(8)
        if rng.randrange(3) == 0:
            s["start"] = [0, 0]
        if s["kind"] in ("video", "audio") and rng.randrange(3) == 0:
            s["m"]["fmt"] = "S16_422_10BIT" if s["kind"] == "video" else "S16_PLANES"
        if s["kind"] == "audio" and rng.randrange(6) == 0:
            s["m"].update(samples=1920, n=rng.choice([0, 1, 2]), ch=rng.choice([1, 2, 2]))
        return {"wrap": s, "ids": rng.randrange(8), "io": gen_io(rng),
                "then": {"tool": rng.choice(["extract", "extract", "probe"]), "io": gen_io(rng), "only": None,
                         "a": rng.randrange(2), "g": rng.randrange(2)}}
    h = M.gen_head(rng)
    tool = rng.choice(["extract", "extract", "probe"])
    lids = [s["lid"] for s in h["segs"]]
    only = None
    if tool == "extract" and rng.randrange(3):
        only = [rng.choice(lids + [77]) for _ in range(rng.choice([1, 1, 2, 3]))]
    grains = []
    for n in range(rng.choice([0, 1, 2, 3, 5, 8])):
        lid = rng.choice(lids)
        types = [1, 2, 3, 4, 1, 2, 3, 4, 0]
        if tool == "probe" or (only is not None and lid not in only):
            types += [5, 5]
        grains.append([lid, gen_small_grain(rng, n, h["major"], types)])
    more = []
    while len(more) < 2 and rng.randrange(4) == 0:
        # another file follows
        h2 = M.gen_head(rng)
        if rng.randrange(3):
            h2["segs"][0]["lid"] = lids[0] if rng.randrange(2) else h2["segs"][0]["lid"]
        l2 = [x["lid"] for x in h2["segs"]]
        if len(set(l2)) < len(l2):
            continue
        types = [1, 2, 3, 4, 0] + ([5] if tool == "probe" else [])
        more.append([h2, [[rng.choice(l2), gen_small_grain(rng, n, h2["major"], types)]
                          for n in range(rng.choice([0, 1, 2, 3]))], rng.randrange(4) > 0])
    return {"head": h, "grains": grains, "more": more, "cut": rng.choice([None, None, rng.randrange(1 << 16)]),
            "term": rng.randrange(4) > 0,
            "then": {"tool": tool, "io": gen_io(rng, tool == "extract"), "only": only, "a": rng.randrange(2),
                     "g": rng.randrange(2)}}


# ---------------------------------------------------------------------------------------------------------------------

KINDS_IN, KINDS_OUT = ("file", "pipe", "redir"), ("file", "pipe", "redir")


class Tool:
    """One tool run over one arrangement of input and output"""

    def __init__(self, env, io, data, what, has_out=True):
        try:
            if io["in"] not in KINDS_IN or io["out"] not in KINDS_OUT:
                raise SkipCase()
            for f in io["faults"]:
                if (f["op"], f["kind"]) not in (("read", "eio"), ("write", "eio"), ("write", "enospc")):
                    raise SkipCase()
        except (KeyError, TypeError):
            raise SkipCase()
        self.env, self.io, self.what, self.has_out = env, io, what, has_out
        rf = [f for f in io["faults"] if f["op"] == "read"]
        wf = [f for f in io["faults"] if f["op"] == "write"]
        piped = io["in"] == "pipe"
        self.r = Run(env, {PREFIX + "in": data} if io["in"] == "file" else {}, b"" if io["in"] == "file" else data,
                     "pipe" if io["in"] == "file" else io["in"],
                     io["out"] if has_out and io["out"] != "file" else "pipe", io["si"], io["so"], rf, wf, bool(io["ru"] & 1), bool(io["ru"] & 2) and has_out)
        self.args = [PREFIX + "in" if io["in"] == "file" else "-"]
        if has_out:
            self.args.append(PREFIX + "out" if io["out"] == "file" else "-")
        self.moved = piped or (has_out and io["out"] == "pipe")
        self.seekable_out = io["out"] != "pipe"

    def run(self, entry, args, torn=False):
        """Returns (output, exception).  An error is only allowed if there is a reason, and must be there if there
        is one."""
        env = self.env
        before = {k: env.faults[k] for k in ("read-eio", "write-eio", "write-enospc")}
        env.step()
        self.r.run(entry, self.args + args)
        hit = [k for k in before if env.faults[k] > before[k]]
        self.hit_read, self.hit_write = "read-eio" in hit, any(k != "read-eio" for k in hit)
        exc = self.r.exc
        # (an error when more is asked for than a short input has is no news)
        if hit and exc is None and (self.hit_write or not torn):
            env.fail("silent-error", "%s: %s happened, but the tool ended as if nothing had", self.what, hit)
        out = self.r.stdout
        if self.has_out and self.io["out"] == "file":
            env.check(not out, "wrong-output", "%s: writes to standard output: %r", self.what, out[:40])
            out = self.r.out(PREFIX + "out")
        env.ev("output", None if out is None else len(out), type(exc).__name__)
        return out, exc


def ts_str(ns):
    return "%s%d:%d" % ("-" if ns < 0 else "", abs(ns) // 10**9, abs(ns) % 10**9)


def wrap(env, case):
    """Returns the file, or None"""
    s = case["wrap"]
    try:
        if s["faults"] or s["kind"] not in ("video", "audio", "aac", "h264"):
            raise SkipCase()
        e = Exp(s)
        if s["damage"]:
            raise SkipCase()
    except (KeyError, TypeError, ZeroDivisionError, IndexError, ValueError):
        raise SkipCase()
    m = s["m"]
    if e.rate is not None and (e.rate.numerator >= 2**32 or e.rate.denominator >= 2**32):
        raise SkipCase()
    args = []

    def opt(name, value, default):
        # defaults needn't be given
        if value != default or case["ids"] & 4:
            args.extend([name, value])
    opt("--start-ts", "%d:%d" % tuple(s["start"]), "0:0")
    if case["ids"] & 1:
        args += ["--flow-id", str(M.uid("flow", 1))]
    if case["ids"] & 2:
        args += ["--source-id", str(M.uid("src", 1))]
    if s["kind"] in ("video", "h264"):
        if m["rate"][1] != 1:
            raise SkipCase()
        opt("--rate", str(m["rate"][0]), "25")
        if s["kind"] == "video":
            opt("--format", m["fmt"], "S16_422_10BIT")
            args += ["--size", "%dx%d" % (m["w"], m["h"])]
        else:
            args += ["--format", "H264"]
        entry = wrap_video_in_gsf
    else:
        entry = wrap_audio_in_gsf
        if s["kind"] == "audio":
            opt("--format", m["fmt"], "S16_PLANES")
            opt("--channels", str(m["ch"]), "2")
            opt("--samples-per-grain", str(m["samples"]), "1920")
            opt("--sample-rate", str(m["sr"]), "48000")
        else:
            args += ["--format", "AAC"]
            o = s["opts"]
            if m["samples"] not in (None, 1024) or o & 1:
                args += ["--samples-per-grain", str(m["samples"] or 1024)]
            if o & 2:
                args += ["--channels", str(m["tch"])]
            if o & 4:
                args += ["--sample-rate", str(m["tsr"])]
    what = "wrapping %s from %s to %s" % (s["kind"], case["io"]["in"], case["io"]["out"])
    t = Tool(env, case["io"], e.data, what)
    out, exc = t.run(entry, args)
    if e.cut is not None:
        env.fault("input-ends-early")
    if exc is not None and not t.hit_read and not t.hit_write:
        env.check(e.cut is not None and s["kind"] == "aac", "error", "%s: %r %s", what, exc, t.r.stderr.getvalue()[-300:])
    if exc is not None and out is None:
        return None
    env.check(out is not None, "wrong-output", "%s: no output", what)
    try:
        ref = R.parse_file(out, partial=exc is not None)
    except R.RefError as x:
        env.fail("nonconforming-file", "%s: %s%s", what, x, "" if exc is None else " (after %r)" % exc)
    at = 0
    gs = [g for _, g in ref["grains"]]
    for k, (lid, g) in enumerate(ref["grains"]):
        env.check(lid == ref["head"]["segs"][0]["lid"], "wrong-output", "%s: grain %d in segment %d", what, k, lid)
        d = bytes.fromhex(g["data"])
        env.check(d == e.data[at:at + len(d)] and d, "wrong-data", "%s: grain %d has other bytes than the input at %d",
                  what, k, at)
        at += len(d)
        env.check(g["flow"] == ref["head"]["segs"][0]["id"], "wrong-output", "%s: flow id of grain %d", what, k)
        if case["ids"] & 1:
            env.check(g["flow"] == M.uid("flow", 1).hex, "wrong-output", "%s: flow id of grain %d", what, k)
        if case["ids"] & 2:
            env.check(g["src"] == M.uid("src", 1).hex, "wrong-output", "%s: source id of grain %d", what, k)
        env.check(g["src"] == gs[0]["src"] and g["src"] != g["flow"] and int(g["src"], 16) and int(g["flow"], 16), "wrong-output", "%s: source id of grain %d", what, k)
        if e.cut is None:
            check_wrapped(env, what, e, s, k, g, d, gs[0]["ots"])
    if exc is None:
        env.check(len(ref["head"]["segs"]) == 1, "wrong-output", "%s: %d segments", what, len(ref["head"]["segs"]))
        n = ref["head"]["segs"][0]["count"]
        env.check(n == len(gs) or (n < 0 and not t.seekable_out), "count-mismatch", "%s: counts %d grains, not %d", what,
                  n, len(gs))
        if at < len(e.data):
            # what remains is not even the start of a frame
            env.check(e.cut is not None and s["kind"] == "h264" and b"\0\0\1" not in e.data, "lost-data",
                      "%s: %d bytes of %d", what, at, len(e.data))
        if e.cut is None:
            env.check(len(gs) == len(e.frames), "wrong-split", "%s: %d grains for %d frames", what, len(gs),
                      len(e.frames))
    if (t.moved or t.hit_read or t.hit_write) and len(gs) > 1:
        env.nontrivial = True
    return (out, e.data[:at]) if exc is None else None


def check_wrapped(env, what, e, s, k, g, d, t0):
    env.check(k < len(e.frames) and d == e.frames[k], "wrong-split", "%s: grain %d is not a frame", what, k)
    meta = e.meta[k]
    env.check(g["type"] == {"video": "video", "audio": "audio", "aac": "coded_audio", "h264": "coded_video"}[s["kind"]],
              "wrong-metadata", "%s: grain %d is a grain of type %s", what, k, g["type"])
    p = g["p"]
    if s["kind"] == "video":
        ok = (p[0], p[2], p[3]) == (MD.VIDEO[s["m"]["fmt"]][0], meta["width"], meta["height"])
        ok = ok and (sum(c[3] for c in p[7]) == len(d) or k == len(e.frames) - 1)
    elif s["kind"] == "h264":
        ok = p == [int(meta["cog_frame_format"]), p[1], meta["origin_width"], meta["origin_height"],
                   meta["coded_width"], meta["coded_height"], meta["is_key_frame"], None, meta["unit_offsets"]]
    else:
        ok = p[:4] == [int(meta["cog_audio_format"]), meta["channels"], meta["samples"], meta["sample_rate"]]
    env.check(ok, "wrong-metadata", "%s: grain %d has %r, should have %r", what, k, p, meta)
    env.check(g["rate"] == str(e.rate) and g["dur"] == str(1 / e.rate), "wrong-metadata",
              "%s: grain %d has rate %s and duration %s, the stream has %s", what, k, g["rate"], g["dur"], e.rate)
    start = Fraction(s["start"][0] * 10**9 + s["start"][1], 10**9)
    ts = g["ots"]
    if (start * e.rate).denominator == 1:
        env.check(MD.near(ts, start + k / e.rate), "wrong-time", "%s: grain %d is at %d", what, k, ts)
    else:
        env.check(abs(Fraction(t0, 10**9) - start) < 1 / e.rate, "wrong-time", "%s: starts at %d", what, t0)
        env.check(MD.near(ts, Fraction(t0, 10**9) + k / e.rate, 2), "wrong-time",
                  "%s: grain %d at %d, the first at %d", what, k, ts, t0)
    env.check(g["sts"] == ts, "wrong-time", "%s: grain %d is to be synchronised to %d, not %d", what, k, g["sts"], ts)


def extract(env, then, data, wholes, torn):
    """wholes: [(lid, payload)] of the complete grains; torn: the input ends within a grain"""
    only = then["only"]
    args = []
    for lid in only or []:
        if not isinstance(lid, int) or not 0 <= lid < 65536:
            raise SkipCase()
        args += ["--only-id", str(lid)]
    what = "extracting from %s to %s%s" % (then["io"]["in"], then["io"]["out"], "" if only is None else " %r" % only)
    t = Tool(env, then["io"], data, what)
    out, exc = t.run(extract_gsf_essence, args, torn)
    want = b"".join(p for lid, p in wholes if not only or lid in only)
    if exc is None:
        env.check(out == want, "wrong-data", "%s: %d bytes, expected %d%s", what, len(out or b""), len(want),
                  " (input cut)" if torn else "")
    else:
        env.check(t.hit_read or t.hit_write or torn, "error", "%s: %r", what, exc)
        out = out or b""
        env.check(out == want[:len(out)], "wrong-data", "%s: after %r, other bytes than those of the grains", what, exc)
        if not t.hit_read and not t.hit_write:
            env.check(len(out) == len(want), "wrong-data", "%s: after %r, %d bytes of %d that could be had", what, exc,
                      len(out), len(want))
            env.probe("error-after-whole-grains")
    if (t.moved or t.hit_read or t.hit_write) and want:
        env.nontrivial = True


def probe(env, then, data, head, others, grains, complete, torn):
    """grains: [(lid, canon)] of all grains, the first `complete` of which are whole; head None: the header is cut;
    others: the headers of the files that follow"""
    args = (["-a"] if then["a"] else []) + (["--all-grains"] if then["g"] else [])
    what = "probing %s %r" % (then["io"]["in"], args)
    t = Tool(env, then["io"], data, what, has_out=False)
    out, exc = t.run(gsf_probe, args, torn)
    if exc is not None:
        env.check(t.hit_read or t.hit_write or torn or head is None, "error", "%s: %r", what, exc)
        if not t.hit_write:
            env.check(out == b"", "wrong-output", "%s: reports %r.. and fails with %r", what, out[:40], exc)
        return
    env.check(head is not None, "wrong-output", "%s: no error for a file with an incomplete header", what)
    try:
        got = json.loads(out.decode("utf-8"))
    except ValueError as x:
        env.fail("wrong-output", "%s: %s", what, x)
    if (t.moved or t.hit_read) and complete:
        env.nontrivial = True
    env.check(got["id"].replace("-", "") == head["id"], "wrong-output", "%s: id %s", what,
              got["id"])
    c = head["created"]
    env.check(str(got["created"]).startswith("%d-%02d-%02d %02d:%02d:%02d" % tuple(c)) or c[0] < 1000, "wrong-output",
              "%s: created %s, expected %r", what, got["created"], c)
    env.check(got["tags"] == head["tags"], "wrong-output", "%s: tags %r", what, got["tags"])
    # the segments of files that follow have to be there if they have grains
    must = {x["lid"] for x in head["segs"]} | {lid for lid, _ in grains[:complete]}
    may = must | {x["lid"] for h in others for x in h["segs"]}
    env.check({str(x) for x in must} <= set(got["segments"]) <= {str(x) for x in may}, "wrong-output",
              "%s: segments %r", what, sorted(got["segments"]))
    if len(must) > len(head["segs"]):
        env.probe("segments-of-a-following-file")
    ns = set()
    for lid in sorted(int(x) for x in got["segments"]):
        g = got["segments"][str(lid)]
        xs = [x for x in head["segs"] if x["lid"] == lid] or [x for h in others for x in h["segs"] if x["lid"] == lid]
        ws = "%s: segment %d" % (what, lid)
        env.check((g["id"].replace("-", ""), g["local_id"], g["count"], g["tags"]) in
                  [(x["id"], x["lid"], x["count"], x["tags"]) for x in xs], "wrong-output", "%s is %r, expected %r", ws,
                  {k: g.get(k) for k in ("id", "local_id", "count", "tags")}, xs)
        x = xs[0]
        mine = [(k, e) for k, (lid, e) in enumerate(grains) if lid == x["lid"]]
        n = sum(1 for k, e in mine if k < complete)
        if then["a"] or then["g"]:
            k = len(g.get("grain_timestamps" if then["a"] else "grain_data", []))
            env.check(k == n or (torn and k == n + 1 and n < len(mine)), "wrong-output", "%s: %d grains, expected %d", ws,
                      k, n)
            ns.add(k - n)
            n = k
        ranges = [tr_of([e for _, e in mine[:n]])]
        if not (then["a"] or then["g"]) and torn and n < len(mine) and mine[n][0] == complete:
            ranges.append(tr_of([e for _, e in mine[:n + 1]]))
        env.check(any(same_range(g.get("timerange"), r) for r in ranges), "wrong-output", "%s: time range %r, expected %r", ws,
                  g.get("timerange"), ranges)
        if then["a"]:
            for q, (_, e) in zip(g.get("grain_timestamps", []), mine):
                env.check(q["origin_timestamp"] == ts_str(e["ots"]) and q["sync_timestamp"] == ts_str(e["sts"]),
                          "wrong-output", "%s: timestamps %r, expected %s", ws, q, ts_str(e["ots"]))
        gd = g.get("grain_data")
        if then["g"]:
            env.check(isinstance(gd, list) or (gd is None and not n), "wrong-output", "%s: grain data %r", ws, gd)
            gd = gd or []
        else:
            env.check((gd is not None) == bool(g.get("timerange")), "wrong-output", "%s: grain data %r", ws, gd)
            gd = [gd] if gd is not None else []
        for q, (_, e) in zip(gd, mine):
            env.check((q["source_id"].replace("-", ""), q["flow_id"].replace("-", ""), q["grain_type"],
                       q["origin_timestamp"], q["sync_timestamp"]) ==
                      (e["src"], e["flow"], e["type"], ts_str(e["ots"]), ts_str(e["sts"])),
                      "wrong-output", "%s: grain %r, expected %r", ws, q, {k: e[k] for k in ("src", "flow", "type", "ots", "sts")})
            check_params(env, ws, q, e)


def check_params(env, ws, q, e):
    p = e.get("p")
    if e["type"] == "video":
        f = q["cog_frame"]
        got, want = [f["format"], f["layout"], f["width"], f["height"]], p[:4]
    elif e["type"] == "coded_video":
        f = q["cog_coded_frame"]
        got, want = [f["format"], f["layout"], f["origin_width"], f["origin_height"], f["coded_width"],
                     f["coded_height"]], p[:6]
    elif e["type"] in ("audio", "coded_audio"):
        f = q["cog_audio" if e["type"] == "audio" else "cog_coded_audio"]
        got, want = [f["format"], f["channels"], f["samples"], f["sample_rate"]], p[:4]
    else:
        return
    env.check(got == want, "wrong-output", "%s: grain with %r, expected %r", ws, got, want)


def tr_of(es):
    """(first, last) nanosecond, None without grains"""
    if not es:
        return None
    lo, hi = [], []
    for e in es:
        lo.append(e["ots"])
        end = e["ots"]
        if e["type"] in ("audio", "coded_audio"):
            # duration of all samples but one
            end += round(Fraction((e["p"][2] - 1) * 10**9, e["p"][3]))
        hi.append(end)
    return min(lo), max(hi)


def ts_ns(s):
    sec, ns = s.lstrip("-").split(":")
    return (-1 if s.startswith("-") else 1) * (int(sec) * 10**9 + int(ns))


def same_range(got, want):
    """(which way the last sample's time is rounded is not a promise)"""
    if got is None or want is None:
        return got is want
    if not (got.startswith("[") and got.endswith("]")):
        return False
    a, _, b = got[1:-1].partition("_")
    return ts_ns(a) == want[0] and abs(ts_ns(b or a) - want[1]) <= 1


def execute(env, case):
    then = case["then"]
    torn = False
    if "wrap" in case:
        r = wrap(env, case)
        if r is None:
            return
        data, essence = r
        parts = [data]
    else:
        parts = []
        for h, grains, term in [[case["head"], case["grains"], case["term"]]] + case["more"]:
            if h is None or not M.valid_head(h) or h["created"][0] < 1:
                raise SkipCase()
            lids = {s["lid"] for s in h["segs"]}
            M.need_valid([d for _, d in grains], h["major"])
            for lid, d in grains:
                if lid not in lids:
                    raise SkipCase()
                if d["t"] in (3, 4) and not (d["p"]["sr"] >= 1 and 1 <= d["p"]["samples"] < 10**6):
                    raise SkipCase()
                if max(d["ots"][1], d["sts"][1]) > 2**40:
                    raise SkipCase()
            parts.append(R.enc_file(h, grains, terminator=bool(term))[0])
    full = {"grains": [g for b in parts for g in R.parse_file(b, partial=True)["grains"]]}
    data = b"".join(parts)
    if case.get("cut") is not None:
        n = case["cut"] % (len(data) + 1)
        torn = n < len(data)
        data = data[:n]
        env.fault("input-ends-early")
    refs, at = [], 0
    for b in parts:
        refs.append(R.parse_file(data[at:at + len(b)], partial=True))
        at += len(b)
    ref = {"grains": [g for r in refs for g in r["grains"]]}
    k = len(ref["grains"])
    if then["tool"] == "extract":
        if any(g["type"] == "event" and (not then["only"] or lid in then["only"]) for lid, g in ref["grains"]):
            raise SkipCase()
        wholes = [(lid, bytes.fromhex(g["data"])) for lid, g in ref["grains"] if g["type"] != "event"]
        extract(env, then, data, wholes, torn)
        if "wrap" in case:
            env.check(b"".join(p for _, p in wholes) == essence, "wrong-data", "the file has other data than the media")
    elif then["tool"] == "probe":
        probe(env, then, data, refs[0]["head"], [r["head"] for r in refs[1:] if r["head"] is not None], full["grains"], k,
              torn)
    else:
        raise SkipCase()
