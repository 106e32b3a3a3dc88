"""G09: operations on encoders apply exactly once or are rejected without effect."""
import warnings

from .. import gsfref as R
from .. import model as M
from .. import seams
from ..core import HarnessError, SkipCase, Violation
from ..drv import add_flow, gsf, open_async_sink, open_sync_sink, quiet, seekable_write
from ..loop import run_async

ID = "G09"
RUNS = {"quick": 20000, "thorough": 500000}
RULE = ("A case is the history of one encoder: constructor arguments, up to three dumps in a row of the same encoder "
        "(context manager, streaming or not, or start_dump/end_dump/dump), and operations before, during and between "
        "them on the encoder, its open form and its segments: tags, segments, flows, grains by every route, grains "
        "from an iterator that fails, grains that cannot be written, and operations that come too late. "
        "Non-trivial: at least one grain or rejected operation.")
REAL = ["mediagrains.gsf encoders", "mediagrains.utils.asyncbinaryio", "mediagrains.grains", "io.Buffered*"]
STUB = ["raw files, pipes and sockets (short transfers, back-pressure)", "clock, selector, thread pool"]
ASSUMPTIONS = ["A dump is ended before the next one is started, and an open encoder is not used after its dump.",
               "A dump that failed to write is not continued (see G03)."]

SYNC_TR = ["bytesio", "wb", "r+b", "raw", "pipe", "rawpipe"]
ASYNC_TR = ["abytes", "abytesw", "afile-bytesio", "afile-wb", "afile-raw", "afile-pipe", "stream", "stream-open",
            "plain-bytesio"]
SEEK_OPS = ["tag", "seg", "flow", "grain", "grains", "fail", "pend", "lost", "dup", "end"]


# what no tag can be made of
BAD_TAGS = [[5], [None], ["a"], [("k",)], [("k", "v"), 7], [("k", "v"), ()]]
BAD_SEGMENTS = [[5], [None], [{"local_id": 1, "name": "x"}], [{"local_id": 5}, "ab"]]


class IterFailed(Exception):
    pass


class Pending:
    """Data which never arrives."""

    def __await__(self):
        yield None
        raise HarnessError("awaited")


def gen_op(rng, major, n, mode, inside):
    k = rng.choice(["grain"] * 6 + ["grains"] * 3 + ["tag", "tag", "seg", "flow", "segtag", "fail", "pend", "lost",
                                                     "dup", "end", "odd", "odd", "badseg"])
    who = rng.choice(["enc", "oe", "oe"]) if inside else "enc"
    ref = rng.randrange(6)
    if k == "grain":
        return [k, who, rng.choice(["lid", "id", "seg", "seg", "none"]), ref, [M.gen_grain(rng, n, major)]]
    if k in ("grains", "fail"):
        ds = [M.gen_grain(rng, 1000 * n + i, major) for i in range(rng.choice([0, 1, 2, 3]))]
        return [k, who, rng.choice(["lid", "id", "seg", "none"]), ref, ds]
    if k == "tag":
        return [k, who, M.gen_string(rng, 8), M.gen_string(rng, 8)]
    if k == "segtag":
        return [k, ref, M.gen_string(rng, 8), M.gen_string(rng, 8)]
    if k == "seg":
        return [k, who, rng.choice([None, None, None, 1, 2, 7, 300, 65535]), rng.randrange(6), M.gen_tags(rng)]
    if k == "flow":
        return [k, ref, {"src": rng.randrange(4), "flow": rng.randrange(4), "fmt": rng.choice(["", "f" * 64, "u:a", "f" * 63 + "\u00e9f", "\u4e2d" * 40]),
                         "data": rng.choice(["", "{}", "x" * 100])}]
    if k == "pend":
        return [k, who, ref]
    if k == "lost":
        return [k, who, rng.choice(["lid", "id"]), M.gen_grain(rng, n, major)]
    if k == "dup":
        return [k, who, ref]
    if k == "badseg":
        return [k, who, rng.choice([None, None, 1, 3, 900, 65535, -1, 65536]), rng.randrange(len(BAD_TAGS) + 1)]
    if k == "odd":
        return [k, who, ref, M.gen_grain(rng, n, major), rng.randrange(12)]
    return ["end"]


def generate(rng, tier):
    major = rng.choice([7, 8, 9, 9])
    mode = rng.choice(["sync", "async"])
    n = [0]

    def ops(inside, most):
        out = []
        for _ in range(rng.randrange(most // 2, most + 1)):
            out.append(gen_op(rng, major, n[0], mode, inside))
            n[0] += 1
        return out
    h = M.gen_head(rng, 3, major)
    if rng.randrange(3) == 0:
        h["segs"] = []
    for s in h["segs"]:
        # segments may well have the same id: their local id tells them apart
        s["id"] = rng.randrange(4)
    phases = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        phases.append({"pre": ops(False, rng.choice([0, 2, 5])), "how": rng.choice(["ctx", "ctx", "start", "dump"]),
                       "in": ops(True, rng.choice([0, 5, 10, 16])), "raise": int(rng.randrange(12) == 0)})
    tr = rng.choice(SYNC_TR if mode == "sync" else ASYNC_TR)
    if tr == "stream" and len(phases) > 1:
        # an encoder closes what it has opened, which for a stream is the end of it
        tr = "stream-open"
    return {"head": h, "mode": mode, "tr": tr,
            "short": rng.randrange(3), "high": rng.choice([0, 64, 4096]), "old": rng.choice([0, 0, 400, 3000]),
            "streaming": rng.randrange(2), "decl": rng.randrange(2), "phases": phases,
            "fn": rng.choice([None] * 9 + ["dump", "dumps"]),
            "bad": rng.choice([None, None, None, rng.randrange(len(BAD_TAGS) + len(BAD_SEGMENTS))])}


def valid(case):
    try:
        h = case["head"]
        if case["bad"] is not None and not 0 <= case["bad"] < len(BAD_TAGS) + len(BAD_SEGMENTS):
            raise SkipCase()
        if not M.valid_head(h) or case["mode"] not in ("sync", "async"):
            raise SkipCase()
        if case["tr"] not in (SYNC_TR if case["mode"] == "sync" else ASYNC_TR):
            raise SkipCase()
        if case["tr"] == "stream" and len(case["phases"]) > 1:
            raise SkipCase()
        for p in case["phases"]:
            if p["how"] not in ("ctx", "start", "dump"):
                raise SkipCase()
            for op in p["pre"] + p["in"]:
                k = op[0]
                if k in ("grain", "grains", "fail"):
                    M.need_valid(op[4], h["major"])
                    if k == "grain" and len(op[4]) != 1 or op[2] not in ("lid", "id", "seg", "none"):
                        raise SkipCase()
                elif k == "badseg":
                    op[3] + 0
                elif k == "odd":
                    M.need_valid([op[3]], h["major"])
                    op[4] + 0
                elif k == "lost":
                    M.need_valid([op[3]], h["major"])
                elif k in ("tag", "segtag"):
                    if not isinstance(op[2], str) or not isinstance(op[3], str) or "\0" in op[2] + op[3]:
                        raise SkipCase()
                elif k == "seg":
                    if op[2] is not None and not 0 <= op[2] <= 65535:
                        raise SkipCase()
                    for a, b in op[4]:
                        a + b + ""
                elif k == "flow":
                    if op[2]["fmt"].endswith("\0") or not isinstance(op[2]["data"], str):
                        raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError):
        raise SkipCase()


class Hist:
    """The encoder under test next to what it should hold."""

    def __init__(self, env, case, skip=()):
        self.env = env
        self.case = case
        self.skip = skip
        self.tags = []
        self.segs = {}          # lid -> {"id", "tags", "flow", "new": [grains accepted for the current or next dump]}
        self.objs = []          # (lid, segment object), in order of creation
        self.enc = None
        self.oe = None
        self.active = False     # is a header written which is not yet closed?
        self.open = False
        self.n = 0
        self.rejected = []
        self.files = []
        self.dumped = False
        self.frozen = False     # has a dump been tried? segments do not change after that
        self.odd = []           # how to repair the grains which nothing can be made of

    # -- oracle ------------------------------------------------------------------------------------------------
    def seen(self, what):
        """The encoder's own view of itself."""
        env = self.env
        with env.oracle("looking at the encoder"):
            views = [self.enc] + ([self.oe] if self.oe is not None else [])
            for v in views:
                env.check([[t.key, t.value] for t in v.tags] == self.tags, "state", "after %s: tags are %r, expected %r",
                          what, [[t.key, t.value] for t in v.tags], self.tags)
                env.check(list(v.tags) == [tuple(t) for t in self.tags], "state", "after %s: tags are not equal to %r",
                          what, self.tags)
                env.check(sorted(v.segments) == sorted(self.segs), "state", "after %s: segments are %r, expected %r",
                          what, sorted(v.segments), sorted(self.segs))
                for lid, s in v.segments.items():
                    m = self.segs[lid]
                    env.check(s.local_id == lid and s.id == m["id"], "state", "after %s: segment %d is %r %r", what, lid,
                              s.local_id, s.id)
                    env.check([[t.key, t.value] for t in s.tags] == m["tags"], "state",
                              "after %s: tags of segment %d are %r, expected %r", what, lid,
                              [[t.key, t.value] for t in s.tags], m["tags"])
                    if not self.dumped:
                        env.check(s.count == len(m["new"]), "state", "after %s: segment %d counts %r, expected %r", what,
                                  lid, s.count, len(m["new"]))

    def adopt(self, what):
        """A segment that an accepted grain has created."""
        new = [lid for lid in self.enc.segments if lid not in self.segs]
        self.env.check(len(new) == 1, "state", "%s: %d new segments", what, len(new))
        s = self.enc.segments[new[0]]
        self.segs[new[0]] = {"id": s.id, "tags": [], "flow": None, "new": []}
        self.objs.append((new[0], s))
        return new[0]

    def too_late(self, what):
        self.env.check(not self.active, "late-accepted", "%s was accepted after the header had been written", what)

    def verdict(self, e, what, must):
        """An operation was rejected."""
        env = self.env
        env.check(isinstance(e, gsf.GSFError), "wrong-error", "%s: %s: %s", what, type(e).__name__, e)
        env.check(not must, "rejected", "%s: %s: %s", what, type(e).__name__, e)
        env.probe("rejected")
        env.nontrivial = True
        self.rejected.append(self.n)

    # -- operations --------------------------------------------------------------------------------------------
    async def do(self, op):
        self.n += 1
        if self.n in self.skip:
            return
        self.env.step()
        what = "operation %d (%s)" % (self.n, " ".join(str(x) for x in op[:3])[:60])
        await getattr(self, "op_" + op[0])(op, what)
        self.seen(what)

    def target(self, who):
        return self.oe if who == "oe" and self.oe is not None else self.enc

    def ref(self, i):
        if not self.objs:
            return None
        return self.objs[i % len(self.objs)]

    def free(self, t):
        """Must this be accepted?  Only where there is no doubt."""
        return not self.open or (t is self.oe and not self.active)

    def room(self):
        """Is there certainly a local id left to choose?"""
        return max(self.segs, default=0) < 65535

    async def op_tag(self, op, what):
        t = self.target(op[1])
        try:
            t.add_tag(op[2], op[3])
        except Exception as e:
            return self.verdict(e, what, self.free(t))
        self.too_late(what)
        self.tags.append([op[2], op[3]])

    async def op_segtag(self, op, what):
        r = self.ref(op[1])
        if r is None:
            return
        try:
            r[1].add_tag(op[2], op[3])
        except Exception as e:
            return self.verdict(e, what, not self.frozen and not self.active)
        self.too_late(what)
        self.segs[r[0]]["tags"].append([op[2], op[3]])

    async def op_flow(self, op, what):
        r = self.ref(op[1])
        if r is None:
            return
        try:
            add_flow(r[1], {"flow": op[2]})
        except Exception as e:
            return self.verdict(e, what, not self.frozen and not self.active)
        self.too_late(what)
        self.segs[r[0]]["flow"] = op[2]

    async def op_seg(self, op, what):
        t = self.target(op[1])
        lid = op[2]
        sid = M.uid("seg9", op[3])
        try:
            s = t.add_segment(id=sid, local_id=lid, tags=[tuple(x) for x in op[4]])
        except Exception as e:
            return self.verdict(e, what, self.free(t) and (lid not in self.segs if lid is not None else self.room()))
        self.too_late(what)
        with self.env.oracle("a new segment"):
            self.env.check(s.local_id not in self.segs and 0 <= s.local_id <= 65535, "state",
                           "%s: local id %r is not free", what, s.local_id)
            self.env.check(lid is None or s.local_id == lid, "state", "%s: local id %r", what, s.local_id)
        self.segs[s.local_id] = {"id": sid, "tags": [list(x) for x in op[4]], "flow": None, "new": []}
        self.objs.append((s.local_id, s))

    async def op_badseg(self, op, what):
        """A segment that makes no sense: none is made then."""
        t = self.target(op[1])
        lid = op[2]
        bad = (BAD_TAGS + [[("k", "v")]])[op[3] % (len(BAD_TAGS) + 1)]
        if bad == [("k", "v")] and (lid is None or 0 <= lid <= 65535 and lid not in self.segs):
            return
        try:
            t.add_segment(id=M.uid("badseg", self.n), local_id=lid, tags=bad)
        except Exception as e:
            self.env.fault("nonsense-segment")
            return self.verdict(e, what, False)
        self.env.fail("state", "%s: a segment %r with tags %r was accepted", what, lid, bad)

    async def op_dup(self, op, what):
        r = self.ref(op[2])
        if r is None:
            return
        try:
            self.target(op[1]).add_segment(id=M.uid("dup", self.n), local_id=r[0])
        except Exception as e:
            return self.verdict(e, what, False)
        self.env.fail("state", "%s: a second segment with local id %d was accepted", what, r[0])

    async def op_end(self, op, what):
        if self.open or self.case["mode"] == "async":
            return
        quiet(self.enc.end_dump)

    def route(self, op):
        """(callable or None, keyword arguments, local id expected or None for a new segment)"""
        _, who, how, i, ds = op
        t = self.target(who)
        r = self.ref(i)
        if how == "none" or r is None:
            if r is None and how != "none":
                # a segment that does not exist yet
                return t, ({"segment_local_id": 40 + i} if how == "lid" else {"segment_id": M.uid("new", i)}), None
            return t, {}, (min(self.segs) if self.segs else None)
        if how == "lid":
            return t, {"segment_local_id": r[0]}, r[0]
        if how == "id":
            if len([lid for lid, s in self.segs.items() if s["id"] == r[1].id]) == 1:
                return t, {"segment_id": r[1].id}, r[0]
        return r[1], {}, r[0]

    async def op_grain(self, op, what):
        await self.op_grains(op, what, one=True)

    async def op_grains(self, op, what, one=False):
        t, kw, lid = self.route(op)
        gs = [M.to_grain(d) for d in op[4]]
        try:
            x = t.add_grain(gs[0], **kw) if one else t.add_grains(gs if self.n % 2 else iter(gs), **kw)
            if t is self.oe and self.case["mode"] == "async":
                await x
        except Exception as e:
            return self.verdict(e, what, lid is not None or (not self.active and self.room()))
        if lid is None:
            if not gs and set(self.enc.segments) == set(self.segs):
                return
            self.too_late(what)
            lid = self.adopt(what)
        self.segs[lid]["new"] += [M.expected(d) for d in op[4]]
        self.env.nontrivial = True

    async def op_fail(self, op, what):
        """The caller's own iterator fails after some grains: those may be in or not, in order."""
        t, kw, lid = self.route(op)
        if lid is None:
            return
        gs = [M.to_grain(d) for d in op[4]]

        def it():
            yield from gs
            raise IterFailed()
        try:
            x = t.add_grains(it(), **kw)
            if t is self.oe and self.case["mode"] == "async":
                await x
        except IterFailed:
            self.env.fault("iterator-failed")
        except Exception as e:
            return self.verdict(e, what, True)
        else:
            self.env.fail("error-lost", "%s: the iterator failed, but nothing was reported", what)
        for d in op[4]:
            self.segs[lid]["new"].append(M.expected(d))

    async def op_pend(self, op, what):
        """A grain without its data cannot be written synchronously."""
        r = self.ref(op[2])
        if r is None or self.case["mode"] == "async" or not self.active:
            return
        d = {"t": 3, "n": 1, "src": 0, "flow": 0, "ots": [1, 0, 0], "sts": [1, 0, 0], "rate": [25, 1], "dur": [1, 25],
             "tl": [], "len": 4, "pk": 0, "p": {"fmt": 0, "ch": 1, "samples": 2, "sr": 48000}}
        g = M.to_grain(d, Pending())
        try:
            self.target(op[1]).add_grain(g, segment_local_id=r[0])
        except Exception as e:
            self.env.fault("unwritable-grain")
            return self.verdict(e, what, False)
        self.env.fail("state", "%s: a grain without its data was written", what)

    async def op_odd(self, op, what):
        """A grain that nothing can be made of is refused as it is written, and takes no other with it."""
        r = self.ref(op[2])
        if r is None or not self.active and not seekable_write(self.case["tr"]):
            return
        t = self.oe if self.active and self.case["mode"] == "async" else self.target(op[1])
        g = M.to_grain(op[3])
        repair = M.spoil(g, op[3], self.case["head"]["major"], op[4])
        try:
            x = t.add_grain(g, segment_local_id=r[0])
            if t is self.oe and self.case["mode"] == "async":
                await x
        except Exception as e:
            self.env.fault("unwritable-grain")
            return self.verdict(e, what, False)
        self.env.check(not self.active, "state", "%s: a grain that does not fit was written", what)
        self.segs[r[0]]["new"].append(M.expected(op[3]))
        self.odd.append(repair)

    def failed(self, e, what):
        """A dump has failed: only for a grain that cannot be written, and nothing is lost by it."""
        env = self.env
        env.check(isinstance(e, gsf.GSFError) and self.odd, "dump-failed", "%s: %s: %s", what, type(e).__name__, e)
        env.fault("unwritable-grain-in-a-dump")
        self.open = self.active = False
        self.oe = None
        self.frozen = True
        self.seen("failed " + what)
        for repair in self.odd:
            repair()
        self.odd = []

    async def op_lost(self, op, what):
        """To a segment that does not exist."""
        kw = {"segment_local_id": 4711} if op[2] == "lid" else {"segment_id": M.uid("lost", self.n)}
        t = self.target(op[1])
        if 4711 in self.segs:
            return
        try:
            x = t.add_grain(M.to_grain(op[3]), **kw)
            if t is self.oe and self.case["mode"] == "async":
                await x
        except Exception as e:
            return self.verdict(e, what, self.free(t) and (op[2] == "lid" or self.room()))
        self.too_late(what)
        lid = self.adopt(what)
        with self.env.oracle("a new segment"):
            self.env.check(lid == 4711 if op[2] == "lid" else self.enc.segments[lid].id == kw["segment_id"], "state",
                           "%s: made segment %d", what, lid)
        self.segs[lid]["new"].append(M.expected(op[3]))

    # -- dumps -------------------------------------------------------------------------------------------------
    def header(self):
        return {"tags": [list(t) for t in self.tags],
                "segs": [{"lid": lid, "id": s["id"].hex, "tags": [list(t) for t in s["tags"]],
                          "flow": None if s["flow"] is None else flow_of(s["flow"])} for lid, s in self.segs.items()]}

    def begin(self, stream):
        self.open = True
        self.active = stream
        self.head = self.header() if stream else None

    def finish(self, stream, data, what):
        """The dump is over: its file must hold exactly what was accepted for it."""
        env = self.env
        if not stream:
            self.head = self.header()
        self.open = self.active = False
        self.oe = None
        env.check(not self.odd, "state", "%s: written in spite of a grain that does not fit", what)
        self.dumped = self.frozen = True
        try:
            ref = R.parse_file(data)
        except R.RefError as e:
            env.fail("nonconforming-file", "%s: %s", what, e)
        h = self.case["head"]
        env.check(ref["version"][0] == h["major"] and ref["head"] is not None, "nonconforming-file", "%s: version %r",
                  what, ref["version"])
        per = {}
        for lid, g in ref["grains"]:
            per.setdefault(lid, []).append(g)
        want = {lid: s["new"] for lid, s in self.segs.items() if s["new"]}
        env.check(sorted(per) == sorted(want), "grain-mismatch", "%s: grains for segments %r, expected %r", what,
                  sorted(per), sorted(want))
        for lid in sorted(want):
            M.check_seq(env, [(lid, e) for e in want[lid]], [(lid, g) for g in per[lid]], "%s, segment %d" % (what, lid))
        head = {"id": M.uid("file", h["id"]).hex, "created": list(h["created"]), "tags": self.head["tags"], "segs": []}
        for s in self.head["segs"]:
            x = dict(s)
            if x["flow"] is None:
                del x["flow"]
            n = len(self.segs[s["lid"]]["new"])
            x["count"] = n if (not stream or seekable_write(self.case["tr"])) else (n, "neg")
            head["segs"].append(x)
        M.check_head(env, head, ref["head"], what)
        for s in self.segs.values():
            s["new"] = []
        self.files.append([ref["grains"], ref["head"]])


def flow_of(f):
    return [M.uid("src", f["src"]).hex, M.uid("flow", f["flow"]).hex, M.clip(f["fmt"], 64), f["data"]]


class Ended(Exception):
    pass


async def history(env, loop, case, skip=()):
    H = Hist(env, case, skip)
    h = case["head"]
    cfg = {"tr": case["tr"], "short": case["short"], "old": case["old"], "high": case["high"]}
    if case["mode"] == "sync":
        f, get, _ = open_sync_sink(env, cfg)
    else:
        f, get, _ = open_async_sink(env, loop, cfg)
    streaming = bool(case["streaming"])
    kw = {"major": h["major"], "id": M.uid("file", h["id"]), "created": M.created_dt(h),
          "tags": [tuple(t) for t in h["tags"]], "streaming": streaming}
    if case["decl"]:
        kw["segments"] = [{"id": M.uid("seg", s["id"]), "local_id": s["lid"], "tags": [tuple(t) for t in s["tags"]]}
                          for s in h["segs"]]
    if case["bad"] is not None:
        bad = dict(kw)
        if case["bad"] < len(BAD_TAGS):
            bad["tags"] = BAD_TAGS[case["bad"]]
        else:
            bad["segments"] = BAD_SEGMENTS[case["bad"] - len(BAD_TAGS)]
        try:
            gsf.GSFEncoder(f, **bad)
        except Exception as e:
            env.fault("nonsense-arguments")
            env.check(isinstance(e, gsf.GSFError), "wrong-error", "tags %r, segments %r: %s: %s", bad["tags"],
                      bad.get("segments"), type(e).__name__, e)
        else:
            env.fail("state", "an encoder with tags %r, segments %r was made", bad["tags"], bad.get("segments"))
    H.enc = enc = gsf.GSFEncoder(f, **kw)
    H.tags = [list(t) for t in h["tags"]]
    for s in h["segs"]:
        o = enc.segments[s["lid"]] if case["decl"] else enc.add_segment(
            id=M.uid("seg", s["id"]), local_id=s["lid"], tags=[tuple(t) for t in s["tags"]])
        add_flow(o, s)
        H.segs[s["lid"]] = {"id": M.uid("seg", s["id"]), "tags": [list(t) for t in s["tags"]], "flow": s["flow"],
                            "new": []}
        H.objs.append((s["lid"], o))
    H.seen("construction")
    done = 0 if seekable_write(case["tr"]) else len(get())
    for i, p in enumerate(case["phases"]):
        what = "dump %d (%s)" % (i, p["how"])
        for op in p["pre"]:
            await H.do(op)
        how = p["how"] if case["mode"] == "sync" else "ctx"
        ops = p["in"]
        while True:
            before = H.n
            try:
                stream = await dump(H, p, how, ops, streaming)
                break
            except gsf.GSFError as e:
                H.failed(e, what)
                env.probe("dump-after-a-failed-one")
                if H.n != before or how == "dump":
                    ops = []
        data = get()
        H.finish(stream, data[done:], what)
        if not seekable_write(case["tr"]):
            done = len(data)
        env.probe("dump-%s-%s" % (case["mode"], how))
        if i:
            env.probe("repeated-dump")
    return H


async def dump(H, p, how, ops, streaming):
    """One dump, whose operations are ops.  Returns whether it was progressive."""
    enc = H.enc
    if how == "dump":
        quiet(enc.dump)
        return False
    if how == "start":
        quiet(enc.start_dump)
        H.begin(True)
        for op in ops:
            await H.do(op)
        quiet(enc.end_dump)
        return True
    try:
        if H.case["mode"] == "sync":
            with enc as H.oe:
                H.begin(streaming)
                await inside(H, p, ops)
        else:
            async with enc as H.oe:
                H.begin(streaming)
                await inside(H, p, ops)
    except Ended:
        H.env.fault("body-raised")
    return streaming


async def inside(H, p, ops):
    for op in ops:
        await H.do(op)
    if p["raise"]:
        # leaving the block by an exception ends the dump as well
        raise Ended()


def run(env, case, skip=()):
    seams.reset()
    if case["mode"] == "async":
        return run_async(env, lambda loop: history(env, loop, case, skip))
    co = history(env, None, case, skip)
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise HarnessError("a synchronous history awaited something")


def functions(env, case):
    """dump() and dumps(): one segment, everything in it."""
    h = case["head"]
    grains = [d for p in case["phases"] for op in p["pre"] + p["in"] if op[0] in ("grain", "grains") for d in op[4]]
    kw = {"major": h["major"], "id": M.uid("file", h["id"]), "created": M.created_dt(h),
          "tags": [tuple(t) for t in h["tags"]], "streaming": False}
    tags = h["segs"][0]["tags"] if h["segs"] else None
    gs = (M.to_grain(d) for d in grains)
    if case["fn"] == "dumps":
        data = gsf.dumps(gs, segment_tags=None if tags is None else [tuple(t) for t in tags], **kw)
    else:
        if case["mode"] != "sync":
            return
        f, get, _ = open_sync_sink(env, {"tr": case["tr"], "short": case["short"], "old": case["old"]})
        gsf.dump(list(gs), f, segment_tags=None if tags is None else [tuple(t) for t in tags], **kw)
        data = get()
    try:
        ref = R.parse_file(data)
    except R.RefError as e:
        env.fail("nonconforming-file", "%s: %s", case["fn"], e)
    segs = ref["head"]["segs"]
    env.check(len(segs) == 1 and segs[0]["tags"] == (tags or []) and segs[0]["count"] == len(grains), "head-mismatch",
              "%s: segments %r for %d grains", case["fn"], segs, len(grains))
    env.check(ref["head"]["tags"] == h["tags"] and ref["version"][0] == h["major"], "head-mismatch", "%s: tags %r",
              case["fn"], ref["head"]["tags"])
    M.check_seq(env, [(segs[0]["lid"], M.expected(d)) for d in grains], ref["grains"], case["fn"])
    env.nontrivial = bool(grains)


def execute(env, case):
    valid(case)
    if case["fn"] is not None:
        if case["fn"] not in ("dump", "dumps"):
            raise SkipCase()
        return functions(env, case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        a = run(env, case)
        env.ev("history", a.n, len(a.rejected), len(a.files))
        if a.rejected and env.chance(1, 3):
            # leaving out what was rejected must make no difference
            env.probe("without-rejected")
            try:
                b = run(env, case, set(a.rejected))
            except Violation as v:
                env.fail("rejected-effect", "without the rejected operations: %s", v.msg)
            env.check(not b.rejected, "rejected-effect", "without operations %r, operations %r are rejected",
                      a.rejected, b.rejected)
            for i, (x, y) in enumerate(zip(a.files, b.files)):
                env.check(anon(x) == anon(y), "rejected-effect", "dump %d differs without the rejected operations", i)


def anon(f):
    grains, head = f
    per = {}
    for lid, g in grains:
        per.setdefault(lid, []).append(g)
    return per, head["tags"], [[s["lid"], s["count"], s["tags"], s.get("flow")] for s in head["segs"]]
