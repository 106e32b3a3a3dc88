"""G13: a grain's awaited data is the same for everyone who awaits it."""
import asyncio
import json
from copy import copy, deepcopy

from .. import model as M
from ..core import SkipCase
from ..drv import gsf  # noqa: F401  (loads the package under test)
from ..loop import run_async

import numpy as np  # noqa: E402
from mediagrains import GrainFactory  # noqa: E402
from mediagrains import grains as BG  # noqa: E402
from mediagrains import numpy as NG  # noqa: E402

ID = "G13"
RUNS = {"quick": 40000, "thorough": 1200000}
RULE = ("A case is one grain of any type (also numpy grains) given its data as a coroutine, future, task or other "
        "awaitable that yields after a random time, fails, is cancelled or never ends, and up to six tasks that await "
        "the grain in every way there is, look at it, give it other data (also as awaitables) and are cancelled, at "
        "random times. Non-trivial: two awaits of the same data overlapped, or one was cancelled or failed.")
REAL = ["mediagrains.grains", "mediagrains.numpy grains", "asyncio tasks, futures, shield, wait_for, gather"]
STUB = ["clock and selector (virtual time)"]
ASSUMPTIONS = ["An awaitable is given to one grain only, once.",
               "Event grains are given awaitables when they are made."]
AW = ["coro", "coro", "coro", "future", "task", "custom"]
AWAITS = ["await", "await", "with", "wait_for", "gather", "shield"]
CLS = {0: BG.Grain, 1: BG.VideoGrain, 2: BG.CodedVideoGrain, 3: BG.AudioGrain, 4: BG.CodedAudioGrain, 5: BG.EventGrain}
NPCLS = {1: NG.VideoGrain, 3: NG.AudioGrain}


class AwaitableError(Exception):
    pass


def gen_aw(rng):
    return {"kind": rng.choice(AW), "end": rng.choice(["value"] * 7 + ["none", "error", "cancel", "never"]),
            "after": rng.choice([0, 0, 1, 2, 5, 9, 20]), "steps": rng.randrange(3), "form": rng.randrange(3),
            "n": rng.randrange(1 << 16)}


def generate(rng, tier):
    npg = rng.randrange(3) == 0
    d = M.gen_np_grain(rng, 1, 9) if npg else M.gen_grain(rng, 1, 9)
    tasks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            at = rng.choice([0, 0, 1, 2, 5, 9, 20, 21])
            k = rng.randrange(10)
            if k < 7:
                ops.append([at, rng.choice(AWAITS), rng.choice([0, 1, 5, 30])])
            elif k < 8:
                ops.append([at, "look", 0])
            elif k < 9 or d["t"] == 5:
                ops.append([at, "set", rng.randrange(1 << 16) if d["t"] == 5 or rng.randrange(4) else None])
            else:
                ops.append([at, "setaw", gen_aw(rng)])
        tasks.append(ops)
    return {"d": d, "np": npg, "make": rng.randrange(3), "aw": gen_aw(rng), "tasks": tasks,
            "cancels": [[rng.randrange(len(tasks)), rng.choice([0, 1, 2, 3, 5, 9, 15, 20, 25])]
                        for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))],
            "len": rng.choice([None, rng.randrange(10**6)]), "old": rng.randrange(4)}


def value_bytes(d, n):
    """What some awaitable or assignment gives this grain: of the right size, different every time"""
    if d["t"] == 5:
        e = dict(d)
        p = d["p"]
        topic = [p["topic"], "topic%d" % n, "", "p"][n % 4]
        data = p["data"] + [["/%d" % n, n if n & 8 else None, [n] if n & 16 else None]] * (n // 4 % 2)
        e["p"] = {"type": "t%d" % n, "topic": topic, "data": data[::-1] if n & 32 else data}
        return M.event_bytes(e)
    return M.payload(n, max(1, d.get("len", 7)), 0)


def formed(case, b, form):
    if form == 1:
        return bytearray(b)
    if form == 2 and case["np"]:
        return np.frombuffer(b, dtype=np.uint8)
    if form == 2:
        return memoryview(b)
    return b


class Source:
    """One way the grain has been given its data"""

    def __init__(self, w, value=None, aw=None):
        self.w = w
        self.value = value
        self.spec = aw
        self.runs = 0
        self.aw = None
        self.ended = None if aw else 0.0
        self.awaited = 0
        self.overlap = 0
        self.task = None
        if aw:
            self.value = None if aw["end"] != "value" else formed(w.case, value_bytes(w.case["d"], aw["n"]), aw["form"])
            self.make()

    def make(self):
        loop, kind, s = self.w.loop, self.spec["kind"], self.spec

        async def body():
            self.runs += 1
            self.w.env.ev("source-runs", self.runs)
            if s["end"] == "never":
                await loop.create_future()
            for _ in range(s["steps"]):
                await asyncio.sleep(0)
            if s["after"]:
                await asyncio.sleep(s["after"] * 0.001)
            self.ended = loop.time()
            self.w.env.ev("source-ends", s["end"])
            if s["end"] == "error":
                self.w.env.fault("awaitable-error")
                raise AwaitableError(s["n"])
            if s["end"] == "cancel":
                self.w.env.fault("awaitable-cancelled")
                raise asyncio.CancelledError()
            return self.value

        if kind == "coro":
            self.aw = body()
            self.w.coros.append(self.aw)
        elif kind == "task":
            self.aw = self.task = loop.create_task(body())
        elif kind == "future":
            self.aw = loop.create_future()

            async def feed():
                try:
                    v = await body()
                except AwaitableError as e:
                    self.aw.set_exception(e)
                except asyncio.CancelledError:
                    self.aw.cancel()
                else:
                    self.aw.set_result(v)
            self.task = loop.create_task(feed())
        elif kind == "custom":
            src = self

            class Custom:
                def __await__(self):
                    return src.custom(body)
            self.aw = Custom()
        else:
            raise SkipCase()

    def custom(self, body):
        c = body()
        self.w.coros.append(c)
        return c.__await__()


class World:
    def __init__(self, env, case, loop):
        self.env, self.case, self.loop = env, case, loop
        self.coros = []
        self.sources = []
        self.lost = 0

    def same(self, what):
        """The grain is as if it had been given its data directly"""
        env, case, g = self.env, self.case, self.g
        v = self.sources[-1].value
        with env.oracle(what):
            if v is None and self.sources[-1].spec is None:
                twin = self.build(value_bytes(case["d"], 1), 0)
                twin.data = None
            else:
                twin = self.build(v, 0)
            got, want = [], []
            for x, out in ((g, got), (twin, want)):
                out.append(("canon", M.canon(x)))
                out.append(("data", type(x.data), None if x.data is None else bytes(x.data)))
                out.append(("item", None if x[1] is None else bytes(x[1]), len(x)))
                out.append(("has_data", x.has_data()))
                out.append(("length", x.length))
                out.append(("pending", x.data_is_pending()))
                out.append(("bytes", attempt(lambda: bytes(x))))
                out.append(("repr", repr(x)))
                for cp in (copy, deepcopy):
                    out.append((cp.__name__, attempt(lambda: M.canon(cp(x)))))
                if case["np"]:
                    arrs = x.component_data if case["d"]["t"] == 1 else x.channel_data
                    out.append(("arrays", [(a.shape, str(a.dtype), a.flags.writeable, a.tobytes()) for a in arrs]))
                    if case["d"]["t"] == 1 and len(arrs):
                        out.append(("planes", x.component_data.Y.tobytes(), x.component_data.V.tobytes()))
            if case["d"]["t"] == 5 and v is not None:
                env.check(json.loads(bytes(g.data)) == json.loads(bytes(v)), "wrong-data",
                          "%s: the payload of the event is %.200r, not %.200r", what, g.data, bytes(v))
            for a, b in zip(got, want):
                env.check(a == b, "wrong-data", "%s: %s of the grain differs from one with the same data given "
                          "directly: %.300r, not %.300r", what, a[0], a[1:], b[1:])
            if not case["np"]:
                env.check(g == twin, "wrong-data", "%s: the grain is not equal to one given its data directly", what)

    def pending(self, what):
        env, g = self.env, self.g
        if self.case["d"]["t"] != 5:
            with env.oracle(what):
                env.check(g.data is None, "wrong-data", "%s: has data %.40r before it arrives", what, g.data)
                env.check(not g.has_data(), "wrong-data", "%s: has_data before it arrives", what)
                if self.length is not None:
                    env.check(g.length == self.length, "wrong-length", "%s: length is %d, was set to %d", what, g.length,
                              self.length)

    def build(self, data, make):
        d, npg = self.case["d"], self.case["np"]
        meta = M.meta_of(d)
        if d["t"] == 5 and self.case.get("old"):
            # the grain has had a payload before
            meta["grain"]["event_payload"] = {"type": "old", "topic": "old topic",
                                              "data": [{"path": "/old", "pre": 1, "post": 2}] * (self.case["old"] - 1)}
        if npg:
            return NPCLS[d["t"]](meta=meta, data=data) if make % 2 == 0 else NPCLS[d["t"]](meta, data)
        if make == 0 or d["t"] == 0:
            return GrainFactory(meta, data)
        return CLS[d["t"]](meta=meta, data=data) if make == 1 else CLS[d["t"]](meta, data)

    async def act(self, k, op):
        env, g = self.env, self.g
        at, what, arg = op
        if at:
            await asyncio.sleep(at * 0.001)
        env.step()
        if what == "look":
            self.look("task %d" % k)
        elif what == "set":
            b = None if arg is None else value_bytes(self.case["d"], arg)
            if b is None:
                env.probe("data-taken-away")
            g.data = b
            self.sources.append(Source(self, b))
            self.length = None
            env.ev("set", k)
            self.look("task %d, after giving it data" % k)
        elif what == "setaw":
            s = Source(self, aw=arg)
            g.data = s.aw
            self.sources.append(s)
            self.length = None
            env.ev("setaw", k)
            self.look("task %d, after giving it an awaitable" % k)
        else:
            await self.wait(k, what, arg)

    def look(self, what):
        s = self.sources[-1]
        if s.spec is None:
            self.same(what)
        elif s.ended is None or not any(x.awaited for x in self.sources):
            self.pending(what)

    async def wait(self, k, how, arg):
        env, g = self.env, self.g
        first = len(self.sources) - 1
        s = self.sources[first]
        s.awaited += 1
        if s.awaited > 1 and s.spec is not None:
            env.nontrivial = True
        t0 = self.loop.time()
        env.ev("await", k, how, first)
        res, err = None, None
        timed = False
        try:
            if how == "await":
                res = await g
            elif how == "with":
                async with g as g2:
                    env.check(g2 is g, "wrong-data", "task %d: async with gives another object", k)
                    res = g.data
            elif how == "gather":
                res, r2 = await asyncio.gather(asyncio.ensure_future(g), asyncio.ensure_future(g))
                if len(self.sources) - 1 == first:
                    env.check(same_value(res, r2), "wrong-data", "task %d: two awaits give different data", k)
            elif how == "shield":
                res = await asyncio.shield(asyncio.ensure_future(g))
            elif how == "wait_for":
                timed = True
                res = await asyncio.wait_for(g, arg * 0.001 + 0.0005)
            else:
                raise SkipCase()
        except AwaitableError as e:
            err = e
        except asyncio.TimeoutError:
            env.check(timed, "wrong-error", "task %d: %s: TimeoutError", k, how)
            env.fault("await-timed-out")
            env.nontrivial = True
            env.check(s.spec is not None, "no-progress", "task %d: timed out on a grain which has its data", k)
            env.ev("timeout", k)
            # (an awaitable gives up its data at its own time, not before)
            env.check(s.ended is None or s.ended >= t0 + arg * 0.001 or len(self.sources) - 1 > first, "no-progress",
                      "task %d: timed out although the data had arrived", k)
            return
        except asyncio.CancelledError:
            if k in self.cancelled:
                env.ev("cancelled", k)
                env.nontrivial = True
                raise
            span = self.sources[first:]
            env.check(any(x.spec is not None and x.spec["end"] == "cancel" and x.ended is not None for x in span),
                      "wrong-error", "task %d: cancelled, though neither it nor the awaitable were", k)
            env.ev("awaitable-cancelled", k)
            env.nontrivial = True
            return
        now = self.loop.time()
        span = self.sources[first:]
        what = "task %d, %s after %.4f s" % (k, how, now - t0)
        env.ev("result", k, type(err).__name__, None if res is None else len(bytes(res)))
        if err is not None:
            env.nontrivial = True
            env.check(any(x.spec is not None and x.spec["end"] == "error" and x.ended is not None and
                          x.spec["n"] == err.args[0] for x in span), "wrong-error",
                      "%s: an error of another awaitable: %r", what, err)
            return
        if len(span) == 1:
            env.check(s.spec is None or s.ended is not None, "wrong-data", "%s: over before the data arrived: %.40r", what,
                      res)
            env.check(s.spec is None or s.spec["end"] in ("value", "none"), "wrong-data",
                      "%s: no error, though the awaitable failed", what)
            env.check(now <= max(t0, s.ended) + 1e-6, "no-progress", "%s: the data had arrived %.4f s before", what,
                      now - s.ended)
            if self.case["d"]["t"] == 5 and s.value is None:
                return
            env.check(same_value(res, self.mean(s.value)), "wrong-data", "%s: %.60r, the data is %.60r", what, res,
                      s.value)
            env.check(res is g.data or same_value(g.data, res), "wrong-data", "%s: not the data of the grain", what)
            if s.value is not None:
                self.same(what)
        else:
            ok = [x for x in span if same_value(res, self.mean(x.value))]
            env.check(bool(ok) or (res is None and span[-1].spec is not None and span[-1].spec["end"] == "none") or
                      (self.case["d"]["t"] == 5 and any(x.value is None for x in span)),
                      "wrong-data", "%s: %.60r, which is none of the data the grain was given since", what, res)
            env.check(not (res is None and all(x.value is not None for x in span)), "wrong-data",
                      "%s: no data, though all the data it was given meanwhile has some", what)
            env.probe("superseded-while-awaited")

    def mean(self, v):
        """(the data of an event grain is its payload, written anew)"""
        if v is None or self.case["d"]["t"] != 5:
            return v
        return self.build(v, 0).data

    async def run_task(self, k, ops):
        for op in ops:
            await self.act(k, op)


def attempt(f):
    try:
        return f()
    except TypeError:
        return "TypeError"


def same_value(a, b):
    if a is None or b is None:
        return a is None and b is None
    return bytes(a) == bytes(b)


async def main(env, case, loop):
    w = World(env, case, loop)
    w.cancelled = set()
    w.length = None
    src = Source(w, aw=case["aw"])
    w.sources.append(src)
    if case["make"] == 2 and case["d"]["t"] != 5 and not case["np"] and case["d"]["t"] != 0:
        w.g = w.build(None, 0)
        w.g.data = src.aw
    else:
        w.g = w.build(src.aw, case["make"] % 2)
    if case["len"] is not None:
        w.g.length = case["len"]
        w.length = case["len"]
    w.pending("when made")
    tasks = [loop.create_task(w.run_task(k, ops)) for k, ops in enumerate(case["tasks"])]

    def cancel(k):
        if not tasks[k].done():
            env.fault("task-cancelled")
            w.cancelled.add(k)
            tasks[k].cancel()
    for k, at in case["cancels"]:
        loop.call_later(at * 0.001 + 0.0003, cancel, k)
    done, left = await asyncio.wait(tasks, timeout=10)
    for k, t in enumerate(tasks):
        if t in done:
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()
            if t.cancelled():
                env.check(k in w.cancelled, "wrong-error", "task %d was cancelled by somebody", k)
        else:
            # it may only be waiting for what never comes
            env.check(any(s.spec is not None and s.spec["end"] == "never" for s in w.sources),
                      "no-progress", "task %d never got its data", k)
            env.probe("waiting-forever")
            w.cancelled.add(k)
            t.cancel()
    if left:
        await asyncio.wait(left, timeout=1)
    # afterwards
    s = w.sources[-1]
    # nobody who gave up took the data with them
    if s.spec is not None and s.runs and s.spec["end"] != "never" and s.awaited:
        await asyncio.sleep(1)
        env.check(s.ended is not None, "lost-data", "the awaitable was abandoned with those that awaited it")
    for x in w.sources:
        env.check(x.runs <= 1, "ran-twice", "the awaitable ran %d times", x.runs)
    if s.spec is None:
        w.same("at the end")
    elif s.spec["end"] == "value":
        if s.awaited:
            await w.wait(len(tasks), "await", 0)
            w.same("at the end")
        elif w.g.data_is_pending():
            w.pending("at the end, never awaited")
    elif s.spec["end"] == "error" and s.awaited:
        try:
            await w.g
        except AwaitableError as e:
            env.check(e.args == (s.spec["n"],), "wrong-error", "at the end: %r", e)
        else:
            env.fail("wrong-data", "at the end: no error of the awaitable")
    for c in w.coros:
        c.close()
    for x in w.sources:
        if x.task is not None:
            x.task.cancel()
        if isinstance(x.aw, asyncio.Future) and x.aw.done() and not x.aw.cancelled():
            x.aw.exception()


def valid(case):
    try:
        d = case["d"]
        M.need_valid([d], 9)
        if case["np"]:
            if d["t"] not in (1, 3):
                raise SkipCase()
            if d["t"] == 1:
                p = d["p"]
                bpv = {0x2001: 1, 0x2805: 2, 0x4005: 2, 0x8009: 4}.get(p["fmt"])
                w, h = p["w"], p["h"]
                if bpv is None or not (0 < w < 50 and w % 2 == 0 and 0 < h < 20):
                    raise SkipCase()
                want = [[w, h, w * bpv, w * h * bpv]] + [[w // 2, h, w // 2 * bpv, w // 2 * h * bpv]] * 2
                if p["comps"] != want or d["len"] != sum(c[3] for c in want):
                    raise SkipCase()
            else:
                p = d["p"]
                size = {0: 2, 1: 2, 2: 2, 8: 4, 10: 4}.get(p["fmt"])
                if size is None or not 0 < p["ch"] < 8 or p["ch"] % 2 or not 0 < p["samples"] < 100 or \
                        d["len"] != p["ch"] * p["samples"] * size:
                    raise SkipCase()
        n = len(case["tasks"])
        aws = [case["aw"]] + [op[2] for t in case["tasks"] for op in t if op[1] == "setaw"]
        for a in aws:
            if a["kind"] not in AW or a["end"] not in ("value", "none", "error", "cancel", "never") or \
                    not 0 <= a["after"] < 1000 or not 0 <= a["steps"] < 9 or a["form"] not in (0, 1, 2) or \
                    not isinstance(a["n"], int):
                raise SkipCase()
        for t in case["tasks"]:
            for at, what, arg in t:
                if not 0 <= at < 1000 or what not in AWAITS + ["look", "set", "setaw"]:
                    raise SkipCase()
                if what == "setaw" and d["t"] == 5:
                    raise SkipCase()
                if what == "set" and arg is None and d["t"] != 5:
                    continue
                if what in ("set", "wait_for") and not (isinstance(arg, int) and arg >= 0):
                    raise SkipCase()
        for k, at in case["cancels"]:
            if not 0 <= k < n or not 0 <= at < 1000:
                raise SkipCase()
        if case["len"] is not None and not (isinstance(case["len"], int) and case["len"] >= 0):
            raise SkipCase()
    except (KeyError, TypeError, ValueError, IndexError):
        raise SkipCase()


def execute(env, case):
    valid(case)
    run_async(env, lambda loop: main(env, case, loop))
