"""G04: deferred grain data loads correctly however tasks are scheduled."""
import asyncio

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import MODES, gsf, open_async_source
from ..loop import run_async

ID = "G04"
RUNS = {"quick": 45000, "thorough": 900000}
RULE = ("A case is a file, a seekable asynchronous transport, a deferring loading mode and a schedule: for every grain "
        "the tasks that await it with their delays and cancellation times, the pauses of the iterating task, where it "
        "stops or is cancelled, how the session is left, and read faults. Non-trivial: some grain was awaited while "
        "the iteration or another load was in progress, or the session was left with loads outstanding.")
REAL = ["mediagrains.gsf asynchronous decoder", "mediagrains.utils.asyncbinaryio", "mediagrains.grains awaiting",
        "mediagrains.numpy grains", "asyncio event loop, tasks, locks"]
STUB = ["selector and clock (virtual time)", "thread pool (seeded start and finish times, jobs of cancelled callers)",
        "raw files (short reads, read errors)"]
ASSUMPTIONS = ["A read that a pool thread has started completes even if the task that asked for it is cancelled.",
               "A grain first awaited in the same instant in which the session is closed may count as not awaited."]
TRS = ["abytes", "abytes-open", "afile-bytesio", "afile-buf", "afile-buf", "afile-raw", "abytesw"]


def generate(rng, tier):
    h = M.gen_head(rng, 2)
    np = rng.randrange(5) == 0
    n = rng.randrange(1, 9)
    grains = []
    for k in range(n):
        d = M.gen_np_grain(rng, k, h["major"]) if np else M.gen_grain(rng, k, h["major"], big=rng.randrange(9) == 0)
        grains.append([rng.randrange(len(h["segs"])), d])
    plan = []
    for k in range(n):
        aw = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            aw.append([rng.choice([0, 0, 1, 2, 3, rng.randrange(20)]),
                       rng.choice([None, None, None, 0, 1, 2, rng.randrange(12)])])
        plan.append({"aw": aw, "inline": int(rng.randrange(5) == 0), "pause": rng.choice([0, 0, 0, 1, 3, 9])})
    c = {"head": h, "grains": grains, "np": int(np), "plan": plan,
         "cfg": {"tr": rng.choice(TRS), "short": rng.choice([0, 0, 1, 2]), "faults": []},
         "lm": rng.choice([1, 2, 2]), "cat": int(rng.randrange(8) == 0),
         "lids": None, "stop": rng.choice([None, None, None, rng.randrange(n + 1)]),
         "leave": rng.choice(["gather", "now", "now", "raise"]),
         "cancel": rng.choice([None, None, None, None, rng.randrange(60)]),
         "jitter": rng.choice([1, 2, 4, 4, 8]), "after": rng.randrange(2)}
    if rng.randrange(5) == 0:
        c["lids"] = [rng.choice(h["segs"])["lid"]]
    if rng.randrange(4) == 0 and c["cfg"]["tr"] in ("afile-buf", "afile-raw"):
        at = rng.randrange(4, 60)
        c["cfg"]["faults"] = [{"op": "read", "n": at + i, "kind": "eio"} for i in range(rng.choice([1, 1, 2, 5]))]
    return c


class Leave(Exception):
    pass


class State:
    def __init__(self):
        self.got = []
        self.recs = []
        self.tasks = []
        self.exit_at = None
        self.exited = False
        self.exit_clean = False
        self.exc = None
        self.ended = False      # the iteration ran to the end of the file
        self.lens = []


def execute(env, case):
    h = case["head"]
    try:
        if not M.valid_head(h):
            raise SkipCase()
        grains = [(h["segs"][si]["lid"], d) for si, d in case["grains"]]
        M.need_valid([d for _, d in grains], h["major"])
        if len(case["plan"]) < 1 or not 1 <= case["jitter"] <= 8 or case["lm"] not in (1, 2):
            raise SkipCase()
        for p in case["plan"]:
            for a, b in p["aw"]:
                if a < 0 or (b is not None and b < 0):
                    raise SkipCase()
        if case["cancel"] is not None and case["cancel"] < 0:
            raise SkipCase()
    except (TypeError, KeyError, IndexError, ValueError):
        raise SkipCase()
    if case["np"]:
        for _, d in grains:
            if d["t"] not in (1, 3):
                raise SkipCase()
            want = sum(c[3] for c in d["p"]["comps"]) if d["t"] == 1 else None
            if d["t"] == 3:
                size = 4 if d["p"]["fmt"] & 8 else 2
                want = d["p"]["ch"] * d["p"]["samples"] * size
            if d["len"] != want or d["len"] == 0:
                raise SkipCase()
    data, _ = R.enc_file(h, grains)
    exps = R.parse_file(data)["grains"]
    if case["cat"]:
        data, exps = data * 2, exps * 2
    if case["lids"] is not None:
        exps = [(lid, e) for lid, e in exps if lid in case["lids"]]
    st = State()
    run_async(env, lambda loop: outer(env, loop, case, data, st), jitter=case["jitter"])
    judge(env, case, exps, st)


async def outer(env, loop, case, data, st):
    f, raw = open_async_source(env, loop, data, case["cfg"])
    t = loop.create_task(session(env, loop, case, f, st))
    if case["cancel"] is not None:
        def cut():
            if not t.done():
                env.fault("cancel-iteration")
                t.cancel()
        loop.call_later(case["cancel"] * 0.001, cut)
    await asyncio.wait([t])
    if t.cancelled():
        st.exc = "cancelled"
    elif t.exception() is not None:
        if not isinstance(t.exception(), (Leave, OSError)):
            raise t.exception()
        st.exc = t.exception()
    if st.tasks:
        await asyncio.wait(st.tasks)
    if case["after"]:
        for i, (g, _) in enumerate(st.got):
            await awaiter(env, loop, st, i, g, 0)
    st.final = []
    for g, lid in st.got:
        with env.oracle("reading a grain at the end"):
            st.final.append((M.canon(g), g.data is not None))


async def awaiter(env, loop, st, i, g, delay):
    if delay:
        await asyncio.sleep(delay * 0.001)
    rec = {"i": i, "t": loop.time(), "out": "cancelled"}
    st.recs.append(rec)
    if st.busy:
        env.probe("await-while-busy")
        env.nontrivial = True
    st.busy += 1
    try:
        v = await g
        rec["out"] = "data"
        with env.oracle("reading an awaited grain"):
            rec["value"] = None if v is None else bytes(v).hex()
            rec["canon"] = M.canon(g)
            rec["none"] = g.grain_type != "event" and g.data is None
    except (OSError, gsf.GSFError) as e:
        rec["out"] = "error"
        rec["exc"] = e
    finally:
        st.busy -= 1
        env.ev("await", i, rec["out"])


async def session(env, loop, case, f, st):
    kw = {"parse_grain": M.np_parse} if case["np"] else {}
    st.busy = 1
    try:
        async with gsf.GSFDecoder(file_data=f, **kw) as dec:
            try:
                await iterate(env, loop, case, dec, st)
                if case["leave"] == "gather" and st.tasks:
                    await asyncio.wait(st.tasks)
                elif any(not t.done() for t in st.tasks):
                    env.probe("leave-with-loads-outstanding")
                    env.nontrivial = True
                if case["leave"] == "raise":
                    raise Leave()
            finally:
                st.exit_at = loop.time()
        st.exit_clean = True
    except Leave:
        st.exit_clean = True
    finally:
        st.busy -= 1
        st.exited = True
        st.at_exit = []
        for g, _ in st.got:
            with env.oracle("reading a grain after the session"):
                st.at_exit.append((M.canon(g), g.data is not None))


async def iterate(env, loop, case, dec, st):
    plan = case["plan"]
    if case["stop"] == 0:
        return
    async for g, lid in dec.grains(local_ids=case["lids"], loading_mode=MODES[case["lm"]]):
        i = len(st.got)
        st.got.append((g, lid))
        env.ev("got", i, lid)
        with env.oracle("length of a deferred grain"):
            st.lens.append(None if g.grain_type == "event" or case["np"] else g.length)
        p = plan[i % len(plan)]
        for delay, cancel in p["aw"]:
            t = loop.create_task(awaiter(env, loop, st, i, g, delay))
            st.tasks.append(t)
            if cancel is not None:
                def cut(t=t):
                    if not t.done():
                        env.fault("cancel-load")
                        t.cancel()
                loop.call_later((delay + cancel) * 0.001, cut)
        if p["inline"]:
            await awaiter(env, loop, st, i, g, 0)
        if p["pause"]:
            await asyncio.sleep(p["pause"] * 0.001)
        if case["stop"] is not None and len(st.got) >= case["stop"]:
            return
    st.ended = True


def judge(env, case, exps, st):
    faulted = env.faults["read-eio"]
    env.check(len(st.got) <= len(exps), "grain-count", "%d grains were delivered, the file has %d", len(st.got),
              len(exps))
    if st.ended:
        env.check(len(st.got) == len(exps), "grain-count", "the iteration ended after %d of %d grains", len(st.got),
                  len(exps))
    if isinstance(st.exc, OSError):
        env.check(faulted, "unexpected-error", "without any read fault: %r", st.exc)
    elif not st.ended and st.exc is None and case["stop"] is None:
        env.fail("grain-count", "the iteration did not end")
    for r in st.recs:
        r["late"] = st.exit_at is not None and r["t"] > st.exit_at - 1e-4
    for i, (_, lid) in enumerate(st.got):
        elid, e = exps[i]
        what = "grain %d" % i
        env.check(lid == elid, "grain-mismatch", "%s belongs to segment %r, expected %r", what, lid, elid)
        full, none = e, M.no_data(e)
        has = full != none
        if st.lens[i] is not None:
            env.check(st.lens[i] == len(e["data"]) // 2, "length-mismatch", "%s: length %r before loading, %d expected",
                      what, st.lens[i], len(e["data"]) // 2)
        recs = [r for r in st.recs if r["i"] == i]
        must = case["lm"] == 1 or not has
        for r in recs:
            if r["out"] == "error":
                # (when the end of the session was cancelled the file is closed without having loaded all of them)
                env.check(faulted or r["late"] and not st.exit_clean, "unexpected-error",
                          "%s: awaiting it failed without any read fault: %r", what, r["exc"])
                continue
            if r["out"] != "data":
                continue
            if r["canon"] != full:
                empty_ok = case["lm"] == 2 and r["late"]
                env.check(empty_ok and r["canon"] == none, "grain-mismatch", "%s: awaited in %s, got wrong data: %s",
                          what, "time" if not r["late"] else "a closed session", M.diff(full, r["canon"]))
                env.probe("cancelled-by-close")
            elif r["value"] is not None and "data" in e:
                env.check(r["value"] == e["data"], "grain-mismatch", "%s: the result of awaiting it is wrong", what)
            elif has:
                env.check(r["value"] is not None, "grain-mismatch", "%s: awaiting it gave nothing", what)
            if not r["late"]:
                must = True
        done = not any(r["out"] == "error" for r in recs)
        for when, (c, present) in (("after the session", st.at_exit[i] if st.exited else st.final[i]),
                                   ("at the end", st.final[i])):
            if c == full and (present or not has or "event" in c):
                continue
            env.check(c == none or c == full, "grain-mismatch", "%s, %s: wrong data: %s", what, when, M.diff(full, c))
            if when == "after the session" and not st.exit_clean:
                continue
            if when == "at the end" and not st.exit_clean and case["lm"] == 1 and not case["after"]:
                continue
            lost = faulted and any(r["out"] != "data" for r in recs)
            env.check(not must or not done or lost, "data-missing", "%s: its data is missing %s", what, when)
    if faulted:
        env.probe("read-fault")

