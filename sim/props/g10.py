"""G10: tasks sharing a streaming encoder do not damage each other's grains."""
import asyncio

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import add_flow, decode, gsf, open_async_sink, seekable_write
from ..loop import run_async

ID = "G10"
RUNS = {"quick": 24000, "thorough": 600000}
RULE = ("A case is one progressive dump shared by two to five tasks, each adding grains by its own routes at its own "
        "times, some with data that arrives later or never, some cancelled at chosen times (also the task that closes "
        "the dump), some still adding while the dump is closed, with write faults. Non-trivial: two tasks were adding "
        "at the same time.")
REAL = ["mediagrains.gsf asynchronous encoder", "mediagrains.utils.asyncbinaryio", "mediagrains.grains",
        "asyncio tasks, locks and streams", "io.Buffered*"]
STUB = ["raw files, pipes and socket transport (short transfers, errors, back-pressure)", "clock, selector",
        "thread pool (seeded start and finish times)"]
ASSUMPTIONS = ["Grains handed to a segment (rather than to the encoder) have data that arrives.",
               "An addition begins before the dump is closed."]
TR = ["abytes", "afile-bytesio", "afile-wb", "afile-raw", "afile-raw", "abytesw", "stream", "afile-pipe",
      "plain-bytesio", "plain-wb", "stream-open"]
ROUTES = ["lid", "lid", "id", "many", "many", "seg", "segs", "enc"]


def generate(rng, tier):
    h = M.gen_head(rng, 3)
    tasks = []
    n = 0
    for _ in range(rng.choice([2, 2, 3, 4, 5])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            route = rng.choice(ROUTES)
            ds = []
            for _ in range(rng.randrange(1, 5) if route in ("many", "segs") else 1):
                d = M.gen_grain(rng, n, h["major"], None if rng.randrange(6) == 0 else [1, 2, 3, 4, 5],
                               big=rng.randrange(12) == 0)
                n += 1
                # how its data comes: at once, or as an awaitable after some time, or not, or with an error
                late = rng.choice([None, None, None, 0, 1, 5, 20])
                if route in ("lid", "id", "many") and rng.randrange(16) == 0:
                    late = rng.choice(["never", "error"])
                ds.append([d, late])
            ops.append([rng.choice([0, 0, 0, 1, 3, 10]), route, rng.randrange(len(h["segs"])), ds])
        tasks.append(ops)
    cancels = [[rng.randrange(len(tasks)), rng.randrange(60)] for _ in range(rng.choice([0, 0, 1, 1, 2, 4]))]
    tr = rng.choice(TR)
    faults = []
    if tr == "afile-raw" and rng.randrange(4) == 0:
        faults.append({"op": "w", "n": rng.randrange(3 + 2 * n), "kind": rng.choice(["eio", "enospc"])})
    return {"head": h, "tasks": tasks, "cancels": cancels, "tr": tr, "short": rng.randrange(3),
            "high": rng.choice([0, 64, 4096]), "old": rng.choice([0, 0, 2000]), "faults": faults,
            "close": rng.choice([None, None, None, rng.randrange(40)]),
            "kill": rng.choice([None] * 5 + [rng.randrange(60)] * 2),
            "kill_exit": rng.choice([None] * 5 + [rng.randrange(40)] * 2), "decode": rng.randrange(4)}


def valid(case):
    try:
        h = case["head"]
        if not M.valid_head(h) or len({s["id"] for s in h["segs"]}) != len(h["segs"]) or case["tr"] not in TR:
            raise SkipCase()
        ns = []
        for ops in case["tasks"]:
            for delay, route, si, ds in ops:
                if route not in ROUTES or not 0 <= si < len(h["segs"]) or not 0 <= delay <= 1000:
                    raise SkipCase()
                if route not in ("many", "segs") and len(ds) != 1:
                    raise SkipCase()
                M.need_valid([d for d, _ in ds], h["major"])
                for d, late in ds:
                    if late in ("never", "error") and route not in ("lid", "id", "many"):
                        raise SkipCase()
                    if late not in (None, "never", "error") and not 0 <= late <= 1000:
                        raise SkipCase()
                    ns.append(d["n"])
        if len(set(ns)) != len(ns):
            raise SkipCase()
        for k, t in case["cancels"]:
            if not 0 <= k < len(case["tasks"]) or t < 0:
                raise SkipCase()
        for f in case["faults"]:
            if case["tr"] != "afile-raw" or f["op"] != "w" or f["kind"] not in ("eio", "enospc"):
                raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError):
        raise SkipCase()


class Broken(Exception):
    pass


def exp_of(d):
    e = M.expected(d)
    # every grain can be told apart
    e["sts"] = (5000 + d["n"]) * 10**9 + d["n"]
    return e


def grain(env, loop, d, late):
    d = dict(d)
    d["sts"] = [1, 5000 + d["n"], d["n"]]
    if late is None:
        return M.to_grain(d)

    async def data():
        if late == "never":
            env.fault("data-never-arrives")
            await asyncio.sleep(3600)
        await asyncio.sleep(0.001 * late if isinstance(late, int) else 0)
        if late == "error":
            env.fault("data-error")
            raise Broken()
        return M.data_of(d)
    return M.to_grain(d, data())


class State:
    def __init__(self):
        self.did = {}           # task -> [[lid, direct, [(d, late)], outcome]]
        self.closing = False
        self.closed = False
        self.adding = 0
        self.overlap = False


async def producer(env, loop, case, st, k, oe, enc, segs):
    h = case["head"]
    for delay, route, si, ds in case["tasks"][k]:
        await asyncio.sleep(0.001 * delay)
        if st.closed or st.closing:
            return
        lid = h["segs"][si]["lid"]
        gs = [grain(env, loop, d, late) for d, late in ds]
        rec = [lid, route not in ("seg", "segs", "enc"), ds, "began"]
        st.did[k].append(rec)
        st.adding += 1
        st.overlap = st.overlap or st.adding > 1
        env.step()
        try:
            if route == "lid":
                await oe.add_grain(gs[0], segment_local_id=lid)
            elif route == "id":
                await oe.add_grain(gs[0], segment_id=M.uid("seg", h["segs"][si]["id"]))
            elif route == "many":
                await oe.add_grains(iter(gs), segment_local_id=lid)
            elif route == "seg":
                segs[lid].add_grain(gs[0])
            elif route == "segs":
                segs[lid].add_grains(gs)
            else:
                enc.add_grain(gs[0], segment_local_id=lid)
            rec[3] = "done"
        except asyncio.CancelledError:
            rec[3] = "cancelled"
            env.fault("task-cancelled-while-adding")
            if (h["id"] + k) % 2:
                raise
            # carries on with its next grain
        except Broken:
            rec[3] = "data-error"
        except gsf.GSFError:
            rec[3] = "refused"
        except OSError:
            rec[3] = "io-error"
        finally:
            st.adding -= 1
        env.ev("add", k, route, rec[3])


async def scenario(env, loop, case, st):
    h = case["head"]
    f, get, raw = open_async_sink(env, loop, {k: case[k] for k in ("tr", "short", "high", "old", "faults")})
    st.raw = raw
    enc = gsf.GSFEncoder(f, streaming=True, major=h["major"], id=M.uid("file", h["id"]), created=M.created_dt(h),
                         tags=[tuple(t) for t in h["tags"]])
    segs = {}
    for s in h["segs"]:
        segs[s["lid"]] = enc.add_segment(id=M.uid("seg", s["id"]), local_id=s["lid"],
                                         tags=[tuple(t) for t in s["tags"]])
        add_flow(segs[s["lid"]], s)
    tasks = []

    async def owner():
        async with enc as oe:
            st.entered = True
            try:
                await running(oe)
                st.ended = True
            finally:
                st.closing = True
                if case["kill_exit"] is not None:
                    # in the middle of closing the dump
                    loop.call_later(0.0001 * case["kill_exit"], own.cancel)
        st.closed = True

    async def running(oe):
        for k in range(len(case["tasks"])):
            st.did[k] = []
            t = loop.create_task(producer(env, loop, case, st, k, oe, enc, segs), name="p%02d" % k)
            tasks.append(t)
        for k, at in case["cancels"]:
            loop.call_later(0.001 * at, tasks[k].cancel)
        if case["close"] is None:
            # cancelled tasks may have left an addition behind: it is over before the dump is closed, or not
            await asyncio.wait(tasks, timeout=30)
            await asyncio.sleep(0.001 * (h["id"] % 3) * 10)
        else:
            env.fault("closed-while-adding")
            await asyncio.sleep(0.001 * case["close"])

    st.entered = False
    st.ended = False
    own = loop.create_task(owner(), name="a-owner")
    if case["kill"] is not None:
        loop.call_later(0.001 * case["kill"], own.cancel)
    try:
        await own
    except asyncio.CancelledError:
        env.fault("closing-task-cancelled" if st.ended else "owner-task-cancelled")
        st.closed = True
        st.killed = True
    except OSError as e:
        if not case["faults"]:
            raise
        st.closed = True
        st.killed = True
        env.ev("owner", type(e).__name__)
    for t in tasks:
        if t.done() and not t.cancelled() and t.exception() is not None:
            raise t.exception()
    # whatever has been left behind gets its chance to do damage
    await asyncio.sleep(1)
    if case["kill"] is None and not case["faults"]:
        # stop tasks waiting for data that never arrives
        for t in tasks:
            t.cancel()
        await asyncio.sleep(1)
    return get()


def execute(env, case):
    valid(case)
    h = case["head"]
    st = State()
    st.killed = False
    data = run_async(env, lambda loop: scenario(env, loop, case, st))
    env.nontrivial = st.overlap
    what = "file"
    # a dump in which a write failed cannot be completed
    failed = env.faults["write-eio"] + env.faults["write-enospc"] > 0
    complete = not st.killed and not failed
    if case["old"] and not st.entered:
        return
    try:
        ref = R.parse_file(data, partial=not complete)
    except R.RefError as e:
        if not complete and not st.entered:
            return
        env.fail("damaged-file", "%s", e)
    if ref["head"] is None:
        # killed before the header was out
        env.check(not st.entered or case["tr"] in ("afile-wb", "plain-wb", "afile-pipe"), "damaged-file",
                  "the header has gone")
        return
    known = {}
    for k, recs in sorted(st.did.items()):
        for rec in recs:
            for d, late in rec[2]:
                known[exp_of(d)["sts"]] = (k, rec, d)
    # everything in the file is one of the grains, whole, once, in its segment
    seen = {}
    for i, (lid, g) in enumerate(ref["grains"]):
        if g["sts"] not in known:
            env.fail("damaged-grain", "grain %d of the file was never added: %r", i, {x: g[x] for x in ("type", "sts")})
        k, rec, d = known[g["sts"]]
        env.check(g["sts"] not in seen, "duplicate", "grain n=%d of task %d is in the file twice", d["n"], k)
        seen[g["sts"]] = i
        M.check_seq(env, [(rec[0], exp_of(d))], [(lid, g)], "grain n=%d of task %d" % (d["n"], k))
    durable = case["tr"] not in ("afile-wb", "plain-wb", "afile-pipe") or complete
    for k, recs in sorted(st.did.items()):
        last = -1
        per = {}
        for lid, direct, ds, outcome in recs:
            there = [exp_of(d)["sts"] in seen for d, _ in ds]
            at = [seen[exp_of(d)["sts"]] for d, _ in ds if exp_of(d)["sts"] in seen]
            if outcome == "done":
                # (grains handed to a segment are written with the next one or when the dump is closed)
                if (direct and durable) or complete:
                    env.check(all(there), "lost", "task %d: an addition completed, but the file has %r of its grains", k,
                              there)
            elif outcome == "data-error":
                bad = [late for _, late in ds].index("error")
                env.check(there == [i < bad for i in range(len(ds))] or failed, "wrong-grains",
                          "task %d: data of grain %d failed, the file has %r", k, bad, there)
            else:
                # a leading part of them
                env.check(there == sorted(there, reverse=True), "wrong-grains",
                          "task %d: %s addition, the file has %r of its grains", k, outcome, there)
                if outcome == "refused" and not (failed or st.closing or st.closed or st.killed):
                    env.fail("refused", "task %d: an addition was refused", k)
            env.check(at == sorted(at), "order", "task %d: grains of one addition are in the wrong order", k)
            if at and direct and outcome == "done":
                env.check(at[0] > last, "order", "task %d: grains are not in the order it added them", k)
                last = at[-1]
            if at and outcome == "done":
                env.check(at[0] > per.get(lid, -1), "order", "task %d: grains in segment %d are not in the order it "
                          "added them", k, lid)
                per[lid] = at[-1]
            if not all(there):
                env.probe("partly-added")
    if failed:
        env.probe("write-failed")
        return
    counts = {}
    for s in h["segs"]:
        n = sum(1 for lid, _ in ref["grains"] if lid == s["lid"])
        counts[s["lid"]] = n if complete and seekable_write(case["tr"]) else (n, "neg")
    M.check_head(env, M.expected_head(h, counts), ref["head"], what)
    if complete and case["decode"] == 0:
        res = decode(env, data, {"mode": "sync", "tr": "bytesio", "lm": 0, "when": 0, "api": "ctx"})
        env.check(res.exc is None, "damaged-file", "reading the file: %r", res.exc)
        M.check_seq(env, ref["grains"], res.grains, "reading the file")
