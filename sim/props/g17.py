"""G17: sessions give back what they opened, and others can follow."""
import asyncio
import io

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase, Violation
from ..disk import SimRaw, opened
from ..drv import MODES, abio, add_flow, gsf, head_of, quiet
from ..loop import run_async
from .g10 import exp_of, grain

ID = "G17"
RUNS = {"quick": 60000, "thorough": 1500000}
RULE = ("A case is one decoder or encoder object and up to four sessions of it in a row over a file which counts how "
        "often it is opened, used and closed. Sessions end normally, early, by an error in their body, by failing "
        "operations of the file (also opening and closing), because the input is no valid file, or by cancellation at "
        "any moment, while other tasks use them. Non-trivial: a session did not end normally.")
REAL = ["mediagrains.gsf decoders and encoders", "mediagrains.utils.asyncbinaryio base classes", "mediagrains.grains",
        "asyncio tasks and locks"]
STUB = ["files (delays, errors, short transfers)", "clock, selector, thread pool"]
ASSUMPTIONS = ["A session is over before the next one of the same object begins.",
               "Opening a file puts it at its beginning; one handed over open is put there by its owner."]
KINDS = ["dec", "dec", "enc", "enc", "sdec", "senc"]
FORM = ["closed", "closed", "open"]


class UserError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------------
# files which are watched


class Watch:
    def __init__(self):
        self.opens = self.closes = 0
        self.is_open = False
        self.problems = []
        self.ops = 0
        self.faults = {}
        self.open_fault = self.close_fault = 0
        self.on_op = None
        self.fired = 0

    def note(self, what):
        if len(self.problems) < 5:
            self.problems.append(what)


class AFile(abio.OpenAsyncBinaryIO):
    def __init__(self, env, loop, w, data, seekable, forwards, short, writes):
        self.env, self.loop, self.w = env, loop, w
        self.buf = bytearray(data)
        self.p = 0
        self.seeks, self.forwards, self.short, self.writes = seekable, forwards, short, writes

    async def __open__(self):
        w = self.w
        if w.is_open:
            w.note("opened while it was open")
        self.env.step()
        await self.pause()
        if w.open_fault:
            w.fired += 1
            self.env.fault("open-fails")
            raise OSError(5, "simulated error opening the file")
        w.opens += 1
        w.is_open = True
        self.p = 0
        if self.writes and not self.seeks:
            # another connection
            self.buf = bytearray()

    async def __close__(self):
        w = self.w
        if not w.is_open:
            w.note("closed while it was not open")
        w.closes += 1
        w.is_open = False
        self.env.ev("close")
        await self.pause()
        if w.close_fault:
            w.fired += 1
            self.env.fault("close-fails")
            raise OSError(5, "simulated error closing the file")

    async def pause(self):
        d = self.loop.delay()
        await asyncio.sleep(d)

    async def op(self, kind):
        w = self.w
        self.env.step()
        n = w.ops
        w.ops += 1
        if not w.is_open:
            w.note("%s while it was not open" % kind)
        if w.on_op:
            w.on_op(n)
        await self.pause()
        if not w.is_open:
            w.note("closed during a %s" % kind)
        f = w.faults.get(n)
        if f:
            w.fired += 1
            self.env.fault(kind + "-eio")
            raise OSError(5, "simulated error")

    def used(self, kind):
        if not self.w.is_open:
            self.w.note("%s while it was not open" % kind)

    def size(self, n):
        if n > 1 and (self.short == 2 or self.short == 1 and self.env.chance(1, 3)):
            self.env.fault("short-transfer")
            return 1 + self.env.choose(min(n, max(40, n // 200)) if self.short == 2 else n)
        return n

    async def readinto(self, b):
        await self.op("read")
        n = self.size(max(0, min(len(b), len(self.buf) - self.p)))
        b[:n] = self.buf[self.p:self.p + n]
        self.p += n
        return n

    async def readall(self):
        await self.op("read")
        b = bytes(self.buf[self.p:])
        self.p = max(self.p, len(self.buf))
        return b

    async def write(self, b):
        await self.op("write")
        b = bytes(b)
        b = b[:self.size(len(b))]
        SimRaw._apply(self.buf, self.p, b)
        self.p += len(b)
        return len(b)

    async def truncate(self, s=None):
        await self.op("truncate")
        s = self.p if s is None else s
        del self.buf[s:]
        self.buf.extend(bytes(s - len(self.buf)))
        return s

    def tell(self):
        return self.p

    def seek(self, off, whence=0):
        self.used("seek")
        p = off if whence == 0 else self.p + off if whence == 1 else len(self.buf) + off
        if not self.seeks and (p < self.p or not self.forwards):
            raise io.UnsupportedOperation("seek")
        self.p = p
        return p

    def seekable(self):
        return self.seeks

    def seekable_forwards(self):
        return self.seeks or self.forwards

    def seekable_backwards(self):
        return self.seeks

    def readable(self):
        return not self.writes

    def writable(self):
        return self.writes


class MemFile(AFile):
    """The same around the bytes in memory which the library offers"""

    def __init__(self, env, loop, w, data, seekable, forwards, short, writes):
        self.real = abio.OpenAsyncBytesIO(bytes(data))
        super().__init__(env, loop, w, b"", seekable, forwards, short, writes)
        self.p = 0

    buf = property(lambda self: self.real.getvalue(), lambda self, b: None)
    p = property(lambda self: self.real.tell(), lambda self, p: self.real.seek(p))

    async def __open__(self):
        before = self.p
        await AFile.__open__(self)
        # (what the library does on opening, wherever the last session has left it)
        self.real.seek(before)
        await self.real.__open__()

    async def __close__(self):
        await AFile.__close__(self)
        await self.real.__close__()

    async def readinto(self, b):
        await self.op("read")
        m = bytearray(self.size(len(b)))
        n = await self.real.readinto(m)
        b[:n] = m[:n]
        return n

    async def readall(self):
        await self.op("read")
        return await self.real.readall()

    async def write(self, b):
        await self.op("write")
        return await self.real.write(bytes(b)[:self.size(len(b))])

    async def truncate(self, s=None):
        await self.op("truncate")
        return await self.real.truncate(s)

    def seek(self, off, whence=0):
        self.used("seek")
        return self.real.seek(off, whence)


# ---------------------------------------------------------------------------------------------------------------------
# cases


def gen_session(rng, kind, h, n, nops):
    s = {"faults": [], "open": 0, "close": 0, "cancel": None, "raise": 0}
    k = rng.randrange(10)
    if k < 3:
        s["faults"] = [rng.choice([rng.randrange(3), rng.randrange(10), rng.randrange(nops)])]
    elif k < 6 and kind in ("dec", "enc"):
        s["cancel"] = [rng.choice(["op", "t", "exit"]), rng.choice([rng.randrange(4), rng.randrange(nops)])]
    elif k == 6:
        s["raise"] = 1
    elif k == 7 and kind in ("dec", "enc"):
        s[rng.choice(["open", "close"])] = 1
    if kind in ("dec", "sdec"):
        s.update(how=rng.choice(["with"] * 4 + ["load", "legacy" if kind == "sdec" else "load"]),
                 lm=rng.randrange(4), stop=rng.choice([None, None, rng.randrange(5)]), others=rng.choice([0, 0, 1, 3]),
                 take=rng.randrange(3))
        return s
    s.update(how=rng.choice(["with", "with", "dump", "start"]) if kind == "senc" else "with")
    pre, acts, others = [], [], []
    for where, most in ((pre, 2), (acts, 4)):
        for _ in range(rng.randrange(most + 1)):
            x = rng.randrange(8)
            if x == 0:
                where.append(["tag", M.gen_string(rng, 6), M.gen_string(rng, 6)])
            elif x == 1:
                where.append(["seg", rng.randrange(10**6), rng.choice([None, None, 5, 40])])
            else:
                where.append(add(rng, h, n, kind))
    if kind == "enc":
        for _ in range(rng.choice([0, 0, 1, 2])):
            others.append([[rng.choice([0, 1, 5, 20])] + add(rng, h, n, kind) for _ in range(rng.randrange(1, 4))])
    s.update(pre=pre, acts=acts, others=others, wait=rng.choice([0, 0, 3, 50]))
    return s


def add(rng, h, n, kind):
    d = M.gen_grain(rng, n[0], h["major"], big=rng.randrange(20) == 0)
    n[0] += 1
    return ["grain", rng.choice(["enc", "seg"]), rng.randrange(6),
            rng.choice([None, None, 0, 4]) if kind == "enc" else None, d]


def generate(rng, tier):
    kind = rng.choice(KINDS)
    h = M.gen_head(rng, 2)
    n = [0]
    seek = rng.choice([1, 1, 0])
    case = {"kind": kind, "head": h, "form": rng.choice(FORM), "seek": seek, "fwd": rng.choice([1, 1, 1, 1, 0]),
            "short": rng.randrange(3)}
    if kind in ("dec", "sdec"):
        k = rng.choice([0, 1, 2, 3])
        case["grains"] = [[rng.randrange(len(h["segs"])), M.gen_grain(rng, i, h["major"], big=rng.randrange(12) == 0)] for i in range(k)]
        # what is wrong with the file: nothing, cut off, another type or version, nothing at all
        case["bad"] = rng.choice([None] * 5 + ["cut", "type", "version", "empty"])
        case["at"] = rng.randrange(10**6)
        nops = 20 + 12 * k
    else:
        nops = 14
        case["streaming"] = rng.randrange(2)
    case["tr"] = rng.choice(["bytesio", "buf", "raw"]) if kind in ("sdec", "senc") else "watched"
    case["mem"] = 1 if kind in ("dec", "enc") and seek and rng.randrange(3) == 0 else 0
    case["sessions"] = [gen_session(rng, kind, h, n, nops) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    return case


def valid(case):
    try:
        h = case["head"]
        kind = case["kind"]
        if not M.valid_head(h) or kind not in KINDS or case["form"] not in FORM or not case["sessions"] or \
                len({s["id"] for s in h["segs"]}) != len(h["segs"]):
            raise SkipCase()
        if case["tr"] not in (("bytesio", "buf", "raw") if kind in ("sdec", "senc") else ("watched",)):
            raise SkipCase()
        if case.get("mem") and not (case["seek"] and kind in ("dec", "enc")):
            raise SkipCase()
        ds = []
        if kind in ("dec", "sdec"):
            for si, d in case["grains"]:
                if not 0 <= si < len(h["segs"]):
                    raise SkipCase()
                ds.append(d)
        for s in case["sessions"]:
            if s["cancel"] is not None and s["cancel"][0] not in ("op", "t", "exit"):
                raise SkipCase()
            if kind in ("dec", "sdec"):
                if s["how"] not in ("with", "load") + (("legacy",) if kind == "sdec" else ()) or \
                        not 0 <= s["lm"] <= 3:
                    raise SkipCase()
                continue
            if s["how"] not in (("with", "dump", "start") if kind == "senc" else ("with",)):
                raise SkipCase()
            for a in [x[1:] for o in s["others"] for x in o] if kind == "enc" else []:
                if a[0] != "grain":
                    raise SkipCase()
            for a in s["pre"] + s["acts"] + ([x[1:] for o in s["others"] for x in o] if kind == "enc" else []):
                if a[0] == "grain":
                    ds.append(a[4])
                    if a[1] not in ("enc", "seg") or a[3] is not None and (kind != "enc" or not 0 <= a[3] <= 1000):
                        raise SkipCase()
                elif a[0] == "tag":
                    if not isinstance(a[1], str) or not isinstance(a[2], str) or "\0" in a[1] + a[2]:
                        raise SkipCase()
                elif a[0] == "seg":
                    if a[2] is not None and not 0 < a[2] < 65000 or not isinstance(a[1], int):
                        raise SkipCase()
                else:
                    raise SkipCase()
        M.need_valid(ds, h["major"])
        if len({d["n"] for d in ds}) != len(ds):
            raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError):
        raise SkipCase()


def execute(env, case):
    valid(case)
    if case["kind"] == "dec":
        run_async(env, lambda loop: decoder(env, loop, case))
    elif case["kind"] == "enc":
        run_async(env, lambda loop: encoder(env, loop, case))
    elif case["kind"] == "sdec":
        sync_decoder(env, case)
    else:
        sync_encoder(env, case)


def contents(case):
    h = case["head"]
    grains = []
    for si, d in case["grains"]:
        d = dict(d)
        d["sts"] = [1, 5000 + d["n"], d["n"]]
        grains.append((h["segs"][si]["lid"], d))
    b, _ = R.enc_file(h, grains)
    exps = [(lid, exp_of(d)) for lid, d in grains]
    bad = case["bad"]
    if bad == "cut":
        b = b[:case["at"] % len(b)]
    elif bad == "type":
        b = bytes([b[case["at"] % 8] ^ 1]).join((b[:case["at"] % 8], b[case["at"] % 8 + 1:]))
    elif bad == "version":
        b = b[:8] + b"\x0b\0" + b[10:]
    elif bad == "empty":
        b = b""
    return b, exps


# ---------------------------------------------------------------------------------------------------------------------
# one session on the loop


class Run:
    def __init__(self):
        self.stage = "enter"
        self.exc = None
        self.body_cancelled = False
        self.user_error = False
        self.cancelled_at = None
        self.got = []
        self.head = None
        self.tasks = []


async def session(env, loop, case, s, w, given, run, body):
    """Runs body(run) as one session in a task of its own; checks what has become of the file and of the tasks"""
    before = (w.opens, w.closes)
    me = asyncio.current_task()
    w.ops = 0
    w.faults = {k: 1 for k in s["faults"]}
    w.open_fault, w.close_fault = s["open"], s["close"]
    fired = w.fired
    t = loop.create_task(body(run), name="session")

    def cancel():
        if not t.done() and run.cancelled_at is None:
            run.cancelled_at = run.stage
            env.fault("cancelled-in-" + run.stage)
            t.cancel()
    run.cancel = cancel
    w.on_op = None
    if s["cancel"] is not None:
        k, n = s["cancel"]
        if k == "t":
            loop.call_later(0.0007 * n, cancel)
        elif k == "op":
            w.on_op = lambda i: cancel() if i == n else None
    await asyncio.wait([t], timeout=60)
    env.check(t.done(), "stuck", "the session has not ended after 60 s")
    w.on_op = None
    if t.cancelled():
        run.exc = asyncio.CancelledError()
    else:
        run.exc = t.exception()
        if isinstance(run.exc, Violation):
            raise run.exc
    run.fired = w.fired > fired
    opens, closes = w.opens - before[0], w.closes - before[1]
    what = "after a session which ended with %s (cancelled: %s)" % (type(run.exc).__name__, run.cancelled_at)
    env.ev("session", type(run.exc).__name__, run.cancelled_at, opens, closes)
    check_file(env, w, given, opens, closes, what)
    # whatever has been left behind
    await asyncio.sleep(5)
    left = [x for x in asyncio.all_tasks(loop) if x is not me and not x.done()]
    env.check(not left, "task-left", "%s: a task is still there: %s", what, left and left[0].get_coro())
    check_file(env, w, given, w.opens - before[0], w.closes - before[1], what + " and 5 s more")
    if run.exc is not None or run.cancelled_at:
        env.nontrivial = True
    # cancelled while nothing but the body was waiting
    run.clean = not run.fired and (run.cancelled_at is None or run.body_cancelled)
    return run


def check_file(env, w, given, opens, closes, what):
    env.check(not w.problems, "misused-file", "%s: the file was %s", what, "; ".join(w.problems))
    if given:
        env.check(opens == 0 and closes == 0, "misused-file", "%s: a file which was handed over open was opened %d "
                  "times and closed %d times", what, opens, closes)
    else:
        env.check(opens <= 1, "misused-file", "%s: the file was opened %d times", what, opens)
        env.check(closes == opens, "not-closed" if closes < opens else "misused-file",
                  "%s: the file was opened %d times and closed %d times", what, opens, closes)


def file_for(env, loop, case, data, writes):
    w = Watch()
    form = case["form"]
    box = abio.AsyncBinaryIO(MemFile if case.get("mem") else AFile, env, loop, w, data, bool(case["seek"]), bool(case["fwd"]), case["short"], writes)
    if form == "open":
        w.is_open = True
    return w, (box._inst if form == "open" else box), box._inst


async def decoder(env, loop, case):
    data, exps = contents(case)
    w, f, inner = file_for(env, loop, case, data, False)
    given = case["form"] == "open"
    dec = gsf.GSFDecoder(file_data=f)
    for s in case["sessions"]:
        if given:
            inner.p = 0
        run = Run()

        async def body(run):
            if s["how"] == "load" and not given:
                head, segs = await gsf.load(f)
                run.head, run.segs = head_of(env, head), segs
                run.stage = "done"
                return
            kept = []
            async with dec as d:
                run.stage = "body"
                try:
                    run.head = head_of(env, d.file_headers)
                    k = 0
                    if s["stop"] != 0:
                        async for g, lid in d.grains(loading_mode=MODES[s["lm"]]):
                            env.step()
                            kept.append((lid, g))
                            for i in range(s["others"] if s["lm"] in (1, 2) else 0):
                                t = loop.create_task(fetch(g), name="other%d" % len(run.tasks))
                                run.tasks.append(t)
                            if s["take"] == 1:
                                await g
                            k += 1
                            if k == s["stop"]:
                                break
                    if s["take"] == 2:
                        for lid, g in kept:
                            await g
                    if s["raise"]:
                        run.user_error = True
                        raise UserError()
                except asyncio.CancelledError:
                    run.body_cancelled = True
                    raise
                finally:
                    run.got = kept
                    run.stage = "exit"
                    if s["cancel"] is not None and s["cancel"][0] == "exit":
                        loop.call_later(0.0007 * s["cancel"][1], run.cancel)
            run.stage = "done"

        await session(env, loop, case, s, w, given, run, body)
        what = "decoder session"
        judge_decoded(env, case, s, run, exps, what, s["how"] == "load" and not given)


async def fetch(g):
    try:
        await g
    except OSError:
        pass


def judge_decoded(env, case, s, run, exps, what, loaded):
    if not run.clean:
        env.check(run.exc is not None or run.cancelled_at is not None or run.fired, "harness", "not clean?")
        return
    bad = case["bad"]
    if case["kind"] == "dec" and not case["seek"] and not case["fwd"]:
        env.check(isinstance(run.exc, RuntimeError), "decode-failed", "%s of a file which cannot be skipped in: %r",
                  what, run.exc)
        return
    if bad is not None and run.exc is not None and not isinstance(run.exc, UserError):
        env.check(isinstance(run.exc, (gsf.GSFError, EOFError, asyncio.CancelledError)) or run.stage == "exit",
                  "decode-failed", "%s: %s: %s", what, type(run.exc).__name__, run.exc)
        return
    if bad in ("type", "version", "empty"):
        env.fail("accepted", "%s: a file which is not valid was accepted", what)
    if run.body_cancelled:
        env.check(isinstance(run.exc, asyncio.CancelledError), "wrong-error", "%s, cancelled, ended with %r", what,
                  run.exc)
    elif run.user_error:
        env.check(isinstance(run.exc, UserError), "wrong-error", "%s, of which the body failed, ended with %r", what,
                  run.exc)
    else:
        env.check(run.exc is None, "decode-failed", "%s: %s: %s", what, type(run.exc).__name__, run.exc)
    if bad is not None:
        return
    if run.head is not None:
        counts = {}
        for lid, _ in exps:
            counts[lid] = counts.get(lid, 0) + 1
        M.check_head(env, M.expected_head(case["head"], {}), run.head, what)
    if loaded:
        if run.exc is None:
            for lid in {x for x, _ in exps}:
                M.check_seq(env, [x for x in exps if x[0] == lid], [(lid, M.canon(g)) for g in run.segs[lid]], what)
        return
    want = exps
    if s["lm"] == 3:
        want = [(lid, M.no_data(e)) for lid, e in exps]
    got = []
    for i, (lid, g) in enumerate(run.got):
        with env.oracle("reading a grain"):
            x = M.canon(g)
        if case["kind"] == "dec" and s["lm"] == 2 and i < len(want) and x == M.no_data(want[i][1]):
            # left without data, as it was not asked for
            x = want[i][1]
        got.append((lid, x))
    n = len(exps) if s.get("stop") is None else min(s["stop"], len(exps))
    if run.body_cancelled:
        n = min(n, len(got))
    M.check_seq(env, want[:n], got, what)


# ---------------------------------------------------------------------------------------------------------------------
# encoders


class Book:
    """What is known about the grains which have been added"""

    def __init__(self, case):
        h = case["head"]
        self.h = h
        self.tags = [list(t) for t in h["tags"]]
        self.segs = [dict(s, tags=[list(t) for t in s["tags"]]) for s in h["segs"]]
        self.buffered = []      # (lid, d) added, in order, while no dump was going on
        self.unsure = []        # of sessions which failed
        self.done = []          # written by sessions which did not
        self.acked = []         # in this session
        self.maybe = []

    def lid(self, k):
        return self.segs[k % len(self.segs)]["lid"]


def make_encoder(case, f, streaming):
    h = case["head"]
    enc = gsf.GSFEncoder(f, streaming=streaming, major=h["major"], id=M.uid("file", h["id"]), created=M.created_dt(h),
                         tags=[tuple(t) for t in h["tags"]])
    for s in h["segs"]:
        add_flow(enc.add_segment(id=M.uid("seg", s["id"]), local_id=s["lid"], tags=[tuple(t) for t in s["tags"]]), s)
    return enc


def between(env, enc, book, ops, loop, what):
    """Operations while nothing is being dumped: none of them is refused"""
    for a in ops:
        try:
            if a[0] == "tag":
                enc.add_tag(a[1], a[2])
                book.tags.append([M.clip(a[1], 65535), M.clip(a[2], 65535)])
            elif a[0] == "seg":
                new_segment(enc, book, a)
            else:
                lid = book.lid(a[2])
                g = grain(env, loop, a[4], a[3])
                if a[1] == "seg":
                    enc.segments[lid].add_grain(g)
                else:
                    enc.add_grain(g, segment_local_id=lid)
                book.buffered.append((lid, a[4]))
        except gsf.GSFError as e:
            env.fail("refused", "%s: %s was refused: %s: %s", what, a[0], type(e).__name__, e)


def new_segment(target, book, a):
    lids = [s["lid"] for s in book.segs]
    if a[2] in lids or a[2] is None and lids and max(lids) > 65000:
        return
    seg = target.add_segment(id=M.uid("seg", a[1]), local_id=a[2])
    if seg.local_id in [s["lid"] for s in book.segs]:
        raise Violation("duplicate-id", "a new segment has local id %d, as another one has" % seg.local_id)
    book.segs.append({"lid": seg.local_id, "id": a[1], "tags": [], "flow": None})


async def encoder(env, loop, case):
    given = case["form"] == "open"
    w, f, inner = file_for(env, loop, case, M.payload(3, 300) if case["seek"] else b"", True)
    streaming = bool(case["streaming"])
    enc = make_encoder(case, f, streaming)
    book = Book(case)
    for s in case["sessions"]:
        between(env, enc, book, s["pre"], loop, "between sessions")
        book.acked, book.maybe = [], []
        start = len(inner.buf) if given and not case["seek"] else 0
        run = Run()

        async def body(run):
            async with enc as oe:
                run.stage = "body"
                try:
                    for o in s["others"]:
                        run.tasks.append(loop.create_task(producer(env, loop, case, book, oe, enc, o, run)))
                    for a in s["acts"]:
                        env.step()
                        if a[0] == "grain":
                            await put(env, loop, case, book, oe, enc, a)
                        elif not streaming:
                            if a[0] == "tag":
                                oe.add_tag(a[1], a[2])
                                book.tags.append([M.clip(a[1], 65535), M.clip(a[2], 65535)])
                            else:
                                new_segment(oe, book, a)
                    await asyncio.sleep(0.001 * s["wait"])
                    if s["raise"]:
                        run.user_error = True
                        raise UserError()
                except asyncio.CancelledError:
                    run.body_cancelled = True
                    raise
                finally:
                    run.stage = "exit"
                    if s["cancel"] is not None and s["cancel"][0] == "exit":
                        loop.call_later(0.0007 * s["cancel"][1], run.cancel)
            run.stage = "done"

        await session(env, loop, case, s, w, given, run, body)
        for t in run.tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()
        judge_encoded(env, case, s, run, book, bytes(inner.buf[start:]), bool(case["seek"]))


async def put(env, loop, case, book, oe, enc, a):
    lid = book.lid(a[2])
    g = grain(env, loop, a[4], a[3])
    rec = [lid, a[4]]
    book.maybe.append(rec)
    if a[1] == "seg":
        enc.segments[lid].add_grain(g)
    else:
        await oe.add_grain(g, segment_local_id=lid)
    book.acked.append(rec)


async def producer(env, loop, case, book, oe, enc, ops, run):
    for op in ops:
        await asyncio.sleep(0.001 * op[0])
        a = op[1:]
        if run.stage != "body":
            # an addition begins before the session is closed
            return
        try:
            await put(env, loop, case, book, oe, enc, a)
        except (gsf.GSFError, OSError) as e:
            env.ev("refused", type(e).__name__)
            return


def judge_encoded(env, case, s, run, book, data, seek):
    what = "encoder session"
    ends = run.exc
    if run.clean:
        if run.body_cancelled:
            env.check(isinstance(ends, asyncio.CancelledError), "wrong-error", "%s, cancelled, ended with %r", what, ends)
        elif run.user_error:
            env.check(isinstance(ends, UserError), "wrong-error", "%s, of which the body failed, ended with %r", what,
                      ends)
        else:
            env.check(ends is None, "encode-failed", "%s: %s: %s", what, type(ends).__name__, ends)
    if not run.clean:
        book.unsure += book.buffered + [tuple(x) for x in book.maybe]
        book.buffered = []
        env.check(ends is not None or run.cancelled_at is not None or run.fired, "harness", "not clean?")
        return
    try:
        ref = R.parse_file(data)
    except R.RefError as e:
        env.fail("damaged-file", "%s: %s", what, e)
    known = {}
    for kind, recs in (("unsure", book.unsure), ("done", book.done), ("buffered", book.buffered),
                       ("maybe", book.maybe), ("acked", book.acked)):
        for lid, d in recs:
            known[exp_of(d)["sts"]] = (kind, lid, d)
    seen = set()
    order = {}
    for i, (lid, g) in enumerate(ref["grains"]):
        env.check(g["sts"] in known, "damaged-grain", "%s: grain %d of the file was never added", what, i)
        kind, l2, d = known[g["sts"]]
        env.check(kind != "done", "duplicate", "%s: grain n=%d was written by an earlier session already", what, d["n"])
        env.check(g["sts"] not in seen, "duplicate", "%s: grain n=%d is there twice", what, d["n"])
        seen.add(g["sts"])
        M.check_seq(env, [(l2, exp_of(d))], [(lid, g)], what)
        order.setdefault(lid, []).append(d["n"])
    for kind in ("buffered", "acked"):
        for lid, d in getattr(book, kind):
            env.check(exp_of(d)["sts"] in seen, "lost", "%s: grain n=%d (%s) is not in the file", what, d["n"], kind)
    counts = {}
    for sg in book.segs:
        n = sum(1 for lid, _ in ref["grains"] if lid == sg["lid"])
        counts[sg["lid"]] = n if seek or not case["streaming"] and s["how"] != "start" else (n, "neg")
    M.check_head(env, M.expected_head(dict(book.h, tags=book.tags, segs=book.segs), counts), ref["head"], what)
    there = {exp_of(d)["sts"] for _, d in book.unsure if exp_of(d)["sts"] in seen}
    book.done += book.buffered + [tuple(x) for x in book.maybe] + [x for x in book.unsure if exp_of(x[1])["sts"] in there]
    book.unsure = [x for x in book.unsure if exp_of(x[1])["sts"] not in there]
    book.buffered = []


# ---------------------------------------------------------------------------------------------------------------------
# without a loop


def sync_file(env, case, data, writes):
    tr = case["tr"]
    if tr == "bytesio":
        return io.BytesIO(data), None
    raw = SimRaw(env, data, short=case["short"])
    return (opened(raw, "r+b" if writes else "rb") if tr == "buf" else raw), raw


def arm(raw, s, env):
    if raw is not None:
        raw.rf = {raw.nread + k: "eio" for k in s["faults"]}
        raw.wf = {raw.nwrite + k: "eio" for k in s["faults"]}
    return env.faults["read-eio"] + env.faults["write-eio"]


def sync_decoder(env, case):
    data, exps = contents(case)
    f, raw = sync_file(env, case, data, False)
    dec = gsf.GSFDecoder(file_data=f)
    for s in case["sessions"]:
        arm(raw, dict(s, faults=[]), env)
        f.seek(0)
        before = arm(raw, s, env)
        run = Run()
        try:
            if s["how"] == "load":
                head, segs = gsf.load(f)
                run.head, run.segs = head_of(env, head), segs
            elif s["how"] == "legacy":
                run.head = head_of(env, quiet(dec.decode_file_headers))
                for g, lid in quiet(lambda: dec.grains(skip_data=s["lm"] == 3, load_lazily=s["lm"] == 1)):
                    run.got.append((lid, g))
                    if len(run.got) == s["stop"]:
                        break
                if s["stop"] == 0:
                    run.got = []
            else:
                with dec as d:
                    run.head = head_of(env, d.file_headers)
                    if s["stop"] != 0:
                        for g, lid in d.grains(loading_mode=MODES[s["lm"]]):
                            run.got.append((lid, g))
                            if len(run.got) == s["stop"]:
                                break
                    run.stage = "exit"
                    if s["raise"]:
                        run.user_error = True
                        raise UserError()
        except (Violation, SkipCase):
            raise
        except Exception as e:
            run.exc = e
            env.nontrivial = True
        arm(raw, dict(s, faults=[]), env)
        run.fired = env.faults["read-eio"] + env.faults["write-eio"] > before
        run.clean = not run.fired
        env.ev("session", type(run.exc).__name__)
        env.check(not f.closed, "misused-file", "the file was closed by a session which had not opened it")
        judge_decoded(env, case, s, run, exps, "decoder session", s["how"] == "load")


def sync_encoder(env, case):
    f, raw = sync_file(env, case, M.payload(3, 300), True)
    enc = make_encoder(case, f, bool(case["streaming"]))
    book = Book(case)
    for s in case["sessions"]:
        between(env, enc, book, s["pre"], None, "between sessions")
        book.acked, book.maybe = [], []
        before = arm(raw, s, env)
        run = Run()
        whole = s["how"] == "dump" or s["how"] == "with" and not case["streaming"]
        try:
            if s["how"] == "dump":
                quiet(enc.dump)
            elif s["how"] == "start":
                try:
                    quiet(enc.start_dump)
                    for a in s["acts"]:
                        sync_put(env, book, enc, enc, a, False)
                finally:
                    quiet(enc.end_dump)
            else:
                with enc as oe:
                    for a in s["acts"]:
                        sync_put(env, book, oe, enc, a, whole)
                    if s["raise"]:
                        run.user_error = True
                        raise UserError()
            if isinstance(f, io.BufferedRandom):
                f.flush()
        except (Violation, SkipCase):
            raise
        except Exception as e:
            run.exc = e
            env.nontrivial = True
        arm(raw, dict(s, faults=[]), env)
        if isinstance(f, io.BufferedRandom):
            f.flush()
        run.fired = env.faults["read-eio"] + env.faults["write-eio"] > before
        run.clean = not run.fired
        env.ev("session", type(run.exc).__name__)
        env.check(not f.closed, "misused-file", "the file was closed by a session which had not opened it")
        data = f.getvalue() if raw is None else bytes(raw.buf)
        judge_encoded(env, dict(case, streaming=int(not whole)), s, run, book, data, True)


def sync_put(env, book, target, enc, a, before_head):
    env.step()
    if a[0] == "grain":
        lid = book.lid(a[2])
        g = grain(env, None, a[4], None)
        book.maybe.append([lid, a[4]])
        if a[1] == "seg":
            enc.segments[lid].add_grain(g)
        else:
            target.add_grain(g, segment_local_id=lid)
        book.acked.append([lid, a[4]])
    elif before_head:
        if a[0] == "tag":
            target.add_tag(a[1], a[2])
            book.tags.append([M.clip(a[1], 65535), M.clip(a[2], 65535)])
        else:
            new_segment(target, book, a)
