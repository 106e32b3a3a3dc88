"""G06: asynchronous byte streams behave like ordinary binary files."""
import asyncio
import io

from .. import model as M
from ..core import SkipCase, Violation
from ..disk import SimRaw, opened
from ..drv import abio
from ..loop import feed_reader, make_writer, run_async

ID = "G06"
RUNS = {"quick": 60000, "thorough": 1200000}
RULE = ("A case is one or two adapters of chosen kinds with initial contents, and for each a history of reads, exact "
        "reads, writes, seeks, position queries, truncations and reopenings, with read and write errors, short "
        "transfers, chunked and delayed network delivery, back-pressure and timed-out reads. Non-trivial: the history "
        "has an operation after a seek, truncation, fault or time-out.")
REAL = ["mediagrains.utils.asyncbinaryio", "asyncio.StreamReader and StreamWriter", "io.BytesIO, io.Buffered*"]
STUB = ["raw files (short transfers, errors, would-block)", "socket transport (chunks, delays, back-pressure)",
        "clock, selector, thread pool"]
ASSUMPTIONS = ["Each adapter is used by one task at a time.",
               "Negative positions and negative sizes other than -1 are outside the supported operations.",
               "A read of an exact size which the file cannot satisfy may give what there is or raise EOFError."]
KINDS = ["mem", "mem", "mem", "mem-open", "memw", "file-bytesio", "file-buf", "file-rnd", "file-raw", "file-raw",
         "sread", "sread", "sread", "swrite", "swrite"]


def pos(rng):
    return rng.choice([0, rng.randrange(12), rng.randrange(80), rng.randrange(300)])


def generate(rng, tier):
    sims = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(KINDS)
        ops = []
        for _ in range(rng.randrange(2, 30)):
            k = rng.randrange(16)
            if k < 4:
                ops.append(["read", rng.choice([0, 1, 2, rng.randrange(12), rng.randrange(12), rng.randrange(120)])])
            elif k < 6:
                ops.append(["into", rng.choice([0, 1, rng.randrange(12), rng.randrange(120)])])
            elif k == 6:
                ops.append([rng.choice(["readall", "read-1"])])
            elif k < 10:
                ops.append(["write", rng.randrange(50), rng.choice([0, 1, 3, rng.randrange(12), rng.randrange(150)])])
            elif k < 13:
                w = rng.choice([0, 0, 1, 2])
                ops.append(["seek", pos(rng) * (1 if w == 0 else rng.choice([1, 1, -1])), w])
            elif k == 13:
                ops.append(["trunc", rng.choice([None, pos(rng), pos(rng)])])
            elif k == 14:
                ops.append([rng.choice(["value", "value", "reopen", "caps"])])
            else:
                ops.append(["timed", rng.randrange(1, 60), rng.randrange(1, 12)])
        c = {"kind": kind, "n": rng.choice([0, 0, 5, 40, 200, 700]), "ops": ops, "short": rng.choice([0, 0, 1, 2]),
             "chunk": rng.randrange(3), "end": rng.choice(["eof", "eof", "eof", "reset"]),
             "limit": rng.choice([1, 16, 2 ** 16]), "high": rng.choice([0, 16, 4096]), "faults": []}
        if kind == "file-raw" and rng.randrange(2):
            c["faults"] = [{"op": "read", "n": rng.randrange(20), "kind": rng.choice(["eio", "block", "block"])}
                           for _ in range(rng.randrange(4))]
            c["faults"] += [{"op": "write", "n": rng.randrange(8), "kind": rng.choice(["eio", "enospc"])}
                            for _ in range(rng.randrange(3))]
        if rng.randrange(12) == 0:
            wide(rng, c)
        sims.append(c)
    return {"sims": sims, "jitter": rng.choice([1, 2, 4])}


def wide(rng, c):
    """The same on a larger scale: positions and sizes beyond any buffer."""
    f = rng.choice([300, 450, 700])
    if c["n"]:
        c["n"] = rng.choice([65535, 65536, 65537, 70000, 140000])
    del c["ops"][10:]
    for op in c["ops"]:
        if op[0] == "timed" or rng.randrange(4) == 0:
            continue
        k = {"read": 1, "into": 1, "write": 2, "seek": 1, "trunc": 1}.get(op[0])
        if k and op[k]:
            op[k] = op[k] * f + (rng.randrange(3) - 1 if op[k] > 0 else 0)


def execute(env, case):
    if not isinstance(case["sims"], list) or not case["sims"] or not 1 <= case["jitter"] <= 8:
        raise SkipCase()
    for c in case["sims"]:
        if c["kind"] not in KINDS or not isinstance(c["n"], int) or c["n"] < 0 or not isinstance(c["limit"], int) or \
                c["limit"] < 1:
            raise SkipCase()
    run_async(env, lambda loop: both(env, loop, case["sims"]), jitter=case["jitter"])


async def both(env, loop, sims):
    ts = [loop.create_task(one(env, loop, c, k)) for k, c in enumerate(sims)]
    await asyncio.wait(ts)
    for t in ts:
        t.result()


class Model:
    """A sequential byte file."""

    def __init__(self, data, bytesio):
        self.b = bytearray(data)
        self.p = 0
        self.bytesio = bytesio      # io.BytesIO leaves the file alone when asked to truncate it to a larger size

    def avail(self):
        return max(0, len(self.b) - self.p)

    def next(self, n):
        return bytes(self.b[self.p:self.p + n])

    def write(self, d):
        if d:
            if self.p > len(self.b):
                self.b.extend(bytes(self.p - len(self.b)))
            self.b[self.p:self.p + len(d)] = d
            self.p += len(d)

    def trunc(self, n):
        if n < len(self.b):
            del self.b[n:]
        elif not self.bytesio:
            self.b.extend(bytes(n - len(self.b)))


def build(env, loop, c):
    """(adapter or open adapter, model, contents getter, extras)"""
    kind = c["kind"]
    data = M.payload(7, c["n"])
    x = {"raw": None, "tr": None}
    if kind in ("mem", "mem-open"):
        a = abio.AsyncBytesIO(data) if kind == "mem" else abio.OpenAsyncBytesIO(data)
        return a, Model(data, False), a.getvalue, x
    if kind in ("memw", "file-bytesio"):
        b = io.BytesIO(data)
        cls = abio.AsyncBytesIOWrapper if kind == "memw" else abio.AsyncFileWrapper
        return cls(b), Model(data, True), b.getvalue, x
    if kind in ("file-buf", "file-rnd", "file-raw"):
        raw = SimRaw(env, data, writable=kind != "file-buf", short=c["short"], faults=c["faults"])
        x["raw"] = raw
        f = opened(raw, {"file-buf": "rb", "file-rnd": "r+b", "file-raw": "raw"}[kind])

        def get():
            if kind == "file-rnd":
                f.flush()
            return bytes(raw.buf)
        return abio.AsyncFileWrapper(f), Model(data, False), get, x
    if kind == "sread":
        reader = asyncio.StreamReader(loop=loop, limit=c["limit"])
        feed_reader(env, loop, reader, data, c["chunk"], c["end"])
        x["end"] = c["end"]
        return abio.AsyncStreamWrapper(reader=reader), Model(data, False), None, x
    w, t = make_writer(env, loop, high=c["high"])
    x["tr"] = t
    return abio.AsyncStreamWrapper(writer=w), Model(b"", False), (lambda: bytes(t.data)), x


NARGS = {"read": 1, "into": 1, "readall": 0, "read-1": 0, "write": 2, "seek": 2, "trunc": 1, "value": 0, "reopen": 0,
         "caps": 0, "timed": 2}


async def one(env, loop, c, k):
    a, m, get, x = build(env, loop, c)
    kind = c["kind"]
    f = a if kind == "mem-open" else await a.__aenter__()
    st = {"touched": False, "dead": False}
    for i, op in enumerate(c["ops"]):
        if not isinstance(op, list) or not op or NARGS.get(op[0]) != len(op) - 1:
            raise SkipCase()
        for v in op[1:]:
            if not (isinstance(v, int) or (v is None and op[0] == "trunc")):
                raise SkipCase()
        what = "%s: operation %d %r" % (kind, i, op)
        if st["touched"]:
            env.nontrivial = True
        hits = fault_count(env)
        try:
            await do(env, loop, c, f, a, m, get, x, op, what, st)
        except ConnectionResetError:
            env.check(x.get("end") == "reset", "unexpected-error", "%s: reset", what)
            st["dead"] = True
            st["touched"] = True
        except OSError as e:
            if isinstance(e, io.UnsupportedOperation):
                raise Violation("unsupported", "%s: %s" % (what, e))
            env.check(fault_count(env) > hits, "unexpected-error", "%s: %r", what, e)
            st["touched"] = True
            env.probe("op-failed")
            if op[0] in ("readall", "read-1") and m.p <= f.tell() <= len(m.b):
                # a plain file does not go back either
                m.p = f.tell()
        env.ev(k, op[0], m.p)
        if st["dead"]:
            break
        env.check(f.tell() == m.p, "position", "%s: the position is %r, a plain file would be at %d", what, f.tell(),
                  m.p)
    if get is not None and not st["dead"]:
        if kind == "swrite" and f.tell() > len(m.b):
            # a stream only gets to the new position when something is written there
            await f.write(b"!")
            m.write(b"!")
        await asyncio.sleep(1)
        env.check(get() == bytes(m.b), "contents", "%s: final contents differ: %s", kind, where(bytes(m.b), get()))
    if kind != "mem-open":
        await a.__aexit__(None, None, None)
        if kind == "swrite":
            await asyncio.sleep(1)
            env.check(x["tr"].closing, "not-closed", "the stream is still open after leaving the context")


def fault_count(env):
    return env.faults["read-eio"] + env.faults["write-eio"] + env.faults["write-enospc"]


def where(want, got):
    i = 0
    while i < min(len(want), len(got)) and want[i] == got[i]:
        i += 1
    return "at byte %d of %d/%d: expected %s got %s" % (i, len(want), len(got), want[i:i + 12].hex(),
                                                        got[i:i + 12].hex())


def got_data(env, m, d, n, what, exact):
    """d was returned for a read of n bytes (None: everything)."""
    avail = m.avail()
    want = avail if n is None else min(n, avail)
    env.check(isinstance(d, (bytes, bytearray)), "data", "%s: returned %s", what, type(d).__name__)
    if exact:
        env.check(len(d) == want, "data", "%s: %d bytes, expected %d", what, len(d), want)
    else:
        env.check(len(d) <= want and (len(d) > 0 or want == 0), "data", "%s: %d bytes of %d", what, len(d), want)
    env.check(bytes(d) == m.next(len(d)), "data", "%s: wrong data: %s", what, where(m.next(len(d)), bytes(d)))
    m.p += len(d)


async def unsupported(env, m, what, fn):
    try:
        await fn()
    except io.UnsupportedOperation:
        env.probe("refused")
        return
    env.fail("unsupported", "%s: is not possible on this file but was not refused", what)


async def do(env, loop, c, f, a, m, get, x, op, what, st):
    kind = c["kind"]
    name = op[0]
    stream = kind in ("sread", "swrite")
    mem = kind.startswith("mem") and kind != "memw"
    if name in ("read", "into", "readall", "read-1", "timed"):
        if kind == "swrite":
            return await unsupported(env, m, what, lambda: f.readinto(bytearray(1)) if name == "into" else f.read(1))
        blocked = env.faults["read-would-block"]
        if name == "into":
            b = bytearray(b"\xa5" * op[1])
            n = await f.readinto(b)
            if n is None:
                env.check(env.faults["read-would-block"] > blocked, "data", "%s: returned None", what)
                return
            env.check(0 <= n <= len(b), "data", "%s: returned %r", what, n)
            got_data(env, m, b[:n], op[1], what, exact=kind != "file-raw" and not stream)
            env.check(len(b) == op[1], "data", "%s: the buffer has %d bytes now", what, len(b))
        elif name in ("readall", "read-1"):
            d = await (f.readall() if name == "readall" else f.read(-1))
            got_data(env, m, d, None, what, exact=env.faults["read-would-block"] == blocked)
        elif name == "timed" and kind == "sread":
            # give up waiting after a while: nothing that was sent may be lost by that
            t = loop.create_task(f.read(op[1]))
            done, _ = await asyncio.wait([t], timeout=op[2] * 0.01)
            if not done:
                env.fault("read-timed-out")
                t.cancel()
                st["touched"] = True
                await asyncio.wait([t])
            if t.cancelled():
                # it may have got to the new position before it was cancelled
                st["maybe"] = m.p
                return
            got_data(env, m, t.result(), op[1], what, exact=True)
        else:
            n = op[1]
            try:
                d = await f.read(n)
            except EOFError:
                env.check(m.avail() < n, "data", "%s: EOFError, but %d bytes are left", what, m.avail())
                p = f.tell()
                env.check(p in (m.p, max(m.p, len(m.b))), "position", "%s: at %r after EOFError", what, p)
                m.p = p
                env.probe("short-read-refused")
                return
            got_data(env, m, d, n, what, exact=kind != "file-raw")
            if mem:
                env.check(len(d) == n, "data", "%s: %d bytes", what, len(d))
    elif name == "write":
        d = M.payload(op[1], op[2])
        if kind == "sread":
            return await unsupported(env, m, what, lambda: f.write(d))
        if kind == "file-buf":
            return await unsupported(env, m, what, lambda: f.write(d))
        n = await f.write(d)
        env.check(isinstance(n, int) and 0 <= n <= len(d), "data", "%s: returned %r", what, n)
        if kind != "file-raw":
            env.check(n == len(d), "data", "%s: wrote %d bytes of %d", what, n, len(d))
        m.write(d[:n])
        if kind == "swrite" and not d and len(get()) > len(m.b):
            # an empty write may or may not move the end of a stream to where it has been seeked
            m.trunc(m.p)
        if kind == "swrite":
            env.check(get() == bytes(m.b), "contents", "%s: %s", what, where(bytes(m.b), get()))
    elif name == "seek":
        base = {0: 0, 1: m.p, 2: len(m.b)}.get(op[2])
        if base is None:
            raise SkipCase()
        t = base + op[1]
        if t < 0:
            return
        st["touched"] = True
        if stream and (op[2] == 2 or t < behind(m, st)):
            async def s():
                f.seek(op[1], op[2])
            return await unsupported(env, m, what, s)
        if stream and t < st.get("maybe", 0):
            return
        r = f.seek(op[1], op[2])
        env.check(r == t, "position", "%s: returned %r instead of the new position %d", what, r, t)
        if stream:
            st["aligned"] = behind(m, st)
        m.p = t
        return
    elif name == "trunc":
        if stream or kind == "file-buf":
            return await unsupported(env, m, what, lambda: f.truncate(op[1]))
        if op[1] is not None and op[1] < 0:
            return
        st["touched"] = True
        n = m.p if op[1] is None else op[1]
        r = await f.truncate(op[1])
        env.check(r == n, "data", "%s: returned %r", what, r)
        m.trunc(n)
    elif name == "value":
        if get is not None and kind != "swrite":
            env.check(get() == bytes(m.b), "contents", "%s: %s", what, where(bytes(m.b), get()))
            if mem:
                env.check(bytes(f.getbuffer()) == bytes(m.b), "contents", "%s: the buffer differs", what)
            if kind == "mem":
                env.check(a.value() == bytes(m.b) == bytes(a.getbuffer()), "contents", "%s: the value differs", what)
        return
    elif name == "reopen":
        if kind == "mem":
            await a.__aexit__(None, None, None)
            f2 = await a.__aenter__()
            env.check(f2 is f, "data", "%s: a different file after reopening", what)
            m.p = 0
            st["touched"] = True
        return
    elif name == "caps":
        env.check(bool(f.readable()) == (kind != "swrite"), "capability", "%s: readable", what)
        env.check(bool(f.writable()) == (kind not in ("sread", "file-buf")), "capability", "%s: writable", what)
        env.check(bool(f.seekable()) == (not stream), "capability", "%s: seekable", what)
        env.check(bool(f.seekable_forwards()), "capability", "%s: seekable forwards", what)
        env.check(bool(f.seekable_backwards()) == (not stream), "capability", "%s: seekable backwards", what)
        return
    # after any transfer a stream really is where it says
    st["aligned"] = None


def behind(m, st):
    """The position a stream has really reached: seeking forwards only takes effect with the next transfer."""
    return m.p if st.get("aligned") is None else st["aligned"]
