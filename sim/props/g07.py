"""G07: all ways of reading a file agree, and all of them terminate."""
import asyncio
import io
import json
import warnings

from .. import gsfref as R
from .. import model as M
from ..core import HarnessError, SkipCase, Violation
from ..drv import MODES, gsf, open_async_source, open_sync_source
from ..loop import run_async
from .g08 import Added, Counting

ID = "G07"
RUNS = {"quick": 30000, "thorough": 500000}
RULE = ("A case is a file, a list of mutations of its bytes (flips, sizes, cuts, insertions, deletions, repetitions, "
        "splices, foreign bytes, added blocks of any and of impossible sizes) and a set of readers. Non-trivial: the bytes are not "
        "those of a valid file.")
REAL = ["mediagrains.gsf decoders", "mediagrains.utils", "mediagrains.grains", "io.Buffered*", "asyncio streams"]
STUB = ["raw files and sockets (short transfers, chunks, delays)", "clock, selector, thread pool"]
ASSUMPTIONS = ["Deferred data that turns out to be missing or malformed is reported when it is accessed; a reader that "
               "loads at once reports it, or ends, at the grain.",
               "A run that needs more than 20 s of CPU does not terminate."]
TAGS = [b"SSBB", b"grsg", b"head", b"segm", b"tag ", b"flow", b"grai", b"gbhd", b"tils", b"vghd", b"comp", b"cghd",
        b"unof", b"aghd", b"cahd", b"eghd", b"grdt", b"fill"]
MUT = ["flip", "flip", "byte", "byte", "size", "size", "size", "cut", "ins", "del", "dup", "tag", "num", "swap",
       "zero"]
SYNC_R = [["bytesio", "ctx"], ["buf", "ctx"], ["raw", "ctx"], ["bytesio", "loads"], ["bytesio", "legacy"],
          ["buf", "load"], ["nosk", "ctx"]]
ASYNC_R = [["abytes", "ctx"], ["abytesw", "ctx"], ["afile-buf", "ctx"], ["afile-raw", "ctx"], ["stream", "ctx"],
           ["stream", "ctx"], ["stream-open", "ctx"], ["abytes", "load"], ["stream", "load"]]


EX = ["special", "special", "unknown", "known", "near", "deep", "odd"]


class Odd(Added):
    """Additions G08 makes, and blocks of special and of impossible sizes."""

    def block(self, site, kind, k, length):
        if kind == "special":
            # less than a header: taken for eight bytes
            tag = TAGS[(k >> 4) % len(TAGS)] if k % 3 == 0 else b"Zabc"
            return tag + (k % 8).to_bytes(4, "little") + M.payload(k, length if k % 5 == 0 else 0)
        if kind == "odd":
            n = [8, 9, 15, length, length + 7, length + 8, length + 9, length + 16][k % 8]
            return TAGS[(k >> 4) % len(TAGS)] + n.to_bytes(4, "little") + M.payload(k, length)
        return super().block(site, kind, k, length)


def generate(rng, tier):
    h = M.gen_head(rng, 2)
    n = rng.choice([0, 1, 2, 2, 3, 4])
    grains = [[rng.randrange(len(h["segs"])), M.gen_grain(rng, k, h["major"], big=rng.randrange(20) == 0)] for k in range(n)]
    muts = []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3, 6])):
        muts.append([rng.choice(MUT), rng.randrange(10**6), rng.randrange(10**6), rng.randrange(10**6)])
    ex = []
    if rng.randrange(3) == 0:
        c = Counting()
        R.enc_file(h, [(h["segs"][si]["lid"], d) for si, d in grains], x=c)
        for _ in range(rng.choice([1, 1, 2, 4])):
            ex.append([rng.randrange(len(c.sites)), rng.choice(EX), rng.randrange(10**6),
                       rng.choice([0, 1, 8, 16, 40, rng.randrange(300)])])
        if rng.randrange(2):
            muts = []
    readers = []
    for _ in range(rng.choice([2, 3, 4])):
        if rng.randrange(2):
            readers.append(["sync"] + rng.choice(SYNC_R) + [rng.randrange(4), rng.randrange(2), rng.randrange(3)])
        else:
            readers.append(["async"] + rng.choice(ASYNC_R) + [rng.randrange(4), rng.randrange(2), rng.randrange(3)])
    lids = None if rng.randrange(4) else [s["lid"] for s in h["segs"] if rng.randrange(2)]
    return {"head": h, "grains": grains, "cat": rng.choice([0, 0, 0, 1]), "muts": muts, "ex": ex, "readers": readers,
            "lids": lids, "sc": rng.choice([None, None, None, True, False]), "term": int(rng.randrange(6) > 0)}


def block_starts(b):
    """Offsets of everything that looks like a block."""
    out = []
    for t in TAGS[2:]:
        i = b.find(t)
        while i >= 0:
            out.append(i)
            i = b.find(t, i + 1)
    return sorted(out) or [0]


def mutate(data, muts):
    b = bytearray(data)
    for kind, x, y, z in muts:
        if not b:
            break
        i = x % len(b)
        if kind == "flip":
            b[i] ^= 1 << (y % 8)
        elif kind == "byte":
            b[i] = y % 256
        elif kind == "size":
            # the length of a block, by a little or by a lot (not the top byte: sizes of gigabytes)
            st = block_starts(b)
            p = st[x % len(st)] + 4
            if p + 4 <= len(b):
                v = int.from_bytes(b[p:p + 3], "little")
                v = [v + 1 + y % 9, v - 1 - y % 9, y % 12, v + y % 300, v - y % 300, v * 2, y % len(b), 0, 7, 8,
                     0xffffff, v + 8, v - 8][z % 13]
                b[p:p + 3] = max(0, min(v, 0xffffff)).to_bytes(3, "little")
        elif kind == "cut":
            del b[i:]
        elif kind == "ins":
            b[i:i] = M.payload(y, 1 + z % 20, z % 3)
        elif kind == "del":
            del b[i:i + 1 + z % 20]
        elif kind == "dup":
            j = y % len(b)
            b[i:i] = b[j:j + z % 400]
        elif kind == "tag":
            st = block_starts(b)
            p = st[x % len(st)]
            b[p:p + 4] = TAGS[y % len(TAGS)] if z % 3 else M.payload(y, 4)
        elif kind == "num":
            k = 1 + y % 8
            b[i:i + k] = [b"\xff" * k, b"\0" * k, b"\x80" + b"\0" * (k - 1), M.payload(z, k)][z % 4]
            if k > 3:
                # keep away from sizes of gigabytes
                pass
        elif kind == "swap":
            st = block_starts(b)
            p, q = st[x % len(st)], st[y % len(st)]
            n = 8 + z % 60
            b[p:p + n], b[q:q + n] = b[q:q + n], b[p:p + n]
        elif kind == "zero":
            b[i:i] = bytes(1 + y % 40)
        else:
            raise SkipCase()
        if len(b) > 60000:
            del b[60000:]
    return tame(bytes(b))


def tame(b):
    """Cap whatever would be taken for a size of hundreds of megabytes, so that a run stays within memory."""
    out = bytearray(b)
    for t in TAGS[2:]:
        i = out.find(t)
        while i >= 0:
            if i + 8 <= len(out) and out[i + 7]:
                out[i + 7] = 0
            i = out.find(t, i + 1)
    return bytes(out)


def execute(env, case):
    h = case["head"]
    if not M.valid_head(h) or not case["readers"]:
        raise SkipCase()
    try:
        grains = [(h["segs"][si]["lid"], d) for si, d in case["grains"]]
        M.need_valid([d for _, d in grains], h["major"])
        for m in case["muts"]:
            if len(m) != 4 or m[0] not in MUT or min(m[1:]) < 0:
                raise SkipCase()
        for at, kind, k, length in case["ex"]:
            if kind not in EX or min(at, k, length) < 0 or length > 100000:
                raise SkipCase()
        for r in case["readers"]:
            if len(r) != 6 or (r[1:3] not in (SYNC_R if r[0] == "sync" else ASYNC_R)) or not 0 <= r[3] <= 3:
                raise SkipCase()
    except (TypeError, IndexError, ValueError, KeyError):
        raise SkipCase()
    if case["sc"] not in (None, True, False) or (case["lids"] is not None and not isinstance(case["lids"], list)):
        raise SkipCase()
    good, _ = R.enc_file(h, grains, None, Odd(case["ex"], env, R.enc_file(h, grains)[0]), bool(case["term"]))
    if case["ex"]:
        env.nontrivial = True
    if case["cat"]:
        good = good * 2
    data = mutate(good, case["muts"])
    if data != good:
        env.nontrivial = True
        env.fault("bytes-damaged")
    kw = {} if case["sc"] is None else {"support_concatenation": case["sc"]}
    ref = read(env, data, ["sync", "bytesio", "ctx", 0, 0, 0], case["lids"], kw)
    env.ev("ref", len(ref.grains), type(ref.exc).__name__)
    if ref.exc is not None:
        env.probe("rejected")
        env.probe("rejected-" + type(ref.exc).__name__)
    elif data != good:
        env.probe("accepted-damaged")
    for r in case["readers"]:
        res = read(env, data, r, case["lids"], kw)
        compare(env, ref, res, r, case["lids"])


class Res:
    def __init__(self):
        self.head = None
        self.grains = []
        self.exc = None
        self.last = None
        self.all = None


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if k not in ("creation_timestamp", "event_payload")}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return str(x)


def value(env, g, data, bad=None):
    """What a grain says, without interpreting it."""
    if bad is not None:
        return {"meta": json.dumps(plain(g.meta), sort_keys=True), "bad": bad}
    return {"meta": json.dumps(plain(g.meta), sort_keys=True), "type": g.grain_type,
            "data": None if data is None else bytes(data).hex()}


def take(env, g):
    try:
        return value(env, g, g.data)
    except EOFError:
        return value(env, g, None, "EOFError")


class NoSeek(io.RawIOBase):
    """A source that can only be read, but knows how far it has been read."""


def read(env, data, r, lids, kw):
    res = Res()
    mode = MODES[r[3]]
    env.step()
    try:
        if r[0] == "sync":
            sync(env, res, data, r, lids, kw, mode)
        else:
            run_async(env, lambda loop: asyn(env, loop, res, data, r, lids, kw, mode))
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        res.exc = e
    return res


def whole(env, res, head, segs):
    res.head = json.dumps(plain(head), sort_keys=True)
    res.all = {lid: [take(env, g) for g in gs] for lid, gs in segs.items()}


def sync(env, res, data, r, lids, kw, mode):
    _, tr, api, _, when, short = r
    f, _ = open_sync_source(env, data, {"tr": "buf" if tr == "nosk" else tr, "short": short})
    if api == "loads":
        return whole(env, res, *gsf.loads(data, **kw))
    if api == "load":
        return whole(env, res, *gsf.load(f, **kw))
    later = []

    def note(g, lid):
        env.step()
        if when == 0:
            res.grains.append((lid, take(env, g)))
        else:
            later.append((lid, g))
    try:
        if api == "legacy":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                dec = gsf.GSFDecoder(file_data=f, **kw)
                res.head = json.dumps(plain(dec.decode_file_headers()), sort_keys=True)
                for g, lid in dec.grains(local_ids=lids, skip_data=(r[3] == 3), load_lazily=(r[3] == 1)):
                    note(g, lid)
        else:
            with gsf.GSFDecoder(file_data=f, **kw) as dec:
                res.head = json.dumps(plain(dec.file_headers), sort_keys=True)
                for g, lid in dec.grains(local_ids=lids, loading_mode=mode):
                    note(g, lid)
                res.last = json.dumps(plain(dec.file_headers), sort_keys=True)
    finally:
        for lid, g in later:
            res.grains.append((lid, take(env, g)))


async def asyn(env, loop, res, data, r, lids, kw, mode):
    _, tr, api, _, when, short = r
    f, _ = open_async_source(env, loop, data, {"tr": tr, "short": short, "chunk": short,
                                              "limit": 64 if when else 2 ** 16})
    if api == "load":
        return whole(env, res, *(await gsf.load(f, **kw)))
    later = []

    async def load(g, lid):
        try:
            await g
            res.grains.append((lid, take(env, g)))
        except (EOFError, ValueError) as e:
            res.grains.append((lid, value(env, g, None, type(e).__name__)))

    async def note(g, lid):
        env.step()
        if when == 0:
            await load(g, lid)
        else:
            later.append((lid, g))
    async with gsf.GSFDecoder(file_data=f, **kw) as dec:
        res.head = json.dumps(plain(dec.file_headers), sort_keys=True)
        try:
            async for g, lid in dec.grains(local_ids=lids, loading_mode=mode):
                await note(g, lid)
            res.last = json.dumps(plain(dec.file_headers), sort_keys=True)
        finally:
            for lid, g in later:
                await load(g, lid)


def compare(env, ref, res, r, lids):
    what = "/".join(str(x) for x in r)
    env.ev("read", what, len(res.grains), type(res.exc).__name__)
    ok, rok = res.exc is None, ref.exc is None
    if res.all is not None or r[2] in ("load", "loads"):
        if lids is not None:
            # these always read everything
            return
        env.check(ok == rok, "acceptance", "%s: %s, but reading it plainly: %s", what, describe(res), describe(ref))
        if not ok:
            return
        env.check(res.head == ref.last, "head", "%s: the header differs", what)
        want = {}
        for lid, v in ref.grains:
            want.setdefault(lid, []).append(v)
        env.check(res.all == want, "grains", "%s: segments differ: %s", what, brief(want, res.all))
        return
    env.check(res.head == ref.head, "head", "%s: the header differs: %s / %s", what, res.head, ref.head)
    lm = 0 if r[2] == "legacy" and r[3] == 2 else r[3]
    skip = lm == 3
    stream = r[1].startswith("stream")
    late = lm in (1, 2) and not stream
    a, b = ref.grains, res.grains
    for i in range(min(len(a), len(b))):
        env.check(a[i][0] == b[i][0], "grains", "%s: grain %d belongs to %r, expected %r", what, i, b[i][0], a[i][0])
        x, y = a[i][1], b[i][1]
        env.check(x["meta"] == y["meta"], "grains", "%s: the metadata of grain %d differs: %s / %s", what, i, x["meta"],
                  y["meta"])
        if not skip:
            env.check(x == y, "grains", "%s: grain %d differs: %s / %s", what, i, x, y)
    env.check(len(b) >= len(a), "grains", "%s: %d grains (%s), but reading it plainly gives %d (%s)", what, len(b),
              describe(res), len(a), describe(ref))
    extra = b[len(a):]
    if extra:
        # only a grain whose data is not (all) there or cannot be understood may show up here and not elsewhere
        env.check(late or skip, "grains", "%s: %d grains more than by reading it plainly", what, len(extra))
        if late:
            env.check("bad" in extra[0][1], "grains", "%s: grain %d is complete, but is not delivered by reading plainly"
                      " (%s)", what, len(a), describe(ref))
        env.probe("torn-grain-announced")
        return
    if ok and rok and res.last is not None:
        env.check(res.last == ref.last, "head", "%s: the last header differs: %s / %s", what, res.last, ref.last)
    env.check(ok == rok, "acceptance", "%s: %s, but reading it plainly: %s", what, describe(res), describe(ref))


def describe(res):
    return "accepted" if res.exc is None else "rejected (%s: %s)" % (type(res.exc).__name__, str(res.exc)[:80])


def brief(a, b):
    return "%s / %s" % ({k: len(v) for k, v in a.items()}, {k: len(v) for k, v in b.items()})


_ = asyncio
