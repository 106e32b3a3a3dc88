"""Drives the real encoders and decoders over simulated transports, through public interfaces only."""
import asyncio
import io
import warnings

from . import model as M
from .core import HarnessError, SkipCase, Violation
from .disk import SimPipeOut, SimRaw, opened
from .loop import feed_reader, make_writer, run_async

import mediagrains.gsf as gsf  # noqa: E402
from mediagrains.utils import asyncbinaryio as abio  # noqa: E402

LM = gsf.GrainDataLoadingMode
MODES = [LM.LOAD_IMMEDIATELY, LM.ALWAYS_LOAD_DEFER_IF_POSSIBLE, LM.ALWAYS_DEFER_LOAD_IF_POSSIBLE, LM.LOAD_NEVER]

SYNC_READ = ["bytesio", "buf", "raw"]
ASYNC_READ = ["abytes", "afile-bytesio", "afile-buf", "afile-raw", "abytesw", "stream", "abytes-open", "stream-open"]
SYNC_WRITE = ["bytesio", "wb", "r+b", "raw", "pipe", "rawpipe"]
ASYNC_WRITE = ["abytes", "afile-bytesio", "afile-wb", "afile-raw", "abytesw", "stream", "afile-pipe", "plain-bytesio",
               "plain-wb", "stream-open"]


def seekable_write(tr):
    return tr not in ("pipe", "rawpipe", "stream", "stream-open", "afile-pipe")


class Result:
    def __init__(self):
        self.head = None
        self.grains = []
        self.exc = None
        self.end_pos = None


def canon_of(env, g, data=None):
    with env.oracle("reading a decoded grain"):
        return M.canon(g, data)


def item(env, cfg, lid, g):
    """One delivered grain.  With cfg["tol"], data that turns out to be missing is recorded instead of raised."""
    if not cfg.get("tol"):
        return lid, canon_of(env, g)
    try:
        return lid, canon_of(env, g)
    except EOFError:
        return lid, {"torn": canon_of(env, g, b"")}


async def aitem(env, cfg, lid, g, load):
    try:
        if load:
            await g
    except EOFError:
        if not cfg.get("tol"):
            raise
        return lid, {"torn": canon_of(env, g, b"")}
    return item(env, cfg, lid, g)


def head_of(env, fh):
    with env.oracle("reading the decoded file header"):
        return M.canon_head(fh)


# ---------------------------------------------------------------------------------------------------------------------
# decoding


def open_sync_source(env, data, cfg):
    tr = cfg["tr"]
    if tr == "bytesio":
        return io.BytesIO(data), None
    raw = SimRaw(env, data, writable=False, short=cfg.get("short", 0), faults=cfg.get("faults", ()))
    if tr == "buf":
        return opened(raw, "rb"), raw
    if tr == "raw":
        return raw, raw
    raise SkipCase()


def open_async_source(env, loop, data, cfg):
    tr = cfg["tr"]
    if tr == "abytes":
        return abio.AsyncBytesIO(data), None
    if tr == "abytes-open":
        return abio.OpenAsyncBytesIO(data), None
    if tr == "abytesw":
        return abio.AsyncBytesIOWrapper(io.BytesIO(data)), None
    if tr == "afile-bytesio":
        return abio.AsyncFileWrapper(io.BytesIO(data)), None
    if tr in ("afile-buf", "afile-raw"):
        raw = SimRaw(env, data, writable=False, short=cfg.get("short", 0), faults=cfg.get("faults", ()))
        return abio.AsyncFileWrapper(opened(raw, "rb") if tr == "afile-buf" else raw), raw
    if tr in ("stream", "stream-open"):
        if cfg.get("limit", 1) <= 0:
            raise SkipCase()
        reader = asyncio.StreamReader(loop=loop, limit=cfg.get("limit", 2 ** 16))
        cut = cfg.get("net_cut")
        d = data if cut is None else data[:cut]
        feed_reader(env, loop, reader, d, cfg.get("chunk", 1), cfg.get("net_end", "eof"))
        if tr == "stream":
            return abio.AsyncStreamWrapper(reader=reader), None
        return abio.OpenAsyncStreamWrapper(reader=reader), None
    raise SkipCase()


def gen_dec_cfg(rng, sync=None, legacy=True):
    mode = rng.choice(["sync", "async"]) if sync is None else ("sync" if sync else "async")
    c = {"mode": mode, "lm": rng.randrange(4), "when": rng.randrange(3)}
    if mode == "sync":
        c["tr"] = rng.choice(SYNC_READ)
        c["api"] = rng.choice(["ctx", "ctx", "ctx", "load", "loads", "legacy", "decode"]) if legacy else "ctx"
    else:
        c["tr"] = rng.choice(ASYNC_READ)
        c["api"] = rng.choice(["ctx", "ctx", "ctx", "load"])
        c["chunk"] = rng.randrange(3)
        if c["tr"].startswith("stream"):
            c["limit"] = rng.choice([64, 2 ** 16])
    c["short"] = rng.randrange(3)
    return c


def deferred(cfg):
    """Does this configuration hand out grains whose data is fetched later?"""
    return cfg["lm"] in (1, 2) and cfg.get("api") == "ctx"


def decode_sync(env, data, cfg):
    res = Result()
    f, raw = open_sync_source(env, data, cfg)
    res.raw = raw
    mode = MODES[cfg["lm"]]
    api = cfg.get("api", "ctx")
    kw = {}
    if "sc" in cfg:
        kw["support_concatenation"] = cfg["sc"]
    lids = cfg.get("lids")
    try:
        if api in ("load", "loads", "decode"):
            if api == "load":
                head, segs = gsf.load(f, **kw)
            elif api == "loads":
                head, segs = gsf.loads(data, **kw)
            else:
                head, segs = gsf.GSFDecoder(**kw).decode(data)
            res.head = head_of(env, head)
            res.by_seg = {lid: [canon_of(env, g) for g in gs] for lid, gs in segs.items()}
            return res
        if api == "legacy":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                dec = gsf.GSFDecoder(file_data=f, **kw)
                res.head = head_of(env, dec.decode_file_headers())
                it = dec.grains(local_ids=lids, skip_data=(cfg["lm"] == 3), load_lazily=(cfg["lm"] == 1))
                for g, lid in it:
                    res.grains.append(item(env, cfg, lid, g))
            return res
        later = []
        with gsf.GSFDecoder(file_data=f, **kw) as dec:
            res.head = head_of(env, dec.file_headers)
            for g, lid in dec.grains(local_ids=lids, loading_mode=mode):
                env.step()
                if cfg["when"] == 0:
                    res.grains.append(item(env, cfg, lid, g))
                else:
                    later.append((lid, g))
                    res.grains.append((lid, None))
            res.final_head = head_of(env, dec.file_headers)
            if cfg["when"] == 1:
                res.grains = [item(env, cfg, lid, g) for lid, g in later]
                later = []
        if later:
            res.grains = [item(env, cfg, lid, g) for lid, g in later]
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        res.exc = e
    return res


async def adecode(env, loop, data, cfg):
    res = Result()
    f, raw = open_async_source(env, loop, data, cfg)
    res.raw = raw
    mode = MODES[cfg["lm"]]
    kw = {}
    if "sc" in cfg:
        kw["support_concatenation"] = cfg["sc"]
    later = []
    try:
        if cfg.get("api") == "load":
            if not isinstance(f, abio.AsyncBinaryIO):
                raise SkipCase()
            head, segs = await gsf.load(f, **kw)
            res.head = head_of(env, head)
            res.by_seg = {lid: [canon_of(env, g) for g in gs] for lid, gs in segs.items()}
            return res
        async with gsf.GSFDecoder(file_data=f, **kw) as dec:
            res.head = head_of(env, dec.file_headers)
            async for g, lid in dec.grains(local_ids=cfg.get("lids"), loading_mode=mode):
                env.step()
                if cfg["when"] == 0:
                    res.grains.append(await aitem(env, cfg, lid, g, cfg["lm"] in (1, 2)))
                else:
                    later.append((lid, g))
                    res.grains.append((lid, None))
            res.final_head = head_of(env, dec.file_headers)
            if cfg["when"] == 1:
                res.grains = []
                for lid, g in later:
                    res.grains.append(await aitem(env, cfg, lid, g, cfg["lm"] in (1, 2)))
                later = []
        if later:
            res.grains = [item(env, cfg, lid, g) for lid, g in later]
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        res.exc = e
        if cfg.get("tol"):
            res.grains = [item(env, cfg, lid, g) for lid, g in later] if later else res.grains
    return res


def decode(env, data, cfg):
    if cfg["mode"] == "sync":
        r = decode_sync(env, data, cfg)
    else:
        r = run_async(env, lambda loop: adecode(env, loop, data, cfg))
    env.ev("dec", cfg["mode"], cfg["tr"], cfg["lm"], len(r.grains), type(r.exc).__name__)
    return r


def expect_of(cfg, exps, seekable=True):
    """What decode() must deliver for grains whose canonical values are exps [(lid, canon)], in order."""
    lm = cfg["lm"]
    api = cfg.get("api", "ctx")
    if api in ("load", "loads", "decode"):
        lm = 0
    if api == "legacy" and lm == 2:
        lm = 0
    if lm == 3:
        return [(lid, M.no_data(e)) for lid, e in exps]
    if lm == 2 and cfg["mode"] == "async" and cfg["when"] == 2 and not cfg["tr"].startswith("stream"):
        # never awaited before the session closed: permanently without data
        return [(lid, M.no_data(e)) for lid, e in exps]
    return exps


def check_decoded(env, cfg, exps, res, what):
    exps = expect_of(cfg, exps)
    if hasattr(res, "by_seg"):
        want = {}
        for lid, e in exps:
            want.setdefault(lid, []).append(e)
        env.check(sorted(want) == sorted(res.by_seg), "grain-mismatch", "%s: segments %r, expected %r", what,
                  sorted(res.by_seg), sorted(want))
        for lid in sorted(want):
            M.check_seq(env, [(lid, e) for e in want[lid]], [(lid, g) for g in res.by_seg[lid]],
                        "%s segment %d" % (what, lid))
        return
    lids = cfg.get("lids")
    if lids is not None:
        exps = [(lid, e) for lid, e in exps if lid in lids]
    M.check_seq(env, exps, res.grains, what)


# ---------------------------------------------------------------------------------------------------------------------
# encoding


def encoder_kwargs(h, with_segments):
    kw = {"major": h["major"], "id": M.uid("file", h["id"]), "created": M.created_dt(h),
          "tags": [tuple(t) for t in h["tags"]]}
    if with_segments:
        kw["segments"] = [{"id": M.uid("seg", s["id"]), "local_id": s["lid"], "tags": [tuple(t) for t in s["tags"]]}
                          for s in h["segs"]]
    return kw


def add_flow(seg, s):
    if s["flow"] is not None:
        f = s["flow"]
        seg.add_flow(M.uid("src", f["src"]), M.uid("flow", f["flow"]), f["fmt"],
                     f["data"] if f["src"] % 2 else f["data"].encode("utf-8"))


def old_contents(cfg):
    """What the file holds before the dump: so many arbitrary bytes, or given ones."""
    old = cfg.get("old", 0)
    return old if isinstance(old, bytes) else M.payload(99, old)


def open_sync_sink(env, cfg):
    """Returns (file object, getter of final bytes, raw)."""
    tr = cfg["tr"]
    old = old_contents(cfg)
    kw = {"short": cfg.get("short", 0), "faults": cfg.get("faults", ()), "capacity": cfg.get("cap")}
    if tr == "bytesio":
        f = io.BytesIO(old)
        return f, f.getvalue, None
    if tr in ("pipe", "rawpipe"):
        p = SimPipeOut(env, short=kw["short"], faults=kw["faults"])
        f = io.BufferedWriter(p, 512) if tr == "pipe" else p
        return f, (lambda: (f.flush(), bytes(p.buf))[1]), p.raw
    raw = SimRaw(env, old if tr == "r+b" or isinstance(cfg.get("old"), bytes) else b"", **kw)
    if tr == "raw":
        return raw, (lambda: bytes(raw.buf)), raw
    f = opened(raw, tr)
    return f, (lambda: (f.flush(), bytes(raw.buf))[1]), raw


def open_async_sink(env, loop, cfg):
    tr = cfg["tr"]
    if tr == "abytes":
        f = abio.AsyncBytesIO(old_contents(cfg))
        return f, f.getvalue, None
    if tr == "abytesw":
        b = io.BytesIO(old_contents(cfg))
        return abio.AsyncBytesIOWrapper(b), b.getvalue, None
    if tr in ("stream", "stream-open"):
        w, t = make_writer(env, loop, high=cfg.get("high", 64), fail_after=cfg.get("fail_after"))
        cls = abio.AsyncStreamWrapper if tr == "stream" else abio.OpenAsyncStreamWrapper
        return cls(writer=w), (lambda: bytes(t.data)), t
    kind, sub = tr.split("-", 1)
    c = dict(cfg)
    c["tr"] = sub
    f, get, raw = open_sync_sink(env, c)
    return (abio.AsyncFileWrapper(f) if kind == "afile" else f), get, raw


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()
