"""Drives the real encoders through a list of operations.

ops: [[segment index, route, [grain descriptors]], ...]
routes: 0 encoder.add_grain(segment_local_id=)  1 encoder.add_grains(segment_local_id=)  2 segment.add_grain
        3 segment.add_grains  4 encoder.add_grain(segment_id=)  5 encoder.add_grains(iterator, segment_id=)
cfg:  mode, tr, api (ctx-stream | ctx-batch | legacy-dump | legacy-start), decl (0 constructor, 1 add_segment before
      entering, 2 add_segment on the open encoder; batch only), pre (how many ops happen before entering)
"""
import asyncio
import io

from . import model as M
from .core import HarnessError, SkipCase, Violation
from .drv import add_flow, encoder_kwargs, gsf, old_contents, open_async_sink, open_sync_sink, quiet
from .loop import run_async

SYNC_API = ["ctx-stream", "ctx-stream", "ctx-batch", "legacy-dump", "legacy-start"]
ASYNC_API = ["ctx-stream", "ctx-stream", "ctx-batch"]


class EncResult:
    def __init__(self):
        self.data = b""
        self.exc = None
        self.exc_at = None      # index of the op that raised, "enter", "exit"
        self.acked = []         # op indices that returned normally
        self.raw = None
        self.errors = []        # (op index, exception) of failed ops, with cfg["persist"]
        self.file = None


def gen_ops(rng, h, nmax, big=False, types=None, route_max=6):
    n = rng.randrange(nmax + 1)
    ops = []
    k = 0
    while k < n:
        m = rng.choice([1, 1, 1, 2, 3])
        route = rng.randrange(route_max)
        if route in (0, 2, 4):
            m = 1
        ds = []
        for _ in range(m):
            ds.append(M.gen_grain(rng, k, h["major"], types, big))
            k += 1
        ops.append([rng.randrange(len(h["segs"])), route, ds])
    return ops


def gen_enc_cfg(rng, nops, sync=None):
    from .drv import ASYNC_WRITE, SYNC_WRITE
    mode = rng.choice(["sync", "async"]) if sync is None else ("sync" if sync else "async")
    c = {"mode": mode, "decl": rng.randrange(3), "pre": rng.choice([0, 0, rng.randrange(nops + 1)]),
         "old": rng.choice([0, 0, 50, 3000])}
    if mode == "sync":
        c["tr"] = rng.choice(SYNC_WRITE)
        c["api"] = rng.choice(SYNC_API)
    else:
        c["tr"] = rng.choice(ASYNC_WRITE)
        c["api"] = rng.choice(ASYNC_API)
        c["high"] = rng.choice([0, 64, 4096])
    c["short"] = rng.randrange(3)
    return c


def valid_ops(h, ops):
    try:
        for si, route, ds in ops:
            if not (0 <= si < len(h["segs"])) or not (0 <= route <= 5):
                return False
            if route in (0, 2, 4) and len(ds) != 1:
                return False
            for d in ds:
                if not M.valid_grain(d, h["major"]):
                    return False
        return True
    except (TypeError, ValueError, KeyError):
        return False


def seg_targets(h, si):
    """local id and uuid; uuid routing is only deterministic when it is unique among the segments."""
    s = h["segs"][si]
    return s["lid"], M.uid("seg", s["id"])


def unique_ids(h):
    ids = [s["id"] for s in h["segs"]]
    return len(set(ids)) == len(ids)


def _route(enc, segobj, h, op, gs):
    """(callable, args, kwargs, is_encoder_method)"""
    si, route, _ = op
    lid, sid = seg_targets(h, si)
    if route == 0:
        return enc.add_grain, (gs[0],), {"segment_local_id": lid}, True
    if route == 1:
        return enc.add_grains, (gs,), {"segment_local_id": lid}, True
    if route == 2:
        return segobj.add_grain, (gs[0],), {}, False
    if route == 3:
        return segobj.add_grains, (gs,), {}, False
    if route == 4:
        return enc.add_grain, (gs[0],), {"segment_id": sid}, True
    return enc.add_grains, (iter(gs),), {"segment_id": sid}, True


def declare(target, h):
    segs = {}
    for s in h["segs"]:
        sg = target.add_segment(id=M.uid("seg", s["id"]), local_id=s["lid"], tags=[tuple(t) for t in s["tags"]])
        add_flow(sg, s)
        segs[s["lid"]] = sg
    return segs


def encode_sync(env, h, ops, cfg):
    r = EncResult()
    f, get, raw = open_sync_sink(env, cfg)
    r.raw = raw
    r.get = get
    r.file = f
    api = cfg["api"]
    decl = cfg["decl"] if api == "ctx-batch" else min(cfg["decl"], 1)
    pre = 0 if decl == 2 else min(cfg["pre"], len(ops))
    if api == "legacy-dump":
        pre = len(ops)
    stage = ["ctor"]
    try:
        enc = gsf.GSFEncoder(f, streaming=(api == "ctx-stream"), **encoder_kwargs(h, decl == 0))
        segs = {}
        if decl == 0:
            segs = dict(enc.segments)
            for s in h["segs"]:
                add_flow(segs[s["lid"]], s)
        elif decl == 1:
            segs = declare(enc, h)

        def do(target, i):
            stage[0] = i
            si = ops[i][0]
            gs = [M.to_grain(d) for d in ops[i][2]]
            fn, a, k, _ = _route(target, segs[h["segs"][si]["lid"]], h, ops[i], gs)
            try:
                fn(*a, **k)
            except Exception as e:
                if not cfg.get("persist"):
                    raise
                r.errors.append((i, e))
                return
            r.acked.append(i)
            env.step()

        for i in range(pre):
            do(enc, i)
        r.pre = pre
        stage[0] = "enter"
        if api.startswith("ctx"):
            with enc as oe:
                if decl == 2:
                    segs = declare(oe, h)
                for i in range(pre, len(ops)):
                    do(oe if (len(old_contents(cfg)) + i) % 3 else enc, i)
                stage[0] = "exit"
        elif api == "legacy-dump":
            quiet(enc.dump)
        else:
            quiet(enc.start_dump)
            for i in range(pre, len(ops)):
                do(enc, i)
            stage[0] = "exit"
            quiet(enc.end_dump)
        stage[0] = "flush"
        r.data = get()
        stage[0] = None
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        r.exc = e
        r.exc_at = stage[0]
    env.ev("enc", cfg["mode"], cfg["tr"], api, len(r.data), type(r.exc).__name__)
    return r


async def aencode(env, loop, h, ops, cfg):
    r = EncResult()
    f, get, raw = open_async_sink(env, loop, cfg)
    r.raw = raw
    r.get = get
    r.file = f
    api = cfg["api"]
    decl = cfg["decl"] if api == "ctx-batch" else min(cfg["decl"], 1)
    pre = 0 if decl == 2 else min(cfg["pre"], len(ops))
    stage = ["ctor"]
    try:
        enc = gsf.GSFEncoder(f, streaming=(api == "ctx-stream"), **encoder_kwargs(h, decl == 0))
        segs = {}
        if decl == 0:
            segs = dict(enc.segments)
            for s in h["segs"]:
                add_flow(segs[s["lid"]], s)
        elif decl == 1:
            segs = declare(enc, h)
        for i in range(pre):
            stage[0] = i
            gs = [M.to_grain(d) for d in ops[i][2]]
            fn, a, k, _ = _route(enc, segs[h["segs"][ops[i][0]]["lid"]], h, ops[i], gs)
            fn(*a, **k)
            r.acked.append(i)
        r.pre = pre
        stage[0] = "enter"
        async with enc as oe:
            if decl == 2:
                segs = declare(oe, h)
            for i in range(pre, len(ops)):
                stage[0] = i
                gs = [M.to_grain(d) for d in ops[i][2]]
                fn, a, k, onenc = _route(oe, segs[h["segs"][ops[i][0]]["lid"]], h, ops[i], gs)
                try:
                    x = fn(*a, **k)
                    if onenc:
                        await x
                except Exception as e:
                    if not cfg.get("persist"):
                        raise
                    r.errors.append((i, e))
                    continue
                r.acked.append(i)
                env.step()
            stage[0] = "exit"
        stage[0] = "flush"
        r.data = get()
        stage[0] = None
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        r.exc = e
        r.exc_at = stage[0]
    env.ev("enc", cfg["mode"], cfg["tr"], api, len(r.data), type(r.exc).__name__)
    return r


def encode(env, h, ops, cfg):
    if cfg["mode"] == "sync":
        return encode_sync(env, h, ops, cfg)
    return run_async(env, lambda loop: aencode(env, loop, h, ops, cfg))


def expected_by_segment(h, ops):
    out = {}
    for si, _, ds in ops:
        for d in ds:
            out.setdefault(h["segs"][si]["lid"], []).append(M.expected(d))
    return out


def expected_global(h, ops):
    return [(h["segs"][si]["lid"], M.expected(d)) for si, _, ds in ops for d in ds]


_ = (asyncio, io)
