"""G03: storage errors are reported and never turn into wrong data."""
import asyncio

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import adecode, check_decoded, decode, gen_dec_cfg
from ..enc import encode, gen_ops, unique_ids, valid_ops
from ..loop import run_async

ID = "G03"
RUNS = {"quick": 40000, "thorough": 600000}
RULE = ("A case is a file description and either an encoder configuration with write faults (an error or short "
        "transfer at a chosen raw write, a full disk, a connection reset) or a decoder configuration with read faults "
        "(an error at a chosen raw read, a connection reset or stall at a chosen byte). "
        "Non-trivial: at least one injected error was hit.")
REAL = ["mediagrains.gsf encoders and decoders", "mediagrains.utils.asyncbinaryio", "mediagrains.utils.iobytes",
        "io.Buffered*, asyncio streams"]
STUB = ["raw files, pipes, disk capacity and socket transport (seeded errors, short transfers, resets, stalls)",
        "clock, selector, thread pool"]
ASSUMPTIONS = ["A failing raw write stores nothing, or, for short and full-disk writes, a leading part.",
               "The reference parser is a faithful reading of gsf_docs."]

SYNC_TR = ["wb", "r+b", "raw", "raw", "pipe", "rawpipe"]
ASYNC_TR = ["afile-wb", "afile-raw", "afile-raw", "afile-pipe", "stream", "stream-open", "plain-wb"]
UNBUF = ("raw", "rawpipe", "afile-raw")
READ_SYNC = ["buf", "raw"]
READ_ASYNC = ["afile-buf", "afile-raw", "stream", "stream-open"]
ERRORS = ("write-eio", "write-enospc", "disk-full", "net-write-reset")


def gen_write_faults(rng, enc):
    fs = []
    if enc["tr"].startswith("stream"):
        enc["fail_after"] = rng.choice([rng.randrange(60), rng.randrange(400), rng.randrange(4000)])
        return fs
    k = rng.randrange(4)
    if k == 0 and enc["tr"] not in ("pipe", "rawpipe", "afile-pipe"):
        enc["cap"] = rng.choice([rng.randrange(60), rng.randrange(400), rng.randrange(4000)])
    else:
        at = rng.choice([rng.randrange(3), rng.randrange(8), rng.randrange(40)])
        kind = rng.choice(["eio", "enospc"])
        if rng.randrange(3) == 0:
            # what a real disk does: a short write first, the error on the next attempt
            fs.append({"op": "write", "n": at, "kind": "short"})
            at += 1
        fs.append({"op": "write", "n": at, "kind": kind})
        if rng.randrange(3) == 0:
            fs += [{"op": "write", "n": at + 1 + i, "kind": kind} for i in range(rng.randrange(1, 30))]
    return fs


def generate(rng, tier):
    h = M.gen_head(rng)
    ops = gen_ops(rng, h, 7, big=rng.randrange(6) == 0)
    if rng.randrange(2):
        mode = rng.choice(["sync", "async"])
        api = rng.choice(["ctx-stream", "ctx-stream", "ctx-stream", "ctx-batch"] if mode == "async" else
                         ["ctx-stream", "ctx-stream", "ctx-stream", "legacy-start", "legacy-dump", "ctx-batch"])
        enc = {"mode": mode, "tr": rng.choice(SYNC_TR if mode == "sync" else ASYNC_TR), "api": api,
               "decl": rng.randrange(2), "pre": 0, "old": 0, "high": rng.choice([0, 64, 4096]),
               "short": rng.choice([0, 0, 1, 2]), "persist": rng.randrange(2)}
        if mode == "async":
            # what goes straight into a segment is written with the next grain added to the encoder; keep one order
            for o in ops:
                if o[1] in (2, 3):
                    o[1] = 1
        enc["faults"] = gen_write_faults(rng, enc)
        return {"head": h, "ops": ops, "enc": enc, "dec": None}
    d = gen_dec_cfg(rng)
    d["tr"] = rng.choice(READ_SYNC if d["mode"] == "sync" else READ_ASYNC)
    if d["mode"] == "sync" and d["api"] in ("loads", "decode"):
        d["api"] = "load"
    if d.get("api") == "load" and d["tr"] == "stream-open":
        d["tr"] = "stream"
    d["limit"] = rng.choice([64, 2**16])
    d["faults"] = []
    if d["tr"].startswith("stream"):
        d["at"] = rng.randrange(1000)
        d["net_end"] = rng.choice(["reset", "reset", "stall"])
    else:
        d["at"] = rng.randrange(1000)
        d["nfaults"] = rng.choice([1, 1, 1, 2, 50])
    return {"head": h, "ops": ops, "enc": None, "dec": d}


def execute(env, case):
    h, ops = case["head"], case["ops"]
    if h is None or not M.valid_head(h) or not unique_ids(h) or not valid_ops(h, ops):
        raise SkipCase()
    if case["enc"] is not None:
        writing(env, h, ops, case["enc"])
    elif case["dec"] is not None:
        reading(env, h, ops, case["dec"])
    else:
        raise SkipCase()


# ---------------------------------------------------------------------------------------------------------------------


def writing(env, h, ops, enc):
    r = encode(env, h, ops, enc)
    hit = sum(env.faults[k] for k in ERRORS)
    what = "%s/%s/%s" % (enc["mode"], enc["tr"], enc["api"])
    if hit == 0:
        env.check(r.exc is None and not r.errors, "encode-failed", "%s: no error was injected, but encoding failed: %r",
                  what, r.exc or r.errors)
    else:
        env.nontrivial = True
        env.check(r.exc is not None or r.errors, "error-not-reported",
                  "%s: %d write errors were injected, but no operation reported one", what, hit)
        env.probe("reported-at-%s" % ("op" if r.errors or isinstance(r.exc_at, int) else r.exc_at))
    img = bytes(r.raw.data if enc["tr"].startswith("stream") else r.raw.buf)
    surviving(env, h, ops, enc, r, img, what)
    # a program that ends closes its files, which may write out buffers once more
    if r.file is not None and hasattr(r.file, "close"):
        try:
            r.file.close()
        except OSError:
            pass
        img2 = bytes(r.raw.buf) if not enc["tr"].startswith("stream") else img
        if img2 != img:
            env.probe("more-written-by-close")
            surviving(env, h, ops, enc, r, img2, what + ", closed")


def surviving(env, h, ops, enc, r, img, what):
    try:
        ref = R.parse_file(img, partial=True)
    except R.RefError as e:
        env.fail("nonconforming-image", "%s: after a write error the file is not a leading part of a GSF file: %s",
                 what, e)
    batch = enc["api"] in ("ctx-batch", "legacy-dump")
    failed = dict(r.errors)
    if isinstance(r.exc_at, int):
        failed[r.exc_at] = r.exc
    acked = set(r.acked)
    # what may be in the file, in order: [lid, canon, must be whole if anything later is]
    seq = []
    for i, (si, _, ds) in enumerate(ops):
        if i in acked or i in failed:
            seq.append((i in acked, [(h["segs"][si]["lid"], M.expected(d)) for d in ds]))
    if batch:
        per, got = {}, {}
        for _, gs in seq:
            for lid, e in gs:
                per.setdefault(lid, []).append((lid, e))
        for lid, e in ref["grains"]:
            got.setdefault(lid, []).append((lid, e))
        for lid in sorted(got):
            env.check(lid in per, "grain-mismatch", "%s: grain for segment %d appeared", what, lid)
            M.check_seq(env, per[lid][:len(got[lid])], got[lid], what)
    else:
        k = 0
        got = ref["grains"]
        for ok, gs in seq:
            for j, e in enumerate(gs):
                if k < len(got) and got[k][0] == e[0] and got[k][1] == e[1]:
                    k += 1
                    continue
                if ok and k < len(got):
                    env.fail("grain-mismatch", "%s: grain %d in the surviving file is not the next one that was added",
                             what, k)
                if ok and enc["tr"] in UNBUF and ref["head"] is not None:
                    env.fail("acknowledged-grain-lost", "%s: an acknowledged grain is not in the surviving file", what)
                break
        env.check(k == len(got), "grain-mismatch", "%s: %d grains in the surviving file that were not added", what,
                  len(got) - k)
    if ref["head"] is None:
        env.check(not ref["grains"], "grain-mismatch", "%s: grains without a header", what)
        env.check(enc["tr"] not in UNBUF or batch or not acked, "acknowledged-grain-lost",
                  "%s: grains were acknowledged, but there is not even a header", what)
        return
    counts = {}
    for s in h["segs"]:
        n = sum(1 for lid, _ in ref["grains"] if lid == s["lid"])
        if batch:
            n = sum(len(ds) for i, (si, _, ds) in enumerate(ops) if h["segs"][si]["lid"] == s["lid"] and i in acked)
        counts[s["lid"]] = (n, "neg")
    head = M.expected_head(h, counts)
    M.check_head(env, head, ref["head"], what)
    env.ev("survived", len(img), len(ref["grains"]), ref["terminated"])
    # and the library itself reads it so
    cfg = {"mode": "sync", "tr": "bytesio", "api": "ctx", "lm": 0, "when": 0}
    res = decode(env, img, cfg)
    env.check(res.exc is None, "decode-failed", "%s: reading the surviving file: %r", what, res.exc)
    check_decoded(env, cfg, ref["grains"], res, what + ": reading the surviving file")


# ---------------------------------------------------------------------------------------------------------------------


def reading(env, h, ops, cfg):
    grains = [(h["segs"][si]["lid"], d) for si, _, ds in ops for d in ds]
    data, _ = R.enc_file(h, grains)
    exps = R.parse_file(data)["grains"]
    what = "%s/%s/%s" % (cfg["mode"], cfg["tr"], cfg.get("api"))
    cfg = dict(cfg)
    if cfg["tr"].startswith("stream"):
        cfg["net_cut"] = cfg["at"] * (len(data) + 10) // 1000
    else:
        # place the fault at a chosen fraction of the raw reads that an undisturbed decode needs
        clean = decode(env, data, cfg)
        env.check(clean.exc is None, "decode-failed", "%s: without any error: %r", what, clean.exc)
        at = cfg["at"] * (clean.raw.nread + 1) // 1000
        cfg["faults"] = [{"op": "read", "n": at + i, "kind": "eio"} for i in range(cfg["nfaults"])]
    stall = cfg["mode"] == "async" and cfg.get("net_end") == "stall"
    if stall:
        res = run_async(env, lambda loop: stalled(env, loop, data, cfg))
        if res is None:
            env.fault("net-stall")
            env.nontrivial = True
            return
    else:
        res = decode(env, data, cfg)
    hit = env.faults["read-eio"] + env.faults["net-reset"]
    # a reset or stall that comes after everything has been read need not be noticed
    whole = cfg["tr"].startswith("stream") and cfg["net_cut"] >= len(data)
    if hit:
        env.nontrivial = True
        if not whole:
            env.check(res.exc is not None, "error-not-reported", "%s: a read error was injected but nothing reported it",
                      what)
    if res.exc is not None:
        env.check(hit, "decode-failed", "%s: no read error was injected, but decoding failed: %s: %s", what,
                  type(res.exc).__name__, res.exc)
    if res.head is not None:
        counts = {}
        for lid, _ in exps:
            counts[lid] = counts.get(lid, 0) + 1
        M.check_head(env, M.expected_head(h, {s["lid"]: (counts.get(s["lid"], 0), "neg") for s in h["segs"]}), res.head,
                     what)
    if res.exc is None:
        check_decoded(env, cfg, exps, res, what)
        return
    if hasattr(res, "by_seg"):
        env.fail("error-not-reported", "%s: both a result and an error", what)
    got = [(lid, g) for lid, g in res.grains]
    env.check(len(got) <= len(exps), "grain-count", "%s: %d grains, the file has %d", what, len(got), len(exps))
    from ..drv import expect_of
    exps = expect_of(cfg, exps)
    for i, ((el, e), (gl, g)) in enumerate(zip(exps, got)):
        env.check(el == gl, "grain-mismatch", "%s: grain %d belongs to segment %r, expected %r", what, i, gl, el)
        if g is not None and g != e:
            env.fail("grain-mismatch", "%s: grain %d, delivered before the error, differs: %s", what, i, M.diff(e, g))
    env.probe("grains-before-error-%d" % min(len(got), 3))


async def stalled(env, loop, data, cfg):
    """The peer falls silent.  The reader must wait (not make data up) and be cancellable."""
    try:
        return await asyncio.wait_for(adecode(env, loop, data, cfg), 1000)
    except asyncio.TimeoutError:
        return None
