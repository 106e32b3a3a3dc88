"""G01: what is encoded is what is decoded, over every transport, schedule and chunking."""
from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import check_decoded, decode, gen_dec_cfg, gsf, seekable_write
from ..enc import (encode, expected_by_segment, expected_global, gen_enc_cfg, gen_ops, unique_ids, valid_ops)

ID = "G01"
RUNS = {"quick": 30000, "thorough": 900000}
RULE = ("A case is a file description (version, header, segments, tags, flow metadata, up to 8 grains of every type "
        "with boundary values), an encoder configuration (sync/async, transport, streaming or not, how segments and "
        "grains are handed over) and two decoder configurations (sync/async, transport, chunking, loading mode). "
        "Non-trivial: at least one grain was written and decoded.")
REAL = ["mediagrains.gsf encoders and decoders", "mediagrains.utils.asyncbinaryio", "mediagrains.utils.iobytes",
        "mediagrains.grains", "asyncio event loop, streams, io.Buffered*"]
STUB = ["selector and clock (virtual time)", "thread pool (seeded job start/finish times)",
        "raw files, pipes and socket transport (seeded short transfers, chunking, delays, back-pressure)",
        "uuid1/uuid4 and wall clock"]
ASSUMPTIONS = ["The reference model in sim/gsfref.py and sim/model.py is a faithful reading of gsf_docs.",
               "Apart from values that must be refused, grain values stay inside the ranges the format can represent."]


def generate(rng, tier):
    h = M.gen_head(rng)
    ops = gen_ops(rng, h, 8, big=(tier == "thorough" or rng.randrange(6) == 0))
    enc = gen_enc_cfg(rng, len(ops))
    decs = [gen_dec_cfg(rng), gen_dec_cfg(rng)]
    for d in decs:
        if d.get("api") in ("ctx", "legacy") and rng.randrange(4) == 0:
            d["lids"] = rng.sample([s["lid"] for s in h["segs"]] + [77], rng.randrange(1, len(h["segs"]) + 1))
    return {"head": h, "ops": ops, "enc": enc, "decs": decs}


def execute(env, case):
    h, ops, enc = case["head"], case["ops"], case["enc"]
    if h is None or enc is None or not M.valid_head(h) or not unique_ids(h) or not valid_ops(h, ops):
        raise SkipCase()
    r = encode(env, h, ops, enc)
    if r.exc is not None:
        env.fail("encode-failed", "encoding failed at %r: %s: %s", r.exc_at, type(r.exc).__name__, r.exc)
    data = r.data
    # 1. the bytes conform to the documented format and hold exactly what was added
    try:
        ref = R.parse_file(data)
    except R.RefError as e:
        env.fail("nonconforming-file", "%s", e)
    env.check(ref["version"][0] == h["major"], "nonconforming-file", "version %r", ref["version"])
    env.check(ref["head"] is not None, "nonconforming-file", "no head block")
    per = {}
    for lid, g in ref["grains"]:
        per.setdefault(lid, []).append(g)
    want = expected_by_segment(h, ops)
    env.check(sorted(per) == sorted(want), "grain-mismatch", "file has grains for segments %r, expected %r",
              sorted(per), sorted(want))
    for lid in sorted(want):
        M.check_seq(env, [(lid, e) for e in want[lid]], [(lid, g) for g in per[lid]], "file, segment %d" % lid)
    glob = expected_global(h, ops)
    buffered = enc["mode"] == "async" and any(op[1] in (2, 3) for op in ops[r.pre:])
    if enc["api"] in ("ctx-stream", "legacy-start") and not buffered:
        # grains added while the dump is progressing appear in the order they were added
        k = sum(len(op[2]) for op in ops[:r.pre])
        M.check_seq(env, glob[k:], ref["grains"][k:], "file, grains added while streaming")
    counts = {}
    batch = enc["api"] in ("ctx-batch", "legacy-dump")
    for s in h["segs"]:
        n = len(want.get(s["lid"], []))
        counts[s["lid"]] = n if (batch or seekable_write(enc["tr"])) else (n, "neg")
    head = M.expected_head(h, counts)
    M.check_head(env, head, ref["head"], "file")
    env.ev("file", len(data), len(ref["grains"]))
    # 2. every decoder reads exactly that back
    for i, cfg in enumerate(case["decs"]):
        res = decode(env, data, cfg)
        what = "decode %d (%s/%s/%s)" % (i, cfg["mode"], cfg["tr"], cfg.get("api"))
        if res.exc is not None:
            env.fail("decode-failed", "%s: %s: %s", what, type(res.exc).__name__, res.exc)
        M.check_head(env, head, res.head, what)
        check_decoded(env, cfg, ref["grains"], res, what)
        env.probe("dec-%s-%s" % (cfg["mode"], cfg["tr"]))
    env.probe("enc-%s-%s-%s" % (enc["mode"], enc["tr"], enc["api"]))
    env.nontrivial = bool(glob)
    # 3. what does not fit in the format is not written as something else
    ds = [d for op in ops for d in op[2]]
    if ds and env.chance(1, 3):
        d = ds[env.choose(len(ds))]
        g = M.to_grain(d)
        M.spoil(g, d, h["major"], env.choose(12))
        try:
            gsf.dumps([g], major=h["major"])
        except gsf.GSFEncodeError:
            env.fault("unwritable-grain")
        else:
            env.fail("written-as-another", "a grain with values that the format cannot hold was written")
