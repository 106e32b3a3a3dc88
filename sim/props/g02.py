"""G02: a progressive dump cut off at any point still reads as an exact prefix."""
from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import decode, gen_dec_cfg, gsf
from ..enc import encode, gen_ops, unique_ids, valid_ops

ID = "G02"
RUNS = {"quick": 12000, "thorough": 500000}
RULE = ("A case is a file description, a progressive encoder configuration on simulated storage, a pipe or a socket, "
        "and up to six pairs of a crash point (between two raw writes, or inside one) and a decoder configuration. "
        "Non-trivial: at least one crash image lies inside the grains or inside the patching of segment counts.")
REAL = ["mediagrains.gsf encoders and decoders", "mediagrains.utils.asyncbinaryio", "mediagrains.utils.iobytes",
        "io.Buffered* (so that unflushed bytes are lost with the process)"]
STUB = ["raw files, pipes and socket transport (journal of raw writes, torn last write, short transfers)",
        "clock, selector, thread pool", "process death (reconstruction of the surviving image from the journal)"]
ASSUMPTIONS = ["Raw writes reach storage in the order they were issued; only the last one can be torn.",
               "The reference parser is a faithful reading of gsf_docs."]

SYNC_TR = ["wb", "r+b", "raw", "pipe", "rawpipe"]
ASYNC_TR = ["afile-wb", "afile-raw", "afile-pipe", "stream", "stream-open", "plain-wb"]


def generate(rng, tier):
    h = M.gen_head(rng)
    ops = gen_ops(rng, h, 6, big=rng.randrange(8) == 0)
    mode = rng.choice(["sync", "async"])
    enc = {"mode": mode, "tr": rng.choice(SYNC_TR if mode == "sync" else ASYNC_TR),
           "api": "ctx-stream" if mode == "async" else rng.choice(["ctx-stream", "ctx-stream", "legacy-start"]),
           "decl": rng.randrange(2), "pre": rng.choice([0, 0, rng.randrange(len(ops) + 1)]), "old": 0,
           "high": rng.choice([0, 64, 4096]), "short": rng.randrange(3)}
    cuts = []
    for _ in range(6):
        d = gen_dec_cfg(rng)
        d["tol"] = True
        # where: fraction of the raw operations, or counted from the end, or an absolute byte of the final file
        cuts.append([rng.randrange(3), rng.randrange(10**6), rng.randrange(10**6), d])
    # the file may hold an earlier, usually longer, dump already
    old = None
    if rng.randrange(3) == 0:
        oh = h if rng.randrange(2) else M.gen_head(rng)
        old = {"head": oh, "grains": [[rng.choice(oh["segs"])["lid"], M.gen_grain(rng, 100 + i, oh["major"])]
                                      for i in range(rng.randrange(1, 9))]}
    return {"head": h, "ops": ops, "enc": enc, "cuts": cuts, "old": old}


def crash_image(r, data, cut):
    """What is on storage, or has reached the other end, when the process dies at the chosen instant."""
    where, a, b, _ = cut
    j = getattr(r.raw, "journal", None)
    if j is None:
        # a byte stream: the other end has received a leading part
        return data[:a % (len(data) + 1)] if where else data[:max(0, len(data) - a % 40)]
    n = len(j)
    if n == 0:
        return b""
    if where == 0:
        k = 1 + a % n
    elif where == 1:
        k = n - a % min(n, 8)
    else:
        # the write that carried a chosen byte of the file
        pos = a % (len(data) + 1)
        k = next((i + 1 for i, o in enumerate(j) if o[0] == "w" and o[1] <= pos < o[1] + len(o[2])), n)
    op = j[k - 1]
    torn = b % (len(op[2]) + 1) if op[0] == "w" else None
    return r.raw.image(k, torn)


def execute(env, case):
    h, ops, enc = case["head"], case["ops"], case["enc"]
    if h is None or enc is None or not M.valid_head(h) or not unique_ids(h) or not valid_ops(h, ops):
        raise SkipCase()
    old = case.get("old")
    if old is not None:
        oh = old["head"]
        if oh is None or not M.valid_head(oh):
            raise SkipCase()
        M.need_valid([d for _, d in old["grains"]], oh["major"])
        enc = dict(enc, old=R.enc_file(oh, [(lid, d) for lid, d in old["grains"]])[0])
        env.probe("old-file")
    r = encode(env, h, ops, enc)
    env.check(r.exc is None, "encode-failed", "encoding failed at %r: %r", r.exc_at, r.exc)
    data = r.data
    try:
        full = R.parse_file(data)
    except R.RefError as e:
        env.fail("nonconforming-file", "%s", e)
    for cut in case["cuts"]:
        env.fault("crash")
        check_image(env, h, full, crash_image(r, data, cut), cut[3])


def check_image(env, h, full, img, cfg):
    try:
        ref = R.parse_file(img, partial=True)
    except R.RefError as e:
        env.fail("nonconforming-image", "what survives a crash after %d bytes is not a leading part of a file: %s",
                 len(img), e)
    k = len(ref["grains"])
    # what is complete on storage is a leading part of what was written
    M.check_seq(env, full["grains"][:k], ref["grains"], "crash image of %d bytes" % len(img))
    what = "reading the first %d bytes that survived (%s/%s/%s)" % (len(img), cfg["mode"], cfg["tr"], cfg.get("api"))
    res = decode(env, img, cfg)
    if ref["head"] is None:
        env.probe("cut-in-header")
        env.check(res.exc is not None, "no-error", "%s: the header is incomplete but no error was raised", what)
        env.check(isinstance(res.exc, (EOFError, gsf.GSFError)), "wrong-error", "%s: incomplete header: %s: %s", what,
                  type(res.exc).__name__, res.exc)
        env.check(not res.grains and res.head is None, "grain-mismatch", "%s: grains without a header", what)
        return
    counts = {s["lid"]: (sum(1 for lid, _ in ref["grains"] if lid == s["lid"]), "neg") for s in h["segs"]}
    M.check_head(env, M.expected_head(h, counts), ref["head"], "crash image of %d bytes" % len(img))
    lazy_exit = cfg["mode"] == "async" and cfg["lm"] == 1 and cfg.get("api") == "ctx"
    if res.exc is not None and not (lazy_exit and isinstance(res.exc, EOFError) and k < len(full["grains"])):
        env.fail("decode-failed", "%s: %s: %s", what, type(res.exc).__name__, res.exc)
    counts = {s["lid"]: s["count"] for s in ref["head"]["segs"]}
    M.check_head(env, M.expected_head(h, counts), res.head, what)
    if k < len(full["grains"]):
        env.probe("cut-in-grains")
        env.nontrivial = True
    elif not ref["terminated"]:
        env.probe("cut-after-grains")
        env.nontrivial = True
    if hasattr(res, "by_seg"):
        want = {}
        for lid, e in ref["grains"]:
            want.setdefault(lid, []).append(e)
        env.check(sorted(want) == sorted(res.by_seg), "grain-mismatch", "%s: segments %r, expected %r", what,
                  sorted(res.by_seg), sorted(want))
        for lid in sorted(want):
            M.check_seq(env, [(lid, e) for e in want[lid]], [(lid, g) for g in res.by_seg[lid]], what)
        return
    got = list(res.grains)
    exps = list(ref["grains"])
    if cfg["lm"] == 3:
        exps = [(lid, M.no_data(e)) for lid, e in exps]
    elif cfg["lm"] == 2 and cfg["mode"] == "async" and cfg["when"] == 2 and not cfg["tr"].startswith("stream"):
        exps = [(lid, M.no_data(e)) for lid, e in exps]
    if len(got) == k + 1 and k < len(full["grains"]):
        # the incomplete grain may be announced, but then its data must be reported missing, not made up
        lid, g = got.pop()
        flid, fe = full["grains"][k]
        deferred = cfg["lm"] in (1, 2) and cfg.get("api") in ("ctx", "legacy")
        env.check(cfg["lm"] == 3 or deferred, "grain-mismatch",
                  "%s: delivers an incomplete grain as if it were complete", what)
        if "torn" in g:
            g = g["torn"]
            env.probe("torn-data-reported")
        else:
            never = cfg["lm"] == 3 or (cfg["mode"] == "async" and cfg["when"] == 2)
            env.check(never, "grain-mismatch", "%s: the incomplete grain's data was read without an error", what)
            env.probe("torn-grain-without-data")
        M.check_seq(env, [(flid, M.no_data(fe))], [(lid, g)], what + " (incomplete grain)")
    M.check_seq(env, exps, got, what)
