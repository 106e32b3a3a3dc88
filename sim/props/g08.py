"""G08: readers skip what they do not know, and follow concatenated files."""
import string
import warnings

from .. import gsfref as R
from .. import model as M
from ..core import HarnessError, SkipCase, Violation
from ..drv import (ASYNC_READ, MODES, SYNC_READ, aitem, check_decoded, decode, expect_of, gsf, head_of, item,
                   open_async_source, open_sync_source)
from ..loop import run_async

ID = "G08"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = ("A case is one to four files with their own versions and headers, additions to each (unknown blocks, fill "
        "blocks, known blocks where they mean nothing, properties after the known ones, higher minor versions), and "
        "three readers. Non-trivial: something was added, or there is more than one file.")
REAL = ["mediagrains.gsf decoders", "mediagrains.utils", "mediagrains.grains", "io.Buffered*", "asyncio streams"]
STUB = ["raw files and sockets (short transfers, chunks, delays, early end)", "clock, selector, thread pool"]
ASSUMPTIONS = ["The reference encoder in sim/gsfref.py is a faithful reading of gsf_docs.",
               "Tags of unknown blocks are printable ASCII, as the format asks for."]

KNOWN = ["head", "segm", "tag ", "flow", "gbhd", "tils", "vghd", "comp", "cghd", "unof", "aghd", "cahd", "eghd", "grdt"]
# what a block of a known type would mean at each level, so must not be added there
MEANS = {"file:blocks": ["head", "grai"], "head:blocks": ["segm", "tag "], "segm:blocks": ["flow", "tag "],
         "gbhd:blocks": ["tils", "vghd", "cghd", "aghd", "cahd", "eghd"], "vghd:blocks": ["comp"],
         "cghd:blocks": ["unof"], "grai:blocks": ["gbhd", "grdt"], "grai:tail": ["gbhd", "grdt"]}
KINDS = ["unknown", "unknown", "fill", "known", "near", "deep", "empty", "many", "nested"]
NEAR = ["GRAI", "Grai", "graj", "grau", "heae", "SSBC", "grdu", "gbhe", "segn", "tag_", "tagx", "flox", "til ", "vgh ",
        "com ", "uno ", "SBBg", "0000", "~~~~", "    ", "a   "]


class Counting(R.Extras):
    def __init__(self):
        self.sites = []

    def pick(self, site):
        self.sites.append(site)
        return b""


class Added(R.Extras):
    """Additions at numbered places: ex is [[call number, kind, n, length], ...]."""

    def __init__(self, ex, env=None, clean=b""):
        self.at = {}
        for e in ex:
            self.at.setdefault(e[0], []).append(e)
        self.n = 0
        self.env = env
        self.clean = clean

    def pick(self, site):
        n = self.n
        self.n += 1
        out = b""
        for _, kind, k, length in self.at.get(n, []):
            if site.endswith(":props"):
                self.env.fault("added-properties")
                out += M.payload(k, length, k % 3)
                continue
            self.env.fault("added-block-" + kind)
            for j in range(3 if kind == "many" else 1):
                out += self.block(site, kind, k + j, length)
        return out

    def block(self, site, kind, k, length):
        means = MEANS[site]
        body = M.payload(k, length, k % 3)
        if kind == "fill":
            return R.block(b"fill", bytes(length) if k % 2 else body)
        if kind == "known":
            c = [t for t in KNOWN + ["grai"] if t not in means and not (t == "head" and site == "file:blocks")]
            if site == "file:blocks":
                c = [t for t in c if t != "grai"]
            return R.block(c[k % len(c)].encode(), body)
        if kind == "near":
            return R.block(near_tag(k, means).encode(), body)
        if kind == "empty":
            return R.block(tag_for(k), b"")
        if kind == "deep":
            # contents that look like the real thing
            c = self.clean
            if c:
                a = k % len(c) if k % 3 else 0
                body = (c[a:] + c)[:max(length, 8)] if k % 5 else c
            return R.block(tag_for(k), body)
        if kind == "nested":
            # contents that mean something, only not there
            w = [b for t, b in whole_blocks(self.clean) + SPARE if t in means or k % 4 == 0]
            w = w or [b for _, b in SPARE]
            body = b"".join(w[(k // (7 + j)) % len(w)] for j in range(1 + k % 3))
            return R.block(b"fill" if k % 11 == 0 else tag_for(k), body)
        return R.block(tag_for(k), body)


SPARE = [("tag ", R.block(b"tag ", b"\3\0key\5\0value")), ("fill", R.block(b"fill", bytes(5))),
         ("grdt", R.block(b"grdt", b"other data")),
         ("unof", R.block(b"unof", b"\1\0\7\0\0\0")), ("comp", R.block(b"comp", b"\1\0" + bytes(16))),
         ("eghd", R.block(b"eghd", b"\0")), ("aghd", R.block(b"aghd", bytes(14))),
         ("segm", R.block(b"segm", b"\x07\0" + bytes(24))),
         ("tils", R.block(b"tils", b"\1\0" + b"label" + bytes(15) + b"\x19\0\0\0\1\0\0\0\0"))]


def whole_blocks(b):
    """[(tag, block)] of the header and the grains of a file"""
    out = []
    skip = {b"head": 31, b"segm": 34, b"grai": 10}

    def walk(p, end):
        while p + 8 <= end:
            t, n = bytes(b[p:p + 4]), int.from_bytes(b[p + 4:p + 8], "little")
            if n < 8 or p + n > end:
                return
            if n <= 4000:
                out.append((t.decode("latin-1"), bytes(b[p:p + n])))
            if t in skip:
                walk(p + skip[t], p + n)
            p += n
    walk(12, len(b))
    return out


def near_tag(k, means):
    """A tag which looks like one that means something here: one character another, or in capitals."""
    if k % 4 == 0:
        return NEAR[(k >> 2) % len(NEAR)]
    t = means[(k >> 2) % len(means)]
    i = (k >> 6) % 4
    new = t[:i] + "aehgvcdz0_~ T"[(k >> 8) % 13] + t[i + 1:] if (k >> 12) % 5 else t.swapcase()
    return NEAR[0] if new in KNOWN + ["grai", "SSBB"] else new


def tag_for(k):
    abc = string.ascii_letters + string.digits + "_- "
    t = "".join(abc[(k >> (6 * i)) % len(abc)] for i in range(3))
    # the capital Z keeps it apart from every known tag
    return ("Z" + t).encode()


def generate(rng, tier):
    files = []
    for fn in range(rng.choice([1, 1, 2, 2, 3, 4])):
        h = M.gen_head(rng, 2)
        n = rng.choice([0, 1, 1, 2, 3])
        grains = [[rng.randrange(len(h["segs"])), M.gen_grain(rng, 10 * fn + k, h["major"], big=rng.randrange(12) == 0)] for k in range(n)]
        c = Counting()
        R.enc_file(h, [(h["segs"][si]["lid"], d) for si, d in grains], x=c)
        ex = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 12])):
            # by site first, so that the rare ones are as likely as the common ones
            site = rng.choice(sorted(set(c.sites)))
            at = rng.choice([i for i, s in enumerate(c.sites) if s == site])
            ex.append([at, rng.choice(KINDS), rng.randrange(10**6),
                       rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 40, rng.randrange(300), rng.randrange(3000)])])
        if tier == "thorough" and rng.randrange(6) == 0 and ex:
            ex[0][3] = rng.randrange(60000, 80000)
        files.append({"head": h, "grains": grains, "minor": rng.choice([0, 0, 1, 7, 255, 65535]),
                      "term": int(rng.randrange(5) > 0), "ex": ex, "counts": rng.choice([0, 0, 1])})
    for f in files[1:]:
        # parts of one recording
        for k in ("id", "created"):
            if rng.randrange(3) == 0:
                f["head"][k] = files[0]["head"][k]
    readers = []
    for _ in range(3):
        mode = rng.choice(["sync", "async"])
        r = {"mode": mode, "lm": rng.randrange(4), "when": rng.randrange(3), "short": rng.randrange(3)}
        if mode == "sync":
            r["tr"] = rng.choice(SYNC_READ)
            r["api"] = rng.choice(["ctx", "ctx", "ctx", "legacy", "load", "loads", "decode"])
        else:
            r["tr"] = rng.choice(ASYNC_READ)
            r["api"] = rng.choice(["ctx", "ctx", "ctx", "load"])
            r["chunk"] = rng.randrange(3)
            r["limit"] = rng.choice([64, 2 ** 16])
        if rng.randrange(3) == 0:
            r["sc"] = rng.choice([True, False])
        if r["api"] in ("ctx", "legacy") and rng.randrange(4) == 0:
            r["lids"] = [s["lid"] for f in files for s in f["head"]["segs"] if rng.randrange(2)]
        readers.append(r)
    return {"files": files, "readers": readers, "cut": rng.choice([None] * 7 + [rng.randrange(10**6)])}


def valid(case):
    try:
        for f in case["files"]:
            h = f["head"]
            if not M.valid_head(h) or not 0 <= f["minor"] <= 65535:
                raise SkipCase()
            M.need_valid([d for _, d in f["grains"]], h["major"])
            for si, _ in f["grains"]:
                h["segs"][si]
                if si < 0:
                    raise SkipCase()
            for at, kind, k, length in f["ex"]:
                if kind not in KINDS or min(at, k, length) < 0 or length > 100000:
                    raise SkipCase()
        for r in case["readers"]:
            if r["mode"] not in ("sync", "async") or not 0 <= r["lm"] <= 3:
                raise SkipCase()
            if r["tr"] not in (SYNC_READ if r["mode"] == "sync" else ASYNC_READ):
                raise SkipCase()
            if r.get("lids") is not None and not isinstance(r["lids"], list):
                raise SkipCase()
        if not case["files"]:
            raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError):
        raise SkipCase()


def build(env, f):
    h = f["head"]
    grains = [(h["segs"][si]["lid"], d) for si, d in f["grains"]]
    counts = {s["lid"]: -1 for s in h["segs"]} if f["counts"] else None
    clean, _ = R.enc_file(h, grains, counts)
    data, pos = R.enc_file(h, grains, counts, Added(f["ex"], env, clean), bool(f["term"]), f["minor"])
    # the reference parser must not notice the difference either, or the case itself is wrong
    try:
        a, b = R.parse_file(clean), R.parse_file(data, partial=not f["term"])
    except R.RefError as e:
        raise HarnessError("reference encoder and parser disagree: %s" % e)
    if a["head"] != b["head"] or a["grains"] != b["grains"]:
        raise HarnessError("reference parser sees the additions")
    return data, b, pos


def execute(env, case):
    valid(case)
    data = b""
    want = []           # (lid, canon, file number)
    ends = []
    heads = []
    for i, f in enumerate(case["files"]):
        d, p, pos = build(env, f)
        if f["ex"] or f["minor"]:
            env.nontrivial = True
        # an unterminated file ends where the next one starts
        for (lid, e), (a, b, _, _) in zip(p["grains"], pos):
            want.append((lid, e, i))
            ends.append(len(data) + b)
        heads.append((p["head"], p["version"], len(data)))
        data += d
    if len(case["files"]) > 1:
        env.nontrivial = True
        env.fault("concatenated", )
    cut = case["cut"]
    if cut is not None:
        cut = cut % (len(data) + 1)
        data = data[:cut]
        env.fault("cut")
    for r in case["readers"]:
        one(env, case, r, data, want, ends, heads, cut)


def one(env, case, r, data, want, ends, heads, cut):
    what = "%s/%s/%s/%d" % (r["mode"], r["tr"], r["api"], r["lm"])
    sc = r.get("sc", True)
    last = 0 if not sc else len(heads) - 1
    exp = [w for w in want if w[2] <= last]
    cfg = dict(r)
    if cut is not None:
        # whatever is delivered is a leading part, with everything that is complete
        if r["api"] != "ctx":
            return
        whole = [w for w, e in zip(want, ends) if w[2] <= last and e <= cut]
        cfg["tol"] = True
        got = read(env, data, cfg)
        if got.exc is not None and not isinstance(got.exc, (EOFError, gsf.GSFError)):
            env.fail("wrong-error", "%s: %s: %s", what, type(got.exc).__name__, got.exc)
        if r.get("lids") is not None:
            whole = [w for w in whole if w[0] in r["lids"]]
            exp = [w for w in exp if w[0] in r["lids"]]
        env.check(len(whole) <= len(got.grains) <= len(whole) + 1, "grain-count",
                  "%s: %d grains from a file cut at %d, %d of them complete", what, len(got.grains), cut, len(whole))
        if len(got.grains) > len(whole):
            # the one which is cut off: without its data, or whole if only unknown blocks at its end are missing
            env.check(len(exp) > len(whole), "grain-count", "%s: a grain which is not there", what)
            lid, g = got.grains.pop()
            full = [(exp[len(whole)][0], exp[len(whole)][1])]
            if [(lid, g)] != full:
                env.check(r["lm"] != 0, "grain-mismatch", "%s: half a grain", what)
                M.check_seq(env, [(full[0][0], M.no_data(full[0][1]))], [(lid, g.get("torn", g))],
                            what + " (incomplete grain)")
        M.check_seq(env, values(cfg, whole), got.grains, what)
        check_heads(env, heads, whole, got, what)
        return
    if r["api"] != "ctx":
        if r["api"] == "legacy":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = decode(env, data, cfg)
        else:
            res = decode(env, data, cfg)
        if res.exc is not None:
            env.fail("decode-failed", "%s: %s: %s", what, type(res.exc).__name__, res.exc)
        check_decoded(env, cfg, [(lid, e) for lid, e, _ in exp], res, what)
        # load() and the like return the last header read
        M.check_head(env, heads[0 if r["api"] == "legacy" else last][0], res.head, what)
        return
    res = read(env, data, cfg)
    if res.exc is not None:
        env.fail("decode-failed", "%s: %s: %s", what, type(res.exc).__name__, res.exc)
    if r.get("lids") is not None:
        exp = [w for w in exp if w[0] in r["lids"]]
    M.check_seq(env, values(cfg, exp), res.grains, what)
    check_heads(env, heads, exp, res, what)
    M.check_head(env, heads[last][0], res.final[0], what + " at the end")
    env.check(res.final[1] == heads[last][1], "version", "%s: version %r at the end, expected %r", what, res.final[1],
              heads[last][1])


def values(cfg, exp):
    return expect_of(cfg, [(lid, e) for lid, e, _ in exp])


def check_heads(env, heads, exp, res, what):
    if res.first is not None:
        M.check_head(env, heads[0][0], res.first, what + " at the start")
    for i, (w, hv) in enumerate(zip(exp, res.at)):
        M.check_head(env, heads[w[2]][0], hv[0], "%s with grain %d" % (what, i))
        env.check(hv[1] == heads[w[2]][1], "version", "%s: version %r with grain %d, expected %r", what, hv[1], i,
                  heads[w[2]][1])


class Res:
    def __init__(self):
        self.grains = []
        self.at = []
        self.exc = None
        self.first = None
        self.final = None


def see(env, dec):
    return head_of(env, dec.file_headers), (dec.major, dec.minor)


def read(env, data, r):
    res = Res()
    kw = {"support_concatenation": r["sc"]} if "sc" in r else {}
    try:
        if r["mode"] == "sync":
            read_sync(env, res, data, r, kw)
        else:
            run_async(env, lambda loop: read_async(env, loop, res, data, r, kw))
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        res.exc = e
    env.ev("read", r["mode"], r["tr"], len(res.grains), type(res.exc).__name__)
    return res


def read_sync(env, res, data, r, kw):
    f, _ = open_sync_source(env, data, r)
    later = []
    try:
        with gsf.GSFDecoder(file_data=f, **kw) as dec:
            res.first = see(env, dec)[0]
            for g, lid in dec.grains(local_ids=r.get("lids"), loading_mode=MODES[r["lm"]]):
                env.step()
                res.at.append(see(env, dec))
                if r["when"] == 0:
                    res.grains.append(item(env, r, lid, g))
                else:
                    later.append((lid, g))
            res.final = see(env, dec)
    finally:
        for lid, g in later:
            res.grains.append(item(env, r, lid, g))


async def read_async(env, loop, res, data, r, kw):
    f, _ = open_async_source(env, loop, data, r)
    later = []
    try:
        async with gsf.GSFDecoder(file_data=f, **kw) as dec:
            res.first = see(env, dec)[0]
            try:
                async for g, lid in dec.grains(local_ids=r.get("lids"), loading_mode=MODES[r["lm"]]):
                    env.step()
                    res.at.append(see(env, dec))
                    if r["when"] == 0:
                        res.grains.append(await aitem(env, r, lid, g, r["lm"] in (1, 2)))
                    else:
                        later.append((lid, g))
                res.final = see(env, dec)
            finally:
                if r["when"] == 1:
                    for lid, g in later:
                        res.grains.append(await aitem(env, r, lid, g, r["lm"] in (1, 2)))
                    later = []
    finally:
        for lid, g in later:
            res.grains.append(item(env, r, lid, g))
