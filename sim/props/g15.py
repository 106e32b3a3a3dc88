"""G15: damage inside one grain's payload or unknown blocks stays there."""
from .. import gsfref as R
from .. import model as M
from ..core import HarnessError, SkipCase, Violation
from ..drv import ASYNC_READ, MODES, SYNC_READ, expect_of, gsf, head_of, open_async_source, open_sync_source
from ..loop import run_async
from .g08 import Added, Counting

ID = "G15"
RUNS = {"quick": 24000, "thorough": 600000}
RULE = ("A case is a file with unknown blocks in it, a list of damages to payloads, to the contents of unknown blocks "
        "and to values in grain headers (bits flipped, bytes overwritten, also with pieces of this and other files), "
        "some of which happen while the file is being read, and three readers. Non-trivial: something was damaged.")
REAL = ["mediagrains.gsf decoders", "mediagrains.utils", "mediagrains.grains", "io.Buffered*", "asyncio streams"]
STUB = ["raw files and sockets (short transfers, chunks, delays, contents changing)", "clock, selector, thread pool"]
ASSUMPTIONS = ["Values in grain headers stay ones the format allows: nanoseconds below a second; texts are not damaged.",
               "An event grain whose payload is no longer an event may be reported with an error where it is loaded; a "
               "reader that loads at once need not go on after that."]
STYLE = ["random", "zero", "ones", "flip", "self", "foreign", "block", "tail"]
BLOCKS = [b"grai\0\0\0\0", b"SSBBgrsg\x07\0\0\0", b"SSBBgrsg\x09\0\0\0head", b"grdt\x08\0\0\0", b"grai\x0a\0\0\0\0\0",
          b"grdt\xff\xff\xff\x7f", b"gbhd\0\0\0\0", b"head\x1f\0\0\0", b"\0" * 8, b"grai\x08\0\0\0"]


def generate(rng, tier):
    h = M.gen_head(rng, 2)
    n = rng.choice([1, 2, 3, 3, 4, 6])
    grains = [[rng.randrange(len(h["segs"])), M.gen_grain(rng, k, h["major"], None, tier == "thorough")]
              for k in range(n)]
    c = Counting()
    R.enc_file(h, [(h["segs"][si]["lid"], d) for si, d in grains], x=c)
    ex = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        ex.append([rng.randrange(len(c.sites)), rng.choice(["unknown", "fill", "near", "deep", "nested"]), rng.randrange(10**6),
                   rng.choice([1, 8, 16, 40, rng.randrange(300)])])
    dam = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        dam.append([rng.choice(["payload", "payload", "payload", "unknown", "meta", "meta"]), rng.randrange(n),
                    rng.randrange(10**6), rng.choice([1, 1, 2, 8, 12, 40, 10**6]), rng.choice(STYLE),
                    rng.randrange(10**6)])
    readers = []
    for _ in range(3):
        mode = rng.choice(["sync", "async"])
        r = {"mode": mode, "lm": rng.randrange(4), "when": rng.randrange(3), "short": rng.randrange(3), "api": "ctx",
             "flight": None}
        if mode == "sync":
            r["tr"] = rng.choice(SYNC_READ)
        else:
            r["tr"] = rng.choice(ASYNC_READ)
            r["chunk"] = rng.randrange(3)
            r["limit"] = rng.choice([64, 2 ** 16])
        if rng.randrange(4) == 0:
            r["lids"] = [s["lid"] for s in h["segs"] if rng.randrange(2)]
        if rng.randrange(3) == 0 and r["tr"] in ("bytesio", "buf", "raw", "afile-buf", "afile-raw"):
            r["flight"] = [rng.randrange(n + 1), rng.randrange(len(dam))]
        if rng.randrange(5) == 0:
            r["api"] = "load"
        readers.append(r)
    return {"head": h, "grains": grains, "ex": ex, "dam": dam, "readers": readers,
            "cat": int(rng.randrange(4) == 0), "term": int(rng.randrange(5) > 0)}


def valid(case):
    try:
        h = case["head"]
        if not M.valid_head(h) or not case["grains"] or not case["readers"]:
            raise SkipCase()
        M.need_valid([d for _, d in case["grains"]], h["major"])
        for si, _ in case["grains"]:
            h["segs"][si]
            if si < 0:
                raise SkipCase()
        for at, kind, k, length in case["ex"]:
            if kind not in ("unknown", "fill", "near", "deep", "nested") or min(at, k, length) < 0 or length > 100000:
                raise SkipCase()
        for kind, gi, off, n, style, seed in case["dam"]:
            if kind not in ("payload", "unknown", "meta") or style not in STYLE or min(gi, off, n, seed) < 0 or \
                    gi >= len(case["grains"]):
                raise SkipCase()
        for r in case["readers"]:
            if r["mode"] not in ("sync", "async") or not 0 <= r["lm"] <= 3 or not 0 <= r["when"] <= 2 or \
                    r["api"] not in ("ctx", "load") or \
                    r["tr"] not in (SYNC_READ if r["mode"] == "sync" else ASYNC_READ):
                raise SkipCase()
            if r["flight"] is not None and (r["tr"] not in ("bytesio", "buf", "raw", "afile-buf", "afile-raw") or
                                            not 0 <= r["flight"][1] < len(case["dam"])):
                raise SkipCase()
            if r.get("lids") is not None and not isinstance(r["lids"], list):
                raise SkipCase()
    except (KeyError, TypeError, IndexError, ValueError):
        raise SkipCase()


def fixed_positions(b, start, end, major):
    """(bytes of one grain block which are tags, sizes, counts or its local id; spans of unknown blocks' contents)"""
    fixed = set(range(start, start + 10))
    unknown = []
    after = {b"gbhd": 32 + (16 if major == 7 else 0) + 2 * (10 if major == 7 else 11) + 16, b"vghd": 36, b"cghd": 29}

    def walk(p, end, known):
        while p < end:
            tag = bytes(b[p:p + 4])
            size = int.from_bytes(b[p + 4:p + 8], "little")
            fixed.update(range(p, p + 8))
            if tag not in known:
                unknown.append((p + 8, p + size))
            elif tag in (b"tils", b"comp", b"unof"):
                fixed.update((p + 8, p + 9))
                if tag == b"tils":
                    # texts stay what they are
                    for k in range(int.from_bytes(b[p + 8:p + 10], "little")):
                        fixed.update(range(p + 10 + 29 * k, p + 26 + 29 * k))
            elif tag in after:
                walk(p + 8 + after[tag], p + size, {b"gbhd": (b"tils", b"vghd", b"cghd", b"aghd", b"cahd", b"eghd"),
                                                    b"vghd": (b"comp",), b"cghd": (b"unof",)}[tag])
            p += size
    walk(start + 10, end, (b"gbhd", b"grdt"))
    return fixed, unknown


def damage(b, span, allowed, d, clean):
    """[(position, new byte)] for one damage within a span"""
    _, _, off, n, style, seed = d
    a, z = span
    if z <= a:
        return []
    p = a + off % (z - a)
    q = min(z, p + max(1, n))
    if style == "tail":
        # the last bytes look like the start of a block which goes on in what follows
        p, q = max(a, z - 8 + seed % 8), z
    n = q - p
    if style == "random":
        new = M.payload(seed, n, 0)
    elif style == "zero":
        new = bytes(n)
    elif style == "ones":
        new = b"\xff" * n
    elif style == "flip":
        return [(p, b[p] ^ 1 << seed % 8)] if allowed is None or p in allowed else []
    elif style == "self":
        at = seed % len(clean)
        new = (clean[at:] + clean)[:n]
    elif style == "foreign":
        new = M.payload(seed, n, 2)
    else:
        new = (BLOCKS[seed % len(BLOCKS)] * (n // 8 + 1))[:n]
    return [(p + i, x) for i, x in enumerate(new) if allowed is None or p + i in allowed]


def parsed(data, term):
    try:
        return R.parse_file(data, partial=not term)
    except (R.RefError, ValueError, UnicodeDecodeError):
        return None


class File:
    def __init__(self, env, case):
        h = case["head"]
        grains = [(h["segs"][si]["lid"], d) for si, d in case["grains"]]
        clean, _ = R.enc_file(h, grains)
        one, pos = R.enc_file(h, grains, None, Added(case["ex"], env, clean), bool(case["term"]))
        self.ref = parsed(one, case["term"])
        if self.ref is None:
            raise HarnessError("reference parser does not accept the file")
        self.size = len(one)
        self.clean = one
        self.pos = pos
        self.types = [g["type"] for _, g in self.ref["grains"]]
        self.places = [fixed_positions(one, s, e, h["major"]) for s, e, _, _ in pos]
        # unknown blocks between the grains: what is outside head and grains
        self.outer = []
        p = 12
        while p + 8 <= len(one):
            size = int.from_bytes(one[p + 4:p + 8], "little")
            if size == 0:
                break
            if one[p:p + 4] not in (b"head", b"grai"):
                self.outer.append((p + 8, p + size))
            p += size

    def change(self, case, d, b):
        """(positions and bytes to be changed by one damage, the grain whose delivery it may change, how)"""
        kind, gi, off = d[:3]
        start, end, po, pl = self.pos[gi]
        fixed, unknown = self.places[gi]
        if kind == "payload":
            return damage(b, (po, po + pl), None, d, self.clean), gi
        if kind == "unknown":
            spans = [s for s in unknown + self.outer if s[1] > s[0]]
            if not spans:
                return [], None
            return damage(b, spans[d[5] % len(spans)], None, d, self.clean), None
        inside = set(range(start, end)) - fixed - set(range(po, po + pl))
        for a, z in unknown:
            inside -= set(range(a, z))
        return damage(b, (start, po), inside, d, self.clean), gi


def execute(env, case):
    valid(case)
    f = File(env, case)
    cat = f.clean if case["cat"] else b""
    flights = {r["flight"][1] for r in case["readers"] if r["flight"] is not None and case["dam"][r["flight"][1]][0] !=
               "meta"}
    b = bytearray(f.clean)
    hurt = {}           # grain -> kinds of damage
    inflight = {}
    for k, d in enumerate(case["dam"]):
        ch, gi = f.change(case, d, b)
        if not ch:
            continue
        if k in flights and not (d[0] == "payload" and f.types[gi] == "event"):
            inflight[k] = (ch, gi)
            continue
        old = bytes(b)
        for p, x in ch:
            b[p] = x
        if bytes(b) == old:
            continue
        if d[0] == "meta":
            got = parsed(bytes(b), case["term"])
            if got is None and "payload" not in {x for v in hurt.values() for x in v}:
                b[:] = old
                continue
            if got is None or not consistent(f.ref, got, gi, hurt):
                b[:] = old
                continue
        env.fault("damaged-" + d[0])
        env.nontrivial = True
        if gi is not None:
            hurt.setdefault(gi, set()).add(d[0])
    data = bytes(b)
    exps = []
    for i, (lid, e) in enumerate(f.ref["grains"]):
        e = dict(e)
        if "data" in e:
            po, pl = f.pos[i][2:]
            e["data"] = data[po:po + pl].hex()
        exps.append((lid, e))
    if cat:
        exps += f.ref["grains"]
    for r in case["readers"]:
        one(env, case, f, r, data, cat, exps, hurt, inflight)


def consistent(a, b, gi, hurt):
    """Does the reference parser see nothing but that grain changed?"""
    return a["head"] == b["head"] and len(a["grains"]) == len(b["grains"]) and \
        a["grains"][gi][1]["type"] == b["grains"][gi][1]["type"] and \
        all(x == y for i, (x, y) in enumerate(zip(a["grains"], b["grains"])) if i != gi and i not in hurt)


def one(env, case, f, r, data, cat, exps, hurt, inflight):
    what = "%s/%s/%s/%d/%d" % (r["mode"], r["tr"], r["api"], r["lm"], r["when"])
    flight = inflight.get(r["flight"][1]) if r["flight"] is not None and r["api"] == "ctx" else None
    if flight:
        env.fault("damaged-while-read")
        env.nontrivial = True
    src = data + cat
    # what is delivered, by position in the file
    lids = r.get("lids") if r["api"] == "ctx" else None
    index = [i for i, (lid, _) in enumerate(exps) if lids is None or lid in lids]
    bad = dict(hurt)
    if flight and flight[1] is not None:
        bad[flight[1]] = bad.get(flight[1], set()) | {"flight"}
    res = Res()
    try:
        if r["mode"] == "sync":
            read_sync(env, res, src, r, index, bad, flight)
        else:
            run_async(env, lambda loop: read_async(env, loop, res, src, r, index, bad, flight))
    except (Violation, HarnessError, SkipCase):
        raise
    except Exception as e:
        res.exc = e
    env.ev("read", r["mode"], r["tr"], r["lm"], len(res.grains), type(res.exc).__name__)
    no_event = [i for i in index if i in bad and "payload" in bad[i] and f.types[i % len(f.types)] == "event"]
    if res.exc is not None:
        # only an event which is none any more may be complained about, where it is loaded
        at = len(res.grains)
        places = [index.index(i) for i in no_event]
        # (what is always loaded may be so at the end)
        ok = no_event and (r["api"] == "load" or at in places or (r["lm"] == 1 and at == len(index)))
        if not ok:
            env.fail("decode-failed", "%s: %s: %s", what, type(res.exc).__name__, res.exc)
        env.probe("event-reported")
    if r["api"] == "load":
        if res.exc is None:
            M.check_head(env, f.ref["head"], res.head, what)
            want = {}
            for i, x in enumerate(exps):
                want.setdefault(x[0], []).append(i)
            env.check({k: len(v) for k, v in want.items()} == {k: len(v) for k, v in res.segs.items()}, "grain-count",
                      "%s: numbers of grains %r", what, {k: len(v) for k, v in res.segs.items()})
            for lid, ix in want.items():
                for i, g in zip(ix, res.segs[lid]):
                    same(env, f, r, data, what, i, exps[i][1], canon(env, g, i in bad), bad, None)
        return
    M.check_head(env, f.ref["head"], res.head, what)
    if res.exc is None:
        env.check(len(res.grains) == len(index), "grain-count", "%s: %d grains, expected %d", what, len(res.grains),
                  len(index))
        M.check_head(env, f.ref["head"], res.final, what + " at the end")
    want = expect_of(r, exps)
    for i, (lid, g) in zip(index, res.grains):
        env.check(lid == want[i][0], "grain-mismatch", "%s: grain %d in segment %d, expected %d", what, i, lid,
                  want[i][0])
        same(env, f, r, data, what, i, want[i][1], g, bad, flight)


def same(env, f, r, data, what, i, exp, got, bad, flight):
    if i not in bad:
        if got != exp:
            env.fail("grain-mismatch", "%s: grain %d, which is not damaged, differs: %s", what, i,
                     M.diff(exp, got) if isinstance(got, dict) else got)
        return
    if got is None or "event" in exp:
        return
    if "flight" in bad[i]:
        if not exp["data"]:
            env.check(not got["data"], "grain-mismatch", "%s: grain %d has data", what, i)
        else:
            old = bytes.fromhex(exp["data"])
            po = f.pos[i][2]
            new = bytearray(old)
            for p, x in flight[0]:
                new[p - po] = x
            have = bytes.fromhex(got["data"])
            if len(have) != len(old) or any(c != x and c != y for c, x, y in zip(have, old, new)):
                env.fail("grain-mismatch", "%s: grain %d has other data than what is or was in the file for it", what, i)
    elif got["data"] != exp["data"]:
        env.fail("grain-mismatch", "%s: grain %d doesn't have the data which is in the file for it: %s", what, i,
                 M.diff({"data": exp["data"]}, {"data": got["data"]}))
    if "meta" not in bad[i]:
        g, e = dict(got), dict(exp)
        g.pop("data", None)
        e.pop("data", None)
        if g != e:
            env.fail("grain-mismatch", "%s: grain %d, of which the payload is damaged, differs: %s", what, i,
                     M.diff(e, g))


class Res:
    def __init__(self):
        self.grains = []
        self.exc = None
        self.head = None
        self.final = None
        self.segs = None


def canon(env, g, bad):
    if not bad:
        with env.oracle("reading a grain which is not damaged"):
            return M.canon(g)
    try:
        return M.canon(g)
    except Exception:
        env.probe("damaged-grain-reports")
        return None


def strike(env, flight, f, raw):
    b = raw.buf if raw is not None else None
    if b is None:
        with f.getbuffer() as m:
            for p, x in flight[0]:
                m[p] = x
    else:
        for p, x in flight[0]:
            b[p] = x
    env.ev("strike", len(flight[0]))


def read_sync(env, res, data, r, index, bad, flight):
    f, raw = open_sync_source(env, data, r)
    if r["api"] == "load":
        head, segs = gsf.load(f)
        res.head, res.segs = head_of(env, head), segs
        return
    later = []
    try:
        with gsf.GSFDecoder(file_data=f) as dec:
            res.head = head_of(env, dec.file_headers)
            for k, (g, lid) in enumerate(dec.grains(local_ids=r.get("lids"), loading_mode=MODES[r["lm"]])):
                env.step()
                if flight and r["flight"][0] == k:
                    strike(env, flight, f, raw)
                res.grains.append((lid, None))
                env.check(k < len(index), "grain-count", "more grains than there are")
                later.append((k, lid, g))
                if r["when"] == 0:
                    take(env, res, later, index, bad)
            res.final = head_of(env, dec.file_headers)
            if r["when"] == 1:
                take(env, res, later, index, bad)
    finally:
        take(env, res, later, index, bad)


def take(env, res, later, index, bad):
    for k, lid, g in later:
        res.grains[k] = (lid, canon(env, g, index[k] in bad))
    del later[:]


async def read_async(env, loop, res, data, r, index, bad, flight):
    f, raw = open_async_source(env, loop, data, r)
    if r["api"] == "load":
        if not isinstance(f, gsf.AsyncBinaryIO):
            raise SkipCase()
        head, segs = await gsf.load(f)
        res.head, res.segs = head_of(env, head), segs
        return
    later = []

    async def fetch():
        for k, lid, g in later:
            if r["lm"] in (1, 2):
                try:
                    await g
                except Exception:
                    if index[k] not in bad:
                        raise
        take(env, res, later, index, bad)
    try:
        async with gsf.GSFDecoder(file_data=f) as dec:
            res.head = head_of(env, dec.file_headers)
            k = 0
            try:
                async for g, lid in dec.grains(local_ids=r.get("lids"), loading_mode=MODES[r["lm"]]):
                    env.step()
                    if flight and r["flight"][0] == k:
                        strike(env, flight, f, raw)
                    env.check(k < len(index), "grain-count", "more grains than there are")
                    res.grains.append((lid, None))
                    later.append((k, lid, g))
                    k += 1
                    if r["when"] == 0:
                        await fetch()
                res.final = head_of(env, dec.file_headers)
            finally:
                if r["when"] == 1:
                    await fetch()
    finally:
        take(env, res, later, index, bad)
