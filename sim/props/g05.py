"""G05: deferred data behaves like the bytes it stands for."""
import copy

from .. import gsfref as R
from .. import model as M
from ..core import SkipCase
from ..drv import MODES, gsf, open_sync_source

from mediagrains.utils import IOBytes  # noqa: E402

ID = "G05"
RUNS = {"quick": 60000, "thorough": 1000000}
RULE = ("A case is a file, a synchronous source and a history of steps: advancing the iteration, making further "
        "deferred elements on the same file, accesses of every kind to any element obtained so far, length queries, "
        "moves of the file position by others, other contents in the file for a while, read errors a chosen number of raw reads ahead, and the file being cut "
        "short and restored. Non-trivial: a deferred element was first accessed before the iteration ended, or a fault "
        "was hit by an access.")
REAL = ["mediagrains.utils.iobytes", "mediagrains.gsf synchronous decoder", "mediagrains.grains", "io.Buffered*"]
STUB = ["raw files (short reads, read errors, truncation)"]
ASSUMPTIONS = ["Operations that need the C buffer protocol or concatenation are documented not to be supported."]

ACC = ["bytes", "eq", "ne", "index", "slice", "in-int", "in-bytes", "iter", "rev", "hash", "lt", "ge", "find", "count",
       "hex", "bytearray", "str", "decode", "eq-other", "deepcopy", "raw-bytes", "repr-loaded", "reencode", "key",
       "bool", "grain-bytes"]


def generate(rng, tier):
    h = M.gen_head(rng, 2)
    n = rng.randrange(0, 7)
    grains = [[rng.randrange(len(h["segs"])),
               M.gen_grain(rng, k, h["major"], types=[1, 2, 3, 4, 1, 2, 5, 0] if rng.randrange(3) else [1, 2, 3, 4],
                           big=rng.randrange(6) == 0)] for k in range(n)]
    if grains and rng.randrange(3) == 0:
        # the same contents twice
        grains.append([grains[0][0], dict(grains[0][1])])
    steps = []
    for _ in range(rng.randrange(3, 40)):
        k = rng.randrange(20)
        if k < 5:
            steps.append(["next"])
        elif k < 7:
            steps.append(["make", rng.randrange(4000), rng.choice([0, 1, rng.randrange(700)])])
        elif k < 14:
            steps.append(["acc", rng.randrange(12), rng.choice(ACC), rng.randrange(1000), rng.randrange(1000)])
        elif k < 16:
            steps.append(["len", rng.randrange(12)])
        elif k < 17:
            steps.append(["all", rng.choice(ACC)])
        elif k < 18:
            steps.append(["move", rng.randrange(3000)])
        elif k < 19 and rng.randrange(6) == 0:
            steps.append(["rewrite", rng.choice(ACC), rng.randrange(4000), rng.choice([0, 1, rng.randrange(700)])])
        elif k < 19:
            steps.append(["arm", rng.choice([0, 0, 0, 1, 2, 5]), rng.randrange(1, 4)])
        else:
            steps.append(["cut", rng.randrange(3000), rng.randrange(12), rng.choice(ACC)])
    return {"head": h, "grains": grains, "tr": rng.choice(["bytesio", "buf", "buf", "raw", "raw"]),
            "short": rng.choice([0, 0, 1, 2]), "lm": rng.choice([1, 2]), "steps": steps,
            "lazy_api": int(rng.randrange(5) == 0)}


class El:
    def __init__(self, x, want, grain, d):
        self.x = x
        self.want = want
        self.grain = grain
        self.d = d
        self.loaded = False
        self.used = False       # some accesses don't need the data
        self.at = None


def execute(env, case):
    h = case["head"]
    if not M.valid_head(h) or case["tr"] not in ("bytesio", "buf", "raw") or case["lm"] not in (1, 2):
        raise SkipCase()
    try:
        grains = [(h["segs"][si]["lid"], d) for si, d in case["grains"]]
        M.need_valid([d for _, d in grains], h["major"])
    except (TypeError, IndexError, ValueError, KeyError):
        raise SkipCase()
    data, _ = R.enc_file(h, grains)
    exps = R.parse_file(data)["grains"]
    f, raw = open_sync_source(env, data, {"tr": case["tr"], "short": case["short"]})
    st = State(env, f, raw, data)
    if case["lazy_api"]:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dec = gsf.GSFDecoder(file_data=f)
            dec.decode_file_headers()
            it = iter(dec.grains(load_lazily=True))
        run(env, st, it, exps, grains, case["steps"])
    else:
        with gsf.GSFDecoder(file_data=f) as dec:
            it = iter(dec.grains(loading_mode=MODES[case["lm"]]))
            run(env, st, it, exps, grains, case["steps"])
    if raw is not None:
        raw.rf.clear()
    for el in st.els:
        access(env, st, el, "bytes", 0, 0)
        length(env, st, el)


class State:
    def __init__(self, env, f, raw, data):
        self.env = env
        self.f = f
        self.raw = raw
        self.data = data
        self.els = []
        self.i = 0
        self.over = False

    def faults(self):
        return self.env.faults["read-eio"]


def run(env, st, it, exps, grains, steps):
    own = st.f.tell()       # where the iteration left the file
    for s in steps:
        env.step()
        try:
            op = s[0]
            if op == "next":
                st.f.seek(own)
                advance(env, st, it, exps, grains)
                own = st.f.tell()
            elif op == "make":
                a = min(max(int(s[1]), 0), len(st.data))
                n = min(max(int(s[2]), 0), len(st.data) - a)
                st.els.append(El(IOBytes(st.f, a, n), st.data[a:a + n], None, None))
                st.els[-1].at = a, n
            elif op == "rewrite":
                rewrite(env, st, s[1], min(max(int(s[2]), 0), len(st.data)), int(s[3]))
            elif op == "move":
                # anyone may use the file in between
                st.f.seek(min(max(int(s[1]), 0), len(st.data) + 10))
            elif op == "arm":
                if st.raw is not None:
                    for k in range(int(s[2])):
                        st.raw.rf[st.raw.nread + max(0, int(s[1])) + k] = "eio"
            elif not st.els:
                continue
            elif op == "len":
                length(env, st, st.els[s[1] % len(st.els)])
            elif op == "acc":
                if s[2] not in ACC:
                    raise SkipCase()
                access(env, st, st.els[s[1] % len(st.els)], s[2], int(s[3]), int(s[4]))
            elif op == "all":
                if s[1] not in ACC:
                    raise SkipCase()
                for el in reversed(st.els):
                    access(env, st, el, s[1], 1, 2)
            elif op == "cut":
                cut(env, st, int(s[1]), st.els[s[2] % len(st.els)], s[3])
            else:
                raise SkipCase()
        except (TypeError, IndexError, AttributeError) as e:
            if not isinstance(s, list) or len(s) == 0 or len(s) < {"next": 1, "make": 3, "move": 2, "arm": 3, "len": 2,
                                                                  "acc": 5, "all": 2, "cut": 4, "rewrite": 4}.get(s[0], 99):
                raise SkipCase()
            raise e
    # the rest of the iteration is undisturbed by all of this
    if st.raw is not None:
        st.raw.rf.clear()
    st.f.seek(own)
    while not st.over:
        env.step()
        advance(env, st, it, exps, grains)


def advance(env, st, it, exps, grains):
    if st.over:
        return
    hit = st.faults()
    try:
        g, lid = next(it)
    except StopIteration:
        env.check(st.i == len(exps), "grain-count", "the iteration ended after %d of %d grains", st.i, len(exps))
        st.over = True
        return
    except OSError as e:
        env.check(st.faults() > hit, "unexpected-error", "the iteration failed without a read error: %r", e)
        st.over = True
        env.probe("iteration-failed")
        return
    env.check(st.i < len(exps), "grain-count", "more than %d grains", len(exps))
    el, e = exps[st.i]
    d = grains[st.i][1]
    st.i += 1
    env.ev("got", st.i, lid)
    env.check(lid == el, "grain-mismatch", "grain %d: wrong segment", st.i)
    with env.oracle("reading a decoded grain"):
        x = g.data
    if d["t"] in (1, 2, 3, 4) and d["len"] > 0:
        env.check(x is not None, "data-missing", "grain %d has no data", st.i)
        if st.faults() == hit and not isinstance(x, bytes):
            env.probe("deferred")
        st.els.append(El(x, M.data_of(d), g, (lid, d, e)))


def length(env, st, el):
    pos, nread = st.f.tell(), st.raw.nread if st.raw is not None else 0
    env.check(len(el.x) == len(el.want), "length-mismatch", "length %d, the data has %d bytes", len(el.x),
              len(el.want))
    if el.grain is not None:
        env.check(el.grain.length == len(el.want), "length-mismatch", "grain length %r, the data has %d bytes",
                  el.grain.length, len(el.want))
    env.check(isinstance(repr(el.x), str), "malformed-result", "repr")
    env.check(st.f.tell() == pos, "position-moved", "asking for the length moved the file from %d to %d", pos,
              st.f.tell())
    if st.raw is not None:
        env.check(st.raw.nread == nread, "read-for-length", "asking for the length read from the file")


def access(env, st, el, how, a, b, cutlen=None):
    """Access the element; whatever happens the file must be where it was, and afterwards it can be accessed again."""
    pos, hit = st.f.tell(), st.faults()
    if not st.over and not el.loaded:
        env.nontrivial = True
    try:
        got, want = evaluate(st, el, how, a, b)
    except OSError as e:
        env.check(st.faults() > hit, "unexpected-error", "%s failed without a read error: %r", how, e)
        env.check(st.f.tell() == pos, "position-moved", "a failed access (%s) moved the file from %d to %d", how, pos,
                  st.f.tell())
        env.nontrivial = True
        env.probe("access-failed")
        env.ev("acc", how, "error")
        if st.raw is not None:
            st.raw.rf.clear()
        got, want = evaluate(st, el, how, a, b)
        env.probe("access-retried")
    except EOFError as e:
        env.check(cutlen is not None, "unexpected-error", "%s failed: %r", how, e)
        env.check(st.f.tell() == pos, "position-moved", "a failed access (%s) moved the file from %d to %d", how, pos,
                  st.f.tell())
        env.nontrivial = True
        env.ev("acc", how, "eof")
        return "eof"
    el.loaded = True
    el.used = el.used or how in ("bytes", "raw-bytes", "iter", "hex")
    env.check(type(got) is type(want) and got == want, "data-mismatch", "%s of an element of %d bytes: %s instead of %s",
              how, len(el.want), short(got), short(want))
    env.check(st.f.tell() == pos, "position-moved", "an access (%s) moved the file from %d to %d", how, pos,
              st.f.tell())
    env.ev("acc", how, len(el.want))
    return "ok"


def short(x):
    s = repr(x)
    return s if len(s) < 60 else "%s... (%d)" % (s[:60], len(s))


def evaluate(st, el, how, a, b):
    x, w = el.x, el.want
    n = len(w)
    if how == "bytes":
        return bytes(x), w
    if how == "raw-bytes":
        return x.__bytes__(), w
    if how == "eq":
        other = w if a % 2 else w + b"x"
        return (x == other, other == x), (w == other, other == w)
    if how == "ne":
        other = w if a % 2 else w + b"x"
        return (x != other, other != x), (w != other, other != w)
    if how == "eq-other":
        o = st.els[a % len(st.els)]
        return (x == o.x, x != o.x, x <= o.x), (w == o.want, w != o.want, w <= o.want)
    if how == "index":
        if n == 0:
            return len(bytes(x)), 0
        i = a % (2 * n) - n
        return x[i], w[i]
    if how == "slice":
        s = slice(a % (n + 2) - 1, b % (n + 3), [None, 1, 2, -1][(a + b) % 4])
        return x[s], w[s]
    if how == "in-int":
        return (a % 256) in x, (a % 256) in w
    if how == "in-bytes":
        o = w[a % (n + 1):a % (n + 1) + 3] if b % 2 else bytes([a % 256, b % 256])
        return o in x, o in w
    if how == "iter":
        return list(x), list(w)
    if how == "rev":
        return list(reversed(x)), list(reversed(w))
    if how == "hash":
        return hash(x), hash(w)
    if how == "key":
        return {w: 1}.get(x), 1
    if how == "lt":
        o = bytes([a % 256])
        return (x < o, x > o), (w < o, w > o)
    if how == "ge":
        o = w[:b % (n + 1)]
        return (x >= o, x <= o), (w >= o, w <= o)
    if how == "find":
        o = bytes([a % 256])
        return (x.find(o), x.rfind(o, b % 5)), (w.find(o), w.rfind(o, b % 5))
    if how == "count":
        return x.count(a % 256), w.count(a % 256)
    if how == "hex":
        return x.hex(), w.hex()
    if how == "bytearray":
        return bytearray(x), bytearray(w)
    if how == "str":
        return str(x), str(w)
    if how == "decode":
        return x.decode("latin-1"), w.decode("latin-1")
    if how == "deepcopy":
        return bytes(copy.deepcopy(x)), w
    if how == "bool":
        return bool(x), bool(w)
    if how == "repr-loaded":
        return bytes(x) and repr(x), w and repr(w)
    if el.grain is None:
        return bytes(x), w
    if how == "grain-bytes":
        return bytes(el.grain), w
    if how == "reencode":
        lid, d, e = el.d
        out = R.parse_file(gsf.dumps([el.grain], major=9 if d["t"] == 2 else 8))
        return [M.diff(e, o[1]) for o in out["grains"]], [""]
    raise SkipCase()


def rewrite(env, st, how, a, n):
    """The file has other contents for a while: what is made then stands for those, what was loaded before stays"""
    if how not in ACC:
        raise SkipCase()
    if how == "eq-other":
        how = "eq"      # (others may not have been loaded yet)
    if st.raw is not None:
        st.raw.rf.clear()
    pos = st.f.tell()
    old = [el for el in st.els if el.loaded and el.used]
    wanted = [el.at for el in old if el.at is not None][:4] + [(a, min(max(n, 0), len(st.data) - a))]

    def put(data):
        if st.raw is None:
            st.f.getbuffer()[:] = data
        else:
            st.raw.buf[:] = data
            if hasattr(st.f, "raw"):
                st.f.seek(0, 2)
                st.f.seek(0)
        st.f.seek(pos)

    data = bytes(b ^ 0x55 for b in st.data)
    env.fault("file-rewritten")
    put(data)
    try:
        new = [El(IOBytes(st.f, a, n), data[a:a + n], None, None) for a, n in wanted]
        for el in new + old:
            access(env, st, el, how, 1, 2)
            access(env, st, el, "bytes", 0, 0)      # (some do without the data)
            length(env, st, el)
    finally:
        put(bytes(st.data))
    for el in new:
        access(env, st, el, "bytes", 0, 0)


def cut(env, st, size, el, how):
    """The file is shorter than it should be for a while."""
    if st.raw is None or how not in ACC:
        return
    size = min(max(size, 0), len(st.data))
    st.raw.rf.clear()
    pos = st.f.tell()
    keep = bytes(st.raw.buf)
    del st.raw.buf[size:]
    env.fault("file-cut-short")
    try:
        access(env, st, el, how, 1, 3, cutlen=size)
    finally:
        st.raw.buf[:] = keep
    env.check(st.f.tell() == pos, "position-moved", "the file moved")
    if hasattr(st.f, "raw"):
        # what the buffer holds may be from the short file
        st.f.seek(0, 2)
        st.f.seek(0)
        st.f.seek(pos)
    access(env, st, el, how, 1, 3)
