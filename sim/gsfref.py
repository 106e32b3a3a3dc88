"""Independent reference encoder and parser for GSF, written from gsf_docs/*.md (never from mediagrains/gsf.py)."""
import json
import struct

from . import model as M


class RefError(Exception):
    pass


def u(v, n):
    return int(v).to_bytes(n, "little")


def s(v, n):
    return int(v).to_bytes(n, "little", signed=True)


def block(tag, body):
    return tag + u(8 + len(body), 4) + body


def rat(r):
    return u(r[0], 4) + u(r[1], 4)


def fix(st, n):
    b = st.encode("utf-8")
    assert len(b) <= n
    return b + bytes(n - len(b))


def var(st):
    b = st.encode("utf-8")
    return u(len(b), 2) + b


class Extras:
    """Places a newer writer may add to the format without breaking readers, driven by a callback.

    pick(site) -> bytes inserted at that site (whole unknown blocks, or raw trailing property bytes).
    """

    def pick(self, site):
        return b""


def ts(t, major):
    if major == 7:
        return u(t[1], 6) + u(t[2], 4)
    return (b"\x01" if t[0] > 0 else b"\x00") + u(t[1], 6) + u(t[2], 4)


def enc_tag(t, x):
    return block(b"tag ", var(t[0]) + var(t[1]) + x.pick("tag:props"))


def enc_head(h, counts, x=None, minor=0):
    x = x or Extras()
    out = b"SSBB" + b"grsg" + u(h["major"], 2) + u(minor, 2) + x.pick("file:blocks")
    c = h["created"]
    body = M.uid("file", h["id"]).bytes + s(c[0], 2) + bytes(c[1:6])
    body += x.pick("head:blocks")
    for seg in h["segs"]:
        sb = u(seg["lid"], 2) + M.uid("seg", seg["id"]).bytes + s(counts.get(seg["lid"], -1), 8)
        sb += x.pick("segm:blocks")
        if seg["flow"] is not None:
            f = seg["flow"]
            fd = f["data"].encode("utf-8")
            sb += block(b"flow", M.uid("src", f["src"]).bytes + M.uid("flow", f["flow"]).bytes + fix(M.clip(f["fmt"], 64), 64) +
                        u(len(fd), 4) + fd + x.pick("flow:props"))
            sb += x.pick("segm:blocks")
        for t in seg["tags"]:
            sb += enc_tag(t, x)
        sb += x.pick("segm:blocks")
        body += block(b"segm", sb)
        body += x.pick("head:blocks")
    for t in h["tags"]:
        body += enc_tag(t, x)
    body += x.pick("head:blocks")
    return out + block(b"head", body)


def enc_grain(lid, d, major, x=None, data=None):
    x = x or Extras()
    src, flow = M.ids_of(d)
    g = src.bytes + flow.bytes
    if major == 7:
        g += bytes(16)
    g += ts(d["ots"], major) + ts(d["sts"], major) + rat(d["rate"]) + rat(d["dur"])
    g += x.pick("gbhd:blocks")
    if d["tl"]:
        b = u(len(d["tl"]), 2)
        for tag, cnt, r, drop in d["tl"]:
            b += fix(tag, 16) + u(cnt, 4) + rat(r) + u(drop, 1)
        g += block(b"tils", b + x.pick("tils:props"))
        g += x.pick("gbhd:blocks")
    t, p = d["t"], d.get("p")
    if t == 1:
        b = u(p["fmt"], 4) + u(p["layout"], 4) + u(p["w"], 4) + u(p["h"], 4) + u(p["ext"], 4)
        b += rat(p["sar"] or [0, 1]) + rat(p["par"] or [0, 1])
        b += x.pick("vghd:blocks")
        if p["comps"]:
            b += block(b"comp", u(len(p["comps"]), 2) + b"".join(u(v, 4) for c in p["comps"] for v in c) +
                       x.pick("comp:props"))
            b += x.pick("vghd:blocks")
        g += block(b"vghd", b)
    elif t == 2:
        b = b"".join(u(p[k], 4) for k in ("fmt", "layout", "ow", "oh", "cw", "ch"))
        b += u(3 if p["key"] is None else int(p["key"]), 1)
        b += s(0x7fffffff if p["toff"] is None else p["toff"], 4)
        b += x.pick("cghd:blocks")
        if p["uo"]:
            b += block(b"unof", u(len(p["uo"]), 2) + b"".join(u(v, 4) for v in p["uo"]) + x.pick("unof:props"))
            b += x.pick("cghd:blocks")
        g += block(b"cghd", b)
    elif t == 3:
        g += block(b"aghd", u(p["fmt"], 4) + u(p["ch"], 2) + u(p["samples"], 4) + u(p["sr"], 4) + x.pick("aghd:props"))
    elif t == 4:
        g += block(b"cahd", u(p["fmt"], 4) + u(p["ch"], 2) + u(p["samples"], 4) + u(p["prim"], 4) + u(p["rem"], 4) +
                   u(p["sr"], 4) + x.pick("cahd:props"))
    elif t == 5:
        g += block(b"eghd", b"\x00" + x.pick("eghd:props"))
    if t != 0:
        g += x.pick("gbhd:blocks")
    if data is None:
        data = M.data_of(d)
    return block(b"grai", u(lid, 2) + block(b"gbhd", g) + x.pick("grai:blocks") + block(b"grdt", data) +
                 x.pick("grai:tail"))


TERMINATOR = b"grai" + bytes(4)


def enc_file(h, grains, counts=None, x=None, terminator=True, minor=0):
    """grains: list of (lid, descriptor).  Returns (bytes, [(start, end, payload_start, payload_len)])."""
    x = x or Extras()
    if counts is None:
        counts = {}
        for lid, _ in grains:
            counts[lid] = counts.get(lid, 0) + 1
        for seg in h["segs"]:
            counts.setdefault(seg["lid"], 0)
    out = bytearray(enc_head(h, counts, x, minor))
    pos = []
    for lid, d in grains:
        out += x.pick("file:blocks")
        b = enc_grain(lid, d, h["major"], x)
        pay = M.data_of(d)
        # the payload is located by parsing the block we just built
        po = find_payload(b)
        pos.append((len(out), len(out) + len(b), None if po is None else len(out) + po, len(pay)))
        out += b
    out += x.pick("file:blocks")
    if terminator:
        out += TERMINATOR
    return bytes(out), pos


def find_payload(b):
    """Offset of the grdt payload within an encoded grai block."""
    p = 10
    while p < len(b):
        sz = int.from_bytes(b[p + 4:p + 8], "little")
        if b[p:p + 4] == b"grdt":
            return p + 8
        p += max(8, sz)
    return None


# ---------------------------------------------------------------------------------------------------------------------
# parser


class R:
    def __init__(self, b, off=0, end=None):
        self.b = b
        self.p = off
        self.end = len(b) if end is None else end

    def take(self, n):
        if self.p + n > self.end:
            raise RefError("truncated at %d: wanted %d bytes, %d left in the enclosing block" %
                           (self.p, n, self.end - self.p))
        v = bytes(self.b[self.p:self.p + n])
        self.p += n
        return v

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def s(self, n):
        return int.from_bytes(self.take(n), "little", signed=True)

    def str(self, n):
        v = self.take(n)
        try:
            return v.split(b"\0", 1)[0].decode("utf-8")
        except UnicodeDecodeError:
            raise RefError("string at %d is not UTF-8" % (self.p - n))

    def vstr(self):
        return self.str(self.u(2))

    def rat(self):
        n, d = self.u(4), self.u(4)
        return str(M.frac([n, d]))

    def ts(self, major):
        sign = 1
        if major != 7:
            sign = 1 if self.u(1) else -1
        sec, ns = self.u(6), self.u(4)
        if ns >= 10**9:
            raise RefError("nanoseconds out of range at %d" % (self.p - 4))
        return sign * (sec * 10**9 + ns)

    def blocks(self):
        while self.p < self.end:
            if self.end - self.p < 8:
                raise RefError("partial block at %d" % self.p)
            tag = bytes(self.b[self.p:self.p + 4])
            size = int.from_bytes(self.b[self.p + 4:self.p + 8], "little")
            if size < 8:
                raise RefError("block %r at %d has size %d" % (tag, self.p, size))
            if self.p + size > self.end:
                raise RefError("block %r at %d (size %d) overruns its parent" % (tag, self.p, size))
            r = R(self.b, self.p + 8, self.p + size)
            self.p += size
            yield tag, r


def parse_grain_header(r, major):
    out = {"src": r.take(16).hex(), "flow": r.take(16).hex()}
    if major == 7:
        r.take(16)
    out["ots"], out["sts"] = r.ts(major), r.ts(major)
    out["rate"], out["dur"] = r.rat(), r.rat()
    out["tl"] = []
    out["type"] = "empty"
    types = 0
    for tag, b in r.blocks():
        if tag == b"tils":
            for _ in range(b.u(2)):
                out["tl"].append([b.str(16), b.u(4), b.rat(), bool(b.u(1))])
        elif tag == b"vghd":
            types += 1
            out["type"] = "video"
            p = [b.u(4) for _ in range(5)]
            for _ in range(2):
                x = b.rat()
                p.append(None if x == "0" else x)
            comps = []
            for t2, c in b.blocks():
                if t2 == b"comp":
                    off = 0
                    for _ in range(c.u(2)):
                        w, h, st, ln = c.u(4), c.u(4), c.u(4), c.u(4)
                        comps.append([w, h, st, ln, off])
                        off += ln
            out["p"] = p + [comps]
        elif tag == b"cghd":
            types += 1
            out["type"] = "coded_video"
            p = [b.u(4) for _ in range(6)]
            k, t = b.u(1), b.s(4)
            if major >= 9:
                p += [None if k > 1 else bool(k), None if t == 0x7fffffff else t]
            else:
                p += [bool(k), t]
            uo = []
            for t2, c in b.blocks():
                if t2 == b"unof":
                    uo = [c.u(4) for _ in range(c.u(2))]
            out["p"] = p + [uo]
        elif tag == b"aghd":
            types += 1
            out["type"] = "audio"
            out["p"] = [b.u(4), b.u(2), b.u(4), b.u(4)]
        elif tag == b"cahd":
            types += 1
            out["type"] = "coded_audio"
            fmt, ch, sm, pr, rem, sr = b.u(4), b.u(2), b.u(4), b.u(4), b.u(4), b.u(4)
            out["p"] = [fmt, ch, sm, sr, pr, rem]
        elif tag == b"eghd":
            types += 1
            out["type"] = "event"
            b.u(1)
    if types > 1:
        raise RefError("grain header with %d type blocks" % types)
    return out


def parse_head(r):
    out = {"id": r.take(16).hex()}
    y = r.s(2)
    out["created"] = [y] + [r.u(1) for _ in range(5)]
    out["tags"], out["segs"] = [], []
    for tag, b in r.blocks():
        if tag == b"segm":
            sg = {"lid": b.u(2), "id": b.take(16).hex(), "count": b.s(8), "tags": []}
            for t2, c in b.blocks():
                if t2 == b"tag ":
                    sg["tags"].append([c.vstr(), c.vstr()])
                elif t2 == b"flow":
                    f = [c.take(16).hex(), c.take(16).hex(), c.str(64)]
                    f.append(c.take(c.u(4)).decode("utf-8"))
                    sg["flow"] = f
            out["segs"].append(sg)
        elif tag == b"tag ":
            out["tags"].append([b.vstr(), b.vstr()])
    return out


def parse_grai(r, major):
    lid = r.u(2)
    out = None
    data = None
    for tag, c in r.blocks():
        if tag == b"gbhd":
            out = parse_grain_header(c, major)
        elif tag == b"grdt":
            if out is None:
                raise RefError("grdt before gbhd")
            data = c.take(c.end - c.p)
    if out is None or data is None:
        raise RefError("grai without gbhd/grdt")
    if out["type"] == "event":
        out["event"] = json.dumps(json.loads(data), sort_keys=True) if data else None
    else:
        out["data"] = data.hex()
    return lid, out


def parse_file(b, partial=False):
    """Strict parse of one whole file: header, head, grains, terminator, nothing after it.

    partial=True: stop quietly at the first incomplete top-level block or at the end of the data.
    Returns dict(version, head, grains [(lid, canon)], pos [(start, end)], terminated)."""
    out = {"grains": [], "pos": [], "terminated": False, "head": None}
    if partial and len(b) < 12:
        return out
    r = R(b)
    if r.take(4) != b"SSBB" or r.take(4) != b"grsg":
        raise RefError("bad file header")
    out["version"] = (r.u(2), r.u(2))
    major = out["version"][0]
    while True:
        if r.p == r.end:
            if partial:
                return out
            raise RefError("no terminator block")
        if r.end - r.p < 8:
            if partial:
                return out
            raise RefError("partial block at end of file (%d bytes)" % (r.end - r.p))
        start = r.p
        tag = r.take(4)
        size = r.u(4)
        if tag == b"grai" and size == 0:
            out["terminated"] = True
            if r.p != r.end and not partial:
                raise RefError("%d bytes after the terminator" % (r.end - r.p))
            return out
        if size < 8:
            raise RefError("block %r at %d has size %d" % (tag, start, size))
        if start + size > r.end:
            if partial:
                return out
            raise RefError("block %r at %d (size %d) overruns the file" % (tag, start, size))
        c = R(b, start + 8, start + size)
        if tag == b"head":
            if out["head"] is not None:
                raise RefError("second head block")
            out["head"] = parse_head(c)
        elif tag == b"grai":
            if out["head"] is None:
                raise RefError("grain before head")
            out["grains"].append(parse_grai(c, major))
            out["pos"].append((start, start + size))
        r.p = start + size


_ = struct
