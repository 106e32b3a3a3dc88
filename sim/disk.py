"""Simulated storage: raw files with short reads/writes, errors, full disks, and crash images."""
import errno
import io

from .core import Violation


class SimRaw(io.RawIOBase):
    """An unbuffered file.

    faults: list of {"op": "read"|"write", "n": k, "kind": ...}: applied to the k-th (0-based) raw operation of that
    kind.  Kinds: "eio" (OSError EIO), "enospc" (OSError ENOSPC), "short" (fewer bytes than asked for), "eintr"
    (InterruptedError is retried by the io stack; modelled as a zero-progress short op is not legal, so: 1 byte).
    short: 0 never, 1 sometimes, 2 always small: legal short transfers chosen from the tape.
    """

    def __init__(self, env, data=b"", seekable=True, readable=True, writable=True, short=0, faults=(), capacity=None,
                 name="f"):
        super().__init__()
        self.env = env
        self.buf = bytearray(data)
        self.initial = bytes(data)
        self.p = 0
        self._seekable = seekable
        self._readable = readable
        self._writable = writable
        self.short = short
        self.capacity = capacity
        self.nread = 0
        self.nwrite = 0
        self.journal = []
        self.frozen = False
        self.fname = name
        self.rf = {}
        self.wf = {}
        for f in faults or ():
            (self.rf if f.get("op") == "read" else self.wf)[f.get("n")] = f.get("kind")

    def seekable(self):
        return self._seekable

    def readable(self):
        return self._readable

    def writable(self):
        return self._writable

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("not seekable")
        return self.p

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("not seekable")
        self.env.step()
        if whence == 0:
            np = off
        elif whence == 1:
            np = self.p + off
        else:
            np = len(self.buf) + off
        if np < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.p = np
        return np

    def truncate(self, size=None):
        if not self._seekable:
            raise io.UnsupportedOperation("not seekable")
        if size is None:
            size = self.p
        if self.frozen:
            return size
        self.journal.append(("t", size))
        self._trunc(size)
        return size

    def _trunc(self, size):
        if size < len(self.buf):
            del self.buf[size:]
        else:
            self.buf.extend(bytes(size - len(self.buf)))

    def readinto(self, b):
        env = self.env
        env.step()
        n = self.nread
        self.nread += 1
        want = len(b)
        k = self.rf.get(n)
        if k == "eio":
            env.fault("read-eio")
            raise OSError(errno.EIO, "simulated read error")
        if k == "block":
            env.fault("read-would-block")
            return None
        avail = max(0, len(self.buf) - self.p)
        got = min(want, avail)
        if got > 1:
            if k == "short":
                env.fault("short-read")
                got = 1 + env.choose(got - 1)
            elif self.short == 2 or (self.short == 1 and env.chance(1, 3)):
                env.fault("short-read")
                got = 1 + env.choose(min(got, max(24, got // 200)) if self.short == 2 else got)
        b[:got] = self.buf[self.p:self.p + got]
        self.p += got
        return got

    def write(self, b):
        env = self.env
        env.step()
        data = bytes(b)
        if self.frozen:
            return len(data)
        n = self.nwrite
        self.nwrite += 1
        k = self.wf.get(n)
        if k in ("eio", "enospc"):
            env.fault("write-" + k)
            raise OSError(errno.EIO if k == "eio" else errno.ENOSPC, "simulated write error")
        ln = len(data)
        if ln > 1:
            if k == "short":
                env.fault("short-write")
                ln = 1 + env.choose(ln - 1)
            elif self.short == 2 or (self.short == 1 and env.chance(1, 3)):
                env.fault("short-write")
                ln = 1 + env.choose(min(ln, max(24, ln // 200)) if self.short == 2 else ln)
        if self.capacity is not None and self.p + ln > self.capacity and self.p + ln > len(self.buf):
            room = max(self.capacity - self.p, 0)
            if room <= 0:
                env.fault("disk-full")
                raise OSError(errno.ENOSPC, "simulated full disk")
            if room < ln:
                env.fault("disk-full-partial")
                ln = room
        data = data[:ln]
        if not self._seekable:
            self.p = len(self.buf)
        self.journal.append(("w", self.p, data))
        self._apply(self.buf, self.p, data)
        self.p += ln
        return ln

    @staticmethod
    def _apply(buf, pos, data):
        if not data:
            return
        if pos > len(buf):
            buf.extend(bytes(pos - len(buf)))
        buf[pos:pos + len(data)] = data

    def image(self, nops, torn=None):
        """Contents after the first nops journalled operations, the last of them torn to `torn` bytes."""
        buf = bytearray(self.initial)
        ops = self.journal[:nops]
        for i, op in enumerate(ops):
            if op[0] == "t":
                if op[1] < len(buf):
                    del buf[op[1]:]
                else:
                    buf.extend(bytes(op[1] - len(buf)))
            else:
                d = op[2]
                if torn is not None and i == len(ops) - 1:
                    d = d[:torn]
                self._apply(buf, op[1], d)
        return bytes(buf)


class SimPipeIn(io.RawIOBase):
    """Read end of a pipe: bytes arrive in pieces of the writer's choosing, then EOF."""

    def __init__(self, env, data, short=1, faults=()):
        super().__init__()
        self.raw = SimRaw(env, data, seekable=True, writable=False, short=short, faults=faults)

    def readable(self):
        return True

    def seekable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        return self.raw.readinto(b)


class SimPipeOut(io.RawIOBase):
    """Write end of a pipe."""

    def __init__(self, env, short=1, faults=()):
        super().__init__()
        self.raw = SimRaw(env, b"", seekable=False, readable=False, short=short, faults=faults)

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        return self.raw.write(b)

    @property
    def buf(self):
        return self.raw.buf


def opened(raw, mode):
    """Wrap a raw file the way builtins.open() does."""
    if mode == "rb":
        return io.BufferedReader(raw, 512)
    if mode == "wb":
        return io.BufferedWriter(raw, 512)
    if mode == "r+b":
        return io.BufferedRandom(raw, 512)
    if mode == "raw":
        return raw
    raise ValueError(mode)
