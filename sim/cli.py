"""One run of a command line tool: its entry point called in this process, with simulated arguments, files, standard
input and output."""
import builtins
import io
import sys

from .core import HarnessError, Violation
from .disk import SimPipeIn, SimPipeOut, SimRaw

PREFIX = "/sim-files/"


class Stdin:
    def __init__(self, buffer):
        self.buffer = buffer


class Stdout:
    """Just enough of a text stream over a binary one"""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, buffer):
        self.buffer = buffer

    def write(self, s):
        self.buffer.write(s.encode("utf-8"))
        return len(s)

    def flush(self):
        self.buffer.flush()

    def isatty(self):
        return False


class Run:
    """files: name -> bytes.  After run(): exc, stdout (bytes), out(name) (bytes of a written file)."""

    def __init__(self, env, files, stdin=b"", stdin_kind="pipe", stdout_kind="pipe", short_in=0, short_out=0,
                 faults_in=(), faults_out=(), raw_in=False, raw_out=False):
        self.env = env
        self.files = dict(files)
        self.written = {}
        self.faults_in, self.faults_out = list(faults_in), list(faults_out)
        self.short_in, self.short_out = short_in, short_out
        if stdin_kind == "pipe":
            self.stdin_raw = SimPipeIn(env, stdin, short=short_in, faults=self.faults_in)
        else:
            self.stdin_raw = SimRaw(env, stdin, writable=False, short=short_in, faults=self.faults_in)
        if stdout_kind == "pipe":
            self.stdout_raw = SimPipeOut(env, short=short_out, faults=self.faults_out)
        else:
            self.stdout_raw = SimRaw(env, b"", readable=False, short=short_out, faults=self.faults_out)
        self.raw_in, self.raw_out = raw_in, raw_out
        self.exc = None

    def open(self, name, mode="r", buffering=-1, *args, **kwargs):
        if not (isinstance(name, str) or hasattr(name, "__fspath__")) or not str(name).startswith(PREFIX):
            return self.real_open(name, mode, buffering, *args, **kwargs)
        name = str(name)
        m = "".join(sorted(mode.replace("b", "")))
        if m == "r":
            if name not in self.files:
                raise FileNotFoundError(2, "No such file or directory", name)
            raw = SimRaw(self.env, self.files[name], writable=False, short=self.short_in, faults=self.faults_in)
            return raw if buffering == 0 else io.BufferedReader(raw, 512)
        if m in ("w", "+w"):
            raw = SimRaw(self.env, b"", short=self.short_out, faults=self.faults_out)
            self.written[name] = raw
            if buffering == 0:
                return raw
            return io.BufferedWriter(raw, 512) if m == "w" else io.BufferedRandom(raw, 512)
        raise HarnessError("open(%r, %r)" % (name, mode))

    def run(self, entry, args):
        saved = sys.argv, sys.stdin, sys.stdout, sys.stderr, io.open, builtins.open
        self.real_open = builtins.open
        stdout = Stdout(self.stdout_raw if self.raw_out else io.BufferedWriter(self.stdout_raw, 512))
        self.stderr = io.StringIO()
        try:
            sys.argv = ["tool"] + list(args)
            sys.stdin = Stdin(self.stdin_raw if self.raw_in else io.BufferedReader(self.stdin_raw, 512))
            sys.stdout = stdout
            sys.stderr = self.stderr
            builtins.open = io.open = self.open
            try:
                entry()
            except (Violation, HarnessError, KeyboardInterrupt):
                raise
            except SystemExit as e:
                if e.code not in (None, 0):
                    self.exc = e
            except Exception as e:
                self.exc = e
            # what the interpreter does on its way out
            try:
                stdout.buffer.flush()
            except (OSError, ValueError) as e:
                self.exc = self.exc or e
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr, io.open, builtins.open = saved
        self.stdout = bytes(self.stdout_raw.buf)
        self.env.ev("tool", type(self.exc).__name__ if self.exc is not None else "ok")
        return self

    def out(self, name):
        return bytes(self.written[name].buf) if name in self.written else None
