"""Virtual-time asyncio event loop, simulated thread pool and simulated stream transports.

The loop is asyncio's own BaseEventLoop (so call ordering is exactly asyncio's), with the selector replaced by one
that never waits: when nothing is runnable the simulated clock jumps to the next timer.  Thread-pool jobs are started
and completed at times chosen by the run's choice tape; each job runs atomically at its start instant, and a job whose
awaiting task has gone away still runs if it had already been picked up, exactly like a real pool thread.
"""
import asyncio
import asyncio.base_events
import concurrent.futures

from .core import Violation


class _NoSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        env = self.loop.env
        env.step()
        if timeout is None:
            raise Violation("stuck", "every task is waiting and no event is outstanding (simulated t=%.3f)"
                            % self.loop._now)
        if timeout > 0:
            self.loop._now += timeout
            env.sim_time += timeout
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, env, jitter=4):
        self.env = env
        self._now = 1000.0
        self.jitter = jitter
        super().__init__()
        self._selector = _NoSelector(self)
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.set_exception_handler(self._on_exc)
        self.jobs = 0
        self.live_jobs = 0
        self.max_live = 0

    def _on_exc(self, loop, context):
        self.unhandled.append(context.get("message", "") + " " + repr(context.get("exception")))

    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def delay(self):
        """A simulated latency in seconds; 0 on an all-zero tape."""
        return self.env.choose(self.jitter) * 0.001

    def run_in_executor(self, executor, func, *args):
        env = self.env
        fut = self.create_future()
        self.jobs += 1
        self.live_jobs += 1
        self.max_live = max(self.max_live, self.live_jobs)
        jid = self.jobs
        if self.live_jobs > 1:
            env.probe("concurrent_io_jobs")

        def start():
            if fut.cancelled():
                # The pool drops a job that is cancelled before a worker picks it up; one already picked up runs on.
                if not env.chance(1, 2):
                    self.live_jobs -= 1
                    env.fault("job-dropped-by-cancel")
                    return
                env.fault("job-runs-after-cancel")
            env.step()
            try:
                res, exc = func(*args), None
            except (KeyboardInterrupt, SystemExit):
                raise
            except Violation:
                raise
            except Exception as e:
                res, exc = None, e
            env.ev("job", jid, "err" if exc is not None else "ok")

            def finish():
                self.live_jobs -= 1
                if fut.cancelled():
                    return
                if exc is not None:
                    if isinstance(exc, StopIteration):
                        fut.set_exception(RuntimeError(str(exc)))
                    else:
                        fut.set_exception(exc)
                else:
                    fut.set_result(res)

            self.call_later(self.delay(), finish)

        self.call_later(self.delay(), start)
        return fut

    def set_default_executor(self, executor):
        self._default_executor = executor

    async def shutdown_default_executor(self, timeout=None):
        return

    def finish(self):
        """Let outstanding jobs, timers and async generators drain, then close."""
        try:
            for _ in range(100000):
                if not self._ready and not self._scheduled:
                    break
                self.run_until_complete(asyncio.sleep(0.001))
                if not self.live_jobs and not self._ready:
                    if not any(not h._cancelled for h in self._scheduled):
                        break
        finally:
            pass


def run_async(env, coro_fn, jitter=4):
    """Run coro_fn(loop) to completion on a fresh simulated loop."""
    loop = SimLoop(env, jitter)
    asyncio.set_event_loop(loop)
    try:
        task = loop.create_task(coro_fn(loop))
        try:
            result = loop.run_until_complete(task)
        except BaseException:
            # leave nothing pending behind: cancel whatever is still there
            _cleanup(loop)
            raise
        _cleanup(loop)
        env.ev("loop-end", round(loop._now, 4), loop.jobs)
        return result
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def _cleanup(loop):
    try:
        pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in sorted(pending, key=lambda t: t.get_name()):
            t.cancel()
        if pending:
            loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
        loop.run_until_complete(loop.shutdown_asyncgens())
    except Violation:
        pass
    except Exception:
        pass


# ---------------------------------------------------------------------------------------------------------------------
# simulated byte streams


def split_chunks(env, data, policy):
    """Split data the way a network might: policy 0 one piece, 1 random, 2 bytewise head then rest."""
    out = []
    i = 0
    n = len(data)
    if policy == 0 or n == 0:
        return [data] if n else []
    while i < n:
        if policy == 2:
            k = 1 + env.choose(9)
        else:
            k = 1 + env.choose(min(n - i, 1 << (1 + env.choose(12))))
        if len(out) > 300:
            k = n - i
        out.append(data[i:i + k])
        i += k
    return out


def feed_reader(env, loop, reader, data, policy, end="eof", max_delay=3):
    """Deliver data to a StreamReader in chunks over simulated time, then EOF or a connection error."""
    chunks = split_chunks(env, data, policy)
    env.ev("net", len(chunks), len(data))
    if len(chunks) > 1:
        env.faults["net-chunked"] += 1
    it = iter(chunks)

    def deliver():
        try:
            c = next(it)
        except StopIteration:
            if end == "eof":
                reader.feed_eof()
            elif end == "reset":
                env.fault("net-reset")
                reader.set_exception(ConnectionResetError("simulated reset"))
            # end == "stall": nothing more ever arrives
            return
        reader.feed_data(c)
        d = env.choose(max_delay + 1)
        if d:
            env.faults["net-delay"] += 1
        loop.call_later(d * 0.01, deliver)

    loop.call_later(env.choose(max_delay + 1) * 0.01, deliver)


class SimTransport(asyncio.Transport):
    """Writable transport that swallows bytes at a simulated rate, pausing and resuming the protocol."""

    def __init__(self, env, loop, protocol, high=64, fail_after=None):
        super().__init__()
        self.env = env
        self.loop = loop
        self.protocol = protocol
        self.data = bytearray()
        self.pending = 0
        self.high = high
        self.paused = False
        self.closing = False
        self.fail_after = fail_after
        self.dead = False

    def is_closing(self):
        return self.closing or self.dead

    def get_extra_info(self, name, default=None):
        return default

    def write(self, data):
        if self.dead:
            return
        b = bytes(data)
        if self.fail_after is not None and len(self.data) + len(b) > self.fail_after:
            b = b[:max(0, self.fail_after - len(self.data))]
            self.data += b
            self.dead = True
            self.env.fault("net-write-reset")
            self.loop.call_soon(self.protocol.connection_lost, ConnectionResetError("simulated reset"))
            return
        self.data += b
        self.pending += len(b)
        if self.pending > self.high and not self.paused:
            self.paused = True
            self.env.fault("net-backpressure")
            self.protocol.pause_writing()
            self.loop.call_later((1 + self.env.choose(5)) * 0.01, self._drained)

    def writelines(self, lines):
        self.write(b"".join(bytes(x) for x in lines))

    def _drained(self):
        if self.dead:
            return
        self.pending = 0
        if self.paused:
            self.paused = False
            self.protocol.resume_writing()

    def close(self):
        if not self.closing:
            self.closing = True
            self.env.ev("transport-close")
            if not self.dead:
                self.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass


def make_writer(env, loop, high=64, fail_after=None):
    reader = asyncio.StreamReader(loop=loop)
    proto = asyncio.StreamReaderProtocol(reader, loop=loop)
    tr = SimTransport(env, loop, proto, high, fail_after)
    proto.connection_made(tr)
    return asyncio.StreamWriter(tr, proto, reader, loop), tr
