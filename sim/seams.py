"""Process-wide seams: wall clock and UUID generation are owned by the running Env."""
import time as _time
import uuid as _uuid

_state = {"clock": 1_700_000_000 * 10**9, "uuid": 0}


def reset():
    _state["clock"] = 1_700_000_000 * 10**9
    _state["uuid"] = 0


def advance(ns):
    _state["clock"] += int(ns)


def _now_ns():
    _state["clock"] += 1000
    return _state["clock"]


def _gen(*a, **k):
    _state["uuid"] += 1
    return _uuid.UUID(int=0x5117_0000_0000_1000_8000_0000_0000_0000 + _state["uuid"])


def install():
    # before mediagrains is imported, so that "from uuid import uuid1" and friends see the simulated ones
    _uuid.uuid1 = _gen
    _uuid.uuid4 = _gen
    from mediatimestamp.immutable import Timestamp

    def get_time(cls, *a, **k):
        ns = _now_ns()
        return cls(ns // 10**9, ns % 10**9)
    Timestamp.get_time = classmethod(get_time)


install()
_ = _time
