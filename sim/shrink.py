"""Generic minimiser over JSON cases: delete list elements, simplify scalars, shorten the choice tape."""
import copy
import time


def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    if not path:
        return v
    y = copy.deepcopy(x)
    t = y
    for p in path[:-1]:
        t = t[p]
    t[path[-1]] = v
    return y


def size(case):
    n = 0
    for _, v in _paths(case):
        if isinstance(v, (list, dict)):
            n += 1
        elif isinstance(v, bool):
            n += int(v)
        elif isinstance(v, int):
            n += 1 + min(abs(v).bit_length(), 64)
        elif isinstance(v, str):
            n += 1 + len(v)
        else:
            n += 1
    return n


def candidates(case, frozen):
    # 1. lists: delete chunks, biggest first
    lists = [(p, v) for p, v in _paths(case) if isinstance(v, list) and v and not (p and p[-1] in frozen)]
    lists.sort(key=lambda pv: -len(pv[1]))
    for p, v in lists:
        n = len(v)
        k = n
        while k >= 1:
            for s in range(0, n, k):
                yield _set(case, p, v[:s] + v[s + k:])
            k //= 2
    # 2. scalars
    for p, v in _paths(case):
        if p and (p[-1] in frozen or any(q in frozen for q in p)):
            continue
        if isinstance(v, bool):
            if v:
                yield _set(case, p, False)
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1):
                if c != v and abs(c) < abs(v):
                    yield _set(case, p, c)
        elif isinstance(v, dict) and len(p) and not isinstance(p[-1], int):
            yield _set(case, p, None)


def shrink(case, still_fails, frozen=(), budget_s=20.0, max_exec=4000):
    """still_fails(case) -> bool.  Greedy, deterministic apart from the time budget."""
    t0 = time.monotonic()
    best = case
    execs = 0
    progress = True
    while progress and time.monotonic() - t0 < budget_s and execs < max_exec:
        progress = False
        for c in candidates(best, frozen):
            if time.monotonic() - t0 > budget_s or execs >= max_exec:
                break
            if size(c) >= size(best):
                continue
            execs += 1
            if still_fails(c):
                best = c
                progress = True
                break
    return best, execs
