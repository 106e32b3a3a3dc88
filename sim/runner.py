"""Batch exploration, minimisation, replay files, evidence."""
import gc
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
from collections import Counter, deque

from . import core
from .core import HarnessError, explore_one, run_case
from .shrink import shrink, size

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# runs before a violating one that are kept, in case what happens depends on state which they left in the process
HISTORY = 4000


def load_prop(pid):
    m = importlib.import_module("sim.props." + pid.lower())
    assert m.ID == pid
    return m


def silence():
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def check_target():
    import mediagrains
    p = os.path.realpath(mediagrains.__file__)
    if not p.startswith(os.path.realpath(core.REPO) + os.sep):
        raise HarnessError("mediagrains imported from %s, not from %s" % (p, core.REPO))


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["entries"]
    except FileNotFoundError:
        return []


def match_known(pid, viol, known):
    """A finding entry names the violation kind and text fragments that all have to appear."""
    for k in known:
        if k.get("status") == "finding" and k["property"] == pid and k["kind"] == viol.kind and \
                all(s in viol.msg for s in k["contains"]):
            return k
    return None


class Agg:
    def __init__(self):
        self.n = 0
        self.skipped = 0
        self.nontrivial = 0
        self.digests = set()
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.known = Counter()
        self.samples = []

    def add(self, i, env, case):
        self.n += 1
        if getattr(env, "skipped", False):
            self.skipped += 1
        if env.nontrivial:
            self.nontrivial += 1
            self.digests.add(env.digest())
        self.faults.update(env.faults)
        self.probes.update(env.probes)
        self.sim_time += env.sim_time
        self.steps += env.steps
        if i < 3:
            self.samples.append({"i": i, "case": case, "digest": env.digest(), "trace_tail": env.trace[-6:]})

    def to_json(self):
        return {"n": self.n, "skipped": self.skipped, "nontrivial": self.nontrivial, "digests": sorted(self.digests),
                "faults": self.faults, "probes": self.probes, "sim_time": self.sim_time, "steps": self.steps,
                "samples": self.samples, "known": self.known}

    def merge(self, j):
        for k in ("n", "skipped", "nontrivial", "sim_time", "steps"):
            setattr(self, k, getattr(self, k) + j[k])
        self.digests.update(j["digests"])
        self.faults.update(j["faults"])
        self.probes.update(j["probes"])
        self.known.update(j["known"])
        self.samples += j["samples"]


def worker(pid, seed, tier, w, nw, runs, deadline, out_fd, known):
    silence()
    prop = load_prop(pid)
    agg = Agg()
    res = {"w": w}
    before = deque(maxlen=HISTORY)
    try:
        gc.disable()
        for k, i in enumerate(range(w, runs, nw)):
            if time.monotonic() > deadline:
                res["timeout_at"] = i
                break
            env, viol, case = explore_one(prop, seed, i, tier)
            if viol is not None:
                f = match_known(pid, viol, known)
                if f is None:
                    res["viol"] = {"i": i, "kind": viol.kind, "msg": viol.msg, "case": case, "digest": env.digest(),
                                   "before": list(before)}
                    agg.add(i, env, case)
                    break
                agg.known[f["id"]] += 1
            agg.add(i, env, case)
            before.append(json.dumps(case))
            if k % 50 == 0:
                gc.collect()
    except HarnessError as e:
        res["harness"] = "run %d: %s" % (i, e)
    except BaseException as e:  # noqa
        import traceback
        res["harness"] = "run %d: %s" % (i, "".join(traceback.format_exception(e)))
    res["agg"] = agg.to_json()
    data = json.dumps(res).encode()
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def explore(pid, seed, tier, runs, wall, nw, known):
    deadline = time.monotonic() + wall
    procs = {}
    for w in range(nw):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                os.close(r)
                for (fd, _) in procs.values():
                    os.close(fd)
                worker(pid, seed, tier, w, nw, runs, deadline, wr, known)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs[pid_] = (r, w)
    bufs = {r: b"" for (r, _) in procs.values()}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5.0)
        for fd in ready:
            d = os.read(fd, 1 << 20)
            if not d:
                open_fds.discard(fd)
                os.close(fd)
            else:
                bufs[fd] += d
        if time.monotonic() > deadline + 60:
            for p in procs:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for p in procs:
        os.waitpid(p, 0)
    out = []
    for (fd, w) in procs.values():
        try:
            out.append(json.loads(bufs[fd]))
        except ValueError:
            out.append({"w": w, "harness": "worker %d died without a report" % w, "agg": Agg().to_json()})
    return out


def in_child(fn):
    """fn() in a forked process, so that nothing it does to the process stays; None if that goes wrong."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, wr = os.pipe()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            with os.fdopen(wr, "wb") as f:
                f.write(json.dumps(fn()).encode())
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(p, 0)
    try:
        return json.loads(data)
    except ValueError:
        return None


def run_after(prop, before, case):
    """Run a case after others in this process"""
    for c in before:
        try:
            run_case(prop, c)
        except HarnessError:
            pass
    return run_case(prop, case)


def minimise(prop, case, viol, budget, history=()):
    """(case, cases to be run before it, executions, whether it could be reproduced)"""
    frozen = getattr(prop, "FROZEN", ())
    t0 = time.monotonic()
    execs = 0

    def fails_after(before, c):
        nonlocal execs
        execs += 1

        def one():
            try:
                _, v = run_after(prop, before, c)
            except HarnessError:
                return None
            return None if v is None else v.kind
        return in_child(one) == viol.kind

    before = []
    if not fails_after([], case):
        # it takes state left in the process by earlier runs: how many of them, and then which
        history = [json.loads(c) for c in history]
        n = 1
        while not fails_after(history[-n:], case):
            if n >= len(history) or time.monotonic() - t0 > 4 * budget:
                return case, [], execs, False
            n *= 4
        before = history[-n:]
        k = max(1, len(before) // 2)
        while before and time.monotonic() - t0 < 5 * budget:
            for s in range(0, len(before), k):
                if fails_after(before[:s] + before[s + k:], case):
                    before = before[:s] + before[s + k:]
                    break
            else:
                if k == 1:
                    break
                k //= 2
        if before:
            before, n = shrink(before, lambda b: isinstance(b, list) and all(isinstance(c, dict) for c in b) and
                               fails_after(b, case), frozen, budget / 2)
    if viol.kind.startswith(core.STUMBLED):
        # a smaller case could be one that makes no sense
        return case, before, execs, True
    best, _ = shrink(case, lambda c: fails_after(before, c), frozen, budget)
    return best, before, execs, True


def write_replay(prop, case, before, seed, index, tier):
    def one():
        env, viol = run_after(prop, before, case)
        return {"violation": None if viol is None else {"kind": viol.kind, "msg": viol.msg},
                "digest": env.digest(), "faults": dict(env.faults), "trace": env.trace[-200:]}
    doc = {"property": prop.ID, "verif_seed": seed, "index": index, "tier": tier,
           "run_seed": core.seed_for(seed, prop.ID, index), "before": before, "case": case}
    doc.update(in_child(one) or {"violation": None, "digest": ""})
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop.ID, seed, index))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
    return path, doc["violation"]


def confirm(path):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "77"
    r = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), path], env=env, capture_output=True,
                       text=True, timeout=120)
    return r.returncode == 1, r.stdout + r.stderr


def run_check(pid, tier, seed, runs=None, wall=None, nw=None, quiet=False):
    t0 = time.monotonic()
    silence()
    try:
        check_target()
        prop = load_prop(pid)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    runs = runs or prop.RUNS[tier]
    wall = wall or {"quick": 240, "thorough": 780}[tier]
    nw = nw or min(8, os.cpu_count() or 1)
    known = load_known()
    results = explore(pid, seed, tier, runs, wall, nw, known)
    agg = Agg()
    for r in results:
        agg.merge(r["agg"])
    harness = [r["harness"] for r in results if "harness" in r]
    viols = sorted((r["viol"] for r in results if "viol" in r), key=lambda v: v["i"])
    truncated = [r["timeout_at"] for r in results if "timeout_at" in r]
    t1 = time.monotonic()
    rc = 0
    lines = []
    if viols:
        v = viols[0]
        vv = core.Violation(v["kind"], v["msg"])
        case, before, execs, ok = minimise(prop, v["case"], vv, 25 if tier == "quick" else 60, v["before"])
        path, viol2 = write_replay(prop, case, before, seed, v["i"], tier)
        same, _ = confirm(path) if ok else (False, "")
        rc = 1
        lines.append("violation of %s found in run %d (seed %d): %s: %s" % (pid, v["i"], seed, v["kind"], v["msg"]))
        lines.append("minimised from %d to %d (%d executions)%s; %s; fresh-process replay %s" % (
            size(v["case"]), size(case), execs, ", after %d other runs in the process" % len(before) if before else "",
            "%(kind)s: %(msg)s" % viol2 if viol2 else None, "reproduces" if same else "DID NOT REPRODUCE"))
        lines.append("replay with: ./replay.py %s" % path)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif harness:
        rc = 2
        lines.append("ERROR in the harness for %s: %s" % (pid, harness[0]))
    wall_s = time.monotonic() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.digests),
            "rule": prop.RULE + " Distinctness is by hash of the run's complete event trace (every simulated I/O "
                    "completion, fault, delivery and observed result).",
            "samples": sorted(agg.samples, key=lambda s: s["i"])[:3],
            "nontrivial_runs": agg.nontrivial,
            "seeds": agg.n,
            "runs_per_hour": round(agg.n / max(t1 - t0, 1e-6) * 3600),
            "simulated_seconds": round(agg.sim_time, 3),
            "simulator_steps": agg.steps,
            "faults_injected": dict(sorted(agg.faults.items())),
            "situations_reached": dict(sorted(agg.probes.items())),
            "skipped_cases": agg.skipped,
            "components_real": prop.REAL,
            "components_simulated": prop.STUB,
            "planned_runs": runs, "wall_cap_hit": bool(truncated), "workers": nw,
            "known_finding_hits": dict(agg.known),
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    if not quiet:
        print("%s %s seed=%d: %d runs, %d distinct non-trivial, %.1f s, %d faults of %d kinds%s" % (
            pid, tier, seed, agg.n, len(agg.digests), wall_s, sum(agg.faults.values()), len(agg.faults),
            " (wall cap hit)" if truncated else ""))
    for k in known:
        if k.get("status") == "finding" and k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return rc
