"""Runtime-monitoring core: trackers, verdicts, evidence and replay.

A *property module* (vgmon/props/cXX.py) defines WORKLOADS, a list of
Workload(name, fn, quick, thorough).  `fn(T, rng, i)` drives the real code of
/repo once (case `i` of the workload, all randomness from `rng`) while monitors
look at what was observed and report to the tracker `T`:

    T.check(name, cond, detail)   one oracle decision
    T.close(name, got, want, ...) one numerical oracle decision
    T.raises(name, excs, fn)      the code must reject the input
    T.event(name, n)              something the instrumentation observed
    T.case(*parts)                fingerprint of a non-trivial case
    T.known(key, ok, symptom)     probe of a listed (unrepaired) finding

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: a monitor that has to fire never did, a
watchdog fired, a worker was killed for lack of memory).
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """Raised to abandon a case after a decided violation."""


class CaseTimeout(BaseException):
    """The per-case watchdog (inconclusive, never a violation)."""


class Workload:
    def __init__(self, name, fn, quick, thorough, must=(), timeout=240):
        self.name, self.fn = name, fn
        self.count = {"quick": quick, "thorough": thorough}
        # Names of monitors that have to fire for a conclusive verdict.
        self.must = tuple(must)
        self.timeout = timeout


def case_rng(seed, workload, i):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(workload.encode()), int(i)])


def jsonable(o, depth=0):
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:40]}
    if isinstance(o, np.ndarray):
        if o.size > 12:
            return {"array": list(o.shape), "head": jsonable(o.ravel()[:6].tolist())}
        return jsonable(o.tolist())
    if isinstance(o, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(o)[:40]]
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if np.isfinite(f) else repr(f)
    if isinstance(o, (np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:300]


def load_known():
    """Lines `known: property=<id> key=<key> symptom=<word> :: text`."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith("known:"):
                head, _, text = line[len("known:"):].partition("::")
                d = dict(p.split("=", 1) for p in head.split())
                out[(d["property"], d["key"])] = (d["symptom"], text.strip())
    return out


class Tracker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.monitors, self.events = Counter(), Counter()
        self.cases = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.inconclusive = []
        self.cut, self.late = [], Counter()
        self.workload = self.index = None
        self.info = {}
        self._known = load_known()

    # -- bookkeeping --
    def begin(self, workload, index):
        self.workload, self.index, self.info = workload, index, {}

    def note(self, **kw):
        """Describe the running case (goes to samples / replay files)."""
        self.info.update(kw)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def case(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        h.update(self.workload.encode())
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.cases.add(h.hexdigest())
        if len(self.samples) < 3 and self.index is not None:
            self.samples.append({"workload": self.workload, "case": self.index, **jsonable(self.info)})

    # -- decisions --
    def fail(self, name, detail=None):
        self.violations.append({"property": self.prop, "workload": self.workload, "case": self.index,
                                "seed": self.seed, "tier": self.tier, "monitor": name,
                                "info": jsonable(self.info), "detail": jsonable(detail)})
        raise Violation(name)

    def check(self, name, cond, detail=None):
        self.monitors[name] += 1
        if not bool(cond):
            self.fail(name, detail)

    def close(self, name, got, want, rtol=1e-8, scale=None, atol=0.0, detail=None):
        """max|got - want| <= atol + rtol * scale (scale: largest magnitude involved)."""
        self.monitors[name] += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            if g.size == w.size == 1:
                g, w = g.reshape(()), w.reshape(())
            else:
                self.fail(name, {"why": "shape", "got": list(g.shape), "want": list(w.shape), "more": detail})
        if g.size == 0:
            return
        sc = np.max(np.abs(w)) if scale is None else np.max(np.abs(np.asarray(scale, dtype=float)))
        err = np.abs(g - w)
        bad = ~(err <= atol + rtol * max(float(sc), 1e-300))
        bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
            self.fail(name, {"err": float(err.ravel()[k]), "scale": float(sc), "got": float(g.ravel()[k]),
                             "want": float(w.ravel()[k]), "at": [int(q) for q in np.unravel_index(k, g.shape)],
                             "rtol": rtol, "more": detail})

    def raises(self, name, excs, fn, detail=None):
        self.monitors[name] += 1
        try:
            out = fn()
        except excs:
            return
        except Exception as e:  # rejected, but not the way it is documented
            self.fail(name, {"why": "wrong exception", "got": repr(e), "more": detail})
        self.fail(name, {"why": "accepted", "returned": out, "more": detail})

    def known(self, key, ok, symptom, detail=None):
        """Probe of a finding: `ok` means the defect is not there."""
        self.monitors["known-probe:" + key] += 1
        if ok:
            return
        listed = self._known.get((self.prop, key))
        if listed and listed[0] == symptom:
            self.known_hits[key] = listed[1]
            return
        self.fail("known-probe:" + key, {"symptom": symptom, "listed": listed, "more": detail})

    def dump(self):
        return {"monitors": dict(self.monitors), "events": dict(self.events), "cases": sorted(self.cases),
                "samples": self.samples, "violations": self.violations, "known": self.known_hits,
                "inconclusive": self.inconclusive, "cut": self.cut, "late": dict(self.late)}


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(T, w, i, left=None):
    T.begin(w.name, i)
    rng = case_rng(T.seed, w.name, i)
    limit = w.timeout if left is None else max(20, min(w.timeout, int(left)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        w.fn(T, rng, i)
    except Violation:
        pass
    except (CaseTimeout, subprocess.TimeoutExpired):
        T.cut.append([w.name, i, limit])
    except MemoryError:
        T.inconclusive.append(f"memory: {w.name}[{i}]")
    except BaseException as e:  # the code under test blew up on an admissible input
        signal.alarm(0)
        try:
            T.fail("unexpected-exception", {"exc": repr(e)[:400], "tb": traceback.format_exc()[-1800:]})
        except Violation:
            pass
    finally:
        signal.alarm(0)


def _worker(prop, tier, seed, jobs, out_path, journal, workloads, t_soft, t_hard):
    sys.stdout = open(os.devnull, "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    T = Tracker(prop, tier, seed)
    by = {w.name: w for w in workloads}
    for name, i in jobs:
        if time.monotonic() > t_soft:
            T.late[name] += 1
            continue
        with open(journal, "w") as f:
            f.write(json.dumps([name, i]))
        run_case(T, by[name], i, t_hard - time.monotonic())
        if len(T.violations) >= 5:
            break
    with open(out_path, "w") as f:
        json.dump(T.dump(), f)
    os._exit(0)


def run_parallel(prop, tier, seed, workloads, nproc, deadline_s):
    """Forks `nproc` workers over all cases; returns the merged result. No case starts after 60 % of the time."""
    jobs = [(w.name, i) for w in workloads for i in range(w.count[tier])]
    # Every worker gets a share of every workload, and all workloads advance together.
    size = {w.name: w.count[tier] for w in workloads}
    parts = [sorted(jobs[k::nproc], key=lambda j: j[1] / size[j[0]]) for k in range(nproc)]
    parts = [p for p in parts if p]
    merged = {"monitors": Counter(), "events": Counter(), "cases": set(), "samples": [], "violations": [],
              "known": {}, "inconclusive": [], "cut": [], "late": Counter()}
    t_end = time.monotonic() + deadline_s
    t_soft, t_hard = t_end - .4 * deadline_s, t_end - .07 * deadline_s
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        pids = {}
        for k, part in enumerate(parts):
            out, jr = os.path.join(tmp, f"o{k}.json"), os.path.join(tmp, f"j{k}.json")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    _worker(prop, tier, seed, part, out, jr, workloads, t_soft, t_hard)
                finally:
                    os._exit(97)
            pids[pid] = (k, out, jr)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > t_end:
                    for p in pids:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                    merged["inconclusive"].append(f"watchdog: workers exceeded {deadline_s}s")
                    for p in list(pids):
                        os.waitpid(p, 0)
                        del pids[p]
                    break
                time.sleep(0.02)
                continue
            if pid not in pids:
                continue
            k, out, jr = pids.pop(pid)
            if os.path.exists(out):
                r = json.load(open(out))
                merged["monitors"].update(r["monitors"])
                merged["events"].update(r["events"])
                merged["cases"].update(r["cases"])
                merged["samples"] += r["samples"]
                merged["violations"] += r["violations"]
                merged["known"].update(r["known"])
                merged["inconclusive"] += r["inconclusive"]
                merged["cut"] += r["cut"]
                merged["late"].update(r["late"])
            else:
                last = json.load(open(jr)) if os.path.exists(jr) else ["?", -1]
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                                     signal.SIGILL, signal.SIGFPE):
                    merged["violations"].append({"property": prop, "workload": last[0], "case": last[1],
                                                 "seed": seed, "tier": tier, "monitor": "process-crash",
                                                 "info": {}, "detail": {"signal": os.WTERMSIG(status)}})
                else:
                    merged["inconclusive"].append(f"worker {k} ended with status {status} at {last}")
    return merged
