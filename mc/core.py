"""Bounded exhaustive exploration runner.

A check module (checks/<ID>.py) provides

    PID            property id
    LEVEL          manifest level ("model_checking" / "fault_enumeration")
    BOUNDS[tier]   one line describing the alphabet and bound of that tier
    ASSUME         list of assumptions
    cases(tier)    generator of JSON-able cases, simplest first (the complete bounded space)
    run(case, ctx) executes one case on the real code in lock step with its reference model
    CHUNK          optional number of cases per worker process
    shrink(case)   optional generator of smaller cases

The runner partitions the case space in chunks; every chunk runs in a freshly forked process (so a
violation is reproducible from its chunk alone), collects the model states / transitions / traces it
covered, re-executes every violation from a fresh process, and writes evidence and replay artefacts.
"""
import argparse
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "90"))
DEADLINE = {"quick": 420.0, "thorough": 780.0}


class CaseTimeout(BaseException):
    pass


class Fail(Exception):
    """Raised by ctx.fail to stop a case at its first violation."""

    def __init__(self, sig, msg):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, msg


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ctx:
    """What one case execution reports back."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.counts = Counter()
        self.notes = Counter()

    def state(self, obj):
        self.states.add(h64(obj))

    def outcome(self, obj):
        self.outcomes.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def cmp(self, n=1):
        self.evals += n

    def count(self, key, n=1):
        self.counts[key] += n

    def note(self, msg):
        self.notes[msg] += 1

    def fail(self, sig, msg=""):
        raise Fail(str(sig), str(msg))

    def check(self, cond, sig, msg=""):
        self.evals += 1
        if not cond:
            raise Fail(str(sig), msg() if callable(msg) else str(msg))


_MOD = None
_TIER = None
_SEED = 1


def _alarm(*_):
    raise CaseTimeout()


def _reset_process_state():
    random.seed(12345 + _SEED)
    try:
        import numpy as np

        np.random.seed(12345 + _SEED)
    except ImportError:
        pass
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(12345 + _SEED)


def run_cases(cases, ctx, stop_at_first=True):
    """cases: list of (index, case). Returns list of failures."""
    fails = []
    signal.signal(signal.SIGALRM, _alarm)
    for k, (idx, case) in enumerate(cases):
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
            try:
                _MOD.run(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Fail as e:
            fails.append(dict(idx=idx, case=case, sig=e.sig, msg=e.msg, pos=k))
        except CaseTimeout:
            fails.append(dict(idx=idx, case=case, sig="no-termination",
                              msg=f"case did not terminate within {CASE_TIMEOUT:.0f}s", pos=k))
        except Exception as e:  # an exception the model does not allow
            tb = traceback.format_exc(limit=-6)
            fails.append(dict(idx=idx, case=case, sig=f"exception:{type(e).__name__}", msg=tb, pos=k))
        if fails and stop_at_first:
            break
    return fails


def _chunk_worker(cases):
    _reset_process_state()
    ctx = Ctx()
    t = time.time()
    fails = run_cases(cases, ctx)
    return dict(states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions, traces=ctx.traces,
                evals=ctx.evals, counts=ctx.counts, notes=ctx.notes, fails=fails, n=len(cases), wall=time.time() - t,
                cases=cases if fails else None)


def _iso(cases, q):
    _reset_process_state()
    ctx = Ctx()
    q.put(run_cases(cases, ctx))


def run_isolated(cases):
    """Run cases in a fresh fork; returns failures."""
    q = mp.get_context("fork").SimpleQueue()
    p = mp.get_context("fork").Process(target=_iso, args=(cases, q))
    p.start()
    t = time.time()
    while p.is_alive() and time.time() - t < CASE_TIMEOUT * (1 + len(cases) // 50) + 60:
        if not q.empty():
            break
        time.sleep(0.02)
    r = q.get() if not q.empty() else [dict(idx=-1, case=None, sig="worker-died", msg="worker ended without a result", pos=0)]
    p.kill() if p.is_alive() and q.empty() is False else None
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def load_known(pid):
    known = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line:
                sig = line.split("sig=", 1)[1].split(" :: ", 1)[0].strip()
                known.append((sig, line.split(" :: ", 1)[1] if " :: " in line else sig))
    return known


def chunked(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def main(argv=None):
    global _MOD, _TIER, _SEED, CASE_TIMEOUT
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0, help="debug: only the first N cases")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _TIER, _SEED = tier, seed
    t0 = time.time()
    from . import env

    env.setup()
    _MOD = importlib.import_module(f"checks.{a.pid}")
    pid = _MOD.PID
    CASE_TIMEOUT = getattr(_MOD, "CASE_TIMEOUT", CASE_TIMEOUT)
    if a.replay:
        art = json.loads(Path(a.replay).read_text())
        cases = [(i, c) for i, c in enumerate(art["history"])]
        fails = run_isolated(cases)
        for f in fails:
            print(f"REPLAY property={pid} sig={f['sig']}\n{f['msg']}")
        print("reproduced" if fails else "not reproduced")
        sys.exit(1 if fails else 0)

    all_cases = enumerate(_MOD.cases(tier))
    if a.limit:
        all_cases = itertools.islice(all_cases, a.limit)
    chunk_n = getattr(_MOD, "CHUNK", 50)
    if isinstance(chunk_n, dict):
        chunk_n = chunk_n[tier]
    deadline = t0 + DEADLINE[tier]
    tot = dict(states=set(), outcomes=set(), transitions=0, traces=0, evals=0, counts=Counter(), notes=Counter(), n=0)
    samples, complete, failing_chunks = [], True, []
    known = load_known(pid)
    known_hit = {}
    new_fail = []

    def is_known(sig):
        for s, d in known:
            if s == sig:
                return d
        return None

    counter = {"gen": 0}

    def gen():
        for c in chunked(all_cases, chunk_n):
            counter["gen"] += len(c)
            if len(samples) < 3:
                samples.append(c[0][1])
            yield c

    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(a.jobs, maxtasksperchild=getattr(_MOD, "TASKS_PER_PROC", 1))
    pending_known = []
    try:
        # feed lazily: keep a bounded number of chunks in flight
        g = gen()
        inflight = []
        exhausted = False
        while True:
            while not exhausted and len(inflight) < 4 * a.jobs:
                c = next(g, None)
                if c is None:
                    exhausted = True
                    break
                inflight.append(pool.apply_async(_chunk_worker, (c,)))
            if not inflight:
                break
            if time.time() > deadline:
                complete = False
                break
            ready = [r for r in inflight if r.ready()]
            if not ready:
                inflight[0].wait(0.05)
                continue
            for r in ready:
                inflight.remove(r)
                res = r.get()
                tot["states"] |= res["states"]
                tot["outcomes"] |= res["outcomes"]
                for k in ("transitions", "traces", "evals", "n"):
                    tot[k] += res[k]
                tot["counts"] += res["counts"]
                tot["notes"] += res["notes"]
                for f in res["fails"]:
                    d = is_known(f["sig"])
                    if d is not None:
                        known_hit[f["sig"]] = d
                        # the rest of the chunk still has to be explored
                        rest = res["cases"][f["pos"] + 1:]
                        if rest:
                            inflight.append(pool.apply_async(_chunk_worker, (rest,)))
                    else:
                        f["history"] = [c for _, c in res["cases"][: f["pos"] + 1]]
                        new_fail.append(f)
            if new_fail and (len(new_fail) >= 3 or True):
                break
    finally:
        pool.terminate()
        pool.join()

    violations = []
    unreproduced = 0
    if new_fail:
        complete = False
        new_fail.sort(key=lambda f: f["idx"])
        for f in new_fail[:3]:
            # replay from a fresh process: the case alone first, else the chunk prefix that led to it
            hist = [f["case"]]
            r = run_isolated([(0, f["case"])])
            if not r:
                hist = f["history"]
                r = run_isolated(list(enumerate(hist)))
            if not r:
                unreproduced += 1
                print(f"note: failure not reproduced on replay, not reported: {f['sig']} {f['msg'][-300:]}", flush=True)
                continue
            if is_known(r[-1]["sig"]) is not None:
                known_hit[r[-1]["sig"]] = is_known(r[-1]["sig"])
                continue
            if len(hist) == 1 and hasattr(_MOD, "shrink"):
                hist = [shrink_case(hist[0], r[-1]["sig"], min(deadline, time.time() + 40))]
                r = run_isolated([(0, hist[0])]) or r
            violations.append((hist, r[-1]))
            break
    wall = time.time() - t0
    cov = dict(states=len(tot["states"]), transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
               samples=samples, cases=tot["n"], oracle_comparisons=tot["evals"], distinct_outcomes=len(tot["outcomes"]),
               exhaustive=bool(complete and not a.limit and getattr(_MOD, 'EXHAUSTIVE', True)), bound=_MOD.BOUNDS[tier], per_operation=dict(sorted(tot["counts"].items())))
    if tot["notes"]:
        cov["notes"] = dict(tot["notes"])
    if unreproduced:
        cov["unreproduced_failures"] = unreproduced
    if known_hit:
        cov["known_findings_hit"] = sorted(known_hit)
    if _MOD.LEVEL in ("exploration", "fault_enumeration"):
        cov["evaluations"] = tot["evals"]
        cov.pop("oracle_comparisons", None)
        cov["distinct_nontrivial"] = len(tot["outcomes"])
        cov.pop("distinct_outcomes", None)
        cov["rule"] = getattr(_MOD, "RULE", "every case of the bounded space; outcomes distinct by value")
    ev = dict(property=pid, tier=tier, seed=seed, level=_MOD.LEVEL, coverage=cov, assumptions=list(_MOD.ASSUME),
              wall_s=round(wall, 2), violations=len(violations))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    for s, d in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {d}")
    print(f"{pid} tier={tier} cases={tot['n']} states={cov['states']} transitions={tot['transitions']} traces={tot['traces']} "
          f"comparisons={tot['evals']} outcomes={len(tot['outcomes'])} exhaustive={cov['exhaustive']} wall={wall:.1f}s", flush=True)
    if violations:
        hist, f = violations[0]
        rp = VERIF / "evidence" / "replay"
        rp.mkdir(exist_ok=True)
        p = rp / f"{pid}.json"
        p.write_text(json.dumps(dict(property=pid, sig=f["sig"], message=f["msg"], history=hist,
                                     replay_cmd=f"/opt/venv/bin/python -m mc {pid} --replay {p}"), indent=1, default=str))
        print(f"  case: {json.dumps(hist[-1], default=str)[:2000]}\n  {f['sig']}: {f['msg'][:3000]}")
        print(f"VIOLATION property={pid} replay={p}", flush=True)
        sys.exit(1)
    sys.exit(0)


def shrink_case(case, sig, until):
    cur = case
    progress = True
    while progress and time.time() < until:
        progress = False
        for cand in _MOD.shrink(cur):
            if time.time() > until:
                break
            r = run_isolated([(0, cand)])
            if r and r[-1]["sig"] == sig:
                cur, progress = cand, True
                break
    return cur
