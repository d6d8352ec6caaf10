"""Run the simulation of one property: many seeds, on all cores, with evidence and replay files."""

from __future__ import annotations

import gc
import json
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from typing import Any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")

QUICK_RUNS = {
    "P01": 16000, "P02": 22000, "P03": 10000, "P04": 9000, "P05": 12000, "P06": 14000, "P07": 11000, "P08": 11000,
    "P09": 8000, "P10": 9000, "P11": 9000, "P12": 6000, "P13": 9000, "P14": 7000, "P15": 7000, "P16": 7000, "P17": 5000, "P18": 6000, "P19": 3000,
}
QUICK_WALL = 300.0
THOROUGH_WALL = 720.0
MIN_RUNS = 100


def make(prop: str, base: int, i: int) -> tuple[dict[str, Any], int, dict[str, Any]]:
    """Everything about run ``i`` follows from (property, base seed, i)."""
    from dst.profiles import PROFILES

    rng = random.Random(f"{prop}:{base}:{i}")
    seed = rng.getrandbits(48)
    spec, strategy = PROFILES[prop][0](rng)
    return json.loads(json.dumps(spec)), seed, json.loads(json.dumps(strategy))


def relevant(prop: str, violations: list[Any]) -> list[Any]:
    from dst.profiles import PROFILES

    return [v for v in violations if v[0] in PROFILES[prop][1]]


# -- workers -----------------------------------------------------------------------------------
def worker(prop: str, base: int, w: int, n: int, limit: int, wall_end: float, out: int, stop: Any) -> None:
    from dst import sim
    from dst.kernel import Unsuitable

    stats: Counter[str] = Counter()
    strategies: Counter[str] = Counter()
    sigs: set[int] = set()
    states: set[int] = set()
    runs = nontrivial = steps = switches = waits = maxsteps = 0
    simtime = 0.0
    sample: Any = None
    off: Counter[str] = Counter()

    def send(msg: Any) -> None:
        data = (json.dumps(msg) + "\n").encode()
        while data:
            data = data[os.write(out, data):]

    i = w
    while i < limit and time.monotonic() < wall_end and i < stop.value:
        try:
            spec, seed, strat = make(prop, base, i)
            r = sim.run(spec, seed=seed, strategy=strat)
        except Unsuitable:
            stats["runs_not_covered_by_the_model"] += 1
            i += n
            continue
        except BaseException as e:  # noqa: BLE001
            hang = "watchdog" in str(e)
            send(["harness", i, f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:], hang])
            break
        runs += 1
        steps += r.steps
        maxsteps = max(maxsteps, r.steps)
        switches += r.switches
        waits += r.lock_waits
        simtime += r.now
        st = r.stats
        stats.update(st)
        strategies[strat["kind"]] += 1
        busy = st.get("overlapping_ops", 0) or r.switches or any(k.startswith("fault:") for k in st)
        if st.get("provider_calls", 0) and busy:
            nontrivial += 1
            sigs.add(r.sig)
            if sample is None or (len(json.dumps(spec)) < 1500 and i % 7 == 0):
                sample = {"i": i, "seed": seed, "strategy": strat, "spec": spec, "schedule": r.schedule, "simulated_s": r.now,
                          "stats": dict(st)}
        mine = relevant(prop, r.violations)
        for v in r.violations:
            if v not in mine:
                off[v[0]] += 1
        if mine:
            send(["violation", i, mine[:3]])
            break
        if runs % 25 == 0:
            gc.collect()
        i += n
    send(["done", {
        "runs": runs, "nontrivial": nontrivial, "steps": steps, "switches": switches, "lock_waits": waits, "max_steps": maxsteps,
        "simulated_s": simtime, "stats": stats, "strategies": strategies, "sigs": list(sigs), "sample": sample, "off": off,
    }])


class _Stop:
    """Lowest failing run found so far, shared with the workers through a tiny file mapping."""

    def __init__(self) -> None:
        import mmap

        self.m = mmap.mmap(-1, 8)
        self.value = 1 << 60

    @property
    def value(self) -> int:
        return int.from_bytes(self.m[:8], "little")

    @value.setter
    def value(self, v: int) -> None:
        self.m[:8] = v.to_bytes(8, "little")


def explore(prop: str, base: int, limit: int, wall: float) -> tuple[list[Any], list[Any], list[Any]]:
    n = max(1, min(16, os.cpu_count() or 1))
    stop = _Stop()
    end = time.monotonic() + wall
    procs: dict[int, tuple[int, bytearray]] = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.close(r)
                for fd in procs:
                    os.close(fd)
                worker(prop, base, w, n, limit, end, wr, stop)
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = (pid, bytearray())
    found: list[Any] = []
    harness: list[Any] = []
    done: list[Any] = []

    def handle(line: bytes) -> None:
        msg = json.loads(line)
        if msg[0] == "violation":
            found.append(msg[1:])
            stop.value = min(stop.value, msg[1])
        elif msg[0] == "harness":
            harness.append(msg[1:])
            stop.value = min(stop.value, msg[1])
        else:
            done.append(msg[1])

    grace = end + 90
    while procs and time.monotonic() < grace:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            pid, buf = procs[fd]
            if chunk:
                buf += chunk
                while b"\n" in buf:
                    line, _, rest = bytes(buf).partition(b"\n")
                    buf[:] = rest
                    handle(line)
            else:
                os.close(fd)
                os.waitpid(pid, 0)
                del procs[fd]
    for fd, (pid, _) in procs.items():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(fd)
        harness.append([-1, "a worker did not finish", "", True])
    found.sort()
    harness.sort()
    return found, harness, done


# -- reporting -----------------------------------------------------------------------------------
def replay_file(prop: str, base: int, i: int, data: dict[str, Any]) -> str:
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{base}-{i}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def run_replay(data: dict[str, Any]) -> list[Any]:
    """Violations of the property that the recorded execution shows."""
    from dst import sim

    prop = data["property"]
    if "sequence" in data:
        # a failure that depends on what earlier runs left behind in the process
        base = data["base_seed"]
        last: list[Any] = []
        for i in data["sequence"]:
            spec, seed, strat = make(prop, base, i)
            last = relevant(prop, sim.run(spec, seed=seed, strategy=strat).violations)
        return last
    if data.get("hang"):
        from dst.kernel import SimError

        try:
            r = sim.run(data["spec"], seed=data["seed"], strategy=data["strategy"])
        except SimError as e:
            if "watchdog" in str(e):
                return [["livelock", str(e)]]
            raise
        return relevant(prop, r.violations)
    r = sim.run(data["spec"], seed=data["seed"], strategy=data["strategy"], replay=data.get("schedule"))
    return relevant(prop, r.violations)


def fresh_replay(path: str, timeout: float = 240.0) -> list[Any] | None:
    """Replay in a new process; None if nothing was reproduced."""
    try:
        p = subprocess.run(
            [sys.executable, "-m", "dst.runner", "--replay", path, "--json"], cwd=VERIF, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, timeout=timeout, env=dict(os.environ, PYTHONHASHSEED="0"),
        )
    except subprocess.TimeoutExpired:
        return None
    try:
        got = json.loads(p.stdout.splitlines()[-1])
    except (ValueError, IndexError):
        return None
    return got or None


def report_violation(prop: str, base: int, i: int, violations: list[Any], n_workers: int, min_budget: float) -> tuple[str, list[Any]] | None:
    from dst.minimize import forked, kind_of, minimize

    from dst import sim

    spec, seed, strat = make(prop, base, i)
    common = {"property": prop, "base_seed": base, "run": i}
    first = forked(lambda: (lambda r: [r.violations, r.schedule])(sim.run(spec, seed=seed, strategy=strat)), 120.0)
    if first and relevant(prop, first[0]):
        plain = {**common, "seed": seed, "strategy": strat, "schedule": first[1], "violations": relevant(prop, first[0]), "spec": spec}
        want = kind_of(relevant(prop, first[0])[0])
        try:
            msp, msd, msc, res = minimize(
                spec, seed, strat, lambda vs: any(kind_of(v) == want for v in relevant(prop, vs)), budget_s=min_budget,
            )
        except Exception as e:  # noqa: BLE001
            print(f"(not minimised: {type(e).__name__}: {e})")
            msp, msd, msc, res = spec, seed, {}, None
        if res is not None and msc:
            path = replay_file(prop, base, i, {**common, "seed": msd, "strategy": strat, "schedule": msc,
                                               "violations": relevant(prop, res[1]), "spec": msp})
            got = fresh_replay(path)
            if got and kind_of(got[0]) == kind_of(relevant(prop, res[1])[0]):
                return path, got
        path = replay_file(prop, base, i, plain)
        got = fresh_replay(path)
        if got:
            return path, got
    # only reproducible after the runs that came before it in the same process
    back = 1
    seq = list(range(i % n_workers, i + 1, n_workers))
    while True:
        path = replay_file(prop, base, i, {**common, "sequence": seq[-1 - back:], "violations": violations})
        got = fresh_replay(path)
        if got:
            return path, got
        if back >= len(seq):
            return None
        back = min(len(seq), back * 8)


def evidence(prop: str, tier: str, base: int, done: list[Any], wall: float, nviol: int, extra: dict[str, Any]) -> None:
    from dst.describe import ASSUMPTIONS, COMPONENTS, RULE

    stats: Counter[str] = Counter()
    strategies: Counter[str] = Counter()
    sigs: set[int] = set()
    off: Counter[str] = Counter()
    tot: Counter[str] = Counter()
    simtime = 0.0
    maxsteps = 0
    for d in done:
        stats.update(d["stats"])
        strategies.update(d["strategies"])
        off.update(d["off"])
        sigs.update(d["sigs"])
        simtime += d["simulated_s"]
        maxsteps = max(maxsteps, d["max_steps"])
        for k in ("runs", "nontrivial", "steps", "switches", "lock_waits"):
            tot[k] += d[k]
    samples = [d["sample"] for d in done if d["sample"] is not None][:2]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": RULE,
            "samples": samples,
            "runs_per_hour": int(tot["runs"] / max(wall, 0.001) * 3600),
            "seeds": tot["runs"],
            "simulated_seconds": round(simtime, 1),
            "preemption_points_passed": tot["steps"],
            "context_switches": tot["switches"],
            "lock_waits": tot["lock_waits"],
            "longest_run_in_steps": maxsteps,
            "schedulers": dict(strategies),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "reached": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
            "components": COMPONENTS,
            "outside_this_property": dict(off),
            **extra,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main(argv: list[str]) -> int:
    from dst import sim

    if argv[:1] == ["--replay"]:
        with open(argv[1]) as f:
            data = json.load(f)
        sim.prepare(REPO)
        got = run_replay(data)
        if "--json" in argv:
            print(json.dumps(got), flush=True)
            os._exit(0)
        for v in got:
            print(f"{v[0]}: {v[1]}")
        if got:
            print(f"VIOLATION property={data['property']} replay={os.path.abspath(argv[1])}", flush=True)
        else:
            print("the recorded execution shows no violation", flush=True)
        os._exit(1 if got else 0)

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    sim.prepare(REPO)
    from dst.profiles import PROFILES

    if prop not in PROFILES:
        print(f"unknown property {prop}")
        return 2
    extra: dict[str, Any] = {}
    from dst import findings

    probed = findings.probe(prop)
    for line in probed:
        print(line)
    if tier == "quick":
        limit, wall = int(os.environ.get("DST_RUNS", QUICK_RUNS[prop])), QUICK_WALL
    else:
        limit, wall = 1 << 50, float(os.environ.get("DST_WALL", THOROUGH_WALL))
    n = max(1, min(16, os.cpu_count() or 1))
    print(f"property {prop}, {tier}: base seed {base}, {n} workers", flush=True)
    found, harness, done = explore(prop, base, limit, wall)
    runs = sum(d["runs"] for d in done)
    evidence(prop, tier, base, done, time.monotonic() - t0, len(found), extra)
    if found:
        i, violations = found[0]
        rep = report_violation(prop, base, i, violations, n, 45.0 if tier == "quick" else 120.0)
        if rep is None:
            print(f"run {i} failed but could not be reproduced: {violations}")
            return 2
        path, got = rep
        for v in got[:5]:
            print(f"{v[0]}: {v[1]}")
        print(f"run {i} of base seed {base}; replay: cd {VERIF} && ./check --replay {path}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if harness:
        i, what, tb, hang = harness[0]
        if hang and i >= 0 and "livelock" in PROFILES[prop][1]:
            spec, seed, strat = make(prop, base, i)
            path = replay_file(prop, base, i, {"property": prop, "base_seed": base, "run": i, "seed": seed, "strategy": strat,
                                               "hang": True, "spec": spec, "violations": [["livelock", what]]})
            if fresh_replay(path):
                print(f"livelock: {what}")
                print(f"VIOLATION property={prop} replay={path}", flush=True)
                return 1
        print(f"HARNESS failure in run {i} of base seed {base}: {what}\n{tb}")
        return 2
    if runs < min(MIN_RUNS, limit):
        print(f"only {runs} runs were possible in {wall:.0f} s")
        return 2
    print(f"{runs} runs, no violation, {time.monotonic() - t0:.0f} s")
    return 0


if __name__ == "__main__":
    rc = 2
    try:
        rc = main(sys.argv[1:])
    except SystemExit as e:
        rc = int(e.code or 0)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
