"""Shrink a failing run: first the workload, then the schedule that exposes the failure."""

from __future__ import annotations

import copy
import json
import os
import random
import re
import select
import signal
import time
from typing import Any, Callable, Iterator

DROP_OP = ("prop", "swallow", "to", "late", "dclose", "ctx", "csh", "cty", "how", "cexc", "via", "on", "end", "m", "rs", "give", "gv", "cnone", "pos", "more", "lvl", "inherit", "re", "close", "d")
DROP_REG = ("nv", "iv", "ret", "str", "dx", "fm", "sty", "cms", "dual", "mis", "aw", "flt", "dly", "rdly", "sup", "cs", "ni", "self", "sh", "ip", "s", "l")


def forked(fn: Callable[[], Any], timeout: float = 30.0) -> Any:
    """Run ``fn`` in a child process and return its JSON result (None on crash or timeout)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException:  # noqa: BLE001
            pass
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    end = time.monotonic() + timeout
    ok = False
    with os.fdopen(r, "rb", buffering=0) as f:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                break
            if not select.select([f], [], [], left)[0]:
                break
            chunk = f.read(65536)
            if not chunk:
                ok = True
                break
            data += chunk
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if not ok or not data:
        return None
    return json.loads(data)


def _lists(ops: list[Any]) -> Iterator[list[Any]]:
    yield ops
    for o in ops:
        if "body" in o:
            yield from _lists(o["body"])
        for b in o.get("t", ()):
            yield from _lists(b)


def _programs(spec: dict[str, Any]) -> list[list[Any]]:
    return [spec["main"]] if "main" in spec else list(spec["loop"])


def _all_lists(spec: dict[str, Any]) -> list[list[Any]]:
    return [x for p in _programs(spec) for x in _lists(p)]


def _drop_dep(r: dict[str, Any], j: int) -> None:
    if r["deps"][j]["f"] == "t" and r["o"] == "open":
        raise IndexError
    del r["deps"][j]
    if "sh" in r:
        i = [i for i, c in enumerate(r["sh"]) if c != "x"][j]
        r["sh"] = r["sh"][:i] + r["sh"][i + 1 :]
        if not r["sh"]:
            del r["sh"]
    if "at" in r and r["at"] > j:
        r["at"] -= 1


def _sessions(spec: dict[str, Any]) -> Iterator[Callable[[dict[str, Any]], None]]:
    """Edits of a pytest session."""
    paths: list[tuple[Any, ...]] = []

    def walk(x: Any, path: tuple[Any, ...]) -> None:
        if isinstance(x, list):
            for i in range(len(x) - 1, -1, -1):
                if path != ("conts",):  # (modules refer to containers by index)
                    paths.append((*path, i))
                walk(x[i], (*path, i))
        elif isinstance(x, dict):
            for k in list(x):
                if k in ("order", "fail", "other", "imports", "conts", "use", "pz", "uf", "kw", "dflt", "deco", "par", "gap", "cut", "own", "close",
                         "pre", "ctx", "strict", "req", "life", "lock", "base", "async") and path:
                    paths.append((*path, k))
                elif not path and k in ("order", "fail", "other"):
                    paths.append((k,))
                if isinstance(x[k], (list, dict)) and k not in ("order", "fail"):
                    walk(x[k], (*path, k))

    walk(spec, ())
    paths.sort(key=len)

    def drop(s: dict[str, Any], path: tuple[Any, ...]) -> None:
        x: Any = s
        for p in path[:-1]:
            x = x[p]
        del x[path[-1]]

    for path in paths:
        yield lambda s, path=path: drop(s, path)


def candidates(spec: dict[str, Any]) -> Iterator[Callable[[dict[str, Any]], None]]:
    """Edits, coarse ones first; each is applied to a deep copy."""
    if "pytest" in spec:
        yield from _sessions(spec)
        return
    if "multi" in spec:
        for i, sub in enumerate(spec["multi"]):
            for edit in candidates(sub):
                yield lambda s, i=i, edit=edit: edit(s["multi"][i])
        return
    nl = len(_all_lists(spec))
    if len(spec.get("loop", ())) > 1:
        for i in range(len(spec["loop"])):
            yield lambda s, i=i: s["loop"].__delitem__(i)
    if spec.get("cancels"):
        yield lambda s: s.__delitem__("cancels")
        for i in range(len(spec["cancels"])):
            yield lambda s, i=i: s["cancels"].__delitem__(i)
    for li in range(nl):
        n = len(_all_lists(spec)[li])
        if n > 3:
            yield lambda s, li=li, n=n: _all_lists(s)[li].__delitem__(slice(n // 2, n))
            yield lambda s, li=li, n=n: _all_lists(s)[li].__delitem__(slice(0, n // 2))
        for i in range(n - 1, -1, -1):
            yield lambda s, li=li, i=i: _all_lists(s)[li].__delitem__(i)
            o = _all_lists(spec)[li][i]
            if o["o"] == "par":
                for b in range(len(o["t"])):
                    if len(o["t"]) > 1:
                        yield lambda s, li=li, i=i, b=b: _all_lists(s)[li][i]["t"].__delitem__(b)
                    yield lambda s, li=li, i=i, b=b: _all_lists(s)[li].__setitem__(slice(i, i + 1), _all_lists(s)[li][i]["t"][b])
            elif "body" in o:
                if o["o"] != "inj":
                    yield lambda s, li=li, i=i: _all_lists(s)[li].__setitem__(slice(i, i + 1), _all_lists(s)[li][i]["body"])
                elif o["body"]:
                    yield lambda s, li=li, i=i: _all_lists(s)[li][i].__delitem__("body")
            for a in DROP_OP:
                if a in o:
                    yield lambda s, li=li, i=i, a=a: _all_lists(s)[li][i].__delitem__(a)
    for i in range(len(spec["setup"]) - 1, -1, -1):
        yield lambda s, i=i: s["setup"].__delitem__(i)
    for i, r in enumerate(spec["setup"]):
        for j in range(len(r.get("deps", ())) - 1, -1, -1):
            yield lambda s, i=i, j=j: _drop_dep(s["setup"][i], j)
        for a in DROP_REG:
            if a in r:
                yield lambda s, i=i, a=a: s["setup"][i].__delitem__(a)
        for j in range(len(r.get("flt", ()))):
            yield lambda s, i=i, j=j: s["setup"][i]["flt"].__delitem__(j)
        if r.get("kind") in ("gen", "cm", "cls", "agen", "acm") and not (r["o"] == "reg" and any(d["f"] == "t" for d in r.get("deps", ()))):
            k2 = "afactory" if r["kind"][0] == "a" else "factory"
            yield lambda s, i=i, k2=k2: s["setup"][i].__setitem__("kind", k2)
    for i, inj in enumerate(spec.get("injects", ())):
        if "params" not in inj:
            continue
        if len(inj["params"]) > 1:
            for j in range(len(inj["params"])):
                yield lambda s, i=i, j=j: s["injects"][i]["params"].__delitem__(j)
        for a in ("scope", "plain", "kwonly", "auto", "sh", "meth", "str", "y", "more", "rest", "z"):
            if inj.get(a):
                yield lambda s, i=i, a=a: s["injects"][i].__delitem__(a)
    if spec.get("injects"):
        yield lambda s: s.__delitem__("injects")
    if spec.get("rend"):
        yield lambda s: s.__delitem__("rend")
        for a in spec["rend"]:
            yield lambda s, a=a: s["rend"].__delitem__(a)
    for a in ("use_ctx", "strict", "life", "tree", "temp", "odd", "notes", "gi"):
        if a in spec["container"]:
            yield lambda s, a=a: s["container"].__delitem__(a)


def kind_of(v: Any) -> tuple[str, ...]:
    """What makes two violations the same one: the category and the exceptions the message names."""
    msg = v[1].replace("aresolve", "resolve")
    if "main: " in msg[:6]:
        return (v[0], "main", *re.findall(r"\b[A-Z]\w*(?:Error|Exception|Exit|Interrupt)\b", msg)[:1])
    return (v[0], *re.findall(r"\b[A-Z]\w*(?:Error|Exception|Exit|Interrupt)\b", msg)[:1])


def size(spec: dict[str, Any]) -> int:
    return len(json.dumps(spec))


def minimize(
    spec: dict[str, Any],
    seed: int,
    strategy: dict[str, Any],
    fails: Callable[[Any], bool],
    *,
    budget_s: float = 60.0,
    log: Callable[[str], None] = lambda _: None,
) -> tuple[dict[str, Any], int, dict[str, Any], Any]:
    """Returns (spec, seed, schedule, result) of a smaller run for which ``fails`` still holds."""
    from dst import sim

    end = time.monotonic() + budget_s
    tries = 1 if strategy.get("kind") == "coarse" else 5

    def attempt(sp: dict[str, Any], seeds: list[int]) -> Any:
        def job() -> Any:
            for sd in seeds:
                try:
                    r = sim.run(sp, seed=sd, strategy=strategy)
                except Exception:  # noqa: BLE001
                    return None
                if fails(r.violations):
                    return [sd, r.violations, r.schedule, r.steps, r.now]
            return None

        return forked(job)

    best = attempt(spec, [seed])
    if best is None:
        return spec, seed, {}, None
    changed = True
    rounds = 0
    trials = 0
    while changed and time.monotonic() < end:
        changed = False
        rounds += 1
        start = 0
        while time.monotonic() < end:
            hit = False
            for n, edit in enumerate(candidates(spec)):
                if n < start:
                    continue
                if time.monotonic() > end:
                    break
                sp = copy.deepcopy(spec)
                try:
                    edit(sp)
                except (IndexError, KeyError):
                    continue
                sd0 = best[0]
                trials += 1
                got = attempt(sp, [sd0 + i for i in range(tries)])
                if got is not None:
                    spec, best, hit, changed, start = sp, got, True, True, n
                    break
            if not hit:
                break
        log(f"round {rounds}: {size(spec)} bytes, {trials} trials")
    # the schedule: drop preemptions one by one
    sched = best[2]
    seed = best[0]

    def replay(sc: dict[str, Any]) -> Any:
        def job() -> Any:
            try:
                r = sim.run(spec, seed=seed, strategy=strategy, replay=sc)
            except Exception:  # noqa: BLE001
                return None
            return [seed, r.violations, r.schedule, r.steps, r.now] if fails(r.violations) else None

        return forked(job)

    got = replay(sched)
    if got is None:
        return spec, seed, sched, best
    best = got
    step = max(1, len(sched["preempts"]) // 2)
    end = max(end, time.monotonic() + 10)
    while step >= 1 and time.monotonic() < end:
        i = 0
        while i < len(sched["preempts"]) and time.monotonic() < end:
            sc = {"preempts": sched["preempts"][:i] + sched["preempts"][i + step :], "forced": sched["forced"]}
            got = replay(sc)
            if got is not None:
                sched, best = got[2], got
            else:
                i += step
        step //= 2
    return spec, seed, sched, best


def main() -> None:
    import sys

    prop, s = sys.argv[1], int(sys.argv[2])
    repo = sys.argv[3] if len(sys.argv) > 3 else "/repo"
    from dst import sim

    sim.prepare(repo)
    from dst.profiles import PROFILES

    rng = random.Random(f"{prop}:{s}")
    spec, strat = PROFILES[prop][0](rng)
    spec = json.loads(json.dumps(spec))
    first = forked(lambda: sim.run(spec, seed=s, strategy=strat).violations)
    if not first:
        print("no violation")
        return
    cat = kind_of(first[0])
    spec, seed, sched, res = minimize(spec, s, strat, lambda vs: any(kind_of(v) == cat for v in vs), budget_s=float(os.environ.get("BUDGET", "40")))
    print(strat, "seed", seed)

    def show(o: Any, ind: int = 0) -> None:
        if isinstance(o, list):
            for x in o:
                show(x, ind)
            return
        print(" " * ind + json.dumps({k: v for k, v in o.items() if k not in ("body", "t")}))
        show(o.get("body", []), ind + 2)
        for i, b in enumerate(o.get("t", ())):
            print(" " * ind + " | branch", i)
            show(b, ind + 4)

    for sub in spec.get("multi") or [spec]:
        print("-- container", json.dumps({k: v for k, v in sub.items() if k not in ("setup", "main", "loop", "injects")}))
        for r in sub["setup"]:
            print("  ", json.dumps(r))
        for r in sub.get("injects", ()):
            print("   inj", json.dumps(r))
        for p in _programs(sub):
            print("-- program")
            show(p)
    print("schedule", json.dumps(sched))
    for v in (res or [0, []])[1]:
        print(v[0], v[1][:500])


if __name__ == "__main__":
    main()
