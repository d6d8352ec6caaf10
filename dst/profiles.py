"""One workload family per property, and which kinds of violation decide it."""

from __future__ import annotations

import copy
import random
from typing import Any, Callable

from dst.model import best_open
from dst.gen import _sites, _tree, EXCS, G, LV, sequential, task_strategy, thread_strategy, wirable, wired

Made = tuple[dict[str, Any], dict[str, Any]]


def _mode(rng: random.Random, p_async: float) -> str:
    return "a" if rng.random() < p_async else "t"


def _lock(rng: random.Random, mode: str) -> str:
    return rng.choice(["thread", "auto", "auto"]) if mode == "t" else rng.choice(["async", "auto", "auto"])


def _strategy(rng: random.Random, mode: str) -> dict[str, Any]:
    return thread_strategy(rng) if mode == "t" else task_strategy(rng)


def p01(rng: random.Random) -> Made:
    g = G(rng, solo=0.04, own_locks=0.25, n=(1, 5), p_trans=0.25, p_open=0.1 if rng.random() < 0.3 else 0.0, p_deco=0.1, precompile=0.6,
          p_scope=0.3, p_par=0.0, p_sleep=0.05, forms=[("v", 10), ("m", 1), ("a", 1)], use_ctx=0.15, p_wrongscope=0.02)
    g.graph()
    hot = g.hot(rng.choice([1, 2, 3]))
    lvl = max(g.info[g.tup(k)][1] for k in hot)
    par = g.par(lvl if rng.random() < 0.7 else 1, 1, hot, rng.choice([2, 2, 3, 4]))
    prog: list[Any] = []
    if lvl > 1:
        body = [par]
        from dst.model import NAME

        sc = g.scope(1, 0, hot, NAME[lvl], body)
        prog = [sc]
        if rng.random() < 0.3:
            prog = [{"o": "par", "t": [[sc], [g.scope(1, 0, hot, NAME[lvl], [g.par(lvl, 0, hot, 2)])]]}]
    else:
        prog = [par]
    if rng.random() < 0.3:
        prog.append(g.par(1, 1, hot))
    return g.spec(g.container(_lock(rng, "t")), prog), thread_strategy(rng)


def p02(rng: random.Random) -> Made:
    faulty = rng.random() < 0.6
    g = G(rng, solo=0.04, own_locks=0.25, mode="a", n=(1, 5), p_trans=0.2, p_async=rng.choice([0.4, 0.8]), p_deco=0.1, p_open=0.15 if rng.random() < 0.3 else 0.0,
          precompile=0.7, p_scope=0.25, p_par=0.1, p_sleep=0.15, p_delay=0.8, use_ctx=0.15,
          p_fault=0.3 if faulty else 0.0, fault_where=[("pre", 2), ("post", 2), ("cx", 2)], p_to=0.15 if faulty else 0.0,
          p_mode_s=0.05, p_wrongscope=0.02, p_swallow=0.6)
    g.graph()
    if not any(i[2] for i in g.info.values()):
        g.service(kind="afactory", scoped=True)
    asy = [k for k in g.keys if g.info[g.tup(k)][2]]
    hot = rng.sample(asy, min(len(asy), rng.choice([1, 2])))
    from dst.model import NAME

    lvl = max(g.info[g.tup(k)][1] for k in hot)
    par = g.par(lvl if rng.random() < 0.8 else 1, 1, hot, rng.choice([2, 3, 4, 5]))
    prog = [par] if lvl == 1 else [g.scope(1, 0, hot, NAME[lvl], [par])]
    if lvl > 1 and rng.random() < 0.3:
        prog = [{"o": "par", "t": [prog, [g.scope(1, 0, hot, NAME[lvl], [g.par(lvl, 0, hot, 2)])]]}]
    if rng.random() < 0.5:
        prog.append(g.par(1, 1, hot))
    return g.spec(g.container(_lock(rng, "a")), prog, cancels=rng.choice([0, 0, 1, 3]) if faulty else 0), task_strategy(rng)


def p03(rng: random.Random) -> Made:
    mode = _mode(rng, 0.4)
    style = rng.random()
    g = G(rng, mode=mode, n=(2, 6), p_trans=0.2, p_async=0.4 if mode == "a" else 0.0, p_open=0.15 if style < 0.3 else 0.0,
          levels=[("APP", 2), ("SESSION", 3), ("REQUEST", 4), ("ACTION", 2), ("STEP", 2)],
          kinds=[("cls", 3), ("factory", 4), ("gen", 1), ("cm", 1)] if rng.random() < 0.5 else [("cls", 3), ("factory", 4)],
          p_scope=0.55, p_par=0.25, maxdepth=3, p_dclose=0.15, p_late=0.15, p_same=0.1, p_close=0.15, p_via=0.1, use_ctx=0.3,
          p_wrongscope=0.15, p_badlevel=0.06, oplen=(1, 4), p_missing=0.03, p_raise=0.05, p_exec=0.05,
          p_ctx=0.2 if rng.random() < 0.3 else 0.0)
    g.graph()
    hot = g.hot(3)
    prog = g.ops(1, 4, hot, rng.randint(2, 4))
    return g.spec(g.container(_lock(rng, mode)), prog), _strategy(rng, mode)


def p04(rng: random.Random) -> Made:
    mode = _mode(rng, 0.25)
    g = G(rng, own_locks=0.25, mode=mode, n=(4, 9), p_trans=rng.choice([0.5, 0.8, 1.0]), p_async=0.3 if mode == "a" else 0.0, p_comp=0.35, p_gen=0.2,
          forms=[("v", 7), ("m", 2), ("a", 4)], p_missing=0.15, p_open=0.1, p_deco=0.1, p_scope=0.2, p_par=0.0, p_handle=0.04,
          oplen=(2, 5), p_written=0.6, p_skip=0.15, use_ctx=0.15, nonstrict=0.0, p_sleep=0.02, kinds=[("cls", 4), ("factory", 4), ("gen", 1), ("cm", 1)],
          levels=[("APP", 6), ("REQUEST", 3), ("SESSION", 1)])
    g.graph()
    x = rng.random()
    if x < 0.45:
        # a few keys requested back and forth through one shared resolver
        lvl = rng.choice([1, 1, 3])
        hot = [k for k in g.keys if g.info[g.tup(k)][1] <= lvl]
        hot = rng.sample(hot, min(len(hot), rng.choice([2, 3, 4])))
        g.cfg["p_scope"] = 0.05
        g.cfg["oplen"] = (3, 8)
        body = [g.par(lvl, 1, hot, rng.choice([2, 2, 3]))]
        prog = body if lvl == 1 else [g.scope(1, 0, None, "REQUEST", body)]
    elif x < 0.8:
        prog = [g.par(1, 1, None, rng.choice([2, 2, 3]))]
    else:
        prog = [g.scope(1, 0, None, "REQUEST", [g.par(3, 1, None, rng.choice([2, 3]))])]
    return g.spec(g.container(_lock(rng, mode)), prog), _strategy(rng, mode)


RES = [("gen", 4), ("cm", 4), ("factory", 1), ("cls", 1)]
ARES = [("agen", 4), ("acm", 4), ("afactory", 1)]


def p05(rng: random.Random) -> Made:
    mode = _mode(rng, 0.5)
    g = G(rng, mode=mode, n=(2, 7), p_trans=0.35, p_async=0.5 if mode == "a" else 0.0, kinds=RES, akinds=ARES, p_inst=0.02,
          p_open=0.15 if rng.random() < 0.3 else 0.0, p_deco=0.05, p_scope=0.4, p_par=0.25 if rng.random() < 0.6 else 0.0,
          p_raise=0.3, p_dclose=0.25, p_late=0.12, p_close=0.25, p_same=0.06, p_prop=0.2, oplen=(1, 4), p_mode_s=0.0,
          p_fault=0.12, fault_where=[("pre", 1), ("post", 1)], p_sup=0.1, p_rdelay=0.4, use_ctx=0.2, p_exec=0.05,
          levels=[("APP", 2), ("SESSION", 2), ("REQUEST", 5), ("ACTION", 2), ("STEP", 1)], p_ctx=0.1, p_handle=0.03)
    g.graph()
    prog = g.ops(1, 3, g.hot(4), rng.randint(2, 4))
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 0, 1])), _strategy(rng, mode)


def p06(rng: random.Random) -> Made:
    mode = _mode(rng, 0.65)
    g = G(rng, mode=mode, n=(2, 7), p_trans=0.35, p_async=0.5 if mode == "a" else 0.0, kinds=RES, akinds=ARES, p_inst=0.02,
          p_open=0.2 if rng.random() < 0.3 else 0.0, p_scope=0.4, p_par=0.15 if rng.random() < 0.5 else 0.0, p_raise=0.35, p_dclose=0.2,
          p_close=0.2, p_prop=0.3, oplen=(2, 5), p_relfault=0.45, rel_where=[("rel", 4), ("rcx", 2)], p_rdelay=0.5, p_sup=0.1,
          p_mode_s=0.0, p_missing=0.02, levels=[("APP", 2), ("SESSION", 2), ("REQUEST", 5), ("ACTION", 2), ("STEP", 1)], use_ctx=0.2,
          p_swallow=0.5)
    g.graph()
    prog = g.ops(1, 3, g.hot(4), rng.randint(2, 4))
    if mode == "a" and rng.random() < 0.35:
        _sync_exits(prog, rng)
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 0, 2, 4]), end=rng.choice(["aclose", "aclose", "close"]) if mode == "a" else None), _strategy(rng, mode)


def _sync_exits(prog: list[Any], rng: random.Random) -> None:
    """Let some scopes of a task program end through the synchronous exit."""
    for o in prog:
        if o["o"] == "scope":
            if rng.random() < 0.6:
                o["m"] = "s"
            _sync_exits(o["body"], rng)
        elif o["o"] == "par":
            for b in o["t"]:
                _sync_exits(b, rng)


def p07(rng: random.Random) -> Made:
    mode = _mode(rng, 0.6)
    g = G(rng, mode=mode, n=(2, 6), p_trans=0.3, p_async=0.5 if mode == "a" else 0.0,
          kinds=[("cls", 3), ("factory", 4), ("gen", 2), ("cm", 2)], akinds=[("afactory", 4), ("agen", 2), ("acm", 2)],
          p_fault=0.5, fault_where=[("pre", 2), ("post", 2), ("cx", 2)], p_open=0.2 if rng.random() < 0.3 else 0.0,
          p_deco=0.1, p_scope=0.35, p_par=0.2 if rng.random() < 0.6 else 0.0, oplen=(3, 6), p_to=0.15, p_swallow=0.7, p_prop=0.15,
          p_mode_s=0.2, p_handle=0.04, use_ctx=0.2, p_missing=0.03, p_delay=0.6)
    g.graph()
    hot = g.hot(3)
    prog = g.ops(1, 3, hot, rng.randint(3, 5))
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 0, 1, 3])), _strategy(rng, mode)


def p08(rng: random.Random) -> Made:
    mode = _mode(rng, 0.5)
    g = G(rng, solo=0.04, own_locks=0.25, mode=mode, n=(3, 7), p_trans=0.25, p_async=0.5 if mode == "a" else 0.0, p_deco=0.15, p_open=0.15 if rng.random() < 0.4 else 0.0,
          p_fault=0.25, fault_where=[("pre", 2), ("post", 2), ("cx", 2)], p_relfault=0.1, rel_where=[("rel", 2), ("rcx", 1)],
          p_handle=0.08, p_h=0.15, p_scope=0.3, p_par=0.15, oplen=(2, 4), p_to=0.1, p_swallow=0.5, use_ctx=0.2, p_missing=0.02,
          kinds=[("cls", 2), ("factory", 4), ("gen", 1), ("cm", 1)])
    g.graph()
    if rng.random() < 0.4:
        g.cfg["p_inj"] = 0.2
        g.make_injects(2)
    hot = g.hot(4)
    fwd = [{"o": "r", "f": "v", "k": k} for k in hot]
    lvl = max(g.info[g.tup(k)][1] for k in hot)
    from dst.model import NAME

    branches = []
    for _ in range(rng.choice([2, 3, 4])):
        b = list(fwd)
        rng.shuffle(b)
        b = b[: rng.randint(1, len(b))] + g.ops(lvl, 1, hot, rng.randint(0, 2))
        branches.append(b)
    core: list[Any] = [{"o": "par", "t": branches}]
    if lvl > 1:
        core = [g.scope(1, 0, hot, NAME[lvl], core)]
    if mode == "t":
        return g.spec(g.container(_lock(rng, "t")), core), thread_strategy(rng)
    if rng.random() < 0.25 and not any(r.get("kind") in ("agen", "acm") for r in [*g.allregs, *g.opens]):
        # one container, an event loop in each of several threads (which need not agree on one instance)
        cores = [core]
        for _ in range(rng.choice([1, 2])):
            b2 = [{"o": "par", "t": [g.ops(lvl, 1, hot, 2) for _ in range(rng.choice([2, 3]))]}]
            cores.append(b2 if lvl == 1 else [g.scope(1, 0, hot, NAME[lvl], b2)])
        spec = g.spec(g.container(_lock(rng, "a")), cores, loops=1, cancels=rng.choice([0, 2]))
        spec["main"] = [{"o": "par", "t": spec.pop("loop"), "loops": [1]}]
        spec["end"] = "close"
        return spec, thread_strategy(rng)
    if rng.random() < 0.6:
        # one container, several event loops one after another
        progs = [core]
        for _ in range(rng.choice([1, 2])):
            b2 = [{"o": "par", "t": [g.ops(lvl, 1, hot, 2) for _ in range(rng.choice([2, 3]))]}]
            progs.append(b2 if lvl == 1 else [g.scope(1, 0, hot, NAME[lvl], b2)])
        return g.spec(g.container(_lock(rng, "a")), progs, loops=1, cancels=rng.choice([0, 2])), task_strategy(rng)
    return g.spec(g.container(_lock(rng, "a")), core, cancels=rng.choice([0, 2, 4])), task_strategy(rng)


def p09(rng: random.Random) -> Made:
    mode = _mode(rng, 0.6)
    g = G(rng, mode=mode, n=(2, 4), p_trans=0.15, p_async=0.3 if mode == "a" else 0.0, p_scope=0.45, p_par=0.3, p_via=0.6, use_ctx=0.85,
          p_raise=0.3, p_prop=0.3, p_exec=0.15, oplen=(2, 4), p_wrongscope=0.2, p_dclose=0.1, p_close=0.12, p_same=0.08,
          p_relfault=0.15, p_ctx=0.2, p_ctxdep=0.1, p_sleep=0.15, p_swallow=0.4, p_missing=0.03, p_to=0.05,
          levels=[("APP", 2), ("SESSION", 2), ("REQUEST", 5), ("ACTION", 2), ("STEP", 1)],
          nonstrict=0.0, kinds=[("cls", 3), ("factory", 3), ("gen", 2)])
    if rng.random() < 0.25:
        # blocks over the scope that is open already; without resources, which the end of such a block would release
        g.cfg.update(kinds=[("cls", 1), ("factory", 1)], akinds=[("afactory", 1)], p_same=0.3, p_re=0.7, p_rblock=0.15)
    shared = rng.random() < 0.35
    if shared:
        g.cfg["p_temp"] = 0.12
    g.graph()
    if rng.random() < 0.4:
        g.cfg["p_inj"] = 0.15
        g.make_injects(2)
    prog = g.ops(1, 4, g.hot(3), rng.randint(3, 5))
    return g.spec(g.container(_lock(rng, mode), **({"temp": 1} if shared else {})), prog, cancels=rng.choice([0, 1, 3])), _strategy(rng, mode)


def p10(rng: random.Random) -> Made:
    mode = _mode(rng, 0.6)
    g = G(rng, mode=mode, n=(2, 6), p_trans=0.3, p_async=0.4 if mode == "a" else 0.0, p_scope=0.25, p_par=0.3, p_inj=0.6, use_ctx=0.6,
          kinds=[("cls", 2), ("factory", 3), ("gen", 2), ("cm", 1)], akinds=[("afactory", 3), ("agen", 2), ("acm", 1)],
          p_raise=0.25, p_prop=0.2, oplen=(1, 4), p_via=0.3, p_ctx=0.25, p_csh=0.2, p_cty=0.1, p_ctxdep=0.12, p_fault=0.12, p_relfault=0.12,
          fault_where=[("pre", 2), ("post", 2), ("cx", 1)], p_swallow=0.5, p_handle=0.05, p_missing=0.04, p_dclose=0.05,
          p_open=0.1 if rng.random() < 0.3 else 0.0,
          levels=[("APP", 2), ("SESSION", 2), ("REQUEST", 5), ("ACTION", 2), ("STEP", 1)])
    g.graph()
    g.make_injects(rng.randint(1, 3))
    hot = g.hot(3)
    prog = [g.par(1, 2, hot)] + g.ops(1, 3, hot, rng.randint(1, 3))
    rng.shuffle(prog)
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 0, 1, 3])), _strategy(rng, mode)


def p11(rng: random.Random) -> Made:
    mode = _mode(rng, 0.5)
    g = G(rng, mode=mode, n=(1, 5), p_trans=0.5, p_async=0.3 if mode == "a" else 0.0, p_ctxdep=0.6, p_ctx=0.7, p_scope=0.5, p_par=0.25,
          p_via=0.25, use_ctx=0.4, oplen=(2, 4), p_same=0.05, p_raise=0.05, p_missing=0.02, p_exec=0.05, p_csh=0.3, p_cty=0.1,
          ctxkeys=["K1", "K2", "int", "str", "@K1"], p_open=0.15 if rng.random() < 0.3 else 0.0,
          levels=[("APP", 1), ("SESSION", 2), ("REQUEST", 5), ("ACTION", 2), ("STEP", 2)])
    g.graph()
    if rng.random() < 0.5:
        g.cfg["p_inj"] = 0.25
        g.make_injects(2)
    prog = g.ops(1, 4, g.hot(3), rng.randint(2, 4))
    return g.spec(g.container(_lock(rng, mode)), prog), _strategy(rng, mode)


BADS = ["none_factory", "bad_scope", "bad_life", "unannotated", "deco_gen", "deco_noinner", "deco_badinner", "deco_notcallable"]


def _replace(g: G, k: list[Any], s: str | None) -> dict[str, Any]:
    """Another registration of ``k``: it only depends on keys that cannot reach the replaced one."""
    save, g.setup = g.setup, []
    keys = list(g.keys)
    idx = g.keys.index(k)
    g.keys = [y for y in g.keys[:idx] if not (y[0] in "CX" and y[1] == k[1])]
    g.service(k, s=s)
    o = g.setup[-1]
    g.keys = keys
    g.setup = save
    return o


def _reg_op(g: G, *, deco: float = 0.3) -> dict[str, Any]:
    """A registration performed by the program itself; keeps the graph acyclic."""
    rng = g.rng
    save = g.setup
    g.setup = []
    keys, info = list(g.keys), dict(g.info)
    x = rng.random()
    if x < deco and g.opens and rng.random() < 0.3:
        t = rng.choice(g.opens)
        g.nreg += 1
        o = {"o": "odeco", "i": g.nreg, "k": t["k"], "tmpl": t["tmpl"], "pat": t["pat"], **({"bare": 1} if t.get("bare") else {}), "deps": [], "at": 0, "kind": "afactory" if g.p("p_async") else "factory"}
        g.allregs.append(o)
        g.recompute()
    elif x < deco and g.keys:
        k = rng.choice([k for k in g.keys if k[0] in "CX"] or g.keys)
        if k[0] in "CX":
            g.nreg += 1
            kind = "afactory" if g.p("p_async") else "factory"
            o = {"o": "deco", "i": g.nreg, "k": k, "deps": [], "at": 0, "kind": kind}
            g.allregs.append(o)
            g.recompute()
        else:
            g.service()
            o = g.setup[0]
    elif x < deco + 0.4 and g.keys:
        # replace: only depend on keys that cannot reach the replaced one
        k = rng.choice([k for k in g.keys if k[0] in "CX"] or g.keys)
        if k[0] == "G":
            g.service()
        else:
            idx = g.keys.index(k)
            rest = g.keys[idx:]
            g.keys = [y for y in g.keys[:idx] if not (y[0] in "CX" and k[0] in "CX" and y[1] == k[1])]
            lv = rng.choice(LV[:3])
            g.service(k, s=lv)
            g.keys = g.keys[: len(g.keys) - (1 if g.keys and g.keys[-1] == k else 0)]
            g.keys = keys
        o = g.setup[0]
        if k[0] != "G":
            g.keys = keys
    elif x < deco + 0.5 and g.cfg["p_open"]:
        g.open_generic()
        o = g.setup[0]
    else:
        g.service()
        o = g.setup[0]
    g.setup = save
    return o


def _reopen(g: G, anew: dict[str, Any], s: str) -> dict[str, Any]:
    """Another registration of a template."""
    save, g.setup = g.setup, []
    g.open_generic(anew, s)
    o = g.setup[-1]
    g.setup = save
    return o


def p12(rng: random.Random) -> Made:
    mode = _mode(rng, 0.25)
    g = G(rng, solo=0.3, mode=mode, n=(2, 4), p_trans=0.3, p_iw=0.0, p_async=0.2 if mode == "a" else 0.0, p_scope=0.3, p_par=0.0, use_ctx=0.2, oplen=(1, 3),
          p_badlevel=0.0, p_comp=0.3, forms=[("v", 8), ("m", 1), ("a", 3)], p_open=0.15, p_wrongscope=0.02,
          levels=[("APP", 4), ("SESSION", 1), ("REQUEST", 5)], p_via=0.25, p_missing=0.05)
    g.graph()
    contract = False
    if rng.random() < 0.35:
        g.make_injects(2)
        contract = any(i.get("scope") for i in g.injects)
        g.cfg["p_inj"] = 0.1
        for i in g.injects:
            if i.get("scope"):
                i["scope"] = "REQUEST" if g.inj_level(i["params"]) <= 3 else i["scope"]

    def hist(level: int, depth: int, n: int) -> list[Any]:
        out: list[Any] = []
        for _ in range(n):
            x = rng.random()
            if g.injects and rng.random() < 0.15:
                # registrations of what an injected callable needs, used through scopes opened before or not at all in between
                from dst.model import LEVEL

                tgt = [p["k"] for i in g.injects for p in i["params"] if p["f"] in "vm" and p["k"] in g.keys]
                body: list[Any] = []
                for _ in range(rng.randint(2, 4) if tgt else 0):
                    k = rng.choice(tgt)
                    t = best_open(g.opens, g.tup(k))[0] if k[0] == "G" else None
                    if t is not None:
                        body.append(_reopen(g, t, rng.choice(LV)))
                    elif k[0] != "G":
                        body.append(_replace(g, k, rng.choice(["APP", "SESSION", "REQUEST", "REQUEST", "ACTION"])))
                    y = rng.random()
                    if y < 0.5:
                        body.append({"o": "inj", "n": rng.randrange(len(g.injects)), "rs": 1})
                    elif y < 0.6:
                        body += g.ops(level, 0, None, 1)
                lv = rng.choice([x for x in LV if LEVEL[x] > level] or ["STEP"])
                out += [g.scope(level, 0, None, lv, body)] if level < 5 and rng.random() < 0.8 else body
                out += [g.inject_call(level, 0, None) for _ in range(rng.randint(1, 2))]
            elif x < 0.2 and contract:
                # what an injected callable with a declared scope needs, decorated with something deeper
                tgt = [p["k"] for i in g.injects if i.get("scope") for p in i["params"] if p["f"] in "vmp" and p["k"] in g.keys]
                if tgt:
                    k = rng.choice(tgt)
                    g.nclass += 1
                    deep = ["C", g.nclass]
                    save, g.setup = g.setup, []
                    g.service(deep, s=rng.choice(["ACTION", "STEP", "REQUEST"]))
                    out.append(g.setup[-1])
                    g.setup = save
                    for d in rng.choice([[[]], []]) + rng.choice([[], [[{"f": rng.choice("vvm"), "k": deep}]] * 2, [[{"f": "v", "k": deep}]]]) + [[]]:
                        if d or rng.random() < 0.5:
                            g.nreg += 1
                            out.append({"o": "deco", "i": g.nreg, "k": k, "deps": d, "at": 0, "kind": "factory"})
                            g.allregs.append(out[-1])
                    if rng.random() < 0.5:
                        out.append(_replace(g, k, rng.choice(["APP", "SESSION", "REQUEST"])))
                    out += g.ops(level, 1 if depth else 0, None, 1)
            elif x < 0.3:
                out.append(_reg_op(g))
            elif x < 0.45:
                k = rng.choice([k for k in g.keys if k[0] in "CX"] or [["C", 1]])
                how = rng.choice(BADS)
                if rng.random() < 0.3 and g.injects:
                    tgt = [p["k"] for i in g.injects if i.get("scope") and i["scope"] != "STEP" for p in i["params"] if p["f"] == "v" and p["k"][0] in "CX"]
                    if tgt:
                        k, how = rng.choice(tgt), "contract"
                out.append({"o": "bad", "i": 0, "k": k, "how": how})
            elif x < 0.6 and depth:
                from dst.model import LEVEL

                lv = rng.choice([x for x in LV if LEVEL[x] > level] or ["STEP"])
                out.append(g.scope(level, 0, None, lv if level < 5 else None, hist(max(level, LEVEL[lv]), depth - 1, rng.randint(2, 5))))
            else:
                out += g.ops(level, 1 if depth else 0, None, rng.randint(1, 2))
        return out

    prog = hist(1, 3, rng.randint(4, 9))
    if rng.random() < 0.3:
        # overlapping: registrations on one side, scopes opened before on the other
        side = [g.request(3) for _ in range(4)]
        for o in side:
            o.pop("on", None)
        regs = [] if contract else [_reg_op(g) for _ in range(2)]
        if regs and mode == "t":
            prog.append({"o": "scope", "lvl": "REQUEST", "body": [{"o": "par", "t": [side, regs]}, *side]})
            prog += g.ops(1, 2, None, 2)
    return g.spec(g.container(_lock(rng, mode)), prog), _strategy(rng, mode)


def p13(rng: random.Random) -> Made:
    mode = _mode(rng, 0.5)
    faulty = rng.random() < 0.4
    g = G(rng, own_locks=0.25, mode=mode, n=(2, 6), p_trans=0.25, p_async=0.4 if mode == "a" else 0.0, p_open=0.7, p_gen=0.3, p_odeco=0.12, p_scope=0.35, p_par=0.2,
          kinds=[("factory", 3), ("gen", 2), ("cm", 2), ("cls", 1)], akinds=[("afactory", 3), ("agen", 2), ("acm", 2)],
          oplen=(2, 4), p_fault=0.2 if faulty else 0.0, p_relfault=0.2 if faulty else 0.0, fault_where=[("pre", 1), ("post", 1), ("cx", 1)],
          p_written=0.5, p_skip=0.1, p_raise=0.1, p_dclose=0.1, p_late=0.05, p_swallow=0.6, p_ctx=0.1, p_same=0.05, use_ctx=0.15, p_missing=0.02, p_delay=0.6, p_h=0.15,
          levels=[("APP", 4), ("SESSION", 2), ("REQUEST", 4), ("ACTION", 1)], precompile=0.7)
    g.graph()
    if not g.opens:
        g.open_generic()
    # exact registrations that take precedence over a template
    for k in [k for k in g.keys if k[0] == "G" and k[1][:2] in ("Go", "Gp")]:
        if rng.random() < 0.1:
            idx = g.keys.index(k)
            keys = g.keys
            g.keys = keys[:idx]
            g.service(k, s=rng.choice(LV[:3]))
            g.keys = keys
    hot = [k for k in g.keys if k[0] == "G"]
    hot = rng.sample(hot, min(len(hot), 3))
    prog = [g.par(1, 1, hot)] if rng.random() < 0.5 else [g.scope(1, 0, hot, "REQUEST", [g.par(3, 1, hot)])]
    prog += g.ops(1, 3, hot, rng.randint(1, 3))
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 0, 2]) if faulty else 0), _strategy(rng, mode)


def p14(rng: random.Random) -> Made:
    mode = _mode(rng, 0.5)
    faulty = rng.random() < 0.4
    g = G(rng, mode=mode, n=(3, 7), p_trans=0.4, p_async=0.4 if mode == "a" else 0.0, p_handle=0.5, p_h=0.5, p_scope=0.35, p_par=0.25,
          oplen=(2, 5), p_fault=0.25 if faulty else 0.0, fault_where=[("pre", 2), ("post", 2), ("cx", 2)], p_to=0.1 if faulty else 0.0,
          p_swallow=0.6, use_ctx=0.2, p_ctx=0.1, p_open=0.3 if rng.random() < 0.3 else 0.0, p_exec=0.08, p_missing=0.02,
          kinds=[("cls", 3), ("factory", 3), ("gen", 1)])
    g.graph()
    prog = g.ops(1, 4, g.hot(4), rng.randint(3, 5))
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 2]) if faulty else 0), _strategy(rng, mode)


def p15(rng: random.Random) -> Made:
    mode = _mode(rng, 0.4)
    faulty = rng.random() < 0.5
    anew = rng.random() < 0.4  # (an injected provider opens the scopes which registrations made later ask for)
    g = G(rng, own_locks=0.25, p_before=0.3, mode=mode, n=(1, 4), **({"p_iw": 0.0} if anew else {}), p_trans=0.25, p_async=0.35 if mode == "a" else 0.0, p_deco=0.8, p_deco_early=0.25, p_scope=0.3, p_par=0.25,
          oplen=(2, 4), p_fault=0.3 if faulty else 0.0, fault_where=[("pre", 2), ("post", 2), ("cx", 1)], p_inst=0.15, p_comp=0.25, p_gen=0.15,
          p_swallow=0.6, use_ctx=0.15, forms=[("v", 8), ("m", 1), ("a", 2)], p_missing=0.02,
          kinds=[("cls", 3), ("factory", 3), ("gen", 1), ("cm", 1)], p_badlevel=0.0,
          **({"p_open": 0.4, "p_odeco": 0.7} if rng.random() < 0.3 else {}))
    g.graph()
    hot = g.hot(2)
    gk = [k for k in g.keys if k[0] == "G"]
    if g.opens and gk:
        hot[0] = rng.choice(gk)
    prog: list[Any] = []
    if anew:
        for _ in range(rng.randint(1, 3)):
            prog += g.ops(1, 2, hot, 1)
            prog.append(_reg_op(g, deco=0.6))
    lvl = max(g.info[g.tup(k)][1] for k in hot)
    from dst.model import NAME

    par = g.par(lvl, 1, hot, rng.choice([2, 3]))
    prog.append(par if lvl == 1 else g.scope(1, 0, hot, NAME[lvl], [par]))
    prog += g.ops(1, 2, hot, 1)
    return g.spec(g.container(_lock(rng, mode)), prog, cancels=rng.choice([0, 2]) if faulty else 0), _strategy(rng, mode)


def p16(rng: random.Random, p_settings: float = 0.04) -> Made:
    """Classes that nobody registered, wired when they are first requested."""
    mode = _mode(rng, 0.2)
    n = rng.randint(2, 7)
    missing = rng.choice(["rec"] * 7 + ["root", "err"])
    dep = rng.choice(["rec"] * 6 + ["ign"])
    use_ctx = rng.random() < 0.35
    p_reg = rng.choice([0.0, 0.2, 0.5])
    setup: list[Any] = []
    regd: list[int] = []
    for i in range(1, n + 1):
        r: dict[str, Any] = {"o": "reg", "i": i, "deps": []}
        for j in rng.sample(range(1, i), min(i - 1, rng.choice([0, 1, 1, 2, 3]))):
            f = rng.choice(["v"] * 8 + ["m", "p"])
            r["deps"].append({"f": f, "k": j})
        x = rng.random()
        if x < 0.02:
            r = {"o": "reg", "i": i, "abs": 1}
        elif x < 0.02 + p_reg:
            r["kind"] = rng.choice(["cls", "cls", "factory"] + (["afactory", "afactory"] if mode == "a" else []))
            r["reg"] = {"s": rng.choice(["APP", "APP", "REQUEST"]), "l": rng.choice(["S", "S", "T"])}
            if r["kind"] != "cls" and rng.random() < 0.5:
                r["hard"] = 1  # cannot be wired by itself
            regd.append(i)
        elif rng.random() < p_settings:
            r = {"o": "reg", "i": i, "kind": "settings", "deps": [], "tempt": [d["k"] for d in r["deps"]]}
        elif rng.random() < 0.4:
            # written in another way
            r["sty"] = rng.choice([None, "dc", "new", "attrs"])
            if r["sty"] in (None, "new"):
                r["sh"] = "".join(sorted((rng.choice("pnk") for _ in r["deps"]), key="pnk".index))
                r["mis"] = rng.choice([0, 1, 2, 3])
                r["str"] = int(rng.random() < 0.3)
        if rng.random() < 0.3:
            r["dly"] = [rng.choice([0, 0, 1])] if r.get("kind", "cls")[0] != "a" else [rng.choice([-1, -2, 1])]
        if rng.random() < 0.06 and not r.get("abs"):
            r["flt"] = [{"w": rng.choice(["pre", "post"]), "n": rng.choice([0, 0, 1]), "x": rng.choice(EXCS)}]
        setup.append(r)
    top = list(range(max(1, n - 2), n + 1))

    def req(deep: bool) -> dict[str, Any]:
        o: dict[str, Any] = {"o": "r", "k": rng.choice(top if rng.random() < 0.6 else range(1, n + 1))}
        o["f"] = rng.choice(["v"] * 8 + ["m", "p"])
        if deep and rng.random() < 0.5:
            o["on"] = "C"
        elif rng.random() < 0.05:
            o["on"] = "X"
        if (missing != "err" or use_ctx) and rng.random() < 0.08:
            o["pol"] = rng.choice(["rec", "root", "err"])
        if mode == "a" and rng.random() < 0.2:
            o["m"] = "s"
        return o

    def ops(k: int, depth: int, deep: bool) -> list[Any]:
        out: list[Any] = []
        for _ in range(k):
            x = rng.random()
            if x < 0.15 and depth:
                out.append({"o": "scope", "lvl": rng.choice(["REQUEST", "REQUEST", "SESSION", "ACTION"]), "via": rng.choice(["L", "L", "C"]),
                            "body": ops(rng.randint(1, 3), depth - 1, True)})
            elif x < 0.2:
                out.append({"o": "h", "n": rng.randrange(4)})
            elif x < 0.3 and injects:
                out.append({"o": "inj", "n": rng.randrange(len(injects))})
            else:
                out.append(req(deep))
        return out

    injects = [{"keys": rng.sample(range(1, n + 1), rng.randint(1, min(2, n)))} for _ in range(rng.choice([0, 1, 2]))] if use_ctx else []
    hot = req(False)
    branches = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        b = ops(rng.randint(1, 3), 1, False)
        if rng.random() < 0.6:
            b.insert(0, dict(hot))
        elif injects and rng.random() < 0.7:
            b.insert(0, {"o": "inj", "n": 0})
        branches.append(b)
    prog = ops(rng.choice([0, 0, 1, 2]), 1, False) + [{"o": "par", "t": branches}]
    if rng.random() < 0.4:
        prog.append({"o": "par", "t": [ops(2, 1, False) for _ in range(2)]})
    prog.append({"o": "sweep"})
    c: dict[str, Any] = {"lock": _lock(rng, mode), "missing": missing, "dep": dep, "precompile": rng.random() < 0.5}
    if use_ctx:
        c["use_ctx"] = True
    if rng.random() < 0.15:
        c["life"] = "T"
    if rng.random() < 0.12:
        c["root"] = rng.choice(["SESSION", "SESSION", "REQUEST"])
        for r in setup:
            if r.get("reg") and (r["reg"]["s"] == "APP" or rng.random() < 0.4):
                r["reg"]["s"] = None if rng.random() < 0.6 else c["root"]
    if rng.random() < 0.12:
        c["tree"] = _tree(rng)
    if rng.random() < 0.12:
        sequential(prog)
        c["lock"] = rng.choice(["none", "none", "thread", "async", "auto"])
        for i in regd:
            if rng.random() < 0.4:
                setup[i - 1]["reg"]["lk"] = rng.choice(["none", "none", "thread", "async"])
    spec: dict[str, Any] = {"auto": 1, "container": c, "setup": setup}
    if rng.random() < 0.6:
        rng.shuffle(regd)
        spec["order"] = regd
    if injects:
        spec["injects"] = injects
    if mode == "a":
        spec["loop"] = [prog]
        spec["end"] = "aclose"
    else:
        spec["main"] = prog
        spec["end"] = "close"
    return spec, _strategy(rng, mode)


def twins(rng: random.Random, p_settings: float) -> Made:
    """Two containers that wire the same classes on first use."""
    one, strategy = p16(rng, p_settings)
    two = copy.deepcopy(one)
    if rng.random() < 0.5:
        two["container"]["missing"] = rng.choice(["rec", "rec", "root", *(["err"] if two["container"].get("use_ctx") else [])])
    two["container"]["precompile"] = rng.random() < 0.5
    prog = two["main"] if "main" in two else two["loop"][0]
    if rng.random() < 0.5:
        rng.shuffle(prog)
    if len(prog) > 1 and rng.random() < 0.5:
        del prog[rng.randrange(len(prog))]
    return {"multi": [one, two]}, strategy


def p18(rng: random.Random) -> Made:
    """The same with settings classes among them."""
    if rng.random() < 0.12:
        return twins(rng, rng.choice([0.5, 0.8]))
    return p16(rng, rng.choice([0.3, 0.5, 0.8]))


def _changes(x: Any) -> bool:
    if isinstance(x, dict):
        return x.get("o") in ("reg", "open", "deco", "odeco", "bad", "compile", "late") or any(_changes(v) for v in x.values())
    return isinstance(x, list) and any(_changes(v) for v in x)


def p17(rng: random.Random) -> Made:
    """Two containers for the same classes, used at the same time or by turns in the same threads and tasks."""
    if rng.random() < 0.1:
        # wired on first use
        if rng.random() < 0.6:
            return twins(rng, 0.15)
        one, strategy = p16(rng)
        for _ in range(12):
            two, _strat = p16(rng)
            if ("loop" in two) == ("loop" in one):
                break
        return {"multi": [one, two]} | ({"apart": 1} if rng.random() < 0.5 else {}), strategy
    made = rng.choice([p01, p03, p04, p05, p07, p09, p10, p11, p13, p13, p14, p15])
    one, strategy = made(rng)
    two = copy.deepcopy(one)
    if rng.random() < 0.6:
        for _ in range(12):
            other, strat = made(rng)
            if ("loop" in other) == ("loop" in one):
                two = other
                break
    spec: dict[str, Any] = {"multi": [one, two]}
    if rng.random() < 0.3:
        spec["apart"] = 1
        if rng.random() < 0.5:
            # rare switches: while one container registers, the other one gets several registrations done
            strategy = {"kind": "store", "gap": rng.choice([60, 120, 200]), "coarse_p": 0.02}
            for i in range(2):
                more = [made(rng)[0] for _ in range(6)]
                spec["multi"][i] = max((m for m in (*more, spec["multi"][i]) if ("loop" in m) == ("loop" in one)), key=lambda m: len(m["setup"]))
    elif rng.random() < 0.6 and (one.get("solo") or not two.get("solo")):
        # (what has no locks is not for the threads of the other one)
        spec["nested"] = 1
        # (registrations are made in sequence with the requests they affect, so they stay where they are)
        pieces = [p for prog in ([two["main"]] if "main" in two else two["loop"]) for p in prog if not _changes(p)]
        sites: list[tuple[list[Any], int]] = []
        _sites(one["main"] if "main" in one else one["loop"], sites)
        rng.shuffle(sites)
        for lst, i in sites[: rng.randint(1, 4)]:
            if pieces:
                body = copy.deepcopy(rng.sample(pieces, rng.randint(1, min(2, len(pieces)))))
                lst.insert(min(i, len(lst)), {"o": "other", "body": body})
    return spec, strategy


def p19(rng: random.Random) -> Made:
    """Sessions of the pytest plugin: modules, classes, containers by fixtures, parallel bodies, failures."""
    mode = rng.choice("tta")
    n = rng.randint(2, 6)
    svcs: list[Any] = []
    for i in range(1, n + 1):
        deps = [{"k": k, "f": rng.choice("vvvm")} for k in rng.sample(range(1, i), min(i - 1, rng.choice([0, 0, 1, 1, 2])))]
        svcs.append({"i": i, "deps": deps})
    by = {s["i"]: s for s in svcs}
    asy = set()  # services that may need asynchronous construction
    if mode == "a":
        for s in svcs:
            if rng.random() < 0.4:
                s["async"] = 1
            if s.get("async") or any(d["k"] in asy for d in s["deps"]):
                asy.add(s["i"])

    def container(strict: bool) -> dict[str, Any]:
        c: dict[str, Any] = {"regs": []}
        have: set[int] = set()
        for s in svcs:
            i = s["i"]
            v = [d["k"] for d in s["deps"] if d["f"] == "v"]
            m = [d["k"] for d in s["deps"] if d["f"] == "m"]
            table = wired(by, c["regs"], strict)
            deep = any(table.get(k, {}).get("req") for k in v + m)
            if not (deep or s.get("async") or strict and rng.random() < 0.8 or not strict and rng.random() < 0.55):
                continue
            if strict and any(k not in have for k in v):
                continue
            have.add(i)
            kind = rng.choice(["async", "agen"]) if s.get("async") else rng.choice(["cls", "fn", "gen", "cls", "gen", "inst"])
            r: dict[str, Any] = {"k": i, "kind": kind}
            if kind == "inst":
                if deep:
                    r["kind"] = kind = "fn"
            if kind != "inst" and (deep or rng.random() < 0.35):
                r["req"] = 1
            if kind != "inst" and rng.random() < 0.25:
                r["life"] = "T"
            c["regs"].append(r)
        if strict:
            c["strict"] = 1
        c["lock"] = rng.choice(["thread", "auto"]) if mode == "t" else rng.choice(["async", "auto"])
        if rng.random() < 0.3:
            c["ctx"] = False
        if rng.random() < 0.3:
            c["own"] = 1
        if rng.random() < 0.3:
            c["pre"] = 1
        if not any(r["kind"] == "agen" for r in c["regs"]) and rng.random() < 0.6:
            c["close"] = 1
        return c

    conts: list[Any] = []

    def new(fs: list[str]) -> int:
        c = container(rng.random() < 0.3)
        c["fs"] = rng.choice(fs)
        if rng.random() < 0.15:
            c["fail"] = [rng.randint(1, 3)]
        conts.append(c)
        return len(conts) - 1

    ids = iter(range(1, 100))

    def test(kind: str, cont: Any) -> dict[str, Any]:
        strict = bool(cont and cont.get("strict"))
        have = wired(by, (cont or {}).get("regs", []), strict)
        params: list[Any] = []
        pool = [s["i"] for s in svcs if wirable(by, have, s["i"], strict)]
        soft = [i for i in by if i in pool or strict and i not in have]
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            f = rng.choice(["v"] * 6 + ["m", "p"])
            if f == "m" and soft:
                k = rng.choice(soft)
            elif pool:
                k = rng.choice(pool)
            else:
                continue
            if f == "p" and have.get(k, {}).get("req"):
                f = "v"
            params.append({"k": k, "f": f})
        t: dict[str, Any] = {"id": next(ids), "kind": kind, "params": params}
        if mode == "a" and (any(p["k"] in asy for p in params) or rng.random() < 0.3):
            t["async"] = 1
        for p in params:
            if p["f"] == "p" and t.get("async"):
                p["f"] = "ap"
        if rng.random() < 0.35 and (mode == "t" or t.get("async")):
            t["par"] = rng.choice([2, 2, 3])
        t["gap"] = rng.choice([0, 1, 3])
        if rng.random() < 0.25:
            t["pz"] = rng.choice([2, 3])
        t["fx"] = rng.sample(["fx0", "fx1", "other"], rng.choice([0, 0, 1, 1, 2]))
        if rng.random() < 0.3:
            t["uf"] = rng.choice(["other", "fx1"])
        if rng.random() < 0.25:
            t["use"] = 1
        t["cut"] = rng.randint(0, 3)
        if rng.random() < 0.2:
            t["kw"] = rng.randint(1, 5)
        if rng.random() < 0.15:
            t["dflt"] = 1
        if rng.random() < 0.15:
            t["deco"] = 1
        t["body"] = rng.choice(["ok"] * 7 + ["raise", "raise", "skip"])
        return t

    mods: list[Any] = []
    for m in range(rng.choice([1, 2, 2, 3])):
        mod: dict[str, Any] = {"tests": [], "classes": []}
        own = None
        if rng.random() < 0.6:
            c = new(["function", "function", "module", "session"])
            mod["conts"] = [c]
            own = conts[c]
        for _ in range(rng.choice([0, 1, 2, 3])):
            mod["tests"].append(test("func", own))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            cl: dict[str, Any] = {"tests": []}
            mine = own
            base = rng.random() < 0.25
            if rng.random() < (0.5 if base else 0.35):
                # (of two classes with the same inherited tests, one has a container of its own)
                c = new(["function", "function", "class"])
                cl["conts"] = [c]
                if not base or rng.random() < 0.5:
                    mine = conts[c]
            if base:
                cl["base"] = 1
            for _ in range(rng.choice([1, 1, 2])):
                cl["tests"].append(test("inh" if base else rng.choice(["meth", "meth", "meth", "static", "clsm"]), mine))
            mod["classes"].append(cl)
        mods.append(mod)
    # functions shared between modules, with or without a container of their own
    for m in mods:
        for o in mods:
            if o is not m and o["tests"] and rng.random() < 0.4 and not m.get("imports"):
                m["imports"] = [rng.choice(o["tests"])["id"]]
    spec: dict[str, Any] = {"pytest": 1, "svcs": svcs, "conts": conts, "mods": mods}
    if rng.random() < 0.6:
        spec["order"] = [rng.randrange(100) for _ in range(12)]
    if rng.random() < 0.4:
        spec["fail"] = {str(rng.randint(1, n)): [rng.randint(1, 4)]}
    if rng.random() < 0.5:
        spec["other"] = container(rng.random() < 0.3)
    # (every test compiles its container: instruction by instruction that takes long)
    return spec, _strategy(rng, mode if rng.random() < 0.25 else "a")


VALUE = {"wrong", "half-built", "scope", "ident", "cross", "stale", "ctx", "missing-error", "dup", "error", "foreign-error", "exc-changed"}
REL = {"rel-dup", "rel-early", "rel-late", "rel-exc", "rel-missing", "rel-order", "rel-phantom", "again"}
HANG = {"deadlock", "livelock"}

PROFILES: dict[str, tuple[Callable[[random.Random], Made], set[str]]] = {
    "P01": (p01, VALUE | {"stray-build"}),
    "P02": (p02, VALUE | {"exc-lost", "stray-build", "late-build"}),
    "P03": (p03, VALUE | {"again"}),
    "P04": (p04, VALUE | {"stray-build"}),
    "P05": (p05, REL),
    "P06": (p06, REL | {"exit-exc", "error"}),
    "P07": (p07, {"late-build", "exc-lost", "exc-changed", "foreign-error", "early-build", "error", "dup", "ident", "wrong", "half-built", "missing-error", "rel-missing", "stale", "cross"}),
    "P08": (p08, HANG | {"error"}),
    "P09": (p09, {"cross", "ident", "scope", "missing-error", "error", "ctx", "wrong", "dup", "stale"}),
    "P10": (p10, {"inject", "cross", "ident", "scope", "dup", "missing-error", "error", "stale", "wrong", "exit-exc", "exc-lost", "exc-changed"} | REL),
    "P11": (p11, {"ctx", "missing-error", "error", "cross", "ident", "wrong"}),
    "P12": (p12, VALUE | {"reg-refused", "reg-accepted", "stray-build", "rel-missing", "rel-dup"}),
    "P13": (p13, VALUE | REL | {"exc-lost", "exit-exc"}),
    "P14": (p14, VALUE | {"exc-lost", "stray-build", "early-build"}),
    "P15": (p15, VALUE | {"exc-lost", "stray-build", "reg-refused"}),
    "P16": (p16, VALUE | HANG),
    "P18": (p18, VALUE | HANG | {"isolation"}),
    "P19": (p19, VALUE | REL | HANG | {"isolation", "exc-lost"}),
    "P17": (p17, VALUE | REL | HANG | {"isolation", "exc-lost", "stray-build", "inject"}),
}
