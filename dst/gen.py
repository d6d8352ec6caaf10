"""Seeded workload generator: registrations, programs, fault plans and schedules for each property."""

from __future__ import annotations

import random
from typing import Any

from dst.model import ALLOWED, LEVEL, NAME, best_open, patof, subst, tvars, two

LV = ["APP", "SESSION", "REQUEST", "ACTION", "STEP"]
SYNC_KINDS = ["cls", "factory", "gen", "cm"]
ASYNC_KINDS = ["afactory", "agen", "acm"]
TEMPLATES = ["Go0", "Go1", "Go2", "Go0@a", "Gp0", "Gp1"]  # a template only depends on earlier ones
PATTERNS: dict[bool, list[Any]] = {
    False: [None, None, None, None, "Gi", "Gi", ["S"], ["Ti"], ["Tc"], ["Tu"], ["Tf"], [["G", "Gk0", "T", "U"]], [["G", "Gk0", "T", "T"]], [["G", "Gk0", "int", "T"]]],
    True: [None, None, None, ["T", "T"], ["int", "T"], ["T", "str"], ["U", "T"], [["G", "Gi", "T"], "U"], ["T", ["G", "Gi", "T"]], ["T", ["G", "Gi", "U"]],
           ["int", ["G", "Gi", "T"]], [["G", "Gi", "int"], "T"], [["G", "Gi", "int"], ["G", "Gi", "T"]]],
}
EXCS = ["E", "K", "A", "T", "R", "O", "I", "B"]


class G:
    """State of one generated run."""

    def __init__(self, rng: random.Random, **cfg: Any) -> None:
        self.rng = rng
        self.cfg: dict[str, Any] = {
            "n": (2, 6),
            "levels": [("APP", 4), ("SESSION", 2), ("REQUEST", 4), ("ACTION", 1), ("STEP", 1)],
            "p_trans": 0.3,
            "kinds": [("cls", 3), ("factory", 4), ("gen", 1), ("cm", 1)],
            "akinds": [("afactory", 4), ("agen", 1), ("acm", 1)],
            "p_async": 0.0,
            "p_inst": 0.05,
            "p_comp": 0.15,
            "p_written": 0.25,
            "p_skip": 0.05,
            "p_gen": 0.1,
            "p_missing": 0.1,
            "forms": [("v", 10), ("m", 1), ("a", 1)],
            "p_badlevel": 0.03,
            "p_ctxdep": 0.0,
            "p_handle": 0.0,
            "p_hcycle": 0.25,
            "p_iw": 0.12,
            "p_tree": 0.12,
            "p_notes": 0.1,
            "p_before": 0.1,
            "p_mix": 0.3,
            "p_deco": 0.0,
            "p_open": 0.0,
            "p_fault": 0.0,
            "fault_where": [("pre", 1), ("post", 1)],
            "p_relfault": 0.0,
            "p_delay": 0.4,
            "p_rdelay": 0.2,
            "p_sup": 0.0,
            "ctxkeys": ["K1", "K2", "int"],
            "mode": "t",  # t: threads, a: tasks
            "use_ctx": 0.0,
            "nonstrict": 0.0,
            "precompile": 0.5,
            "branches": (2, 3),
            "oplen": (1, 3),
            "p_scope": 0.3,
            "maxdepth": 2,
            "p_raise": 0.0,
            "p_ctx": 0.0,
            "p_dclose": 0.0,
            "p_late": 0.0,
            "p_same": 0.0,
            "p_re": 0.0,
            "p_csh": 0.0,
            "p_cty": 0.0,
            "p_close": 0.0,
            "p_to": 0.0,
            "p_mode_s": 0.0,
            "p_via": 0.0,
            "p_sleep": 0.1,
            "p_par": 0.2,
            "p_exec": 0.0,
            "p_inj": 0.0,
            "p_h": 0.0,
            "p_prop": 0.1,
            "p_swallow": 0.3,
            "opkinds": None,
        }
        self.cfg.update(cfg)
        self.setup: list[dict[str, Any]] = []
        self.allregs: list[dict[str, Any]] = []  # setup plus registrations made by the program
        self.openkeys: list[Any] = []
        self.badkeys: list[Any] = []  # closings with refused type arguments
        self.keys: list[Any] = []  # requestable keys
        self.info: dict[Any, tuple[int, int, bool]] = {}  # key -> (level, max level, async)
        self.classes: list[int] = []
        self.nreg = 0
        self.nclass = 0
        self.injects: list[dict[str, Any]] = []
        self.opens: list[dict[str, Any]] = []
        self.gen_args: dict[str, list[Any]] = {}
        self.handle_hosts = 0

    # -- helpers ----------------------------------------------------------------------------
    def p(self, name: str) -> bool:
        return self.rng.random() < self.cfg[name]

    def pick(self, weighted: list[tuple[Any, float]]) -> Any:
        tot = sum(w for _, w in weighted)
        x = self.rng.random() * tot
        for v, w in weighted:
            x -= w
            if x <= 0:
                return v
        return weighted[-1][0]

    def between(self, t: tuple[int, int]) -> int:
        return self.rng.randint(*t)

    def tup(self, k: Any) -> Any:
        return tuple(self.tup(x) for x in k) if isinstance(k, (list, tuple)) else k

    # -- registrations ----------------------------------------------------------------------------
    def graph(self) -> None:
        n = self.between(self.cfg["n"])
        for _ in range(n):
            if self.p("p_open"):
                self.open_generic()
            else:
                self.service()
        if not self.keys:
            self.service()
        if self.cfg["p_handle"]:
            self.handle_cycles()
        if self.cfg["p_deco"]:
            exact = {self.tup(r["k"]) for r in self.allregs if r["o"] == "reg"}
            for k in list(self.keys):
                if self.tup(k) in exact and self.p("p_deco"):
                    self.decorate(k)
        if self.cfg.get("p_odeco"):
            for o in {(o["tmpl"], patof(o)): o for o in self.opens}.values():
                if self.p("p_odeco"):
                    self.decorate_open(o)

    def handle_cycles(self) -> None:
        """Handles of services that (may) depend on the one which gets the handle, or of itself."""
        rng = self.rng
        for r in self.allregs:
            if r["o"] != "reg" or r["kind"] == "inst" or r.get("sty") == "pyd" or not self.p("p_hcycle"):
                continue
            level = LEVEL[r.get("s") or "APP"]
            me = self.keys.index(r["k"])
            cand = [k for k in self.keys[me:] if self.info[self.tup(k)][0] <= level and (k[0] != "G" or self.tup(k) not in self.openkeys)]
            if cand:
                k = rng.choice(cand)
                f = "ap" if self.info[self.tup(k)][2] or rng.random() < 0.2 and self.cfg["mode"] == "a" else "p"
                r["deps"] = [*r.get("deps", []), {"f": f, "k": k}]
                r.pop("sh", None)
                self.handle_hosts += 1

    def fill(self, r: dict[str, Any], kind: str) -> None:
        rng = self.rng
        flt = []
        if self.p("p_fault"):
            for _ in range(rng.randint(1, 2)):
                w = self.pick(self.cfg["fault_where"])
                if w in ("cx",) and kind[0] != "a":
                    w = "post"
                if w == "pre" and kind in ("cm", "acm") and rng.random() < 0.3:
                    w = "new"
                x = rng.choice([*EXCS, "C", "C"] if self.cfg["mode"] == "a" else EXCS)
                flt.append({"w": w, "n": rng.choice([0, 0, 0, 1, 1, 2]), "x": x})
        if kind in ("gen", "cm", "agen", "acm") and self.p("p_relfault"):
            w = self.pick(self.cfg.get("rel_where", [("rel", 1)]))
            if w == "rcx" and kind[0] != "a":
                w = "rel"
            flt.append({"w": w, "n": rng.choice([0, 0, 1]), "x": rng.choice([*EXCS, "C"])})
        if flt:
            r["flt"] = flt
        if self.p("p_delay"):
            if kind[0] == "a":
                r["dly"] = [rng.choice([-1, -2, -1, -3, 1, 2, 0]) for _ in range(rng.randint(1, 2))]
            else:
                r["dly"] = [rng.choice([0, 0, 1, 2])] if self.cfg["mode"] == "t" else [0]
        elif kind[0] == "a":
            r["dly"] = [rng.choice([-1, 0])]
        if kind in ("gen", "cm", "agen", "acm") and self.p("p_rdelay"):
            if kind[0] == "a":
                r["rdly"] = [rng.choice([-1, -2, 1])]
            elif self.cfg["mode"] == "t":
                r["rdly"] = [rng.choice([0, 1])]
        if kind in ("cm", "acm") and r.get("cms") != "ctx" and self.p("p_sup"):
            r["sup"] = True

    def deps(self, level: int, scoped: bool, *, maxn: int = 3, ctx: bool = True, key: Any = None) -> tuple[list[dict[str, Any]], int, bool]:
        """Dependencies for a new service; returns (deps, max level, async)."""
        rng = self.rng
        out: list[dict[str, Any]] = []
        mx, asy = level, False
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3][: 2 + 2 * maxn] if maxn < 3 else [0, 1, 1, 2, 2, 3])):
            if ctx and self.p("p_ctxdep"):
                out.append({"f": rng.choice(["c", "c", "c", "mc"]), "k": ["F", rng.choice(self.cfg["ctxkeys"])]})
                continue
            if not self.keys:
                continue
            if self.p("p_missing"):
                out.append({"f": "m", "k": ["C", 900 + rng.randrange(3)]})
                continue
            cand = [k for k in self.keys if k != key]
            if key is not None:
                # providers are wired when compiled: closings of templates are not registered then
                exact = {self.tup(r["k"]) for r in self.allregs if r["o"] == "reg"}
                cand = [k for k in cand if self.tup(k) in exact]
            if key is not None and self.p("p_handle"):
                cand = [k for k in cand if self.info[self.tup(k)][0] <= level]
                if not cand:
                    continue
                k = rng.choice(cand[-4:] if rng.random() < 0.5 else cand)
                f = "ap" if self.info[self.tup(k)][2] or rng.random() < 0.2 and self.cfg["mode"] == "a" else "p"
                self.handle_hosts += 1
                out.append({"f": f, "k": k, **({"mb": 1} if rng.random() < 0.15 else {})})
                continue
            if rng.random() >= self.cfg["p_badlevel"]:
                cand = [k for k in cand if self.info[self.tup(k)][1] <= level] if scoped else [
                    k for k in cand if self.info[self.tup(k)][1] <= max(level, LEVEL["REQUEST"])
                ]
            if not cand:
                continue
            k = rng.choice(cand[-4:] if rng.random() < 0.5 else cand)
            f = self.pick(self.cfg["forms"])
            if f == "a":
                if k[0] not in "CX":
                    f = "v"
                else:
                    k = ["C", k[1]]
                    members = [x for x in self.keys if x[0] in "CX" and x[1] == k[1]]
                    if any(self.info[self.tup(x)][1] > (level if scoped else 3) for x in members):
                        f = "v"
                        k = rng.choice(members)
                        if self.info[self.tup(k)][1] > level and scoped:
                            continue
                    else:
                        for x in members:
                            mx = max(mx, self.info[self.tup(x)][1])
                            asy = asy or self.info[self.tup(x)][2]
            if f != "a":
                lv = self.info[self.tup(k)]
                mx = max(mx, lv[1])
                asy = asy or lv[2]
            out.append({"f": f, "k": k})
        return out, mx, asy

    def shape(self, deps: list[dict[str, Any]], inner: bool = False) -> str | None:
        """How the parameters are declared: see world._params."""
        rng = self.rng
        n = len(deps) + inner
        if self.p("p_skip"):
            extra = "x"
        elif n == 0 or rng.random() < 0.5:
            return None
        else:
            extra = ""
        letters = sorted((rng.choice("pnndk") for _ in range(n)), key="pndk".index)
        stars = [] if inner or extra else [i for i, d in enumerate(deps) if d["f"] == "a" and not d.get("mb")]
        if stars and rng.random() < 0.5:
            i = rng.choice(stars)
            letters = [c if c != "k" else "n" for c in letters[:i]] + ["v"] + ["k"] * (n - i - 1)
            letters[:i] = sorted(letters[:i], key="pnd".index)
            if any(d["f"] == "m" or d.get("mb") for d in deps[:i]):  # recorded: star-after-omitted
                letters[:i] = [c if c != "d" else "n" for c in letters[:i]]
        elif deps and not inner and deps[-1]["f"] in "vm" and not deps[-1].get("mb") and rng.random() < self.cfg.get("p_kwargs", 0.15):
            letters[-1] = "w"
        at = next((i for i, c in enumerate(letters) if c in "dkw"), n)
        return "".join(letters[:at]) + extra + "".join(letters[at:])

    def written(self, r: dict[str, Any], inner: bool = False) -> None:
        """Ways of writing a provider that must not make a difference."""
        rng = self.rng
        deps, kind = r["deps"], r["kind"]
        sh = self.shape(deps, inner)
        if sh:
            r["sh"] = sh
        if not self.p("p_written"):
            return
        generic = any(d["f"] == "t" or (d["k"] and tvars(d["k"])) for d in deps)
        if kind == "cls":
            sty = rng.choice([None, "dc", "new", "inh", "attrs", "pyd", "msg"])
            if sty == "msg" and (set(sh or "k") != {"k"} and set(sh or "n") - {"n", "d"} or r["k"][0] not in "CX"):
                sty = None
            if "w" in (sh or "") and sty in ("dc", "attrs", "msg"):
                sty = None
            if sty in ("dc", "attrs") and ("p" in (sh or "") or "v" in (sh or "") or sty == "attrs" and "x" in (sh or "")):
                sty = None
            if sty == "pyd" and (sh or r["k"][0] not in "CX" or any(d["f"] != "v" or d["k"][0] not in "CX" for d in deps)):
                sty = None  # (pydantic checks types, which it knows of plain classes only)
            if sty == "inh" and r["k"][0] not in "CX":
                sty = None
            if sty:
                r["sty"] = sty
            if sty not in ("dc", "attrs", "pyd", "msg"):
                r["mis"] = rng.choice([0, 1, 2, 3])
        elif kind in ("cm", "acm") and not inner and rng.random() < 0.6:
            r["cms"] = rng.choice(["cls", "self", "ctx", "fn"])
            if r["cms"] not in ("ctx", "fn") and rng.random() < 0.4:
                r["dual"] = 1
        elif rng.random() < 0.4:
            r["fm"] = rng.choice(["meth", "cmeth", "call", "part", *(["wrap"] if kind in ("factory", "gen", "cm", "acm") else [])])
        if kind == "afactory" and r.get("fm") in (None, "meth", "cmeth") and rng.random() < 0.3:
            r["aw"] = rng.choice([1, 2])
        if kind != "cls" and not inner and r.get("fm") != "part" and rng.random() < 0.5:
            r["ret"] = 1
        if r.get("fm") not in ("call", "part") and r.get("sty") not in ("dc", "attrs", "pyd", "msg") and rng.random() < 0.4:
            r["str"] = 1
        elif not inner and r["o"] == "reg" and not generic and r.get("sty") != "pyd" and rng.random() < 0.4:
            keys = [(d["f"], self.tup(d["k"]), d.get("mb")) for d in deps]
            if len(set(keys)) == len(keys):
                r["dx"] = rng.choice([1, 2, 3])

    def service(self, key: Any = None, **force: Any) -> dict[str, Any]:
        rng = self.rng
        if key is None:
            if self.classes and self.p("p_comp"):
                c = rng.choice(self.classes[-3:])
                names = [k[2] for k in self.keys if k[0] == "X" and k[1] == c]
                key = ["X", c, f"c{len(names)}"]
            elif self.p("p_gen"):
                key = ["G", f"Gx{rng.randrange(2)}", rng.choice(["int", "str"])]
                if rng.random() < 0.3:
                    key = ["G", "Gp9", *rng.choices(["int", "str"], k=2)]
                if rng.random() < 0.2:
                    key[1] += "@a"
                if self.tup(key) in self.info:
                    self.nclass += 1
                    key = ["C", self.nclass]
            else:
                self.nclass += 1
                key = ["C", self.nclass]
        self.nreg += 1
        lvl = force.get("s") or self.pick(self.cfg["levels"])
        scoped = force["scoped"] if "scoped" in force else not self.p("p_trans")
        if force.get("kind") is None and self.p("p_inst") and key[0] in "CX":
            r = {"o": "reg", "i": self.nreg, "k": key, "kind": "inst"}
            if rng.random() < 0.3:
                r["iv"] = rng.choice(["none", "none", "zero", "empty", "dots", "class", "function", "coroutinefunction", "nothing", "notimplemented", "error", "list", "type"])
            elif rng.random() < 0.4:
                r["ni"] = 1
                if key[0] == "X":
                    r["cs"] = rng.choice([1, 2])
            self.setup.append(r)
            self.allregs.append(r)
            self.note(key, (1, 1, False))
            self.recompute()
            return r
        asy = self.p("p_async")
        kind = force.get("kind") or self.pick(self.cfg["akinds"] if asy else self.cfg["kinds"])
        level = LEVEL[lvl]
        deps, mx, da = self.deps(level, scoped, key=key)
        if kind == "cls" and key[0] == "G":
            for tv in ("T", "U")[: len(key) - 2]:
                if rng.random() < 0.7:
                    deps.insert(rng.randint(0, len(deps)), {"f": "t", "k": None, "tv": tv, **({"bt": 1} if rng.random() < 0.4 else {})})
        r = {"o": "reg", "i": self.nreg, "k": key, "kind": kind, "s": lvl, "l": "S" if scoped else "T", "deps": deps}
        if lvl == "APP" and rng.random() < 0.3:
            del r["s"]
        if scoped and self.cfg.get("life", "S") == "S" and rng.random() < 0.3:
            del r["l"]
        self.written(r)
        if key[0] == "X" and rng.random() < 0.4:
            r["cs"] = rng.choice([1, 2])
        if kind == "cls" and key[0] == "C" and rng.random() < 0.5:
            r["self"] = True
        self.fill(r, kind)
        if kind != "cls" and r.get("cms") != "self" and rng.random() < self.cfg.get("p_nv", 0.06):
            r["nv"] = rng.choice(["none", "none", "none", "zero", "empty", "dots", "class", "function", "nothing", "notimplemented", "list"])
        self.setup.append(r)
        self.allregs.append(r)
        self.note(key, (level, mx, da or kind[0] == "a"))
        if not self.recompute():
            r["deps"] = [d for d in r["deps"] if d["f"] in ("c", "mc")]
            r.pop("sh", None)
            self.recompute()
        return r

    def recompute(self) -> bool:
        """Recompute (level, deepest level needed, async) of every key; False if the graph is cyclic."""
        by: dict[Any, dict[str, Any]] = {}
        extra: dict[Any, list[dict[str, Any]]] = {}
        for r in self.allregs:
            if r["o"] == "reg":
                by[self.tup(r["k"])] = r
            elif r["o"] == "deco":
                extra.setdefault(self.tup(r["k"]), []).append(r)
            elif r["o"] == "odeco":
                extra.setdefault((r["tmpl"], patof(r)), []).append(r)
        done: dict[Any, tuple[int, int, bool]] = {}
        busy: set[Any] = set()
        ok = True

        def lookup(k: Any) -> tuple[Any, dict[str, Any], Any]:
            if k in by or k[0] != "G":
                return by.get(k), {}, extra.get(k, ())
            o, m, _ = best_open(self.opens, k)
            return o, m, extra.get((o["tmpl"], patof(o)), ()) if o is not None else ()

        def visit(k: Any) -> tuple[int, int, bool]:
            nonlocal ok
            if k in done:
                return done[k]
            if k in busy:
                ok = False
                return (1, 1, False)
            r, m, more = lookup(k)
            if r is None:
                return (1, 1, False)
            busy.add(k)
            lv = LEVEL[r.get("s", "APP")] if r["kind"] != "inst" else 1
            mx, asy = lv, r["kind"][0] == "a"
            for src in [r, *more]:
                asy = asy or src["kind"][0] == "a"
                for d in src.get("deps", ()):
                    if d["f"] not in ("v", "m", "a") or not d["k"] or d["k"][0] not in "CXG":
                        continue
                    t = subst(self.tup(d["k"]), m)
                    for x in [x for x in by if x[0] in "CX" and x[1] == t[1]] if d["f"] == "a" else [t]:
                        i = visit(x)
                        mx, asy = max(mx, i[1]), asy or i[2]
            busy.discard(k)
            done[k] = (lv, mx, asy)
            return done[k]

        for k in [*by, *self.openkeys]:
            visit(k)
        if ok:
            self.info.update({k: v for k, v in done.items() if k in self.info or k in by})
        return ok

    def asynchronous(self, r: dict[str, Any]) -> bool:
        if r["kind"][0] == "a":
            return True
        if r["o"] in ("open", "odeco"):
            return any(self.info[k][2] for k in self.info if k[0] == "G" and k[1] == r["tmpl"])
        return self.info[self.tup(r["k"])][2]

    def may_await(self, r: dict[str, Any]) -> bool:
        """Whether some closing of an open registration may have to be made asynchronously."""
        if r["kind"][0] == "a" or any(o["o"] == "odeco" and o["tmpl"] == r["tmpl"] for o in [*self.allregs, *self.opens, *self.setup]):
            return True

        def slow(d: dict[str, Any]) -> bool:
            if d["f"] in ("t", "c", "mc", "p", "ap") or not d.get("k"):
                return False
            k = self.tup(d["k"])
            if k[0] == "G":
                return any(i[2] for x, i in self.info.items() if x[0] == "G" and x[1] == k[1])
            return any(i[2] for x, i in self.info.items() if (x[:2] if d["f"] == "a" else x) == (k[:2] if d["f"] == "a" else k))

        return any(slow(d) for d in r.get("deps", ()))

    def note(self, key: Any, info: tuple[int, int, bool]) -> None:
        if self.tup(key) not in self.info:
            self.keys.append(key)
        self.info[self.tup(key)] = info
        if key[0] == "C" and key[1] not in self.classes:
            self.classes.append(key[1])

    def decorate(self, key: Any) -> None:
        rng = self.rng
        level, mx, asy = self.info[self.tup(key)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.nreg += 1
            kind = "afactory" if self.p("p_async") else "factory"
            deps = []
            idx = next((i for i, k in enumerate(self.keys) if k == key), 0)
            exact = {self.tup(r["k"]) for r in self.allregs if r["o"] == "reg"}
            cand = [k for k in self.keys[:idx] if self.tup(k) in exact and self.info[self.tup(k)][1] <= level and not (k[0] in "CX" and key[0] in "CX" and k[1] == key[1])]
            if cand and rng.random() < 0.4:
                k = rng.choice(cand)
                deps.append({"f": "v", "k": k})
                asy = asy or self.info[self.tup(k)][2]
            r = {"o": "deco", "i": self.nreg, "k": key, "deps": deps, "at": rng.randint(0, len(deps)), "kind": kind}
            if rng.random() < 0.5:
                r["ip"] = 1
            self.written(r, inner=True)
            self.fill(r, kind)
            at = self.rng.random()
            if at < self.cfg.get("p_deco_early", 0.0):
                self.setup.insert(rng.randint(0, len(self.setup)), r)
            else:
                self.setup.append(r)
            self.allregs.append(r)
            if not self.recompute():
                r["deps"], r["at"] = [], 0
                r.pop("sh", None)
                self.recompute()

    def open_generic(self, anew: dict[str, Any] | None = None, s: str | None = None) -> None:
        rng = self.rng
        self.nreg += 1
        tmpl = rng.choice(TEMPLATES[:3]) if rng.random() < 0.6 else rng.choice(TEMPLATES)
        pat = rng.choice(PATTERNS[two(tmpl)] if rng.random() < 0.6 else [None, None, None, None if two(tmpl) else "Gi"])
        if anew is not None:
            tmpl, pat = anew["tmpl"], anew["pat"]
        lvl = s or self.pick(self.cfg["levels"])
        scoped = not self.p("p_trans")
        asy = self.p("p_async")
        kind = self.pick(self.cfg["akinds"] if asy else self.cfg["kinds"])
        level = LEVEL[lvl]
        deps, mx, da = self.deps(level, True, maxn=2)
        deps = [d for d in deps if d["f"] in self.cfg.get("open_forms", ("v", "c", "m", "mc", "a"))]
        r = {"o": "open", "i": self.nreg, "k": ["O", tmpl], "tmpl": tmpl, "pat": pat, "kind": kind, "s": lvl, "l": "S" if scoped else "T", "deps": deps}
        for tv in tvars(patof(r)):
            deps.append({"f": "t", "k": None, "tv": tv, **({"bt": 1} if rng.random() < 0.3 else {})})
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            deps += self.through(r, level)
        rng.shuffle(deps)
        if pat is None and rng.random() < 0.4:
            r["bare"] = 1
        self.written(r)
        self.fill(r, kind)
        self.setup.append(r)
        self.opens.append(r)
        for key in self.closings(r, 2):
            o, _, refused = best_open(self.opens, self.tup(key))
            if o is None:
                if refused:
                    self.badkeys.append(key)
                continue
            if self.tup(key) not in self.openkeys:
                self.openkeys.append(self.tup(key))
            self.note(key, (level, mx, da or kind in ("afactory", "agen", "acm")))
        if not self.recompute():
            r["deps"] = [d for d in r["deps"] if d["f"] not in ("v", "m", "a")]
            r.pop("sh", None)
            self.recompute()

    def arg(self, tv: str = "T") -> Any:
        rng = self.rng
        if tv in ALLOWED and rng.random() < 0.8:
            return rng.choice(ALLOWED[tv])
        if rng.random() < 0.12:
            return ["G", "Gi", rng.choice(["int", "str"])]
        if rng.random() < 0.06:
            return ["G", "Gk0", *rng.choices(["int", "str"], k=2)]
        return rng.choice(["int", "str", "bytes", "float", "int", "str", "bytes", "float", rng.choice(["opt", "list", "lit", "tup", "none", "fun", "any", "obj", "uni"])])

    def closings(self, r: dict[str, Any], n: int) -> list[Any]:
        out = []
        for _ in range(n):
            m = {tv: self.arg(tv) for tv in tvars(patof(r))}
            out.append(_lst(("G", r["tmpl"], *(subst(p, m) for p in patof(r)))))
        if two(r["tmpl"]) and self.rng.random() < 0.4:
            a = self.rng.choice(["int", "str"])
            out.append(["G", r["tmpl"], a, a])
        return out

    def through(self, r: dict[str, Any], level: int) -> list[dict[str, Any]]:
        """A dependency on another template for the type arguments of this one."""
        rng = self.rng
        mine = tvars(patof(r))
        rank = TEMPLATES.index(r["tmpl"])
        cand = [o for o in self.opens if TEMPLATES.index(o["tmpl"]) < rank and o is not r]
        if rng.random() >= self.cfg["p_badlevel"]:
            cand = [o for o in cand if LEVEL[o["s"]] <= level]
        if not cand or not mine:
            return []
        o = rng.choice(cand)
        m: dict[str, Any] = {}
        for tv in tvars(patof(o)):
            x = rng.random()
            m[tv] = self.arg(tv) if x < 0.15 else ["G", "Gi", rng.choice(mine)] if x < 0.25 else rng.choice(mine)
        key = _lst(("G", o["tmpl"], *(subst(p, m) for p in patof(o))))
        if not tvars(key):
            return []
        f = self.pick([("v", 6), ("m", 1), ("p", 1.5), ("ap", 1.5 if self.cfg["mode"] == "a" else 0)])
        return [{"f": f, "k": key}]

    def decorate_open(self, o: dict[str, Any]) -> None:
        """Decorate the template that registration ``o`` provides."""
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 3])):
            self.nreg += 1
            kind = "afactory" if self.p("p_async") else "factory"
            deps: list[dict[str, Any]] = []
            exact = {self.tup(r["k"]) for r in self.allregs if r["o"] == "reg"}
            idx = next((i for i, k in enumerate(self.keys) if k[0] == "G" and k[1] == o["tmpl"]), 0)
            cand = [k for k in self.keys[:idx] if self.tup(k) in exact and self.info[self.tup(k)][1] <= LEVEL[o["s"]]]
            if cand and rng.random() < 0.4:
                deps.append({"f": "v", "k": rng.choice(cand)})
            if rng.random() < 0.4:
                deps.append({"f": "t", "k": None, "tv": rng.choice(tvars(patof(o)))})
            if rng.random() < 0.3:
                deps += self.through(o, LEVEL[o["s"]])
            r = {"o": "odeco", "i": self.nreg, "k": o["k"], "tmpl": o["tmpl"], "pat": o["pat"], "deps": deps, "at": rng.randint(0, len(deps)), "kind": kind}
            if o.get("bare"):
                r["bare"] = 1
            if rng.random() < 0.5:
                r["ip"] = 1
            self.written(r, inner=True)
            self.fill(r, kind)
            if rng.random() < self.cfg.get("p_deco_early", 0.0):
                self.setup.insert(rng.randint(0, len(self.setup)), r)
            else:
                self.setup.append(r)
            self.allregs.append(r)
            if not self.recompute():
                r["deps"], r["at"] = [d for d in r["deps"] if d["f"] == "t"], 0
                r.pop("sh", None)
                self.recompute()

    # -- programs ------------------------------------------------------------------------------
    def request(self, level: int, hot: list[Any] | None = None) -> dict[str, Any]:
        rng = self.rng
        keys = hot if hot and rng.random() < 0.7 else self.keys
        ok = [k for k in keys if self.info[self.tup(k)][1] <= level] or [k for k in self.keys if self.info[self.tup(k)][1] <= level]
        if rng.random() < self.cfg.get("p_wrongscope", 0.05) or not ok:
            ok = self.keys
        k = rng.choice(ok)
        f = self.pick(self.cfg["forms"])
        if f == "a":
            if k[0] in "CX":
                k = ["C", k[1]]
            else:
                f = "v"
        if self.p("p_missing") and rng.random() < 0.5:
            f, k = rng.choice([("m", ["C", 900]), ("v", ["C", 901]), ("a", ["C", 902])])
        if rng.random() < self.cfg["p_ctxdep"] * 0.7:
            f, k = rng.choice(["c", "c", "mc"]), ["F", rng.choice(self.cfg["ctxkeys"])]
        o: dict[str, Any] = {"o": "r", "f": f, "k": k}
        if rng.random() < self.cfg["p_handle"] * 0.4 and k[0] != "F" and k != ["C", 900]:
            o["f"] = "ap" if self.cfg["mode"] == "a" and rng.random() < 0.5 else "p"
            if o["k"][0] == "C" and self.tup(o["k"]) not in self.info:
                o["f"] = f
            elif rng.random() < 0.2:
                o["mb"] = 1
        if self.badkeys and rng.random() < 0.1:
            o = {"o": "r", "f": rng.choice(["v", "v", "m"]), "k": rng.choice(self.badkeys)}
        if self.cfg["mode"] == "a":
            if self.p("p_mode_s"):
                o["m"] = "s"
            elif self.p("p_to"):
                o["to"] = rng.choice([0.5, 1.0, 1.5, 2.5, 0])
            if self.p("p_swallow"):
                o["swallow"] = 1
        if self.p("p_via"):
            o["on"] = rng.choice(["C", "X"])
        if self.p("p_prop"):
            o["prop"] = 1
        return o

    def ops(self, level: int, depth: int, hot: list[Any] | None = None, n: int | None = None) -> list[dict[str, Any]]:
        rng = self.rng
        out: list[dict[str, Any]] = []
        for _ in range(n if n is not None else self.between(self.cfg["oplen"])):
            if depth > 0 and self.p("p_par"):
                out.append(self.par(level, depth - 1, hot))
            elif depth > 0 and self.p("p_scope"):
                out.append(self.scope(level, depth - 1, hot))
            elif self.p("p_inj") and self.injects:
                out.append(self.inject_call(level, depth, hot))
            elif self.p("p_h"):
                o = {"o": "h", "n": rng.randrange(8)}
                if self.p("p_to"):
                    o["to"] = rng.choice([0.5, 1.0, 0])
                if self.p("p_swallow"):
                    o["swallow"] = 1
                out.append(o)
            elif depth > 0 and self.p("p_exec") and self.cfg["mode"] == "a":
                out.append({"o": "exec", "inherit": rng.random() < 0.6, "body": self.ops(level, depth - 1, hot, 2)})
            elif self.p("p_sleep"):
                out.append({"o": "sl", "d": rng.choice([0, -1, -2, 0.5, 1, 2]) if self.cfg["mode"] == "a" else rng.choice([0.5, 1])})
            elif depth > 0 and self.cfg.get("p_rblock") and self.p("p_rblock"):
                o = {"o": "rblock", "body": self.ops(1, depth - 1, hot)}
                if rng.random() < 0.4:
                    o["comp"] = 1
                if self.cfg["mode"] == "a" and rng.random() < 0.5:
                    o["m"] = "s"
                out.append(o)
            elif self.cfg.get("p_temp") and self.p("p_temp"):
                o = {"o": "temp", "how": rng.choice(["close", "close", "with", "comp", "scope", "scope"])}
                if rng.random() < 0.4:
                    o["close"] = 1
                if rng.random() < 0.4:
                    o["d"] = rng.choice([0, 0.5])
                if rng.random() < 0.3:
                    o["end"] = rng.choice(["E", "B", "K"])
                if self.cfg["mode"] == "a" and rng.random() < 0.5:
                    o["m"] = "s"
                out.append(o)
            elif self.p("p_late"):
                out.append({"o": "late", "n": rng.randrange(5), "m": rng.choice("as")})
            else:
                out.append(self.request(level, hot))
        return out

    def share_ctx(self, o: dict[str, Any]) -> None:
        if self.p("p_csh"):
            o["csh"] = self.rng.randrange(2)
        if self.p("p_cty"):
            o["cty"] = 1

    def scope(self, level: int, depth: int, hot: list[Any] | None = None, lvl: str | None = None, body: list[Any] | None = None) -> dict[str, Any]:
        rng = self.rng
        o: dict[str, Any] = {"o": "scope"}
        if lvl is None:
            if self.p("p_same"):
                lvl = NAME[level]
                if self.p("p_re"):
                    o["re"] = 1
            else:
                deeper = [x for x in LV if LEVEL[x] > level]
                wanted = sorted({self.info[self.tup(k)][1] for k in (hot or self.keys)})
                good = [NAME[x] for x in wanted if x > level]
                if good and rng.random() < 0.7:
                    lvl = rng.choice(good)
                elif deeper and rng.random() < 0.8:
                    lvl = rng.choice(deeper)
                elif rng.random() < 0.2:
                    lvl = rng.choice(LV)
        if lvl is not None:
            o["lvl"] = lvl
        new = LEVEL[lvl] if lvl is not None else next((x for x in (3, 4, 5) if x > level), level)
        if self.p("p_ctx"):
            ks = rng.sample(self.cfg["ctxkeys"], rng.randint(1, 2))
            o["ctx"] = {k: rng.choice(["v", "v", "v", "none"]) for k in ks}
            self.share_ctx(o)
        if self.p("p_via"):
            o["via"] = rng.choice(["C", "X"])
        o["body"] = body if body is not None else self.ops(max(new, level), depth, hot)
        if self.p("p_raise"):
            o["end"] = rng.choice(["E", "E", "B", "K", "T"])
        if self.p("p_close"):
            o["how"] = rng.choice(["close", "close", "withclose"])
            if rng.random() < 0.5:
                o["cexc"] = 1
        if self.p("p_dclose"):
            o["dclose"] = rng.choice([1, 1, 2])
        if self.p("p_late"):
            o["late"] = 1
        if self.cfg["mode"] == "a" and self.p("p_mode_s"):
            o["m"] = "s"
        if self.p("p_prop"):
            o["prop"] = 1
        return o

    def par(self, level: int, depth: int, hot: list[Any] | None = None, n: int | None = None) -> dict[str, Any]:
        n = n or self.between(self.cfg["branches"])
        return {"o": "par", "t": [self.ops(level, depth, hot) for _ in range(n)]}

    def hot(self, k: int = 3) -> list[Any]:
        return self.rng.sample(self.keys, min(k, len(self.keys)))

    def make_injects(self, n: int) -> None:
        rng = self.rng
        for i in range(n):
            params = []
            mx = 1
            asy = False
            for _ in range(rng.randint(1, 3)):
                if rng.random() < self.cfg["p_ctxdep"]:
                    params.append({"f": rng.choice(["c", "c", "mc"]), "k": ["F", rng.choice(self.cfg["ctxkeys"])]})
                    continue
                k = rng.choice(self.keys)
                f = self.pick([("v", 8), ("m", 1), ("a", 1), ("p", 1), *([("ap", 1)] if self.cfg["mode"] == "a" else [])])
                if f == "a" and k[0] not in "CX":
                    f = "v"
                if f == "a":
                    k = ["C", k[1]]
                    ms = [x for x in self.keys if x[0] in "CX" and x[1] == k[1]]
                else:
                    ms = [k]
                mx = max([mx, *(self.info[self.tup(x)][1] for x in ms)])
                asy = asy or (f not in ("p", "ap") and any(self.info[self.tup(x)][2] for x in ms))
                params.append({"f": f, "k": k, **({"mb": 1} if f in ("p", "ap") and rng.random() < 0.15 else {})})
            if rng.random() < 0.1:
                params.append({"f": "m", "k": ["C", 900]})
            inj: dict[str, Any] = {
                "i": i,
                "params": params,
                "plain": rng.choice([0, 0, 1]),
                "async": self.cfg["mode"] == "a" and (asy or rng.random() < 0.6),
                "kwonly": rng.random() < 0.3,
            }
            if rng.random() < 0.5:
                self.written_injected(inj)
            if rng.random() < 0.4:
                deeper = [x for x in LV if LEVEL[x] >= self.inj_level(params)]
                inj["scope"] = rng.choice(deeper)
            if rng.random() < 0.1:
                inj["auto"] = False
            inj["_lvl"] = mx
            self.injects.append(inj)

    def written_injected(self, inj: dict[str, Any]) -> None:
        """The same callable, declared in one of the many ways there are."""
        rng = self.rng
        letters = rng.choice(["n", "k", "p", "nk", "pn", "ndk", "pqdk", "qdk", "pqndk"])
        sh = "".join(sorted((rng.choice(letters) for _ in inj["params"]), key="pqndk".index))
        if "q" in sh:
            sh = sh.replace("n", "d")
        inj["sh"] = sh
        inj["meth"] = rng.choice([0, 0, 1, 2, 3, 4])
        inj["str"] = int(rng.random() < 0.3)
        inj["y"] = int(rng.random() < 0.25)
        inj["more"] = int(rng.random() < 0.25)
        inj["rest"] = int(rng.random() < 0.25)
        if rng.random() < 0.3:
            inj["z"] = rng.choice(["k", "d", *("q" if "q" in sh else "")])
        for x in ("meth", "str", "y", "more", "rest"):
            if not inj[x]:
                del inj[x]

    def inj_level(self, params: list[dict[str, Any]]) -> int:
        """Upper bound used to keep explicit scopes legal (handles may need more: stay at the deepest)."""
        mx = 1
        by = {self.tup(r["k"]): r for r in self.setup if r["o"] == "reg"}

        def of(key: Any, depth: int = 0) -> int:
            r = by.get(self.tup(key))
            lv = self.info.get(self.tup(key), (1, 1, False))[1]
            if r is None or depth > 12:
                return lv
            for d in r.get("deps", ()):
                if d.get("k") and d["k"][0] in "CXG":
                    lv = max(lv, many(d, depth + 1))
            return lv

        def many(d: dict[str, Any], depth: int = 0) -> int:
            if d["f"] == "a":
                return max([of(k, depth) for k in self.keys if k[0] in "CX" and k[1] == d["k"][1]], default=1)
            return of(d["k"], depth)

        for prm in params:
            if prm["k"][0] in "CXG":
                mx = max(mx, many(prm))
        for r in self.setup:
            if r["o"] in ("deco", "odeco"):
                for d in r.get("deps", ()):
                    if not d["k"]:
                        continue
                    mx = max(mx, of(d["k"]))
        return mx

    def inject_call(self, level: int, depth: int, hot: list[Any] | None) -> dict[str, Any]:
        rng = self.rng
        n = rng.randrange(len(self.injects))
        inj = self.injects[n]
        o: dict[str, Any] = {"o": "inj", "n": n}
        if rng.random() < 0.3:
            o["rs"] = 1
        if self.p("p_ctx"):
            ks = rng.sample(self.cfg["ctxkeys"], rng.randint(1, 2))
            o["ctx"] = {k: rng.choice(["v", "v", "none"]) for k in ks}
            self.share_ctx(o)
        elif rng.random() < 0.05:
            o["cnone"] = 1
        if rng.random() < 0.15:
            o["give"] = [rng.randrange(len(inj["params"]))]
            if rng.random() < 0.4:
                o["gv"] = rng.choice(["none", "none", "zero", "empty", "dots", "missing"])
            if rng.random() < 0.5:
                o["give"], o["pos"] = list(range(o["give"][0] + 1)), 1
        if rng.random() < 0.5:
            o["more"] = 1
        if depth > 0 and rng.random() < 0.5:
            o["body"] = self.ops(level, depth - 1, hot, rng.randint(1, 2))
        if self.p("p_raise"):
            o["end"] = rng.choice(["E", "B", "K"])
        if self.p("p_prop"):
            o["prop"] = 1
        if self.p("p_swallow"):
            o["swallow"] = 1
        return o

    # -- whole runs ---------------------------------------------------------------------------------
    def container(self, lock: str, **kw: Any) -> dict[str, Any]:
        c: dict[str, Any] = {"lock": lock, "precompile": self.rng.random() < self.cfg["precompile"]}
        if self.p("use_ctx"):
            c["use_ctx"] = True
        if self.p("nonstrict"):
            c["strict"] = False
        if self.rng.random() < self.cfg.get("p_odd", 0.3):
            c["odd"] = self.rng.randrange(12)
        c.update(kw)
        return c

    def hands_out(self, key: Any) -> bool:
        """Whether anything in the graph below ``key`` takes a provider handle (their targets count for injection)."""
        seen: set[Any] = set()
        todo = [key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for r in [*self.allregs, *self.opens]:
                if r["o"] in ("reg", "deco") and self.tup(r["k"]) != k:
                    continue
                if r["o"] in ("open", "odeco") and (k[0] != "G" or r["tmpl"] != k[1]):
                    continue
                for d in r.get("deps", ()):
                    if d["f"] in ("p", "ap"):
                        return True
                    if d["k"] and d["k"][0] in "CXG":
                        t = self.tup(d["k"])
                        todo += [x for x in self.info if x[0] in "CX" and x[1] == t[1]] if d["f"] == "a" else [t]
        return False

    def wrap(self, r: dict[str, Any]) -> None:
        """Make a provider an injected callable of its own that gets some of its dependencies by injection."""
        level = LEVEL[r.get("s") or "APP"]
        asy = r["kind"] == "afactory"
        if "w" in (r.get("sh") or ""):
            return
        for d in r.get("deps", ()):
            if d["f"] not in ("v", "m", "a") or not d["k"] or d["k"][0] not in "CXG" or tvars(d["k"]) or self.rng.random() < 0.3:
                continue
            t = self.tup(d["k"])
            if d["f"] == "a":
                ms = [x for x in self.info if x[0] in "CX" and x[1] == t[1]]
            else:
                ms = [t] if t in self.info else []
                if not ms and d["f"] == "v":
                    continue
            if all(self.info[m][1] <= level and (asy or not self.info[m][2]) and not self.hands_out(m) for m in ms):
                d["inj"] = 1
        deps = r.get("deps", [])
        star = next((i for i, d in enumerate(deps) if d["f"] == "a" and not d.get("mb")), None)
        starred = False
        if star and any(d.get("inj") for d in deps[star + 1 :]) and not any(d["f"] == "m" or d.get("mb") for d in deps[:star]) and self.rng.random() < 0.9:
            starred = True
            # a collection as *args: what is injected comes after it
            r["sh"] = "n" * star + "v" + "k" * (len(deps) - star - 1)
            for d in deps[: star + 1]:
                d.pop("inj", None)
        if any(d.get("inj") for d in r.get("deps", ())):
            r["iw"] = 1
            for x in ("fm", "dx", "aw"):
                r.pop(x, None)
            if r.get("sh"):
                if "d" in r["sh"]:
                    r["sh"] = r["sh"].replace("x", "")
                for x in "pd" if starred and not any(d["f"] in ("c", "mc") for d in deps[: star or 0]) else "pdv":
                    r["sh"] = r["sh"].replace(x, "n")

    def known_before_use(self, prog: list[Any]) -> bool:
        """Whether everything which is asked for was registered before (requests for what nobody knows are made optional)."""
        exact: set[Any] = set()
        opens: list[dict[str, Any]] = []

        def known(d: dict[str, Any]) -> bool:
            if d["f"] in ("c", "mc", "t", "a") or not d.get("k") or d["k"][0] not in "CXG":
                return True
            k = self.tup(d["k"])
            if tvars(k):
                return any(o["tmpl"] == k[1] for o in opens)
            return k in exact or d["f"] == "m" and k[:1] == ("C",) and k[1] >= 900 or k[0] == "G" and best_open(opens, k)[0] is not None

        for r in self.setup:
            if r["o"] not in ("reg", "open", "deco", "odeco") or not all(known(d) for d in r.get("deps", ())):
                return False
            if r["o"] == "reg":
                exact.add(self.tup(r["k"]))
            elif r["o"] == "open":
                opens.append(r)
            elif r["o"] == "deco" and self.tup(r["k"]) not in exact or r["o"] == "odeco" and not any(o["tmpl"] == r["tmpl"] for o in opens):
                return False
        asked = []
        for o in _ops(prog):
            if o["o"] in ("reg", "open", "deco", "odeco", "bad"):
                return False
            if o["o"] == "r":
                asked.append(o)
                if not known(o) and not (o["k"] == ["C", 901] and o["f"] == "v"):
                    return False
        if not all(known(p) for i in self.injects for p in i["params"]):
            return False
        for o in asked:
            if o["k"] == ["C", 901]:
                o["f"], o["k"] = "m", ["C", 900]
        return True

    def superseded(self) -> None:
        """What is registered again before anything is used may ask for any lock first: the last one counts."""
        seen: set[Any] = set()
        for r in reversed(self.setup):
            if r["o"] in ("reg", "open"):
                key = (r["tmpl"], repr(r["pat"])) if r["o"] == "open" else self.tup(r["k"])
                if key in seen and r["kind"] != "inst" and self.rng.random() < 0.5:
                    r["lk"] = self.rng.choice(["none", "none", "async", "thread"])
                seen.add(key)
        if not self.p("p_before"):
            return
        # something else stood for a service, with other options, and was decorated already
        at = [i for i, r in enumerate(self.setup) if r["o"] in ("reg", "open") and r["kind"] != "inst"]
        if not at:
            return
        i = self.rng.choice(at)
        r = self.setup[i]
        self.nreg += 1
        other = {x: r[x] for x in ("o", "k", "tmpl", "pat", "s") if x in r}
        other |= {"i": self.nreg, "kind": "factory", "deps": [], "lk": self.rng.choice(["none", "none", "async", "thread"])}
        if self.rng.random() < 0.5:
            other["l"] = self.rng.choice("ST")
        if r["o"] == "reg":
            early = [d for d in self.setup[i:] if d["o"] == "deco" and d["k"] == r["k"]]
        else:
            early = [d for d in self.setup[i:] if d["o"] == "odeco" and d["tmpl"] == r["tmpl"] and d.get("pat") == r["pat"]]
        early = early[: self.rng.randint(0, len(early))]
        rest = [x for x in self.setup[i:] if not any(x is e for e in early)]
        self.setup[i:] = [other, *early, *rest]

    def spec(self, container: dict[str, Any], prog: list[Any], *, loops: int = 0, cancels: int = 0, end: str | None = None) -> dict[str, Any]:
        rng = self.rng
        if self.cfg["mode"] == "a" and (self.cfg["p_exec"] or self.injects):
            # pool threads next to the loop (or threads started by synchronous injected functions): the documented setting is thread locks for the sync services
            for r in [*self.allregs, *self.opens]:
                if r["o"] in ("reg", "open") and r["kind"] != "inst" and "lk" not in r and not (self.asynchronous(r) and (r["o"] == "reg" or self.may_await(r))):
                    r["lk"] = "thread"
        solo = rng.random() < self.cfg.get("solo", 0.12) and not (cancels and _has(prog, "exec"))
        if solo:
            # one actor at a time: nothing needs a lock, and every service still is built once per owner
            sequential(prog)
            container["lock"] = rng.choice(["none", "none", "thread", "async", "auto"])
            for r in [*self.allregs, *self.opens]:
                if r["o"] in ("reg", "open") and r["kind"] != "inst" and rng.random() < 0.4:
                    r["lk"] = rng.choice(["none", "none", "thread", "async"])
        elif self.cfg.get("own_locks") and rng.random() < self.cfg["own_locks"] and not (
            any(r["o"] == "deco" for r in self.allregs) and any(r.get("kind") == "inst" for r in self.allregs)
        ):
            # nothing locked by default, every registration asks for its lock itself
            container["lock"] = "none"
            for r in [*self.allregs, *self.opens]:
                if r["o"] in ("reg", "open") and r["kind"] != "inst" and "lk" not in r:
                    r["lk"] = "async" if self.cfg["mode"] == "a" else "thread"
        for r in [*self.allregs, *self.opens]:
            if r["o"] in ("reg", "open") and r["kind"] not in ("inst", "cls") and not r.get("cms") and self.p("p_iw"):
                self.wrap(r)
        if self.p("p_tree"):
            container["tree"] = _tree(rng)
        if self.opens and rng.random() < 0.35:
            pats: dict[str, set[Any]] = {}
            for r in _ops([self.setup, self.allregs, self.opens, prog]):
                if r["o"] == "open":
                    pats.setdefault(r["tmpl"], set()).add(patof(r))
            # the other arguments of a dict or a Callable make a pattern more specific
            plain = any(len(x) > 1 and "'Gi'" in str(x) for x in pats.values())
            forms = ["set"] if plain else ["set", "dict", "fun"]
            if not _has([self.setup, self.allregs, prog], "odeco"):
                forms += ["t" + f for f in forms]
            container["gi"] = rng.choice(forms)
        if self.p("p_notes"):
            container["notes"] = 1
        if self.p("p_mix"):
            self.setup = mixed(self.setup, rng)
        if not solo:
            self.superseded()
        trim(prog, rng, rng.choice([30, 60, 60, 120]))
        if rng.random() < self.cfg.get("p_root", 0.1):
            rooted([*self.setup, *self.allregs, *self.opens], prog, self.injects, container, rng)
        if rng.random() < self.cfg.get("p_life", 0.1):
            # unless told otherwise, everything is built anew
            container["life"] = "T"
            for r in _ops([self.setup, self.allregs, self.opens, prog]):
                if r["o"] in ("reg", "open") and r["kind"] != "inst":
                    if "l" not in r:
                        r["l"] = "S"
                    elif r["l"] == "T" and rng.random() < 0.6:
                        del r["l"]
        if rng.random() < self.cfg.get("p_wiring", 0.25) and self.known_before_use(prog):
            # a container that would register what it does not know; here it knows everything in time
            container["strict"] = False
        if any(r.get("sty") == "pyd" or "w" in (r.get("sh") or "") for r in [*self.allregs, *self.opens]):  # models check what they are given, and not everything can be unpacked
            for r in self.allregs:
                r.pop("iv", None)
                r.pop("nv", None)
        s: dict[str, Any] = {"container": container, "setup": self.setup}
        if solo:
            s["solo"] = 1
        if self.injects:
            s["injects"] = [{k: v for k, v in i.items() if k != "_lvl"} for i in self.injects]
        if self.cfg["mode"] == "a":
            s["loop"] = [prog] if not loops else prog
            if cancels:
                s["cancels"] = [[rng.randint(2, 30), rng.randrange(4)] for _ in range(rng.randint(1, cancels))]
            s["end"] = end or "aclose"
        else:
            s["main"] = prog
            if not solo and rng.random() < self.cfg.get("p_loops", 0.15) and not any(self.asynchronous(r) for r in [*self.allregs, *self.opens] if r["o"] in ("reg", "open")):
                # some of the threads serve an event loop of their own
                for o in _ops(prog):
                    if o["o"] == "par":
                        o["loops"] = [int(rng.random() < 0.5) for _ in o["t"]]
            if self.cfg["p_late"] and not solo and rng.random() < 0.25:
                # a scope that was closed long ago is closed again by two threads
                prog.append({"o": "par", "t": [[{"o": "late", "n": 0}], [{"o": "late", "n": 0}, {"o": "late", "n": 1}], [{"o": "late", "n": 1}]]})
            s["end"] = end or "close"
        if s["end"] != "none" and rng.random() < self.cfg.get("p_rend", 0.3):
            s["rend"] = {"how": rng.choice(["with", "close"])}
            if rng.random() < 0.5:
                s["rend"]["exc"] = rng.choice(["E", "B", "K"])
            if rng.random() < 0.4:
                s["rend"]["again"] = rng.choice([1, 2])
            if rng.random() < 0.5:
                s["rend"]["comp"] = 1
        return s


def _tree(rng: random.Random) -> dict[str, Any]:
    """Other scopes: which ones are skippable, their numbers, more of them in between, and how they are declared."""
    tree: dict[str, Any] = {
        "skip": [n for n in LV[1:] if rng.random() < 0.35],
        "nums": rng.choice([[0, 1], [1, 1], [10, 10], [0, 3, 1], [7, 2, 50]]),
    }
    if rng.random() < 0.5:
        tree["extra"] = [[x, int(rng.random() < 0.5)] for x in (1.5, 2.5, 3.5, 4.5) if rng.random() < 0.4]
    if rng.random() < 0.3:
        tree["rev"] = 1
    return tree


def _lst(k: Any) -> Any:
    return [_lst(x) for x in k] if isinstance(k, (list, tuple)) else k


def mixed(setup: list[dict[str, Any]], rng: random.Random) -> list[dict[str, Any]]:
    """The same registrations in another order, but everything about one service in its own order."""
    groups: dict[Any, list[dict[str, Any]]] = {}
    for r in setup:
        groups.setdefault((r["k"][0] in "OG", r["k"][1]), []).append(r)
    order = [g for g, rs in groups.items() for _ in rs]
    rng.shuffle(order)
    left = {g: iter(rs) for g, rs in groups.items()}
    return [next(left[g]) for g in order]


def _sites(prog: list[Any], out: list[tuple[list[Any], int]]) -> int:
    n = 0
    for i, o in enumerate(prog):
        if isinstance(o, list):
            n += _sites(o, out)
            continue
        out.append((prog, i))
        n += 1 + _sites(o.get("body", []), out)
        for b in o.get("t", ()):
            n += _sites(b, out)
    return n


def _has(prog: list[Any], op: str) -> bool:
    return any(_has(o, op) if isinstance(o, list) else o["o"] == op or _has(o.get("body", []), op) or _has(o.get("t", []), op) for o in prog)


def _ops(prog: list[Any]) -> list[dict[str, Any]]:
    """Every operation and registration in there, each once."""
    seen: dict[int, dict[str, Any]] = {}

    def walk(o: Any) -> None:
        if isinstance(o, list):
            for x in o:
                walk(x)
        elif id(o) not in seen:
            seen[id(o)] = o
            walk(o.get("body", []))
            walk(o.get("t", []))

    walk(prog)
    return list(seen.values())


def rooted(regs: list[Any], prog: list[Any], injects: list[Any], container: dict[str, Any], rng: random.Random) -> None:
    """Let the container start at another scope than the outermost one, if the program can be carried over."""
    every = _ops([regs, prog])
    used = {x for o in every for x in (o.get("lvl"), o.get("s")) if x} | {i["scope"] for i in injects if i.get("scope")}
    into = {o["lvl"] for o in every if o.get("lvl")}
    if into & {"APP", "SESSION"}:
        return
    if "STEP" not in used and rng.random() < 0.5 and not any(o["o"] == "bad" for o in every):
        root, to = "REQUEST", {"APP": "REQUEST", "SESSION": "REQUEST", "REQUEST": "ACTION", "ACTION": "STEP"}
    else:
        root, to = "SESSION", {"APP": "SESSION"}
    container["root"] = root
    for o in every:
        for x in ("lvl", "s"):
            if o.get(x):
                o[x] = to.get(o[x], o[x])
        if o.get("s") == root and o["o"] in ("reg", "open") and rng.random() < 0.4:
            del o["s"]
    for i in injects:
        if i.get("scope"):
            i["scope"] = to.get(i["scope"], i["scope"])


def sequential(prog: list[Any]) -> None:
    """Let the branches of the program run one after another in one thread or task."""
    for o in prog:
        if isinstance(o, list):
            sequential(o)
            continue
        if o["o"] == "par":
            o["t"] = [[x for b in o["t"] for x in b]]
        sequential(o.get("t", []))
        sequential(o.get("body", []))


def trim(prog: list[Any], rng: random.Random, limit: int) -> None:
    """Drop random operations until the program is small enough to leave time for many runs."""
    while True:
        sites: list[tuple[list[Any], int]] = []
        n = _sites(prog, sites)
        if n <= limit:
            return
        small = []
        for lst, i in rng.sample(sites, 6):
            small.append((_sites([lst[i]], []), lst, i))
        size, lst, i = min(small, key=lambda x: abs(x[0] - (n - limit)))
        del lst[i]


def thread_strategy(rng: random.Random) -> dict[str, Any]:
    r = rng.random()
    if r < 0.4:
        return {"kind": "pct", "depth": rng.randint(1, 4), "horizon": rng.choice([50, 150, 400, 1000])}
    if r < 0.75:
        return {"kind": "rand", "gap": rng.choice([8, 20, 50, 120])}
    if r < 0.9:
        return {"kind": "store", "gap": rng.choice([2, 4, 10, 30]), "coarse_p": rng.choice([0.05, 0.2, 0.35])}
    return {"kind": "coarse", "coarse_p": rng.choice([0.3, 0.6])}


def task_strategy(rng: random.Random) -> dict[str, Any]:
    return {"kind": "coarse", "coarse_p": 0.3}


def wired(svcs: dict[int, Any], regs: list[Any], strict: bool) -> dict[int, dict[str, Any]]:
    """What a container knows of classes after these registrations, dependencies wired along the way included (P19)."""
    table: dict[int, dict[str, Any]] = {}

    def along(k: int, r: dict[str, Any]) -> None:
        for d in svcs[k]["deps"]:
            j = d["k"]
            if d["f"] == "v" and j in svcs and j not in table:
                table[j] = {"k": j, "kind": "auto", "req": r.get("req"), "life": r.get("life", "S")}
                along(j, table[j])

    for r in regs:
        if r["k"] in svcs:
            table[r["k"]] = r
            if not strict and r["kind"] != "inst":
                along(r["k"], r)
    return table


def wirable(svcs: dict[int, Any], table: dict[int, dict[str, Any]], k: int, strict: bool, level: bool | None = None) -> bool:
    """Can ``k`` be built: everything it needs is there and of no deeper scope?"""
    r = table.get(k)
    if r is None and strict:
        return False
    if r is not None and r["kind"] == "inst":
        return True
    here = bool(r and r.get("req"))
    if level is not None and here and not level:
        return False
    for d in svcs[k]["deps"]:
        if d["f"] == "m" and d["k"] not in table and strict:
            continue
        if d["k"] in svcs and not wirable(svcs, table, d["k"], strict, here):
            return False
    return True
