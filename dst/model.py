"""Executable reference model of the container's observable behaviour.

Nothing here looks inside diwire.  The model knows the registrations (as the workload made them), the
scope tree (as the workload opened it) and what every provider call returned; from these it decides
which object each request had to return.
"""

from __future__ import annotations

from typing import Any, Iterator

LEVEL = {"APP": 1, "SESSION": 2, "REQUEST": 3, "ACTION": 4, "STEP": 5}
NAME = {v: k for k, v in LEVEL.items()}
SKIPPABLE = {2}
LEVELS = (1, 2, 3, 4, 5)


def hk(key: Any) -> Any:
    """Hashable form of a JSON key."""
    return tuple(hk(x) for x in key) if isinstance(key, (list, tuple)) else key


# -- generic templates ------------------------------------------------------------------------------
TVARS = ("T", "U", "S", "Ti", "Tc", "Tu", "Tf")
ALLOWED = {"Ti": ("int",), "Tc": ("int", "str"), "Tu": ("int", "str", "uni"), "Tf": ("int",)}  # bounds and constraints


def two(name: str) -> bool:
    """Generic class of two parameters."""
    return name[:2] in ("Gp", "Gk")


def patof(o: dict[str, Any]) -> tuple[Any, ...]:
    """The arguments of the template that a registration provides; strings are type variables or plain types."""
    pat = o.get("pat")
    if pat is None:
        return ("T", "U") if two(o["tmpl"]) else ("T",)
    if isinstance(pat, str):
        return (("G", pat, "T"),)
    return hk(pat)


def tvars(node: Any) -> list[str]:
    if isinstance(node, str):
        return [node] if node in TVARS else []
    if not isinstance(node, (list, tuple)):
        return []
    out: list[str] = []
    for x in node:
        out += [v for v in tvars(x) if v not in out]
    return out


def unify(pat: Any, arg: Any, m: dict[str, Any]) -> bool:
    if isinstance(pat, str) and pat in TVARS:
        return bool(m.setdefault(pat, arg) == arg)
    if isinstance(pat, tuple) and pat[0] == "G":
        return (
            isinstance(arg, tuple)
            and arg[:2] == pat[:2]
            and len(arg) == len(pat)
            and all(unify(p, a, m) for p, a in zip(pat[2:], arg[2:]))
        )
    return bool(pat == arg)


def score(pat: Any) -> int:
    if isinstance(pat, str) and pat in TVARS:
        return 0
    if isinstance(pat, tuple) and pat[0] == "G":
        return 1 + sum(score(x) for x in pat[2:])
    return 2


def subst(node: Any, m: dict[str, Any]) -> Any:
    if isinstance(node, str):
        return m.get(node, node) if node in TVARS else node
    if isinstance(node, (list, tuple)) and node and node[0] == "G":
        return ("G", node[1], *(subst(x, m) for x in node[2:]))
    return hk(node)


def best_open(opens: Any, key: Any) -> tuple[dict[str, Any] | None, dict[str, Any], bool]:
    """Template that serves ``key``: the most specific one, of several the latest; False if arguments are refused."""
    best: Any = None
    refused = False
    for n, o in enumerate(opens):
        if o["tmpl"] != key[1]:
            continue
        pat = patof(o)
        m: dict[str, Any] = {}
        if len(pat) != len(key) - 2 or not all(unify(p, a, m) for p, a in zip(pat, key[2:])):
            continue
        if any(m[v] not in ok for v, ok in ALLOWED.items() if v in m):
            refused = True
            continue
        rank = (sum(score(p) for p in pat), o.get("order", n))
        if best is None or rank > best[0]:
            best = (rank, o, m)
    if best is None:
        return None, {}, refused
    return best[1], best[2], False


class Dep:
    __slots__ = ("form", "key", "direct")

    def __init__(self, form: str, key: Any, direct: "Binding | None" = None) -> None:
        self.form = form
        self.key = key
        self.direct = direct


class Binding:
    """What is registered for one key (one link of a decorator chain, one closed generic, ...)."""

    __slots__ = ("rid", "pid", "key", "level", "scoped", "kind", "deps", "is_async", "value", "targ", "order")

    def __init__(
        self,
        *,
        rid: Any,
        pid: Any,
        key: Any,
        level: int,
        scoped: bool,
        kind: str,
        deps: list[Dep],
        is_async: bool,
        value: Any = None,
        targ: Any = None,
        order: int = 0,
    ) -> None:
        self.rid = rid
        self.pid = pid
        self.key = key
        self.level = level
        self.scoped = scoped
        self.kind = kind
        self.deps = deps
        self.is_async = is_async
        self.value = value
        self.targ = targ
        self.order = order

    @property
    def resource(self) -> bool:
        return self.kind in ("gen", "cm", "agen", "acm")


class Registry:
    """One version of the registrations."""

    def __init__(self) -> None:
        self.bind: dict[Any, Binding] = {}
        self.opens: list[dict[str, Any]] = []
        self.closed: dict[Any, Binding | None] = {}
        self._level: dict[Any, int] = {}
        self._async: dict[Any, bool] = {}
        self.pidx: dict[Any, Binding] | None = None

    def copy(self) -> "Registry":
        r = Registry()
        r.bind = dict(self.bind)
        r.opens = list(self.opens)
        return r

    def get(self, key: Any) -> Binding | None:
        b = self.bind.get(key)
        if b is None and key[0] == "G" and self.opens:
            if key not in self.closed:
                self.closed[key] = self._close(key)
            b = self.closed[key]
        return b

    def refuses(self, key: Any) -> bool:
        """Only templates whose type variables do not allow these arguments match."""
        return bool(key[0] == "G" and self.get(key) is None and best_open(self.opens, key)[2])

    def _close(self, key: Any) -> Binding | None:
        o, sub, _ = best_open(self.opens, key)
        if o is None:
            return None

        def closed(ds: list[dict[str, Any]]) -> list[Dep]:
            deps = []
            for d in ds:
                if d["f"] == "t":
                    deps.append(Dep("t", sub[d.get("tv", "T")]))
                else:
                    deps.append(Dep(d["f"], subst(d["k"], sub)))
            return deps

        cur = Binding(
            rid=("og", o["i"], key),
            pid=("O", o["i"]),
            key=key,
            level=o["level"],
            scoped=o["scoped"],
            kind=o["kind"],
            deps=closed(o["deps"]),
            is_async=o["kind"] in ("afactory", "agen", "acm"),
            targ=sub,
        )
        for layer in o.get("layers", ()):
            deps = closed(layer["deps"])
            deps.insert(layer["at"], Dep("v", key, cur))
            cur = Binding(
                rid=("og", ("D", layer["i"], o["i"]), key),
                pid=("OD", layer["i"]),
                key=key,
                level=o["level"],
                scoped=o["scoped"],
                kind=layer["kind"],
                deps=deps,
                is_async=layer["kind"] == "afactory",
                targ=sub,
            )
        return cur

    def all_of(self, cls: int) -> list[Binding]:
        hits = [
            b
            for k, b in self.bind.items()
            if (k[0] == "C" and k[1] == cls) or (k[0] == "X" and k[1] == cls)
        ]
        hits.sort(key=lambda b: b.order)
        return hits

    def dep_bindings(self, b: Binding) -> Iterator[Binding]:
        for d in b.deps:
            if d.direct is not None:
                yield d.direct
            elif d.form in ("v", "m"):
                x = self.get(d.key)
                if x is not None:
                    yield x
            elif d.form == "a":
                yield from self.all_of(d.key[1])

    def max_level(self, b: Binding) -> int:
        m = self._level.get(b.rid)
        if m is None:
            self._level[b.rid] = b.level
            m = b.level
            for x in self.dep_bindings(b):
                m = max(m, self.max_level(x))
            self._level[b.rid] = m
        return m

    def requires_async(self, b: Binding) -> bool:
        v = self._async.get(b.rid)
        if v is None:
            self._async[b.rid] = b.is_async
            v = b.is_async or any(self.requires_async(x) for x in self.dep_bindings(b))
            self._async[b.rid] = v
        return v


class Node:
    """One opened scope (or the root)."""

    __slots__ = (
        "nid", "level", "parent", "ctx", "reg", "root", "close0", "close1", "res", "owned", "open",
        "memo", "exit_exc", "exit_sync", "inj",
    )
    _ids = 0

    def __init__(self, nid: int, level: int, parent: "Node | None", ctx: dict[Any, Any] | None, reg: Registry) -> None:
        self.nid = nid
        self.level = level
        self.parent = parent
        self.ctx = ctx
        self.reg = reg
        self.root = self if parent is None else parent.root
        self.close0: int | None = None
        self.close1: int | None = None
        self.inj: Any = None
        self.res: list[Any] = []
        self.owned: list[Node] = []
        self.open = True
        self.memo: dict[Any, Any] = {}
        self.exit_exc: BaseException | None = None
        self.exit_sync = False

    def owner(self, level: int) -> "Node | None":
        n: Node | None = self
        while n is not None:
            if n.level == level:
                return n
            n = n.parent
        return None

    def lookup_ctx(self, key: Any) -> tuple[bool, Any]:
        n: Node | None = self
        while n is not None:
            if n.ctx is not None and key in n.ctx:
                return True, n.ctx[key]
            n = n.parent
        return False, None

    def is_ancestor_of(self, other: "Node") -> bool:
        n: Node | None = other
        while n is not None:
            if n is self:
                return True
            n = n.parent
        return False


def transition(level: float, target: float | None, levels: Any = LEVELS, skip: Any = SKIPPABLE) -> list[Any] | None:
    """Levels that entering ``target`` (None: default) from ``level`` creates; None: refused."""
    deeper = [x for x in levels if x > level]
    if target is None:
        if not deeper:
            return None
        target = next((x for x in deeper if x not in skip), deeper[0])
    if target == level:
        return []
    if target < level:
        return None
    path = []
    cur = level
    while cur < target:
        deeper = [x for x in levels if x > cur]
        imm = deeper[0]
        dflt = next((x for x in deeper if x not in skip), imm)
        nxt = dflt if imm != target and dflt <= target else imm
        path.append(nxt)
        cur = nxt
    return path
