"""Workloads whose services are wired on first use (P16).

The reference is the graph as if every class had been registered up front.  What may differ from it
is stated here and nowhere else:

* extending the graph starts a new root, so instances owned by the root may change across an
  extension (recorded as a known finding); within a stretch without extensions they may not;
* scopes opened before a class became known do not know it.
"""

from __future__ import annotations

import abc
from typing import Any

from pydantic_settings import BaseSettings

from diwire import (
    Container,
    DependencyRegistrationPolicy,
    Injected,
    Lifetime,
    MissingPolicy,
    ResolverContext,
)

from dst import kernel as K
from dst import world as W
from dst.execute import Exec
from dst.model import LEVEL, NAME, Binding, Dep, Node, Registry, hk
from dst.world import BARE, LOCKS, SCOPES, Build, Env, Obj, Op, World, dx, model_class, provider_class, template

NotReg = dx.DIWireDependencyNotRegisteredError
Mismatch = dx.DIWireScopeMismatchError
Async = dx.DIWireAsyncDependencyInSyncContextError
POL = {"rec": MissingPolicy.REGISTER_RECURSIVE, "root": MissingPolicy.REGISTER_ROOT, "err": MissingPolicy.ERROR}


class Turn:
    """A class that two containers wire: its constructor acts for the one whose request runs."""

    def __init__(self, share: Any, i: int, run: Any) -> None:
        self.share, self.i, self.run = share, i, run

    def __getattr__(self, name: str) -> Any:
        op = W.CUR.get()
        w = op.env.w if op is not None else None
        return getattr(w.runners[self.i] if w in self.share.autos else self.run, name)


class AutoWorld(World):
    def __init__(self, spec: dict[str, Any], share: Any = None, nth: int = 0) -> None:
        self.share = share
        super().__init__(spec, None, nth)

    def _twin(self) -> None:
        """Use the classes of the other container, if they are the same ones."""
        self.made = False
        if self.share is None:
            return
        form = [[r["i"], r.get("kind"), r.get("abs"), r.get("sty"), r.get("sh"), r.get("mis"), r.get("str"), r.get("hard"), bool(r.get("reg")), r.get("tempt"),
                 [[d["f"], d["k"]] for d in r["deps"]]] for r in self.specs.values()]
        if not self.share.autos:
            self.share.form = form
        elif self.share.form != form:
            self.share = None
            return
        else:
            self.made = True
            self.stats["shared_classes"] += 1
        self.types = self.share.types
        self.share.autos.append(self)

    def _build_static(self) -> None:
        c = self.spec["container"]
        self.root_level = LEVEL[c.get("root", "APP")]
        self.strict = False
        self.use_ctx = c.get("use_ctx", False)
        self.policy = c.get("missing", "rec")
        self.deppol = c.get("dep", "rec")
        self.default_scoped = c.get("life") != "T"
        self._scope_tree(c.get("tree"))
        self.rctx = ResolverContext()
        ids = {r["i"] for r in self.spec["setup"]}
        self.specs = {r["i"]: dict(r, deps=[d for d in r.get("deps", ()) if d["k"] in ids]) for r in self.spec["setup"]}
        self.rooted: set[int] = set()  # requested so that only the class itself is wired
        self.known: set[int] = set()
        self.extending: list[list[Any]] = []  # [what, begin, end]: requests that may have extended the graph
        self.seen: dict[Any, list[tuple[Any, int, int, Any, str]]] = {}
        self.walked: set[int] = set()  # scope-owned objects whose contents have been judged
        self.poisoned = False
        self.opened: dict[int, tuple[int, int, set[int]]] = {}  # scope -> when it was opened, what was known then
        self.table: dict[int, tuple[int, bool]] = {}
        self.order = [i for i in self.spec.get("order", sorted(self.specs)) if i in self.specs and self.specs[i].get("reg")]
        for i in self.order:
            self._tabulate(i, self.specs[i])
        for i, r in self.specs.items():
            # a handle to a class of a deeper scope is refused when the graph is compiled
            r["deps"] = [dict(d, f="v") if d["f"] in ("p", "ap") and self.auto_level(d["k"])[0] > self.auto_level(i)[0] else d for d in r["deps"]]
        self._twin()
        for i in self.specs:
            self._make_class(i)
        self.lazy: list[Any] = [self._make_injected(x) for x in self.spec.get("injects", ())]
        self.container = Container(
            root_scope=self.scopes[NAME[self.root_level]],
            default_lifetime=Lifetime.SCOPED if self.default_scoped else Lifetime.TRANSIENT,
            lock_mode=LOCKS[c.get("lock", "auto")],
            missing_policy=POL[self.policy],
            dependency_registration_policy=(
                DependencyRegistrationPolicy.REGISTER_RECURSIVE if self.deppol == "rec" else DependencyRegistrationPolicy.IGNORE
            ),
            resolver_context=self.rctx,
            use_resolver_context=self.use_ctx,
        )
        for i in self.order:
            self._add(i, self.specs[i])
        self.initial = set(self.table)
        self.known = set(self.table)
        for i, r in self.specs.items():
            self._bind(i, r)
        for i in self.initial:
            self.poison(i, "rec" if self.deppol == "rec" else "ign")
        if c.get("precompile") and not self.poisoned:
            self.container.compile()

    def settings(self, i: int) -> bool:
        return i in self.specs and self.specs[i].get("kind") == "settings"

    def T(self, i: int) -> type:
        if i in self.types or not self.settings(i):
            return super().T(i)

        turn = Turn(self.share, i, self.runners.get(i)) if self.share is not None else None

        def __init__(this: Any, *args: Any, **values: Any) -> None:
            BaseSettings.__init__(this)
            run = turn if turn is not None else self.runners[i]
            if args or values:
                run.w.violate("wrong", f"settings class T{i} was built from {args!r} {values!r}")
            run.init(this, ())

        # fields of types that could be wired, and must not be
        fields = [f"d{j}" for j in range(len(self.specs[i]["tempt"]))]
        t = self.types[i] = model_class(BaseSettings, type(f"T{i}", (Obj,), {}), {
            "__init__": __init__,
            "model_config": {"arbitrary_types_allowed": True, "validate_default": False},
            "__annotations__": {f: self.T(k) for f, k in zip(fields, self.specs[i]["tempt"])},
            **dict.fromkeys(fields, None),
        })
        return t

    def auto_level(self, i: int) -> tuple[int, bool]:
        if self.settings(i):
            return self.root_level, True
        return self.table.get(i, (self.root_level, self.default_scoped))

    def _make_class(self, i: int) -> None:
        r = self.specs[i]
        t = self.T(i)
        if r.get("abs") and self.made:
            return
        if r.get("abs"):
            def missing(self: Any) -> None: ...

            ns = {"todo": abc.abstractmethod(missing)}
            self.types[i] = abc.ABCMeta(f"T{i}", (Obj,), ns)  # type: ignore[assignment]
            return
        run: Any = self._runner(i, r.get("kind", "cls"), t, r)
        if self.settings(i) or self.made and r.get("kind", "cls") == "cls":
            return
        if self.share is not None and r.get("kind", "cls") == "cls":
            run = Turn(self.share, i, run)
        deps = r.get("deps", [])
        for d in deps:
            if d["k"] not in self.types and d["k"] in self.specs:
                self._make_class_later(d["k"])
        ann = [self.dep_annotation(d["f"], ("C", d["k"])) for d in deps]
        kind = r.get("kind", "cls")
        shape = r.get("sh") or "n" * len(deps)
        if kind == "cls":
            provider_class(t, r.get("sty"), shape, ann, run, r)
        else:
            f = template(kind, shape)(ann, run)
            if r.get("hard"):
                def bare(self: Any, value): ...  # type: ignore[no-untyped-def]  # noqa: ANN001

                t.__init__ = bare  # type: ignore[method-assign]
            f.__qualname__ = f.__name__ = f"p{i}"
            if kind in BARE:
                f.__annotations__["return"] = BARE[kind]
            r["_f"] = f

    def _make_class_later(self, i: int) -> None:
        if self.specs[i].get("abs"):
            self._make_class(i)
        else:
            self.T(i)

    def _add(self, i: int, r: dict[str, Any]) -> None:
        kw = self._scope_args(r["reg"])
        kind = r.get("kind", "cls")
        if kind == "cls":
            self.container.add(self.T(i), **kw)
        else:
            self.container.add_factory(r.pop("_f"), provides=self.T(i), **kw)

    def _tabulate(self, i: int, r: dict[str, Any]) -> None:
        """Where a registration and the classes it brings along live."""
        level = LEVEL[r["reg"]["s"]] if r["reg"].get("s") else self.root_level
        scoped = self.default_scoped if r["reg"].get("l") is None else r["reg"]["l"] == "S"

        def put(j: int, top: bool) -> None:
            x = self.specs.get(j)
            if x is None or x.get("abs") or (not top and (j in self.table or x.get("kind", "cls") not in ("cls", "settings"))):
                return
            if self.settings(j):
                self.table[j] = (self.root_level, True)
                return
            self.table[j] = (level, scoped)
            if self.deppol == "rec" or not top:
                for d in x.get("deps", ()):
                    if d["f"] != "m":
                        put(d["k"], False)

        put(i, True)

    def _bind(self, i: int, r: dict[str, Any]) -> None:
        kind = r.get("kind", "cls")
        if r.get("abs") or (kind not in ("cls", "settings") and not r.get("reg")):
            return
        level, scoped = self.auto_level(i)
        self.registry.bind[("C", i)] = Binding(
            rid=("w", i), pid=i, key=("C", i), level=level, scoped=scoped, kind=kind,
            deps=[Dep(d["f"], ("C", d["k"])) for d in r.get("deps", ())], is_async=kind == "afactory",
        )

    def _make_injected(self, inj: dict[str, Any]) -> Any:
        keys = inj["keys"]
        ns: dict[str, Any] = {"W": self, "INJ": inj}
        sig = ", ".join(f"d{j}: A[{j}]" for j in range(len(keys)))
        names = "(" + "".join(f"d{j}, " for j in range(len(keys))) + ")"
        exec(compile(f"def make(A):\n    def injected({sig}):\n        return {names}\n    return injected\n",
                     "<workload injected>", "exec", dont_inherit=True), ns)
        ann = [Injected[self.T(i)] for i in keys]
        return self.rctx.inject(ns["make"](ann))

    # -- bookkeeping --------------------------------------------------------------------------------
    def note_build(self, b: Build, deps: tuple[Any, ...]) -> None:
        pass  # owners are judged on the values that requests return

    def closure(self, i: int, forms: str = "v p ap") -> set[int]:
        """Classes a class needs (of optional ones nothing is wired)."""
        out: set[int] = set()
        ok = forms.split()
        todo = [i]
        while todo:
            j = todo.pop()
            if j in out or j not in self.specs:
                continue
            out.add(j)
            todo += [d["k"] for d in self.specs[j].get("deps", ()) if d["f"] in ok]
        return out

    def optional_unwired(self, i: int) -> bool:
        return any(d["f"] == "m" and d["k"] not in self.initial for j in self.closure(i, "v m p ap") for d in self.specs[j].get("deps", ()))

    def reaches_unwired(self, i: int) -> bool:
        return any(j not in self.initial for j in self.closure(i))

    def ext_between(self, a: int, b: int) -> set[Any]:
        return {x[0] for x in self.extending if x[1] <= b and (x[2] is None or x[2] >= a)}

    def poison(self, i: int, policy: str) -> None:
        """Known finding: wiring a class that turns out to be unwirable leaves it in the graph, and the
        whole graph is unusable from then on."""
        if policy == "err" or self.poisoned:
            return
        clo = self.closure(i, "v m p ap")
        if clo - self.initial and any(self.specs[j].get("abs") or ("C", j) not in self.registry.bind for j in clo):
            self.poisoned = True
        elif policy in ("root", "ign") and clo - self.known:
            self.poisoned = True

    # -- oracle ----------------------------------------------------------------------------------------
    def check_auto(self, form: str, i: int, value: Any, node: Node, era: tuple[int, int], req: Any, path: str, local: dict[Any, Any], wired: bool = True) -> None:
        if form in ("p", "ap"):
            if not callable(value):
                self.violate("wrong", f"{path}: handle is {value!r}")
            else:
                self.handles.append((value, form, i, node, wired))
            return
        b = self.registry.bind.get(("C", i))
        if form == "m" and value is None and (b is None or i not in self.initial):
            return
        if b is None:
            self.violate("missing-error", f"{path}: {value!r} returned for a class that cannot be constructed")
            return
        if not isinstance(value, Obj):
            self.violate("wrong", f"{path}: {value!r} is not a T{i}")
            return
        build = self.by_uid.get(value.uid)
        if build is None or not build.ok or not value.done or build.obj is not value:
            self.violate("half-built", f"{path}: {value!r} was never completely constructed")
            return
        if value.reg != b.pid:
            self.violate("wrong", f"{path}: {value!r} returned for T{i}")
            return
        owner = node.owner(b.level)
        if owner is None:
            self.violate("scope", f"{path}: {value!r} obtained in {self.show(node)} without an open {NAME[b.level]} scope")
            return
        if b.scoped:
            root = owner.level == self.root_level
            k = (b.rid, "root" if root else owner.nid)
            got = local.setdefault(k, value)
            if got is not value:
                self.violate("ident", f"{path}: one answer contains both {value!r} and {got!r} of {self.show(owner)}")
                return
            for other, a0, a1, areq, apath in self.seen.get(k, ()):
                if other is value:
                    continue
                ext = self.ext_between(min(a0, era[0]), max(a1, era[1])) if root else set()
                if not ext or (req is not None and areq == req and ext == {req}):
                    self.violate("ident", f"{path}: {value!r} of {self.show(owner)}, but {other!r} at {apath}" + (
                        f" (only {req} was wired meanwhile)" if ext else " and nothing was wired in between"))
                    return
            self.seen.setdefault(k, []).append((value, era[0], era[1], req, path))
            other_k = self.scoped_owner.setdefault(value.uid, k)
            if other_k != k:
                self.violate("cross", f"{path}: {value!r} of {other_k} handed out in {self.show(owner)}")
                return
            if value.uid in self.walked:
                return
            self.walked.add(value.uid)
        else:
            if value.uid in self.seen_transient:
                self.violate("stale", f"{path}: {value!r} of transient T{i} already used at {self.seen_transient[value.uid]}")
                return
            self.seen_transient[value.uid] = path
        at = self.eval_node(b, node, owner)
        if len(value.deps) != len(b.deps):
            self.violate("wrong", f"{path}: {value!r} got {len(value.deps)} arguments instead of {len(b.deps)}")
            return
        for j, d in enumerate(b.deps):
            self.check_auto(d.form, d.key[1], value.deps[f"d{j}"], at, era, req, f"{path}.d{j}", local)


class AutoExec(Exec):
    w: AutoWorld

    def begin_ext(self, what: Any, new: bool, op: Op) -> list[Any] | None:
        if not new:
            return None
        x = [what, op.seq0, None]
        self.w.extending.append(x)
        self.w.stats["extending_requests"] += 1
        return x

    async def op_r(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        form, i = o["f"], o["k"]
        if i not in w.specs:
            return
        sync = env.mode != "a" or o.get("m") == "s"
        on = o.get("on", "L")
        target, node = self.where(env, on)
        assert node is not None
        via_container = target is w.container
        # a request through the container with an active scope goes to that scope first
        scope = node if node.level != w.root_level else None
        pol = o.get("pol") if via_container else None
        policy = pol or w.policy
        was_known = set(w.known)
        if via_container and policy == "root":
            w.rooted.add(i)
        w.poison(i, policy if via_container else "err")
        op = self.begin(env, node, f"{env.label}: {'resolve' if sync else 'aresolve'}({form} T{i}{' ' + pol if pol else ''}) on {on}={w.show(node)}", "r")
        new = via_container and policy != "err" and i not in w.known
        ext = self.begin_ext(i, new, op)
        dep = w.dep_annotation(form, ("C", i))
        kw = {"on_missing": POL[pol]} if pol else {}
        exc: BaseException | None = None
        value: Any = None
        try:
            value = target.resolve(dep, **kw) if sync else await target.aresolve(dep, **kw)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        if ext is not None:
            ext[2] = op.seq1
        wired = not isinstance(exc, NotReg)
        # what this request may end with
        must = self.refusals(form, i, node, sync)
        may: set[type] = set()
        if scope is not None:
            t0, t1, known_then = w.opened[scope.nid]
            if not (w.closure(i) <= known_then):
                may |= {NotReg}
                if via_container:
                    may |= self.refusals(form, i, w.root(), sync)
        else:
            known_then = was_known
            if not via_container and not (w.closure(i) <= was_known):
                may |= {NotReg}
        clo = w.closure(i, "v m p ap")
        if not (clo <= was_known) and (policy == "err" or w.deppol != "rec" or clo & w.rooted):
            may |= {NotReg}
        if w.poisoned or form in ("p", "ap") and ("C", i) not in w.registry.bind:
            may |= {NotReg}
        if exc is not None:
            w.stats["failed_requests"] += 1
            if not (any(exc is f for f in op.faults) or type(exc) in must | may or self.was_cancelled(env, op, exc)):
                self.bad_error(op, exc)
        else:
            hard = must - {Async}
            if hard and not (form == "m" and value is None) and not (scope is not None and may) and not w.optional_unwired(i):
                w.violate("missing-error", f"{op.what}: returned {value!r} instead of {'/'.join(sorted(x.__name__ for x in hard))}")
            else:
                at = node
                era = (op.seq0, op.seq1)
                if scope is not None:
                    era = (w.opened[scope.nid][0], w.opened[scope.nid][1])
                    if via_container and not (w.closure(i) <= known_then):
                        era = (w.opened[scope.nid][0], op.seq1)
                req = i if scope is None and via_container and new else None
                w.check_auto(form, i, value, at, era, req, op.what, {}, via_container and policy == "rec" and scope is None or w.closure(i) <= known_then)
        if via_container and policy != "err" and wired and form != "m" and scope is None:
            if policy == "rec" and w.deppol == "rec" and not (clo & w.rooted):
                w.known |= w.closure(i)
            elif exc is None and form == "v":
                w.known |= w.closure(i, "v")
        if exc is not None:
            await self.after_error(env, op, exc, o)

    def refusals(self, form: str, i: int, node: Node, sync: bool) -> set[type]:
        if form in ("p", "ap"):
            return set()  # judged when it is called
        out = self.w.errors(form, ("C", i), node, sync)
        return out

    async def op_h(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        usable = [h for h in w.handles if h[1] == "p" and h[3].open and h[3].close0 is None]
        if not usable:
            return
        fn, _, i, node, wired = usable[o["n"] % len(usable)]
        op = self.begin(env, node, f"{env.label}: handle for T{i} of {w.show(node)}", "h")
        exc: BaseException | None = None
        value: Any = None
        try:
            value = fn()
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        must = w.errors("v", ("C", i), node, True)
        if exc is not None:
            may = {NotReg} if w.poisoned or not wired or w.reaches_unwired(i) and (w.policy != "rec" or w.deppol != "rec" or w.rooted or node.level != w.root_level) else set()
            if not (any(exc is f for f in op.faults) or type(exc) in must | may):
                self.bad_error(op, exc)
            await self.after_error(env, op, exc, o)
            return
        # the handle belongs to some earlier root: any extension may lie between
        w.check_auto("v", i, value, node, (0, op.seq1), None, op.what, {})

    async def op_inj(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        if not w.lazy:
            return
        n = o["n"] % len(w.lazy)
        keys = w.spec["injects"][n]["keys"]
        base = env.active if env.active is not None else (w.root() if w.use_ctx else None)
        if base is None or any(w.registry.bind.get(("C", k)) is None or w.registry.max_level(w.registry.bind["C", k]) > w.root_level for k in keys):
            return
        clo = set().union(*(w.closure(k) for k in keys))
        for k in keys:
            w.poison(k, "rec")
        op = self.begin(env, base, f"{env.label}: injected call {n} of {keys} in {w.show(base)}", "inj")
        new = not (clo <= w.known)
        ext = self.begin_ext(("inj", n), new, op)
        scope = base if base.level != w.root_level else None
        exc: BaseException | None = None
        ret: Any = None
        try:
            ret = w.lazy[n]()
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        if ext is not None:
            ext[2] = op.seq1
        must: set[type] = set()
        for k in keys:
            must |= w.errors("v", ("C", k), base, True)
        may: set[type] = set()
        if scope is not None and not (clo <= w.opened[scope.nid][2]):
            may |= {NotReg}
        if w.poisoned or ((w.deppol != "rec" or w.rooted) and not (clo <= w.initial)):
            may |= {NotReg}
        if exc is not None:
            if not (any(exc is f for f in op.faults) or type(exc) in must | may):
                self.bad_error(op, exc)
        else:
            if must - {Async}:
                w.violate("missing-error", f"{op.what}: ran instead of {'/'.join(sorted(x.__name__ for x in must))}")
            else:
                era = (op.seq0, op.seq1) if scope is None else (w.opened[scope.nid][0], w.opened[scope.nid][1])
                local: dict[Any, Any] = {}
                for k, v in zip(keys, ret):
                    # arguments are resolved one by one, all from one resolver
                    w.check_auto("v", k, v, base, era, ("inj", n) if new and scope is None else None, op.what, local)
        if w.deppol == "rec" and not isinstance(exc, NotReg) and not w.rooted:
            w.known |= clo
        if exc is not None:
            await self.after_error(env, op, exc, o)

    async def op_scope(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        target, base = self.where(env, o.get("via", "L"))
        assert base is not None
        lvl = LEVEL[o["lvl"]]
        if base.level >= lvl:
            return
        known = set(w.known)
        op = self.begin(env, base, f"{env.label}: enter_scope({o['lvl']}) on {w.show(base)}", "enter")
        exc = None
        scoped: Any = None
        try:
            scoped = target.enter_scope(w.scopes[o["lvl"]])
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        if exc is not None:
            if not (w.poisoned and isinstance(exc, NotReg)):
                self.bad_error(op, exc)
            return
        node = w.open_chain(base, lvl, None)
        assert node is not None
        when = (op.seq0, op.seq1, known)
        if base.level != w.root_level:
            when = w.opened[base.nid]
        w.opened[node.nid] = when
        x = node.parent
        while x is not None and x.level != w.root_level and x.nid not in w.opened:
            w.opened[x.nid] = when
            x = x.parent
        e2 = env.nested()
        e2.res = scoped
        e2.node = node
        if w.use_ctx:
            e2.active = node
        amode = env.mode == "a"
        if amode:
            e2.res = await scoped.__aenter__()
        else:
            e2.res = scoped.__enter__()
        exc = None
        try:
            await self.body(e2, o["body"])
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        out: BaseException | None = None
        w.close_begin(node, exc, not amode)
        op = self.begin(env, node, f"{env.label}: exit of {w.show(node)}", "exit")
        try:
            await self._exit_call(e2.res, exc, amode, "with")
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            out = e
        finally:
            self.end(op)
        w.close_end(node)
        node.open = False
        if out is not None and out is not exc and not self.was_cancelled(env, op, out):
            self.bad_error(op, out)
        if exc is not None:
            self.judge(exc)
            raise exc

    async def op_sweep(self, env: Env, o: dict[str, Any]) -> None:
        """Request everything, twice: the second time nothing is new."""
        for _ in range(2):
            for i in sorted(self.w.specs):
                await self.one(env, {"o": "r", "f": "v", "k": i, "on": "C"})

    async def close_root(self, env: Env, how: str) -> None:
        w = self.w
        op = self.begin(env, w.root(), f"root {how}", "exit")
        try:
            if how == "close":
                w.container.close()
            else:
                await w.container.aclose()
        except (K.SimAbort, K.SimError):
            raise
        except RuntimeError as e:
            # nothing was compiled since the last extension, so there is no root to close
            if "without a matching enter" not in str(e):
                w.violate("error", f"closing the container: {type(e).__name__}: {e}")
        except BaseException as e:  # noqa: BLE001
            w.violate("error", f"closing the container: {type(e).__name__}: {e}")
        finally:
            self.end(op)
