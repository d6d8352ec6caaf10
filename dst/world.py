"""Turns a JSON run description into a real container, runs it under the kernel, judges what happened."""

from __future__ import annotations

import asyncio
import collections.abc
import contextlib
import contextvars
import dataclasses
import functools
import inspect
import types
import zlib
from collections import Counter
from collections.abc import AsyncGenerator, Awaitable, Coroutine, Generator, Mapping
from contextlib import AbstractAsyncContextManager, AbstractContextManager
from typing import Annotated, Any, Callable, Dict, Generic, Literal, Set, TypeVar, Union, get_args, get_origin

from dst import kernel as K
from dst.loop import run_loop
from dst.model import LEVEL, LEVELS, NAME, SKIPPABLE, Binding, Dep, Node, Registry, best_open, hk, patof, subst, transition, two

import diwire
import attr
import msgspec
import pydantic

from diwire import (
    All,
    AsyncProvider,
    Component,
    Container,
    DependencyRegistrationPolicy,
    FromContext,
    Injected,
    Lifetime,
    LockMode,
    Maybe,
    MissingPolicy,
    Provider,
    ResolverContext,
    Scope,
)
from diwire import BaseScope
from diwire import exceptions as dx

BaseScopes = type(Scope).__mro__[1]

SCOPES = {n: getattr(Scope, n) for n in LEVEL}
LOCKS = {"thread": LockMode.THREAD, "async": LockMode.ASYNC, "none": LockMode.NONE, "auto": "auto"}


# -- exceptions the environment injects -----------------------------------------------------------
class Fault(Exception):
    pass


class FaultKey(KeyError):
    pass


class FaultAttr(AttributeError):
    pass


class FaultType(TypeError):
    pass


class FaultRuntime(RuntimeError):
    pass


class FaultBase(BaseException):
    pass


class FaultTimeout(TimeoutError):
    pass


class FaultInvalid(dx.DIWireInvalidRegistrationError):
    pass


FAULTS = {
    "E": Fault,
    "K": FaultKey,
    "A": FaultAttr,
    "T": FaultType,
    "R": FaultRuntime,
    "B": FaultBase,
    "O": FaultTimeout,
    "I": FaultInvalid,
    "C": asyncio.CancelledError,
}


class BodyError(Exception):
    pass


class BodyBase(BaseException):
    pass


class TouchedError(Exception):
    pass


class Obj:
    # (without annotations, which some libraries take for fields)
    reg = None
    uid = -1
    deps = {}  # noqa: RUF012
    done = False

    # every service can be unpacked as keyword arguments
    def keys(self) -> Any:
        return ("itself",)

    def __getitem__(self, name: str) -> Any:
        if name != "itself":
            raise KeyError(name)
        return self

    def __repr__(self) -> str:
        return f"<{type(self).__name__} reg={self.reg} uid={self.uid}>"


Mapping.register(Obj)


def _never(*a: Any, **k: Any) -> Any:
    raise TouchedError("diwire is not to do this to a service")


# Services of unusual behaviour: what they answer to comparisons and the like is nobody's business but their user's.
ODD: list[dict[str, Any]] = [
    {},
    {"__bool__": lambda self: False},
    {"__len__": lambda self: 0},
    {"__eq__": lambda self, other: True, "__hash__": lambda self: 0},
    {"__eq__": lambda self, other: False, "__ne__": lambda self, other: True, "__hash__": None},
    {"__eq__": _never, "__ne__": _never, "__hash__": _never, "__bool__": _never},
    {"__call__": _never, "__len__": _never},
    {"__iter__": _never, "__next__": _never, "__contains__": _never},
    {"__enter__": _never, "__exit__": _never, "__aenter__": _never, "__aexit__": _never},
    {"close": _never, "aclose": _never, "__del__": lambda self: None, "__copy__": _never, "__deepcopy__": _never},
    {"__getattr__": lambda self, name: _never if not name.startswith("__") else object.__getattribute__(self, name)},
    {"send": _never, "throw": _never, "resolve": _never, "enter_scope": _never, "__get__": _never, "__set__": _never},
]

async def _acoro() -> None:
    raise TouchedError("diwire is not to call an instance")


# Instances that somebody may register for a key, whatever they are.
VALUES: dict[str, Any] = {
    "none": None, "zero": 0, "empty": (), "dots": ..., "class": TouchedError, "function": _never, "coroutinefunction": _acoro,
    "nothing": inspect.Parameter.empty, "notimplemented": NotImplemented, "error": StopIteration(1), "list": [], "type": type,
}

KEPT = object()  # default of parameters that nobody supplies


def inj_shape(inj: dict[str, Any]) -> str:
    """How the injected parameters of a callable are declared: p positional-only, q with a default, n, d with a default, k keyword-only."""
    n = len(inj["params"])
    sh = inj.get("sh")
    return sh[:n] if sh and len(sh) >= n else ("k" if inj.get("kwonly") else "n") * n


class CtxVal:
    def __init__(self, n: Any) -> None:
        self.n = n

    def __repr__(self) -> str:
        return f"<ctx {self.n}>"

    def __bool__(self) -> bool:
        return False  # a falsy value is still a value


class Build:
    __slots__ = ("uid", "pid", "rid", "node", "op", "actor", "seq0", "seq1", "ok", "exc", "obj", "owner", "res")

    def __init__(self, pid: Any, op: "Op | None", actor: Any, seq0: int) -> None:
        self.uid = -1
        self.pid = pid
        self.op = op
        self.node = op.node if op is not None else None
        self.actor = actor
        self.seq0 = seq0
        self.seq1 = -1
        self.ok = False
        self.exc: BaseException | None = None
        self.obj: Any = None
        self.owner: Node | None = None
        self.rid: Any = None
        self.res: "Res | None" = None


class Res:
    """A resource acquired by a generator / context-manager provider."""

    __slots__ = ("build", "is_async", "rel", "rel_exc", "rel_start", "rel_end", "kind", "gc")

    def __init__(self, build: Build, kind: str) -> None:
        self.build = build
        self.kind = kind
        self.is_async = kind[0] == "a"
        self.rel_start: list[int] = []
        self.rel_end: list[int] = []
        self.rel_exc: list[Any] = []
        self.gc = False


class Op:
    __slots__ = ("node", "env", "seq0", "seq1", "faults", "builds", "what", "cancel0", "rels", "kind", "sync")

    def __init__(self, env: "Env", node: Node, what: str, kind: str) -> None:
        self.sync = False
        self.env = env
        self.node = node
        self.what = what
        self.kind = kind
        self.seq0 = 0
        self.seq1 = 0
        self.faults: list[BaseException] = []
        self.builds: list[Build] = []
        self.rels: list[Res] = []
        self.cancel0 = 0


CUR: contextvars.ContextVar[Op | None] = contextvars.ContextVar("dst_cur", default=None)


class Env:
    """What one thread or task of the workload knows."""

    __slots__ = ("w", "mode", "node", "res", "active", "actor", "cancels", "vars", "depth", "label", "task")

    def __init__(self, w: "World", mode: str, label: str) -> None:
        self.w = w
        self.mode = mode
        self.label = label
        self.node: Node | None = None  # innermost scope in lexical reach (None: the root)
        self.res: Any = None
        self.active: Node | None = None
        self.actor: Any = None
        self.cancels = [0]  # cancellations delivered to this task (shared with nested envs of it)
        self.vars: dict[str, tuple[Any, Node]] = {}
        self.task: Any = None

    def child(self, mode: str, label: str, *, inherit_active: bool) -> "Env":
        e = Env(self.w, mode, label)
        e.node = self.node
        e.res = self.res
        e.active = self.active if inherit_active else None
        e.vars = dict(self.vars)
        return e

    def nested(self) -> "Env":
        e = Env(self.w, self.mode, self.label)
        e.node = self.node
        e.res = self.res
        e.active = self.active
        e.vars = dict(self.vars)
        e.actor = self.actor
        e.cancels = self.cancels
        e.task = self.task
        return e


class Stop(BaseException):
    """A violation was recorded: unwind this run."""


# -- provider templates --------------------------------------------------------------------------
_templates: dict[Any, Any] = {}


class _Unset:
    """The default value of a parameter: seen by a provider only where nothing was to be passed."""

    def __repr__(self) -> str:
        return "<default>"


UNSET = _Unset()


def _params(shape: str, a: str = "A") -> str:
    """One letter per parameter: p(ositional only) n(ormal) d(efault) v(*args) k(eyword only) w(**kwargs);
    x is no dependency but a parameter without annotation that keeps its default."""
    out = []
    star = False
    i = 0
    for j, c in enumerate(shape):
        if c == "x":
            out.append("x0=UNSET")
            continue
        if c == "k" and not star:
            out.append("*")
            star = True
        if c == "v":
            star = True
        out.append(f"{ {'v': '*', 'w': '**'}.get(c, '')}d{i}: {a}[{i}]{' = UNSET' if c == 'd' else ''}")
        if c == "p" and (j + 1 == len(shape) or shape[j + 1] != "p"):
            out.append("/")
        i += 1
    return ", ".join(out)


def template(kind: str, shape: str, bound: bool = False) -> Any:
    """``make(annotations, runner)`` for a provider; ``bound`` adds a first parameter that is no dependency."""
    t = _templates.get((kind, shape, bound))
    if t is not None:
        return t
    names = "("
    for i, c in enumerate(shape.replace("x", "")):
        names += f"R.value(d{i}, {i}), " if c == "d" else f"R.unpacked(d{i}), " if c == "w" else f"d{i}, "
    names += ")"
    if "x" in shape:
        names = f"({names} if x0 is UNSET else R.passed(x0))"
    ps = _params(shape)
    if bound:
        ps = "self" + (", " + ps if ps else "")
    if kind == "cls":
        body = f"""
def make(A, R):
    def __init__(self{', ' + ps if ps else ''}):
        R.init(self, {names})
    return __init__
"""
    elif kind == "new":
        body = f"""
def make(A, R):
    def __new__(cls{', ' + ps if ps else ''}):
        obj = object.__new__(cls)
        R.init(obj, {names})
        return obj
    return __new__
"""
    elif kind == "dc":
        names = names.replace("d", "self.d")
        body = f"""
def make(A, R):
    def __post_init__(self):
        R.init(self, {names})
    return __post_init__
"""
    elif kind == "awaitable":
        body = f"""
def make(A, R):
    def provider({ps}):
        return R.abuild({names})
    return provider
"""
    elif kind == "factory":
        body = f"""
def make(A, R):
    def provider({ps}):
        return R.build({names})
    return provider
"""
    elif kind == "afactory":
        body = f"""
def make(A, R):
    async def provider({ps}):
        return await R.abuild({names})
    return provider
"""
    elif kind == "gen":
        body = f"""
def make(A, R):
    def provider({ps}):
        h = R.open({names})
        v = h.enter()
        try:
            yield v
        except GeneratorExit:
            h.collected()
            raise
        except BaseException as e:
            h.exit(e)
            raise
        else:
            h.exit(None)
    return provider
"""
    elif kind == "agen":
        body = f"""
def make(A, R):
    async def provider({ps}):
        h = R.open({names})
        v = await h.aenter()
        try:
            yield v
        except GeneratorExit:
            h.collected()
            raise
        except BaseException as e:
            await h.aexit(e)
            raise
        else:
            await h.aexit(None)
    return provider
"""
    elif kind == "opened":
        body = f"""
def make(A, R):
    def __init__(self{', ' + ps if ps else ''}):
        self.handle = R.open({names})
    return __init__
"""
    elif kind in ("cm", "acm"):
        body = f"""
def make(A, R):
    def provider({ps}):
        return R.manager({names})
    return provider
"""
    else:
        raise K.SimError(kind)
    ns: dict[str, Any] = {"UNSET": UNSET}
    exec(compile(body, f"<workload {kind} {shape}>", "exec", dont_inherit=True), ns)
    t = _templates[(kind, shape, bound)] = ns["make"]
    return t


RETURNS = {
    "factory": lambda t: t,
    "afactory": lambda t: t,
    "gen": lambda t: Generator[t, None, None],
    "agen": lambda t: AsyncGenerator[t, None],
    "cm": lambda t: AbstractContextManager[t],
    "acm": lambda t: AbstractAsyncContextManager[t],
}
BARE = {"cm": AbstractContextManager, "acm": AbstractAsyncContextManager}


class Wrong:
    """Annotated where the annotation must not count; never registered."""


def stringly(f: Any) -> Any:
    """The same function with its annotations written as strings."""
    names = {f"_t{i}": v for i, v in enumerate(f.__annotations__.values())}
    g = types.FunctionType(f.__code__, {**f.__globals__, **names}, f.__name__, f.__defaults__, f.__closure__)
    g.__kwdefaults__ = f.__kwdefaults__
    g.__annotations__ = {k: f"_t{i}" for i, k in enumerate(f.__annotations__)}
    return g


def in_form(f: Any, form: str) -> Any:
    """The function as something else that can be called: a bound method, an object, a partial, a wrapper."""
    if form == "wrap":

        @functools.wraps(f)
        def wrapper(*args: Any, **kwargs: Any) -> Any:
            return f(*args, **kwargs)

        return wrapper
    if form == "part":
        return functools.partial(f, None)
    if form == "call":
        return type("Callable", (), {"__call__": f})()
    return getattr(type("Holder", (), {"m": classmethod(f) if form == "cmeth" else f})(), "m")


def manager_class(r: dict[str, Any], shape: str, ann: list[Any], run: "Runner", prov: Any) -> type:
    """A class of context managers, or a service that is its own context manager."""
    init = template("opened", shape)(ann, run)
    if r.get("str"):
        init = stringly(init)
    own = r["cms"] == "self"
    sup = r.get("sup", None)
    ns: dict[str, Any] = {"__init__": init}
    if r["kind"] == "cm":

        def __enter__(self: Any) -> Any:
            return self.handle.enter(self if own else None)

        def __exit__(self: Any, t: Any, v: Any, tb: Any) -> Any:
            self.handle.exit(v)
            return sup

        ns |= {"__enter__": __enter__, "__exit__": __exit__}
        if r.get("dual"):

            async def other(self: Any, *a: Any) -> Any:
                run.w.violate("wiring", f"provider {run.pid}: asynchronous methods of a synchronous context manager were used")

            ns |= {"__aenter__": other, "__aexit__": other}
    else:

        async def __aenter__(self: Any) -> Any:
            return await self.handle.aenter(self if own else None)

        async def __aexit__(self: Any, t: Any, v: Any, tb: Any) -> Any:
            await self.handle.aexit(v)
            return sup

        ns |= {"__aenter__": __aenter__, "__aexit__": __aexit__}
    if own:  # (unlike the class it stands for, which may look like another kind of context manager)
        ns = {**dict.fromkeys([n for n in ("__enter__", "__exit__", "__aenter__", "__aexit__") if hasattr(run.cls, n)]), **ns}
    if r.get("ret"):
        ns["__enter__" if r["kind"] == "cm" else "__aenter__"].__annotations__["return"] = prov
    return type(run.cls.__name__ if own else f"M{r['i']}", (run.cls,) if own else (), ns)


class Opening:
    """Makes managers of a class for a provider function."""

    def __init__(self, run: "Runner", made: type) -> None:
        self.run = run
        self.made = made

    def __getattr__(self, name: str) -> Any:
        return getattr(self.run, name)

    def manager(self, values: Any) -> Any:
        m = self.made.__new__(self.made)
        m.handle = self.run.open(values)
        return m


def model_class(base: type, impl: type, ns: dict[str, Any]) -> type:
    """A pydantic class that is compared and written to like any other object."""

    def __init__(self: Any, **data: Any) -> None:  # (the class it stands for may get a constructor of its own)
        base.__init__(self, **data)

    return type(base)(impl.__name__, (impl, base), {
        "__module__": __name__, "__setattr__": object.__setattr__, "__eq__": object.__eq__, "__hash__": object.__hash__,
        "__repr__": Obj.__repr__, "__init__": __init__, **ns,
    })


def provider_class(impl: type, style: str | None, shape: str, ann: list[Any], run: "Runner", r: dict[str, Any]) -> type:
    """Give ``impl`` its constructor, in one of the ways in which a class can get one."""
    wrong = {f"d{i}": Wrong for i in range(len(ann))}
    if r.get("dx"):
        ann = [Wrong] * len(ann)
    if style == "dc":
        impl.__annotations__ = {f"d{i}": a for i, a in enumerate(ann)}
        for i, c in enumerate(shape.replace("x", "")):
            if c in "dk":
                setattr(impl, f"d{i}", dataclasses.field(kw_only=True) if c == "k" else dataclasses.field(default=UNSET))
        if "x" in shape:  # what nobody provides is made by the dataclass
            impl.__annotations__["x0"] = list
            impl.x0 = dataclasses.field(default_factory=list, kw_only=True)  # type: ignore[attr-defined]
        impl.__post_init__ = template("dc", shape.replace("x", ""))(ann, run)  # type: ignore[attr-defined]
        return dataclasses.dataclass(eq=False)(impl)
    if style == "attrs":
        impl.__annotations__ = {f"d{i}": a for i, a in enumerate(ann)}
        for i, c in enumerate(shape):
            if c in "dk":
                setattr(impl, f"d{i}", attr.field(kw_only=True) if c == "k" else attr.field(default=UNSET))
        impl.__attrs_post_init__ = template("dc", shape)(ann, run)  # type: ignore[attr-defined]
        return attr.define(slots=False, eq=False)(impl)
    if style == "msg" and impl.__init__ is object.__init__:
        ns = {"__annotations__": {f"d{i}": a for i, a in enumerate(ann)}, "__post_init__": template("dc", shape)(ann, run), "__module__": __name__,
              **{f"d{i}": UNSET for i, c in enumerate(shape) if c == "d"}}
        return type(msgspec.Struct)(impl.__name__, (impl, msgspec.Struct), ns, dict=True, eq=False, kw_only="k" in shape)
    if style == "pyd":
        return model_class(pydantic.BaseModel, impl, {
            "__annotations__": {f"d{i}": a for i, a in enumerate(ann)},
            "model_config": {"arbitrary_types_allowed": True},
            "model_post_init": lambda self, _context, made=template("dc", shape)(ann, run): made(self),
        })
    make = "new" if style == "new" else "cls"
    f = template(make, shape)(ann, run)
    if r.get("str"):
        f = stringly(f)
    setattr(impl, f.__name__, f)
    if style == "new" and impl.__init__ is not object.__init__:  # inherited from a class registered itself
        impl.__init__ = lambda self, *args, **kwargs: None  # type: ignore[misc]
    if style == "inh":
        impl = type("Sub" + impl.__name__, (impl,), {})
    mis = r.get("mis", 0)
    if mis & 1:
        impl.__annotations__ = {**wrong}
    if mis & 2:

        def __call__(self: Any, *a: Any, **k: Any) -> None:
            return None

        __call__.__annotations__.update(wrong)
        impl.__call__ = __call__  # type: ignore[attr-defined]
    return impl


class Runner:
    """The body of one provider: records, delays, fails."""

    __slots__ = ("w", "pid", "kind", "cls", "names", "spec", "calls", "rels", "news")

    def __init__(self, w: "World", pid: Any, kind: str, cls: type, spec: dict[str, Any]) -> None:
        self.w = w
        self.pid = pid
        self.kind = kind
        self.cls = cls
        self.spec = spec
        self.calls = 0
        self.rels = 0
        self.news = 0

    # faults: {"call": n, "exc": "E"} ; delays: list per call (cycled)
    def _begin(self) -> tuple[Build, int]:
        w = self.w
        op = CUR.get()
        b = Build(self.pid, op, op.env.actor if op is not None else None, w.tick())
        n = self.calls
        self.calls += 1
        if op is not None and op.env.w is not w:
            w.violate("isolation", f"{op.what}: provider {self.pid} of another container was called")
        if op is not None:
            op.builds.append(b)
            if op.seq1:
                w.violate("late-build", f"{op.what}: provider {self.pid} was called after the request had ended")
            if op.kind == "static":
                w.violate("early-build", f"{op.what}: provider {self.pid} ran although the request had to be refused first")
        else:
            w.violate("stray-build", f"provider {self.pid} called outside any request")
        w.builds.append(b)
        w.stats["provider_calls"] += 1
        w.ev(op.env.label if op is not None else "?", f"call {self.pid}")
        return b, n

    def _fault(self, b: Build, n: int, where: str, op: Op | None) -> None:
        for f in self.spec.get("flt", ()):
            if f["w"] == where and f["n"] == n:
                cls = FAULTS[f["x"]]
                e = cls(f"injected {where} fault of {self.pid} call {n}")
                self.w.stats[f"fault:{where}:{cls.__name__}"] += 1
                if op is not None:
                    op.faults.append(e)
                if b is not None:
                    b.exc = e
                raise e

    def _delay(self, n: int, key: str = "dly") -> float:
        d = self.spec.get(key)
        return d[n % len(d)] if d else 0

    def _pause(self, d: float) -> None:
        me = K.current()
        k = K.ACTIVE
        if me is None or k is None:
            return
        k.step(me, 1)
        if d > 0:
            self.w.stats["fault:slow_provider"] += 1
            k.sleep(me, d)

    async def _apause(self, d: float) -> None:
        """d < 0: that many bare suspensions; d > 0: simulated seconds; 0: no suspension."""
        self._pause(0)
        if d < 0:
            for _ in range(int(-d)):
                await asyncio.sleep(0)
        elif d > 0:
            self.w.stats["fault:slow_provider"] += 1
            await asyncio.sleep(d)

    def _self_cancel(self, n: int, where: str) -> None:
        for f in self.spec.get("flt", ()):
            if f["w"] == where and f["n"] == n:
                op = CUR.get()
                t = asyncio.current_task()
                if op is not None and t is not None:
                    self.w.deliver_cancel(op.env, t)

    def _finish(self, b: Build, obj: Any, deps: tuple[Any, ...]) -> None:
        w = self.w
        b.uid = obj.uid = w.next_uid()
        obj.reg = self.pid
        obj.deps = {f"d{i}": v for i, v in enumerate(deps)}
        obj.done = True
        b.obj = obj
        b.ok = True
        if b.op is not None and b.op.seq1:
            w.violate("late-build", f"{b.op.what}: provider {self.pid} ran on after the request had ended")
        b.seq1 = w.tick()
        w.ev(b.op.env.label if b.op is not None else "?", f"made {self.pid}")
        w.by_uid[b.uid] = b
        w.note_build(b, deps)

    # parameters with a default
    def value(self, v: Any, i: int) -> Any:
        if v is UNSET:
            return None  # right only where nothing is to be had
        if v is None and not self.w.none_instances and not self._from_context(i):  # None is as good a context value as any
            self.w.violate("wiring", f"provider {self.pid} got None in place of the default of a parameter")
        return v

    def unpacked(self, kw: dict[str, Any]) -> Any:
        """What came as ``**kwargs``: the items of the one service (see Obj.keys), or none."""
        if not kw:
            return None
        if list(kw) != ["itself"]:
            self.w.violate("wiring", f"provider {self.pid} got {kw!r} as keyword arguments")
        return kw.get("itself")

    def _from_context(self, i: int) -> bool:
        forms = [d["f"] for d in self.spec.get("deps", ())]
        if self.spec.get("o") in ("deco", "odeco"):
            forms.insert(self.spec.get("at", 0), "inner")
        return forms[i] in ("c", "mc")

    def passed(self, v: Any) -> Any:
        self.w.violate("wiring", f"provider {self.pid} got {v!r} for a parameter that is no dependency")
        raise Stop()

    # plain
    def init(self, obj: Any, deps: tuple[Any, ...]) -> None:
        b, n = self._begin()
        op = b.op
        self._fault(b, n, "pre", op)
        self._pause(self._delay(n))
        self._fault(b, n, "post", op)
        self._finish(b, obj, deps)

    def build(self, deps: tuple[Any, ...]) -> Any:
        obj = self.cls.__new__(self.cls)
        self.init(obj, deps)
        return self.given(obj)

    def given(self, obj: Any) -> Any:
        """What the provider gives: its object, or for some providers always the same unusual value."""
        nv = self.spec.get("nv")
        return obj if nv is None else VALUES[nv]

    async def abuild(self, deps: tuple[Any, ...]) -> Any:
        obj = self.cls.__new__(self.cls)
        b, n = self._begin()
        op = b.op
        self._fault(b, n, "pre", op)
        self._self_cancel(n, "cx")
        await self._apause(self._delay(n))
        self._fault(b, n, "post", op)
        self._finish(b, obj, deps)
        return self.given(obj)

    # resources
    def open(self, deps: tuple[Any, ...]) -> "Handle":
        self._new()
        return Handle(self, deps)

    def _new(self) -> None:
        """The context manager itself cannot be made."""
        self.news += 1
        self._fault(None, self.news - 1, "new", CUR.get())  # type: ignore[arg-type]

    def manager(self, deps: tuple[Any, ...]) -> Any:
        self._new()
        return (AManager if self.kind == "acm" else Manager)(self, deps)


class Handle:
    def __init__(self, r: Runner, deps: tuple[Any, ...]) -> None:
        self.r = r
        self.deps = deps
        self.res: Res | None = None
        self.entered = False

    def enter(self, obj: Any = None) -> Any:
        r = self.r
        obj = r.cls.__new__(r.cls) if obj is None else obj
        b, n = r._begin()
        r._fault(b, n, "pre", b.op)
        r._pause(r._delay(n))
        r._fault(b, n, "post", b.op)
        return self._acquired(obj, b)

    async def aenter(self, obj: Any = None) -> Any:
        r = self.r
        obj = r.cls.__new__(r.cls) if obj is None else obj
        b, n = r._begin()
        r._fault(b, n, "pre", b.op)
        r._self_cancel(n, "cx")
        await r._apause(r._delay(n))
        r._fault(b, n, "post", b.op)
        return self._acquired(obj, b)

    def _acquired(self, obj: Any, b: Build) -> Any:
        self.res = b.res = Res(b, self.r.kind)
        self.r._finish(b, obj, self.deps)
        self.r.w.resources.append(self.res)
        return self.r.given(obj)

    def collected(self) -> None:
        if self.res is not None:
            self.res.gc = True

    def _rel_begin(self, exc: BaseException | None) -> int:
        w = self.r.w
        res = self.res
        n = self.r.rels
        self.r.rels += 1
        w.stats["releases"] += 1
        if res is None:
            w.violate("rel-phantom", f"{self.r.pid} released without having been acquired")
            return n
        res.rel_start.append(w.tick())
        res.rel_exc.append(exc)
        op = CUR.get()
        if op is not None:
            op.rels.append(res)
        w.on_release(res, op, exc)
        return n

    def exit(self, exc: BaseException | None) -> None:
        n = self._rel_begin(exc)
        self.r._pause(self.r._delay(n, "rdly"))
        self.r._fault(None, n, "rel", CUR.get())  # type: ignore[arg-type]
        if self.res is not None:
            self.res.rel_end.append(self.r.w.tick())

    async def aexit(self, exc: BaseException | None) -> None:
        n = self._rel_begin(exc)
        self.r._self_cancel(n, "rcx")
        await self.r._apause(self.r._delay(n, "rdly"))
        self.r._fault(None, n, "rel", CUR.get())  # type: ignore[arg-type]
        if self.res is not None:
            self.res.rel_end.append(self.r.w.tick())


class Manager(Handle):
    def __enter__(self) -> Any:
        return self.enter()

    def __exit__(self, t: Any, v: Any, tb: Any) -> Any:
        self.exit(v)
        return self.r.spec.get("sup", None)


class AManager(Handle):
    async def __aenter__(self) -> Any:
        return await self.aenter()

    async def __aexit__(self, t: Any, v: Any, tb: Any) -> Any:
        await self.aexit(v)
        return self.r.spec.get("sup", None)


_TV = TypeVar("_TV")
_TU = TypeVar("_TU")
TV: dict[str, Any] = {"T": _TV, "U": _TU, "S": TypeVar("_TS"), "Ti": TypeVar("_TI", bound=int), "Tc": TypeVar("_TC", int, str),
    "Tu": TypeVar("_TUn", bound=Union[int, str]), "Tf": TypeVar("_TF", bound="int")}
ARGT = {
    "int": int, "str": str, "bytes": bytes, "float": float, "opt": int | None, "list": list[int], "lit": Literal["a", "b"], "tup": tuple[int, ...],
    "none": type(None), "uni": Union[int, str], "fun": Callable[[int], str], "any": Any, "obj": object,
}


# What a generic that is used as a type argument only (``Gi``) may be instead of a class of the application.
GI: dict[str, Any] = {
    "set": lambda t: set[t],
    "dict": lambda t: dict[str, t],
    "fun": lambda t: collections.abc.Callable[[t], bytes],
    "tset": lambda t: Set[t],
    "tdict": lambda t: Dict[str, t],
    "tfun": lambda t: Callable[[t], bytes],
}


def drive(coro: Any) -> Any:
    """Run a coroutine that never suspends (a thread's program)."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise K.SimError("thread program suspended")


class _Soft:
    """Stands for the container while a registration is performed: keeps a refusal instead of raising it."""

    def __init__(self, container: Any) -> None:
        self._container = container
        self.refusal: BaseException | None = None

    def __getattr__(self, name: str) -> Any:
        real = getattr(self._container, name)

        def call(*a: Any, **kw: Any) -> Any:
            try:
                return real(*a, **kw)
            except dx.DIWireInvalidRegistrationError as e:
                self.refusal = e
                return None

        return call


class Shared:
    """The classes that several containers have registrations for."""

    def __init__(self) -> None:
        self.types: dict[int, type] = {}
        self.gens: dict[str, Any] = {}
        self.ctxkeys: dict[str, Any] = {}
        self.autos: list[Any] = []  # worlds of which the same classes are wired on first use
        self.form: Any = None


class World:
    def __init__(self, spec: dict[str, Any], share: "Shared | None" = None, nth: int = 0) -> None:
        self.spec = spec
        self.seq = 0
        self.uid = nth * 1_000_000
        self.stats: Counter[str] = Counter()
        self.evsig = 0
        self.open_ops = 0
        self.violations: list[tuple[str, str]] = []
        self.builds: list[Build] = []
        self.by_uid: dict[int, Build] = {}
        self.resources: list[Res] = []
        self.nodes: list[Node] = []
        self.handles: list[tuple[Any, str, Any, Node]] = []
        self.ok_builds: dict[Any, int] = {}
        self.split: set[Any] = set()
        self.seen_transient: dict[int, str] = {}
        self.scoped_owner: dict[int, Any] = {}
        self.types: dict[int, type] = {}
        self.shared_ctx: dict[int, Any] = {}
        self.gens: dict[str, Any] = {}
        self.ctxkeys: dict[str, Any] = {}
        self.tasks: list[tuple[Any, Env]] = []
        self.log: list[Any] = []
        self.stop = False
        self.late: list[Any] = []
        self.order = 0
        self.registry = Registry()
        self.dirty = True  # the next use of the root compiles a new one
        self.root_node: Node | None = None
        self.runners: dict[Any, Runner] = {}
        self.regspecs: dict[Any, dict[str, Any]] = {}
        self.chain: dict[Any, dict[str, Any]] = {}
        self.olayers: dict[Any, list[dict[str, Any]]] = {}
        self.injects: list[dict[str, Any]] = []
        self.expected_registration_error: Any = None
        self.ex: Any = None
        if share is not None:  # another container for the same classes
            self.types, self.gens, self.ctxkeys = share.types, share.gens, share.ctxkeys
        self._build_static()

    # -- small services ----------------------------------------------------------------------
    def tick(self) -> int:
        self.seq += 1
        return self.seq

    def ev(self, who: str, what: str) -> None:
        """Fold an observable event into the signature of this run."""
        self.evsig = (self.evsig * 1000003 ^ zlib.crc32(f"{who}|{what}".encode())) & 0xFFFFFFFFFFFFFFFF

    def next_uid(self) -> int:
        self.uid += 1
        return self.uid

    def violate(self, cat: str, msg: str) -> None:
        self.violations.append((cat, msg))
        self.log.append(("violation", cat, msg))

    def deliver_cancel(self, env: Env, task: Any) -> None:
        if task.done():
            return
        env.cancels[0] += 1
        self.stats["fault:cancel"] += 1
        self.log.append(("cancel", env.label, self.seq))
        task.cancel()

    # -- static world --------------------------------------------------------------------------
    def T(self, i: int) -> type:
        t = self.types.get(i)
        if t is None:
            t = self.types[i] = type(f"T{i}", (Obj,), self.odd(i))
        return t

    def odd(self, i: int) -> dict[str, Any]:
        """What makes some of the services unusual objects."""
        n = self.spec["container"].get("odd")
        if n is None:
            return {}
        return dict(ODD[(n * 7 + i * 5) % len(ODD)])

    def G(self, name: str) -> Any:
        g = self.gens.get(name)
        if g is None:
            g = self.gens[name] = types.new_class(
                name,
                (Obj, Generic[_TV, _TU] if two(name) else Generic[_TV]),
                exec_body=lambda ns: ns.update(self.odd(sum(map(ord, name)))),
            )
        return g

    def generic(self, name: str, args: Any) -> Any:
        """``name[args]``; what follows an "@" in the name is a component."""
        base, _, comp = name.partition("@")
        if base == "Gi" and self.spec["container"].get("gi"):
            return GI[self.spec["container"]["gi"]](self.arg_type(args[0]))
        t = self.G(base)[tuple(self.arg_type(a) for a in args)]
        return Annotated[t, Component(comp)] if comp else t

    def provided(self, r: dict[str, Any]) -> Any:
        """What the registration of a template is registered for."""
        base, _, comp = r["tmpl"].partition("@")
        if r.get("bare"):
            return Annotated[self.G(base), Component(comp)] if comp else self.G(base)
        return self.generic(r["tmpl"], patof(r))

    def CK(self, name: str) -> Any:
        if name == "int":
            return int
        if name == "str":
            return str
        c = self.ctxkeys.get(name)
        if c is None:
            if name.startswith("@"):
                c = Annotated[self.CK(name[1:]), Component("ctx")]
            else:
                c = type(name, (), {})
            self.ctxkeys[name] = c
        return c

    def key_type(self, key: Any) -> Any:
        tag = key[0]
        if tag == "C":
            return self.T(key[1])
        if tag == "X":
            return Annotated[self.T(key[1]), Component(key[2])]
        if tag == "G":
            return self.generic(key[1], key[2:])
        if tag == "F":
            return self.CK(key[1])
        raise K.SimError(f"key {key}")

    def noted(self, t: Any) -> Any:
        """Another spelling of the same key, now and then: metadata which is no Component means nothing."""
        if not self.spec["container"].get("notes"):
            return t
        self.n_notes += 1
        return Annotated[t, "note"] if self.n_notes % 3 == 0 else t

    n_notes = 0

    def arg_type(self, arg: Any) -> Any:
        if isinstance(arg, str):
            return TV[arg] if arg in TV else ARGT[arg]
        return self.key_type(arg)

    def annotation(self, d: dict[str, Any]) -> Any:
        if d["f"] == "t":  # the argument itself
            tv = TV[d.get("tv", "T")]
            return tv if d.get("bt") else type[tv]
        return self.dep_annotation(d["f"], hk(d["k"]), d.get("mb"))

    def dep_annotation(self, form: str, key: Any, maybe: Any = None) -> Any:
        if maybe:
            return Maybe[self.dep_annotation(form, key)]  # an optional handle behaves like the handle
        t = self.noted(self.key_type(key))
        if form == "v":
            return t
        if form == "m":
            return Maybe[t]
        if form == "a":
            return All[t]
        if form == "p":
            return Provider[t]
        if form == "ap":
            return AsyncProvider[t]
        if form == "c":
            return FromContext[t]
        if form == "mc":
            return Maybe[FromContext[t]]
        raise K.SimError(f"form {form}")

    def _scope_tree(self, tree: dict[str, Any] | None) -> None:
        """The built-in scopes, or a tree of the application: other numbers, other skippable levels, more levels."""
        self.scopes = SCOPES
        self.levels: tuple[Any, ...] = LEVELS
        self.skippable: set[Any] = SKIPPABLE
        if tree is None:
            return
        extra = {float(x): bool(s) for x, s in tree.get("extra", ())}
        self.levels = tuple(sorted([*LEVELS, *extra]))
        self.skippable = {LEVEL[n] for n in tree["skip"]} | {x for x, s in extra.items() if s}
        step = tree["nums"]
        names = [NAME[x] if x in NAME else f"EXTRA{int(x * 10)}" for x in self.levels]
        fields = []
        num = step[0]
        for i, (x, n) in enumerate(zip(self.levels, names)):
            fields.append((n, BaseScope, dataclasses.field(default=BaseScope(num, skippable=x in self.skippable))))
            num += step[1 + i % (len(step) - 1)]
        if tree.get("rev"):
            fields.reverse()  # declared in any order: the numbers count
        made = dataclasses.make_dataclass("Tree", fields, bases=(BaseScopes,), frozen=True)()
        self.scopes = {n: getattr(made, n) for n in LEVEL}

    def transition(self, level: Any, target: Any) -> list[Any] | None:
        return transition(level, target, self.levels, self.skippable)

    def _build_static(self) -> None:
        c = self.spec["container"]
        self._scope_tree(c.get("tree"))
        self.root_level = LEVEL[c.get("root", "APP")]
        self.strict = c.get("strict", True)
        self.use_ctx = c.get("use_ctx", False)
        self.rctx = ResolverContext()
        self.none_instances = False
        self.temp: Any = None
        if c.get("temp"):
            # a container of somebody else's that shares the resolver context
            near, far = type("Near", (), {}), type("Far", (), {})
            box = Container(root_scope=self.scopes["APP"], resolver_context=self.rctx, use_resolver_context=True, missing_policy=MissingPolicy.ERROR)
            box.add(near, scope=self.scopes["REQUEST"])
            box.add(far, scope=self.scopes["APP"])
            box.compile()
            self.temp = (box, (near, far), None)
        self.container = Container(
            root_scope=self.scopes[NAME[self.root_level]],
            default_lifetime=Lifetime.TRANSIENT if c.get("life") == "T" else Lifetime.SCOPED,
            lock_mode=LOCKS[c.get("lock", "auto")],
            missing_policy=MissingPolicy.ERROR if self.strict else MissingPolicy.REGISTER_RECURSIVE,
            dependency_registration_policy=(
                DependencyRegistrationPolicy.IGNORE if self.strict else DependencyRegistrationPolicy.REGISTER_RECURSIVE
            ),
            resolver_context=self.rctx,
            use_resolver_context=self.use_ctx,
        )
        self.default_scoped = c.get("life") != "T"
        self.in_setup: set[Any] | None = self.setup_keys()
        for item in self.spec.get("setup", ()):
            e = self.apply(item)
            if e is not None and item["o"] != "bad":
                self.violate("reg-refused", f"setup: {item['o']} {item['k']} refused: {type(e).__name__}: {e}")
        self.in_setup = None
        self._check_injected_providers()
        for inj in self.spec.get("injects", ()):
            self._make_inject(inj)
        if c.get("precompile", True):
            self.container.compile()

    # -- registrations --------------------------------------------------------------------------
    def apply(self, r: dict[str, Any]) -> BaseException | None:
        """Perform one registration on the container and on the model. Returns the refusal, if any."""
        kind = r["o"]
        if not self.applicable(r):
            return None
        if kind != "bad" and any(i.get("scope") for i in self.injects):
            return self._apply_under_contracts(r)
        try:
            if kind == "reg":
                self._register(r)
            elif kind == "open":
                self._register_open(r)
            elif kind == "deco":
                self._decorate(r)
            elif kind == "odeco":
                if not self._decorate_open(r):
                    return None  # kept until its template is registered
            elif kind == "bad":
                self._bad(r)
            else:
                raise K.SimError(kind)
        except dx.DIWireError as e:
            return e
        if kind == "deco" and self.chain[hk(r["k"])]["base"] is None:
            return None  # kept until its key is registered
        self.dirty = True
        return None

    def _apply_under_contracts(self, r: dict[str, Any]) -> BaseException | None:
        """A registration made while injected callables with a declared scope exist.

        It has to be refused exactly if it makes such a callable need a deeper scope than declared, and a
        refused one must leave nothing behind.
        """
        real = self.container
        soft = _Soft(real)
        key = hk(r["k"]) if r["o"] not in ("open", "odeco") else None
        registry, specs, olayers = self.registry, dict(self.regspecs), {k: list(v) for k, v in self.olayers.items()}
        chain = self.chain.get(key)
        saved = {"base": chain["base"], "layers": list(chain["layers"])} if chain is not None else None
        self.container = soft
        try:
            if r["o"] == "reg":
                self._register(r)
            elif r["o"] == "deco":
                self._decorate(r)
            elif r["o"] == "open":
                self._register_open(r)
            elif r["o"] == "odeco":
                self._decorate_open(r)
            else:
                raise K.SimError(r["o"])
        except dx.DIWireError as e:
            return e
        finally:
            self.container = real
        deep = [i for i in self.injects if i.get("scope") and self.inject_level(i, self.registry) > LEVEL[i["scope"]]]
        if bool(deep) == bool(soft.refusal):
            if not deep:
                if r["o"] == "odeco":
                    self.dirty = self.dirty or self.registry is not registry
                elif r["o"] != "deco" or self.chain[key]["base"] is not None:
                    self.dirty = True
                return None
            self.stats["fault:refused_by_contract"] += 1
        elif deep:
            self.violate("reg-accepted", f"{r['o']} {r.get('k')} makes an injected callable declared for {deep[0]['scope']} need a deeper scope but was accepted")
            return None
        self.registry, self.regspecs, self.olayers = registry, specs, olayers
        if key is not None:
            if saved is None:
                self.chain.pop(key, None)
            else:
                self.chain[key] = saved
        return None if deep else soft.refusal

    def applicable(self, r: dict[str, Any]) -> bool:
        """Only registrations whose required dependencies exist are performed.

        Decided on the model when the operation is reached, so that every generated (and every
        shrunk) workload stays within what a user may do, whatever was skipped before it.
        """
        if r["o"] == "bad":
            return True
        if (self.in_setup is None or r["o"] in ("open", "odeco")) and self.closes_cycle(r):
            return False
        if any(d.get("inj") and d["k"] and d["f"] in ("v", "m") and self.registry.refuses(hk(d["k"])) for d in r.get("deps", ())):
            return False  # nothing serves that closing so far
        if r["o"] in ("open", "odeco"):
            return True  # templates are wired when they are requested
        have = self.in_setup if self.in_setup is not None else self.registry.bind
        return all(hk(d["k"]) in have for d in r.get("deps", ()) if d["f"] in ("v", "p", "ap"))

    def closes_cycle(self, r: dict[str, Any]) -> bool:
        reg = self.registry
        seen: set[Any] = set()

        opens = reg.opens
        if r["o"] == "open":
            opens = [o for o in opens if o["tmpl"] != r["tmpl"] or o["pat"] != patof(r)]
            opens = [*opens, {"tmpl": r["tmpl"], "pat": patof(r), "order": self.order + 1}]

        def hit(key: Any) -> bool:
            if r["o"] in ("open", "odeco"):
                if key[0] != "G" or key[1] != r["tmpl"] or key in reg.bind:
                    return False
                o = best_open(opens, key)[0]
                return o is not None and o["pat"] == patof(r)
            return bool(key == hk(r["k"]))

        def reach(form: str, key: Any) -> bool:
            if form not in ("v", "m", "a") or key[0] not in "CXG":
                return False
            if form == "a":
                same = hk(r["k"])
                if same[0] in "CX" and same[1] == key[1]:
                    return True
                return any(of(b) for b in reg.all_of(key[1]))
            if hit(key):
                return True
            b = reg.get(key)
            return b is not None and of(b)

        def of(b: Binding) -> bool:
            if b.rid in seen:
                return False
            seen.add(b.rid)
            return any(of(d.direct) if d.direct is not None else reach(d.form, d.key) for d in b.deps)

        return any(d["k"] and reach(d["f"], hk(d["k"])) for d in r.get("deps", ()))

    def setup_keys(self) -> set[Any]:
        """Keys the initial registrations provide, without those that miss something they require."""
        regs = [r for r in self.spec["setup"] if r["o"] == "reg"]
        while True:
            keys = {hk(r["k"]) for r in regs}
            left = [r for r in regs if all(hk(d["k"]) in keys for d in r.get("deps", ()) if d["f"] in ("v", "p", "ap"))]
            if len(left) == len(regs):
                return keys
            regs = left

    def _runner(self, pid: Any, kind: str, cls: type, spec: dict[str, Any]) -> Runner:
        r = Runner(self, pid, kind, cls, spec)
        self.runners[pid] = r
        return r

    def _scope_args(self, r: dict[str, Any]) -> dict[str, Any]:
        kw: dict[str, Any] = {}
        if r.get("s") is not None:
            kw["scope"] = self.scopes[r["s"]]
        if r.get("l") is not None:
            kw["lifetime"] = Lifetime.SCOPED if r["l"] == "S" else Lifetime.TRANSIENT
        if r.get("lk") is not None:
            kw["lock_mode"] = LOCKS[r["lk"]]
        return kw

    def _register(self, r: dict[str, Any], *, raw: bool = False) -> None:
        c = self.container
        kind = r["kind"]
        pid = r["i"]
        key = hk(r["k"])
        deps = r.get("deps", [])
        shape = r.get("sh") or "n" * len(deps)
        ann = [self.annotation(d) for d in deps]
        if r.get("iw"):
            ann = [Injected[a] if d.get("inj") else a for a, d in zip(ann, deps)]
        prov = self.noted(self.key_type(key))
        kw = self._scope_args(r)
        value = None
        if key[0] == "X" and r.get("cs"):
            kw["component"] = Component(key[2]) if r["cs"] == 1 else key[2]
            prov = self.T(key[1])
        if kind == "inst":
            base = self.T(key[1]) if key[0] in "CX" else self.G(key[1].partition("@")[0])
            value: Any
            if r.get("iv") in VALUES:
                value = VALUES[r["iv"]]
                self.none_instances |= value is None
            else:
                value = base.__new__(base)
                value.reg = pid
                value.uid = self.next_uid()
                value.deps = {}
                value.done = True
            ikw = {k: v for k, v in kw.items() if k == "component"}
            if r.get("ni") and type(value) is base and (key[0] == "C" or ikw):
                c.add_instance(value, **ikw)  # (known by its class)
            else:
                c.add_instance(value, provides=prov, **ikw)
        else:
            base = self.T(key[1]) if key[0] in "CX" else self.G(key[1].partition("@")[0])
            impl = type(f"I{pid}", (base,), {}) if key[0] in "CX" else types.new_class(f"I{pid}", (self.generic(key[1].partition("@")[0], key[2:]),))
            run = self._runner(pid, kind, impl, r)
            if kind == "cls":
                if r.get("self") and "__init__" not in base.__dict__ and not base.__dict__.get("extended"):
                    impl = provider_class(base, None, shape, ann, run, {**r, "mis": 0})
                else:
                    base.extended = True  # (a constructor which it got later would be inherited by providers made before)
                    impl = provider_class(impl, r.get("sty"), shape, ann, run, r)
                    kw["provides"] = prov
                self._explicit(r, kw, impl, ann)
                c.add(impl, **kw)
            else:
                self._add_provider(r, kind, shape, ann, run, f"p{pid}", prov, kw)
        self.regspecs[pid] = r
        self.none_instances |= r.get("nv") == "none"
        ch = self.chain.setdefault(key, {"base": None, "layers": []})
        level = LEVEL[r["s"]] if r.get("s") is not None and kind != "inst" else self.root_level
        scoped = True if kind == "inst" else (self.default_scoped if r.get("l") is None else r["l"] == "S")
        ch["base"] = {
            "pid": pid,
            "level": level,
            "scoped": scoped,
            "layered": self.default_scoped if kind == "inst" else scoped,  # (an instance is registered with the default lifetime)
            "kind": kind,
            "deps": [Dep("t", key[2 + ("T", "U").index(d.get("tv", "T"))]) if d["f"] == "t" else Dep(d["f"], hk(d["k"])) for d in deps],
            "value": value,
        }
        self._rebind(key)

    def _add_provider(self, r: dict[str, Any], kind: str, shape: str, ann: list[Any], run: Runner, name: str, prov: Any, kw: dict[str, Any]) -> None:
        f = self._function(r, kind, shape, ann, run, name, prov)
        self._explicit(r, kw, f, ann)
        if not r.get("ret"):
            kw["provides"] = prov
        c = self.container
        add = c.add_factory if kind in ("factory", "afactory") else c.add_generator if kind in ("gen", "agen") else c.add_context_manager
        add(f, **kw)

    def _function(self, r: dict[str, Any], kind: str, shape: str, ann: list[Any], run: Runner, name: str, prov: Any) -> Any:
        """A provider function, written in one of the many ways in which it can be written."""
        form = r.get("fm")
        ann = [Wrong] * len(ann) if r.get("dx") else ann
        cms = r.get("cms")
        if cms in ("cls", "self"):
            return manager_class(r, shape, ann, run, prov)
        if cms == "fn":  # a function which makes one, and says of which class
            made = manager_class({**r, "cms": "cls", "str": 0}, "", [], run, prov)
            f = template(kind, shape)(ann, Opening(run, made))
            f.__qualname__ = f.__name__ = name
            f.__annotations__["return"] = made
            return f
        if cms == "ctx":
            kind = {"cm": "gen", "acm": "agen"}[kind]
        f = template("awaitable" if r.get("aw") else kind, shape, form not in (None, "wrap"))(ann, run)
        f.__qualname__ = f.__name__ = name
        if r.get("aw"):
            f.__annotations__["return"] = Awaitable[prov] if r["aw"] == 1 else Coroutine[Any, Any, prov]
        elif r.get("ret"):
            f.__annotations__["return"] = RETURNS[kind](prov)
        elif kind in BARE:
            f.__annotations__["return"] = BARE[kind]
        if r.get("iw") and kind == "agen" and not r.get("ret"):
            f.__annotations__["return"] = AsyncGenerator[Any, None]
        if r.get("str"):
            f = stringly(f)
        if cms == "ctx":
            return (contextlib.contextmanager if kind == "gen" else contextlib.asynccontextmanager)(f)
        if r.get("iw"):
            return self._injected_provider(f, kind)
        return in_form(f, form) if form else f

    def _explicit(self, r: dict[str, Any], kw: dict[str, Any], provider: Any, ann: list[Any]) -> None:
        """Name the dependencies in the registration instead of inferring them from the annotations."""
        if r.get("dx"):
            ps = inspect.signature(provider).parameters
            named = [(a, ps[f"d{i}"]) for i, a in enumerate(ann)]
            if r["dx"] == 2:
                named.reverse()
            elif r["dx"] == 3:
                named = named[1:] + named[:1]
            kw["dependencies"] = dict(named)

    def _injected_provider(self, f: Any, kind: str) -> Any:
        self.stats["injected_providers"] += 1
        return self.rctx.inject(f)

    def _check_injected_providers(self) -> None:
        """Injected dependencies of providers stay within the provider's own scope (nothing is opened for them)."""
        for b in self.registry.bind.values():
            r = self.regspecs.get(b.pid) or {}
            if r.get("iw"):
                ps = [{"f": d["f"], "k": d["k"]} for d in r["deps"] if d.get("inj")]
                if self.inject_level({"params": ps}, self.registry) > b.level:
                    raise K.Unsuitable("a provider injects something of a deeper scope")

    def _decorate(self, r: dict[str, Any]) -> None:
        key = hk(r["k"])
        pid = ("D", r["i"])
        deps = r.get("deps", [])
        inner_at = r.get("at", 0)
        ann = [self.annotation(d) for d in deps]
        prov = self.key_type(key)
        ann.insert(inner_at, prov)
        prov = self.noted(prov)
        shape = r.get("sh") or "n" * len(ann)
        base = self.T(key[1]) if key[0] in "CX" else self.G(key[1].partition("@")[0])
        impl = type(f"D{r['i']}", (base,), {})
        kind = r.get("kind", "factory")
        run = self._runner(pid, kind, impl, r)
        f = self._function(r, kind, shape, ann, run, f"deco{r['i']}", None)
        kw: dict[str, Any] = {}
        if r.get("ip"):
            kw["inner_parameter"] = f"d{inner_at}"
        self.container.decorate(provides=prov, decorator=f, **kw)
        mdeps = [Dep(d["f"], hk(d["k"])) for d in deps]
        ch = self.chain.setdefault(key, {"base": None, "layers": []})
        ch["layers"].append({"pid": pid, "deps": mdeps, "at": inner_at, "kind": kind})
        if ch["base"] is not None:
            self._rebind(key)

    def _rebind(self, key: Any) -> None:
        reg = self.registry = self.registry.copy()
        ch = self.chain[key]
        b0 = ch["base"]
        self.order += 1
        gen = self.order
        cur = Binding(
            rid=("r", b0["pid"], gen),
            pid=b0["pid"],
            key=key,
            level=b0["level"],
            scoped=b0["scoped"],
            kind=b0["kind"],
            deps=b0["deps"],
            is_async=b0["kind"] in ("afactory", "agen", "acm"),
            value=b0["value"],
            order=gen,
        )
        for layer in ch["layers"]:
            deps = list(layer["deps"])
            deps.insert(layer["at"], Dep("v", key, cur))
            cur = Binding(
                rid=("d", layer["pid"], gen),
                pid=layer["pid"],
                key=key,
                level=b0["level"],
                scoped=b0["layered"],
                kind=layer["kind"],
                deps=deps,
                is_async=layer["kind"] == "afactory",
                order=gen,
            )
        reg.bind[key] = cur

    def _register_open(self, r: dict[str, Any]) -> None:
        c = self.container
        name = r["tmpl"].partition("@")[0]
        tmpl = self.G(name)
        pat = patof(r)
        prov = self.provided(r)
        deps = r.get("deps", [])
        ann = [Injected[self.annotation(d)] if d.get("inj") and r.get("iw") else self.annotation(d) for d in deps]
        shape = r.get("sh") or "n" * len(ann)
        pid = ("O", r["i"])
        kind = r["kind"]
        impl = types.new_class(f"OI{r['i']}", (self.generic(name, pat),))
        run = self._runner(pid, kind, impl, r)
        kw = self._scope_args(r)
        if kind == "cls":
            impl = provider_class(impl, r.get("sty"), shape, ann, run, r)
            self._explicit(r, kw, impl, ann)
            c.add(impl, provides=prov, **kw)
        else:
            self._add_provider(r, kind, shape, ann, run, f"open{r['i']}", prov, kw)
        self._opened(r, pat)

    def _opened(self, r: dict[str, Any], pat: Any) -> None:
        reg = self.registry = self.registry.copy()
        self.order += 1
        entry = {
            "i": r["i"],
            "tmpl": r["tmpl"],
            "pat": pat,
            "deps": r.get("deps", []),
            "kind": r["kind"],
            "level": LEVEL[r["s"]] if r.get("s") is not None else self.root_level,
            "scoped": self.default_scoped if r.get("l") is None else r["l"] == "S",
            "order": self.order,
            "layers": list(self.olayers.get((r["tmpl"], pat), ())),
        }
        reg.opens = [o for o in reg.opens if not (o["tmpl"] == r["tmpl"] and o["pat"] == pat)]
        reg.opens.append(entry)

    def _decorate_open(self, r: dict[str, Any]) -> bool:
        """Decorate a template; False if no such template is registered so far."""
        name = r["tmpl"].partition("@")[0]
        tmpl = self.G(name)
        pat = patof(r)
        prov = self.provided(r)
        deps = r.get("deps", [])
        at = r.get("at", 0)
        ann = [self.annotation(d) for d in deps]
        ann.insert(at, self.generic(r["tmpl"], pat))
        shape = r.get("sh") or "n" * len(ann)
        pid = ("OD", r["i"])
        kind = r.get("kind", "factory")
        run = self._runner(pid, kind, type(f"OD{r['i']}", (tmpl,), {}), r)
        f = self._function(r, kind, shape, ann, run, f"opendeco{r['i']}", None)
        kw = {"inner_parameter": f"d{at}"} if r.get("ip") else {}
        self.container.decorate(provides=prov, decorator=f, **kw)
        layers = self.olayers.setdefault((r["tmpl"], pat), [])
        layers.append({"i": r["i"], "deps": deps, "at": at, "kind": kind})
        old = next((o for o in self.registry.opens if o["tmpl"] == r["tmpl"] and o["pat"] == pat), None)
        if old is None:
            return False
        reg = self.registry = self.registry.copy()
        reg.opens = [{**o, "layers": list(layers)} if o is old else o for o in reg.opens]
        return True

    def _bad(self, r: dict[str, Any]) -> None:
        """A registration that has to be refused."""
        c = self.container
        key = hk(r["k"])
        prov = self.key_type(key)
        how = r["how"]
        if how == "none_factory":
            c.add_factory(None, provides=prov)  # type: ignore[arg-type]
        elif how == "bad_scope":
            c.add_factory(lambda: None, provides=prov, scope="REQUEST")  # type: ignore[arg-type]
        elif how == "bad_life":
            c.add_factory(lambda: None, provides=prov, lifetime="scoped")  # type: ignore[arg-type]
        elif how == "unannotated":
            def f(x):  # type: ignore[no-untyped-def]
                return x
            c.add_factory(f, provides=prov)
        elif how == "deco_gen":
            def g(inner: prov):  # type: ignore[valid-type]
                yield inner
            c.decorate(provides=prov, decorator=g)
        elif how == "deco_noinner":
            def h(other: int) -> Any:
                return other
            c.decorate(provides=prov, decorator=h)
        elif how == "deco_badinner":
            def h2(inner: prov) -> Any:  # type: ignore[valid-type]
                return inner
            c.decorate(provides=prov, decorator=h2, inner_parameter="zzz")
        elif how == "deco_notcallable":
            c.decorate(provides=prov, decorator=5)  # type: ignore[arg-type]
        elif how == "inst_none":
            c.add_instance(object(), provides=None)
        elif how == "bad_component":
            c.add_instance(object(), provides=Annotated[self.T(key[1]), Component("z")], component="y")
        elif how == "contract":
            # a provider deeper than the explicit scope of an injected callable that needs it
            def f2() -> Any:
                raise AssertionError
            c.add_factory(f2, provides=prov, scope=self.scopes["STEP"])
        else:
            raise K.SimError(how)

    def _make_inject(self, inj: dict[str, Any]) -> None:
        params = inj["params"]
        n = len(params)
        plain = inj.get("plain", 0)
        sh = inj_shape(inj)
        sig: list[str] = [f"x{j}" for j in range(plain)]
        z = inj.get("z")
        for kind in "pqnd":
            if kind == "n" and any(x in sh for x in "pq"):
                sig.append("/")
            if z and kind == {"q": "q", "d": "d"}.get(z):
                sig.append("z0=DEF")
            sig += [f"d{j}: {repr(f'D{j}') if inj.get('str') else f'D{j}'}{'=DEF' if kind in 'qd' else ''}" for j in range(n) if sh[j] == kind]
        if inj.get("rest"):
            sig.append("*rest")
        elif "k" in sh or inj.get("y") or z == "k":
            sig.append("*")
        if inj.get("y"):
            sig.append("y0")
        if z == "k":
            sig.append("z0=DEF")
        sig += [f"d{j}: {repr(f'D{j}') if inj.get('str') else f'D{j}'}{'=DEF' if (j + n) % 3 == 0 else ''}" for j in range(n) if sh[j] == "k"]
        if inj.get("more"):
            sig.append("**more")
        meth = inj.get("meth", 0)
        if meth in (1, 2, 4):
            sig.insert(0, "this")
        kws = [x for x, on in (("'y0': y0", inj.get("y")), ("'z0': z0", z), ("**more", inj.get("more"))) if on]
        src = (
            f"def make(W, INJ):\n"
            f"    {'async ' if inj['async'] else ''}def injected({', '.join(sig)}):\n"
            f"        c = W.ex.run_inject_body(INJ, dict({', '.join(f'd{j}=d{j}' for j in range(n))}), ({''.join(f'x{j}, ' for j in range(plain))}{'*rest, ' if inj.get('rest') else ''}), {{{', '.join(kws)}}})\n"
            f"        return {'await c' if inj['async'] else 'DRIVE(c)'}\n"
            f"    return injected\n"
        )
        ns: dict[str, Any] = {"DRIVE": drive, "DEF": KEPT}
        for j, p in enumerate(params):
            t = self.dep_annotation(p["f"], hk(p["k"]), p.get("mb"))
            ns[f"D{j}"] = t if p["f"] == "c" else Injected[t]
        exec(compile(src, "<workload inject>", "exec", dont_inherit=True), ns)
        inj = dict(inj)
        fn = ns["make"](self, inj)
        kw: dict[str, Any] = {}
        if inj.get("scope"):
            kw["scope"] = self.scopes[inj["scope"]]
        if not inj.get("auto", True):
            kw["auto_open_scope"] = False
        wrap = self.rctx.inject(**kw) if kw else self.rctx.inject
        if meth == 4:
            # a method that is bound already
            inj["fn"] = wrap(type("Handler", (), {"injected": fn})().injected)
        else:
            fn = wrap(fn)
            if meth:
                fn = type("Handler", (), {"injected": {1: fn, 2: classmethod(fn), 3: staticmethod(fn)}[meth]})().injected
            inj["fn"] = fn
        self.injects.append(inj)

    def inject_level(self, inj: dict[str, Any], reg: Registry) -> int:
        """Level of the scope an injected callable needs (handle targets count, context values do not)."""
        lv = self.root_level

        def go(form: str, key: Any, seen: tuple[Any, ...]) -> int:
            if form in ("c", "mc", "t"):
                return self.root_level
            if form == "a":
                return max([of(b, seen) for b in reg.all_of(key[1])], default=self.root_level)
            b = reg.get(key)
            return self.root_level if b is None else of(b, seen)

        def of(b: Binding, seen: tuple[Any, ...]) -> int:
            if b.rid in seen or b.rid[0] == "og":
                return b.level
            m = b.level
            for d in b.deps:
                m = max(m, of(d.direct, (*seen, b.rid)) if d.direct is not None else go(d.form, d.key, (*seen, b.rid)))
            return m

        for p in inj["params"]:
            lv = max(lv, go(p["f"], hk(p["k"]), ()))
        return lv

    def touches_open(self, form: str, key: Any, node: Node) -> bool:
        reg = node.reg
        if not reg.opens:
            return False
        seen: set[Any] = set()

        def of(b: Binding) -> bool:
            if b.rid in seen:
                return False
            seen.add(b.rid)
            return b.rid[0] == "og" or any(of(x) for x in reg.dep_bindings(b))

        if form == "a":
            return any(of(b) for b in reg.all_of(key[1]))
        b = reg.get(key) if form in ("v", "m") else None
        return b is not None and of(b)

    # -- model bookkeeping of builds ------------------------------------------------------------
    def find_binding(self, pid: Any, deps: tuple[Any, ...], node: Node) -> Binding | None:
        """Binding that a call of provider ``pid`` belongs to (in the registrations ``node`` runs on)."""
        reg = node.reg
        if reg.pidx is None:
            reg.pidx = {}
            for b in reg.bind.values():
                x: Binding | None = b
                while x is not None:
                    reg.pidx[x.pid] = x
                    x = next((d.direct for d in x.deps if d.direct is not None), None)
        return reg.pidx.get(pid)

    def note_build(self, b: Build, deps: tuple[Any, ...]) -> None:
        """A provider call succeeded: find its owner and count."""
        node = b.node
        if node is None:
            return
        pid = b.pid
        if isinstance(pid, tuple) and pid[0] == "O":
            spec = self.runners[pid].spec
            targ = {d.get("tv", "T"): v for d, v in zip(spec.get("deps", ()), deps) if d["f"] == "t"}
            okey = self._open_key(spec, targ)
            bind = self._link(node.reg.get(okey) if okey is not None else None, pid)
            if bind is None:
                self.violate("wrong", f"open provider {pid} called for {targ!r} although it does not serve {okey}")
                return
        elif isinstance(pid, tuple) and pid[0] == "OD":
            spec = self.runners[pid].spec
            inner = deps[spec.get("at", 0)]
            made = self.by_uid.get(inner.uid) if isinstance(inner, Obj) else None
            if made is None or made.rid is None or made.rid[0] != "og":
                self.violate("wrong", f"open decorator {pid} was given {inner!r}")
                return
            bind = self._link(node.reg.get(made.rid[2]), pid)
        else:
            bind = self.find_binding(pid, deps, node)
        if bind is None:
            self.violate("wrong", f"provider {pid} called although it is not registered in {self.show(node)}")
            return
        b.rid = bind.rid
        if not bind.scoped and not bind.resource:
            return
        owner = node.owner(bind.level)
        b.owner = owner
        if owner is None:
            self.violate("scope", f"provider {pid} of level {bind.level} ran for {self.show(node)}")
            return
        if bind.scoped:
            k = (owner.nid, bind.rid)
            n = self.ok_builds[k] = self.ok_builds.get(k, 0) + 1
            if n > 1 and self.early_sync(b, bind):
                self.split.add(k)
            elif n > 1:
                self.violate("dup", f"{self.name(bind)} constructed {n} times for {self.show(owner)}")
        if bind.resource and b.res is not None:
            owner.res.append(b.res)

    def early_sync(self, b: Build, bind: Binding) -> bool:
        """A synchronous request answered an open generic (all its asynchronous dependencies being there
        already, or in another thread) while an asynchronous request was making it: ``LockMode.ASYNC``
        guards the latter only."""
        if bind.rid[0] != "og" or b.node is None:
            return False
        mode = (self.regspecs.get(bind.pid) or {}).get("lk") or self.spec["container"].get("lock", "auto")
        if mode == "thread":
            return False
        ops = [x.op for x in self.builds if x.rid == bind.rid and x.owner is b.owner and x.ok and x.op is not None]
        if not b.node.reg.requires_async(bind) and not any(x.env.label.endswith(".pool") or ".pool." in x.env.label for x in ops if x.sync):
            return False
        return any(x.sync for x in ops) and any(not x.sync for x in ops)

    @staticmethod
    def _link(b: Binding | None, pid: Any) -> Binding | None:
        """The link of a decoration chain that provider ``pid`` makes."""
        while b is not None and b.pid != pid:
            b = next((d.direct for d in b.deps if d.direct is not None), None)
        return b

    def _open_key(self, spec: dict[str, Any], targ: dict[str, Any]) -> Any:
        """Key of the closing that a provider was called for, by the type arguments it was given."""
        m = {tv: self._node_of(t) for tv, t in targ.items()}
        if None in m.values():
            return None
        return ("G", spec["tmpl"], *(subst(p, m) for p in patof(spec)))

    def _node_of(self, t: Any) -> Any:
        for name, x in ARGT.items():
            if x is t or get_origin(x) is not None and x == t:
                return name
        for i, x in self.types.items():
            if x is t:
                return ("C", i)
        org = get_origin(t)
        if org in (set, dict, collections.abc.Callable):
            a = get_args(t)[org is dict]
            a = self._node_of(a[0] if isinstance(a, list) else a)
            return None if a is None else ("G", "Gi", a)
        for name, g in self.gens.items():
            if g is org:
                args = tuple(self._node_of(a) for a in get_args(t))
                return None if None in args else ("G", name, *args)
        return None

    def name(self, b: Binding) -> str:
        return f"{b.key}#{b.pid}"

    def show(self, n: Node | None) -> str:
        if n is None:
            return "no scope"
        return f"{NAME.get(n.level, n.level)}[{n.nid}]"

    # -- scope model ---------------------------------------------------------------------------
    def root(self) -> Node:
        """Model node of the container's current root."""
        if self.dirty or self.root_node is None:
            self.dirty = False
            self.root_node = self.new_node(self.root_level, None, None, self.registry)
        return self.root_node

    def new_node(self, level: int, parent: Node | None, ctx: Any, reg: Registry) -> Node:
        n = Node(len(self.nodes), level, parent, ctx, reg)
        self.nodes.append(n)
        return n

    def open_chain(self, base: Node, target: int | None, ctx: Any) -> Node | None:
        path = self.transition(base.level, target)
        if path is None:
            return None
        cur = base
        made = []
        for i, lv in enumerate(path):
            cur = self.new_node(lv, cur, ctx if i == len(path) - 1 else None, base.reg)
            made.append(cur)
        if made:
            cur.owned = made[:-1]
        return cur

    # -- expectations -----------------------------------------------------------------------------
    def errors(self, form: str, key: Any, node: Node, sync: bool) -> set[type]:
        """Refusals that a request may end with, by construction of the graph."""
        out: set[type] = set()
        if form == "v":
            b = node.reg.get(key)
            if b is None:
                out.add(self.missing(node.reg, key))
            else:
                self._walk(b, node, sync, out, set())
        elif form == "m":
            b = node.reg.get(key)
            if b is not None:
                self._walk(b, node, sync, out, set())
            elif node.reg.refuses(key):
                out.add(self.missing(node.reg, key))
        elif form == "a":
            for b in node.reg.all_of(key[1]):
                self._walk(b, node, sync, out, set())
        elif form == "c":
            if not node.lookup_ctx(key[1])[0]:
                out.add(dx.DIWireDependencyNotRegisteredError)
        return out

    @staticmethod
    def missing(reg: Registry, key: Any) -> type:
        return dx.DIWireInvalidGenericTypeArgumentError if reg.refuses(key) else dx.DIWireDependencyNotRegisteredError

    def _walk(self, b: Binding, node: Node, sync: bool, out: set[type], seen: set[Any]) -> None:
        if (b.rid, node.nid) in seen or b.kind == "inst":
            return
        seen.add((b.rid, node.nid))
        if sync and node.reg.requires_async(b):
            out.add(dx.DIWireAsyncDependencyInSyncContextError)
        owner = node.owner(b.level)
        if owner is None:
            out.add(dx.DIWireScopeMismatchError)
            return
        at = self.eval_node(b, node, owner)
        for d in b.deps:
            if d.direct is not None:
                self._walk(d.direct, at, sync, out, seen)
            elif d.form == "c":
                if not at.lookup_ctx(d.key[1])[0]:
                    out.add(dx.DIWireDependencyNotRegisteredError)
            elif d.form in ("v", "m"):
                x = at.reg.get(d.key)
                if x is None:
                    if d.form == "v" or at.reg.refuses(d.key):
                        out.add(self.missing(at.reg, d.key))
                else:
                    self._walk(x, at, sync, out, seen)
            elif d.form == "a":
                for x in at.reg.all_of(d.key[1]):
                    self._walk(x, at, sync, out, seen)

    def eval_node(self, b: Binding, node: Node, owner: Node) -> Node:
        """Scope whose services a new instance of ``b`` requested from ``node`` is wired with."""
        if b.scoped:
            return owner
        if b.rid[0] == "og":
            return owner
        return owner if node.reg.max_level(b) <= b.level else node

    # -- value oracle --------------------------------------------------------------------------------
    def check_value(self, form: str, key: Any, value: Any, node: Node, op: Op, path: str) -> None:
        if form == "v":
            b = node.reg.get(key)
            if b is None:
                self.violate("missing-error", f"{path}: a value was returned for an unregistered key")
                return
            self.check_binding(b, value, node, op, path)
        elif form == "m":
            b = node.reg.get(key)
            if b is None:
                if value is not None:
                    self.violate("wrong", f"{path}: optional without registration is {value!r}")
                return
            self.check_binding(b, value, node, op, path)
        elif form == "a":
            bs = node.reg.all_of(key[1])
            if not isinstance(value, tuple) or len(value) != len(bs):
                self.violate("wrong", f"{path}: collection {value!r}, registered: {[self.name(b) for b in bs]}")
                return
            for i, (b, v) in enumerate(zip(bs, value)):
                self.check_binding(b, v, node, op, f"{path}[{i}]")
        elif form in ("p", "ap"):
            if not callable(value):
                self.violate("wrong", f"{path}: handle is {value!r}")
                return
            self.handles.append((value, form, key, node))
        elif form in ("c", "mc"):
            found, want = node.lookup_ctx(key[1])
            if not found:
                if form == "mc":
                    if value is not None:
                        self.violate("ctx", f"{path}: context value {value!r} although no enclosing scope supplies {key[1]}")
                else:
                    self.violate("ctx", f"{path}: context value {value!r} although no enclosing scope supplies {key[1]}")
            elif value is not want:
                self.violate("ctx", f"{path}: context value {value!r} instead of {want!r} in {self.show(node)}")
        else:
            raise K.SimError(form)

    def check_binding(self, b: Binding, value: Any, node: Node, op: Op, path: str) -> None:
        if len(self.violations) > 20:
            return
        if b.kind == "inst":
            if value is not b.value:
                self.violate("wrong", f"{path}: {value!r} instead of the registered instance of {self.name(b)}")
            return
        nv = (self.regspecs.get(b.pid) or {}).get("nv")
        if nv is not None:
            if value is not VALUES[nv]:
                self.violate("wrong", f"{path}: {value!r} instead of {VALUES[nv]!r}, which {self.name(b)} gives")
            owner = node.owner(b.level)
            if owner is None:
                self.violate("scope", f"{path}: {value!r} obtained in {self.show(node)} without an open {NAME[b.level]} scope")
            elif b.scoped and not self.ok_builds.get((owner.nid, b.rid)):
                self.violate("half-built", f"{path}: {value!r} came although {self.name(b)} was not called for {self.show(owner)}")
            return
        if not isinstance(value, Obj):
            self.violate("wrong", f"{path}: {type(value).__name__} {value!r} is not a {self.name(b)}")
            return
        build = self.by_uid.get(value.uid)
        if build is None or not build.ok or not value.done or build.obj is not value:
            self.violate("half-built", f"{path}: {value!r} was never completely constructed")
            return
        if value.reg != b.pid:
            self.violate("wrong", f"{path}: {value!r} returned for {self.name(b)}")
            return
        if b.rid[0] == "og" and build.rid != b.rid:
            self.violate("wrong", f"{path}: {value!r} built for {build.rid} returned for {b.key}")
            return
        owner = node.owner(b.level)
        if owner is None:
            self.violate("scope", f"{path}: {value!r} obtained in {self.show(node)} without an open {NAME[b.level]} scope")
            return
        at = self.eval_node(b, node, owner)
        if b.scoped:
            got = owner.memo.get(b.rid)
            if got is not None:
                if got is not value and (owner.nid, b.rid) in self.split and build.rid == b.rid and build.owner is owner:
                    return
                if got is not value:
                    other = self.scoped_owner.get(value.uid)
                    cat = "ident"
                    extra = ""
                    if other is not None and other is not owner:
                        cat, extra = "cross", f" which belongs to {self.show(other)}"
                    self.violate(cat, f"{path}: {value!r}{extra} instead of {got!r} owned by {self.show(owner)}")
                return
            other = self.scoped_owner.get(value.uid)
            if other is not None and other is not owner:
                self.violate("cross", f"{path}: {value!r} of {self.show(other)} handed out in {self.show(owner)}")
                return
            if build.owner is not None and build.owner is not owner:
                self.violate("cross", f"{path}: {value!r} built for {self.show(build.owner)} handed out in {self.show(owner)}")
                return
            owner.memo[b.rid] = value
            self.scoped_owner[value.uid] = owner
        else:
            if value.uid in self.seen_transient:
                self.violate("stale", f"{path}: {value!r} of transient {self.name(b)} already used at {self.seen_transient[value.uid]}")
                return
            self.seen_transient[value.uid] = path
        dm = value.deps
        if len(dm) != len(b.deps):
            self.violate("wrong", f"{path}: {value!r} got {len(dm)} arguments instead of {len(b.deps)}")
            return
        for i, d in enumerate(b.deps):
            v = dm[f"d{i}"]
            p = f"{path}.d{i}"
            if d.direct is not None:
                self.check_binding(d.direct, v, at, op, p)
            elif d.form == "t":
                want = self.arg_type(d.key)
                if v != want:
                    self.violate("wrong", f"{p}: type argument {v!r} instead of {want!r}")
            else:
                self.check_value(d.form, d.key, v, at, op, p)

    # -- releases ---------------------------------------------------------------------------------------
    def on_release(self, res: Res, op: Op | None, exc: BaseException | None) -> None:
        b = res.build
        if len(res.rel_start) > 1:
            self.violate("rel-dup", f"resource {b.obj!r} released {len(res.rel_start)} times")
            return
        owner = b.owner
        if owner is None:
            return
        top = self.closing(owner)
        if top is None:
            for n in self.nodes:
                if n.inj is not None and (n is owner or owner in n.owned):
                    if n.inj.phase == "args":
                        # the call is being given up before its function ran; judged when it has ended
                        n.inj.phase = "exit"
                        n.close0 = self.tick()
                        return
            if owner.close1 is not None:
                if not (res.gc and res.is_async):  # an abandoned async generator finalised by its loop
                    self.violate("rel-late", f"resource {b.obj!r} of {self.show(owner)} released after that scope had ended")
                return
            self.violate("rel-early", f"resource {b.obj!r} of {self.show(owner)} released while that scope is open")
            return
        if top.inj is not None:
            return  # compared with the outcome of the call when it has ended
        want = top.exit_exc
        if exc is not want:
            self.violate("rel-exc", f"release of {b.obj!r} saw {exc!r}, the scope ended with {want!r}")

    def closing(self, n: Node) -> Node | None:
        """The scope whose exit is running right now and that ends ``n`` (n itself or its owning deeper scope)."""
        if n.close0 is not None and n.close1 is None:
            return n
        for o in self.nodes:
            if n in o.owned and o.close0 is not None and o.close1 is None:
                return o
        return None

    def close_begin(self, n: Node, exc: BaseException | None, sync: bool) -> None:
        n.exit_exc = exc
        n.exit_sync = sync
        n.close0 = self.tick()
        n.close1 = None

    def close_end(self, n: Node) -> None:
        n.close1 = self.tick()
        n.open = False
        group = [n, *n.owned]
        for g in group:
            g.open = False
            for res in g.res:
                if res.rel_start:
                    continue
                if res.is_async and n.exit_sync:
                    continue
                if getattr(res, "gc", False):
                    self.violate("rel-missing", f"resource {res.build.obj!r} of {self.show(g)} dropped without release")
                else:
                    self.violate("rel-missing", f"resource {res.build.obj!r} of {self.show(g)} not released when its scope had ended")
            self.check_order(g)
        # deeper owned first
        for g in group[1:]:
            for res in g.res:
                for deeper in group:
                    for r2 in deeper.res if deeper.level > g.level else ():
                        if res.rel_start and r2.rel_start and res.rel_start[0] < r2.rel_start[0]:
                            self.violate("rel-order", f"{res.build.obj!r} of the outer {self.show(g)} released before {r2.build.obj!r} of {self.show(deeper)}")

    def check_order(self, g: Node) -> None:
        rs = [r for r in g.res if r.rel_start]
        for i, a in enumerate(rs):
            for b in rs:
                if a is b:
                    continue
                if self.surely_before(a, b) and a.rel_start[0] < b.rel_start[0]:
                    self.violate(
                        "rel-order",
                        f"{a.build.obj!r} acquired before {b.build.obj!r} in {self.show(g)} but released first",
                    )
                elif self.surely_before(a, b) and b.rel_end and a.rel_start[0] < b.rel_end[0]:
                    self.violate("rel-order", f"release of {a.build.obj!r} began before that of {b.build.obj!r} was finished")

    def surely_before(self, a: Res, b: Res) -> bool:
        ba, bb = a.build, b.build
        if ba.seq1 >= bb.seq0:
            return False
        if ba.actor is bb.actor:
            return True
        if ba.op is not None and ba.op.seq1 and ba.op.seq1 < bb.seq0:
            return True
        return self.depends(bb.obj, ba.obj, 0)

    def depends(self, x: Any, y: Any, depth: int) -> bool:
        if depth > 8 or not isinstance(x, Obj):
            return False
        for v in x.deps.values():
            if v is y:
                return True
            if isinstance(v, tuple):
                if any(z is y or self.depends(z, y, depth + 1) for z in v):
                    return True
            elif self.depends(v, y, depth + 1):
                return True
        return False
