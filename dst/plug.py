"""Test sessions run by the pytest plugin (P19): pytest itself, real, inside the simulator.

One run is one pytest session in memory: generated modules with test functions, methods, fixtures and
containers, in a seeded order, whose tests fail, whose containers and providers fail, and whose bodies
are run by several simulated threads or tasks at once.  What the session reports and what every test
received is judged against the container that pytest gives to that test.
"""

from __future__ import annotations

import asyncio
import functools
import inspect
import os
import shutil
import tempfile
import types
import zlib
from collections import Counter
from typing import Annotated, Any

import pytest
import diwire.integrations.pytest_plugin  # noqa: F401  (here, so that no simulated session is the one that imports it)

from diwire import (
    AsyncProvider,
    Component,
    Container,
    DependencyRegistrationPolicy,
    Injected,
    Lifetime,
    LockMode,
    Maybe,
    MissingPolicy,
    Provider,
    ResolverContext,
    Scope,
)

from dst import kernel as K
from dst.gen import wirable, wired
from dst.loop import run_loop

LIFE = {"S": Lifetime.SCOPED, "T": Lifetime.TRANSIENT}
LOCK = {"thread": LockMode.THREAD, "async": LockMode.ASYNC, "none": LockMode.NONE, "auto": "auto"}
FLAGS = ["-s", "--assert=plain", "-c", os.devnull, "-p", "no:cacheprovider", "-p", "no:terminal", "-p", "no:faulthandler",
         "-p", "no:logging", "-p", "no:threadexception", "-p", "no:unraisableexception", "-p", "no:warnings", "-p", "no:doctest",
         "-p", "no:unittest", "-p", "no:junitxml", "-p", "no:pastebin", "-p", "no:setuponly", "-p", "no:setupplan", "-p", "no:stepwise",
         "-p", "no:recwarn", "-p", "no:monkeypatch", "-p", "no:debugging", "-p", "no:subtests", "-p", "diwire.integrations.pytest_plugin"]


def scratch(n: int) -> str:
    """A directory with empty files: pytest wants paths, although the modules never touch the disk."""
    d = tempfile.mkdtemp(prefix="dst-pytest-")
    for i in range(n):
        with open(os.path.join(d, f"m{i}.sim"), "w"):
            pass
    return d


class Boom(Exception):
    """A planned failure of a provider, a fixture or a test."""


class Made:
    """Something a provider made."""

    __slots__ = ("tag", "k", "deps", "obj", "item", "fresh", "ended", "exc", "kind")

    def __init__(self, tag: Any, k: int, obj: Any, deps: list[Any], item: int, kind: str) -> None:
        self.tag, self.k, self.obj, self.deps, self.item, self.kind = tag, k, obj, deps, item, kind
        self.fresh = True
        self.ended = 0
        self.exc: Any = None


class Cont:
    """A container of the session: what it knows."""

    def __init__(self, cid: Any, spec: dict[str, Any], obj: Any, n: int) -> None:
        self.cid, self.spec, self.obj, self.n = cid, spec, obj, n
        self.regs: dict[int, dict[str, Any]] = {}
        self.known: set[int] = set()
        self.inst: dict[int, Any] = {}
        self.closed = False
        self.since = 0  # the test that last extended its graph


class Call:
    """One execution of a test's function."""

    def __init__(self) -> None:
        self.ran = False
        self.exc: BaseException | None = None
        self.inst: dict[int, Any] = {}


class PytWorld:
    uid = 0

    def __init__(self, spec: dict[str, Any]) -> None:
        self.spec = spec
        self.violations: list[tuple[str, str]] = []
        self.stats: Counter[str] = Counter()
        self.builds: list[Any] = []
        self.log: list[Any] = []
        self.evsig = 0
        self.svcs = {s["i"]: s for s in spec["svcs"]}
        for s in self.svcs.values():
            s["deps"] = [d for d in s.get("deps", ()) if d["k"] in self.svcs]
        self.types: dict[int, type] = {}
        self.made: dict[int, Made] = {}  # id(obj) -> Made
        self.all: list[Made] = []
        self.nth: Counter[Any] = Counter()
        self.conts: list[Cont] = []
        self.item_n = 0
        self.item: Any = None
        self.cur: Cont | None = None
        self.calls: list[Call] = []
        self.booms: list[BaseException] = []
        self.fixture_booms: list[BaseException] = []
        self.outcomes: list[tuple[str, str]] = []
        self.running = 0
        self.fits = True
        for i in self.svcs:
            self._type(i)

    def violate(self, cat: str, msg: str) -> None:
        self.violations.append((cat, msg))
        self.log.append(("violation", cat, msg))

    def ev(self, what: str) -> None:
        self.log.append(what)
        self.evsig = (self.evsig * 1000003 ^ zlib.crc32(what.encode())) & 0xFFFFFFFFFFFFFFFF

    # -- services ------------------------------------------------------------------------------
    def annotation(self, d: dict[str, Any]) -> Any:
        t: Any = self.types[d["k"]]
        f = d.get("f", "v")
        return Maybe[t] if f == "m" else Provider[t] if f == "p" else AsyncProvider[t] if f == "ap" else t

    def _init_of(self, i: int, tag: Any) -> Any:
        deps = self.svcs[i]["deps"]
        w = self

        def __init__(self: Any, *args: Any, **kw: Any) -> None:
            w.build(tag, i, self, list(args) + [kw[k] for k in sorted(kw)])

        P = inspect.Parameter
        __init__.__signature__ = inspect.Signature(  # type: ignore[attr-defined]
            [P("self", P.POSITIONAL_OR_KEYWORD)] + [P(f"d{j}", P.POSITIONAL_OR_KEYWORD, annotation=self.annotation(d)) for j, d in enumerate(deps)])
        __init__.__annotations__ = {f"d{j}": self.annotation(d) for j, d in enumerate(deps)}
        return __init__

    def _type(self, i: int) -> type:
        if i not in self.types:
            for d in self.svcs[i]["deps"]:
                self._type(d["k"])
            self.types[i] = type(f"S{i}", (), {"__module__": "sim", "__init__": self._init_of(i, None)})
        return self.types[i]

    def _pause(self) -> None:
        k, me = K.ACTIVE, K.current()
        if k is not None and me is not None:
            k.step(me, 1)

    def begin(self, tag: Any, i: int) -> None:
        """A provider starts: let others run, and fail if so planned."""
        self.stats["provider_calls"] += 1
        self.nth[i] += 1
        self.ev(f"build {tag} {i}")
        self._pause()
        if self.nth[i] in self.spec.get("fail", {}).get(str(i), ()):
            self.stats["fault:provider_fails"] += 1
            e = Boom("provider", i, self.nth[i])
            self.booms.append(e)
            raise e

    def build(self, tag: Any, i: int, obj: Any, deps: list[Any], kind: str = "cls") -> Any:
        self.begin(tag, i)
        return self.note(tag, i, obj, deps, kind)

    def note(self, tag: Any, i: int, obj: Any, deps: list[Any], kind: str) -> Any:
        self._pause()
        m = Made(tag, i, obj, deps, self.item_n, kind)
        self.made[id(obj)] = m
        self.all.append(m)
        return obj

    def provider(self, i: int, tag: Any, kind: str) -> Any:
        w = self
        deps = self.svcs[i]["deps"]
        T = self.types[i]
        names = [f"d{j}" for j in range(len(deps))]

        def new(kw: dict[str, Any]) -> Any:
            w.begin(tag, i)
            return w.note(tag, i, T.__new__(T), [kw[n] for n in names], kind)

        def end(obj: Any, e: BaseException | None) -> None:
            m = w.made[id(obj)]
            m.ended += 1
            m.exc = e
            w.stats["releases"] += 1
            w.ev(f"release {tag} {i}")
            if m.ended > 1:
                w.violate("rel-dup", f"S{i} of {tag} was released {m.ended} times")

        if kind == "fn":
            def f(**kw: Any) -> Any:
                return new(kw)
        elif kind == "gen":
            def f(**kw: Any) -> Any:
                o = new(kw)
                try:
                    yield o
                except BaseException as e:
                    end(o, e)
                    raise
                end(o, None)
        elif kind == "async":
            async def f(**kw: Any) -> Any:
                await asyncio.sleep(0)
                return new(kw)
        else:
            async def f(**kw: Any) -> Any:
                o = new(kw)
                await asyncio.sleep(0)
                try:
                    yield o
                except BaseException as e:
                    end(o, e)
                    raise
                end(o, None)
        P = inspect.Parameter
        f.__signature__ = inspect.Signature([P(n, P.KEYWORD_ONLY, annotation=self.annotation(d)) for n, d in zip(names, deps)])  # type: ignore[attr-defined]
        f.__annotations__ = {n: self.annotation(d) for n, d in zip(names, deps)}
        return f

    # -- containers ------------------------------------------------------------------------------
    def container(self, cid: Any, spec: dict[str, Any]) -> Container:
        kw: dict[str, Any] = {"lock_mode": LOCK[spec.get("lock", "auto")], "use_resolver_context": spec.get("ctx", True)}
        if spec.get("own"):
            kw["resolver_context"] = ResolverContext()
        if spec.get("strict"):
            kw["missing_policy"] = MissingPolicy.ERROR
            kw["dependency_registration_policy"] = DependencyRegistrationPolicy.IGNORE
        c = Container(**kw)
        n = self.nth["container", cid] = self.nth["container", cid] + 1
        rec = Cont(cid, spec, c, n)
        rec.regs = wired(self.svcs, spec.get("regs", ()), bool(spec.get("strict")))
        for r in spec.get("regs", ()):
            if r["k"] not in self.types:
                continue
            self.register(c, rec, r)
        self.conts.append(rec)
        rec.known |= set(rec.regs)
        if spec.get("pre"):
            c.compile()
        return c

    def register(self, c: Container, rec: Cont, r: dict[str, Any]) -> None:
        i = r["k"]
        T = self.types[i]
        tag = (rec.cid, rec.n)
        kw: dict[str, Any] = {"provides": T, "lifetime": LIFE[r.get("life", "S")], "scope": Scope.REQUEST if r.get("req") else Scope.APP}
        kind = r.get("kind", "cls")
        if kind == "cls":
            c.add(type(f"I{i}", (T,), {"__module__": "sim", "__init__": self._init_of(i, tag)}), **kw)
        elif kind == "inst":
            o = T.__new__(T)
            self.note(tag, i, o, [], kind)
            rec.inst[i] = o
            c.add_instance(o, provides=T)
        elif kind in ("gen", "agen"):
            c.add_generator(self.provider(i, tag, kind), **kw)
        else:
            c.add_factory(self.provider(i, tag, kind), **kw)

    def learn(self, rec: Cont, k: int) -> bool:
        """Classes wired on first use when ``k`` is; is it a new one?"""
        if k in rec.known:
            return False
        rec.known.add(k)
        for d in self.svcs[k]["deps"]:
            if d["f"] == "v":
                self.learn(rec, d["k"])
        return True

    def rec_of(self, c: Any) -> Cont:
        for r in self.conts:
            if r.obj is c:
                return r
        r = Cont("default", {}, c, len(self.conts))
        self.conts.append(r)
        return r

    # -- judging -----------------------------------------------------------------------------------
    def judge(self, what: str, v: Any, d: dict[str, Any], rec: Cont, call: Call) -> None:
        k = d["k"]
        reg = rec.regs.get(k)
        if d["f"] == "m":
            if v is None:
                if reg is not None:
                    self.violate("wrong", f"{what}: None for an optional S{k} that {rec.cid} provides")
                return
            if reg is None and rec.spec.get("strict"):  # (elsewhere it may have been wired for another)
                self.violate("wrong", f"{what}: {v!r} for an optional S{k} that {rec.cid} does not provide")
                return
        m = self.made.get(id(v))
        if m is None or m.obj is not v or m.k != k:
            self.violate("wrong", f"{what}: got {v!r} instead of S{k}")
            return
        tag = (rec.cid, rec.n) if reg is not None and reg["kind"] != "auto" else None
        if m.tag != tag:
            self.violate("isolation", f"{what}: got the S{k} of {m.tag}, not of {tag}")
            return
        if m.ended:
            self.violate("stale", f"{what}: got an S{k} that has been released")
        life = reg.get("life", "S") if reg is not None and reg.get("kind") != "inst" else "S"
        if life == "T":
            if not m.fresh:
                self.violate("ident", f"{what}: got a transient S{k} a second time")
                return
            m.fresh = False
        else:
            where = call.inst if reg is not None and reg.get("req") else rec.inst
            if where.setdefault(k, v) is not v:
                self.violate("ident", f"{what}: another S{k} than before from the same scope")
                return
            if not m.fresh:
                return
            m.fresh = False
            if where is rec.inst:
                for r2 in self.conts:
                    if r2 is not rec and r2.inst.get(k) is v:
                        self.violate("isolation", f"{what}: the S{k} of another container")
            elif m.item != self.item_n:
                self.violate("stale", f"{what}: an S{k} of another test's scope")
        if reg is not None and reg.get("kind") == "inst":
            return
        deps = self.svcs[k]["deps"]
        if len(deps) != len(m.deps):
            self.violate("wrong", f"{what}: S{k} was made from {m.deps!r}")
            return
        for j, (d2, v2) in enumerate(zip(deps, m.deps)):
            self.judge(f"{what}.d{j}", v2, d2, rec, call)

    def handle(self, what: str, h: Any, d: dict[str, Any], rec: Cont, call: Call) -> Any:
        try:
            return h()
        except BaseException as e:  # noqa: BLE001
            call.exc = e
            raise

    def _open(self, t: dict[str, Any], vals: dict[str, Any]) -> tuple[Call, Cont]:
        call = Call()
        call.ran = True
        self.calls.append(call)
        self.running += 1
        if self.running > 1:
            self.stats["overlapping_ops"] += 1
        self.stats["bodies"] += 1
        self.ev(f"body {t['id']}")
        assert self.cur is not None
        return call, self.cur

    def _values(self, t: dict[str, Any], vals: dict[str, Any], rec: Cont, call: Call) -> None:
        for j, d in enumerate(t["params"]):
            if d["f"] in ("v", "m"):
                self.judge(f"test {t['id']}: p{j}", vals[f"p{j}"], d, rec, call)
        for f in t.get("fx", ()):
            want = ("fx", f) if f != "request" else None
            if want is not None and vals.get(f) != want and f.startswith("fx"):
                self.violate("wrong", f"test {t['id']}: fixture {f} is {vals.get(f)!r}")
        if t.get("pz") and vals.get("n") not in range(t["pz"]):
            self.violate("wrong", f"test {t['id']}: parameter n is {vals.get('n')!r}")
        if t.get("dflt") and vals.get("z") != 7:
            self.violate("wrong", f"test {t['id']}: the default of z became {vals.get('z')!r}")

    def _close(self, t: dict[str, Any], vals: dict[str, Any], call: Call) -> None:
        for j, d in enumerate(t["params"]):
            m = self.made.get(id(vals[f"p{j}"])) if d["f"] in ("v", "m") else None
            if m is not None and m.ended:
                self.violate("rel-early", f"test {t['id']}: p{j} was released while the test ran")
        body = t.get("body", "ok")
        if body == "raise":
            self.stats["fault:test_fails"] += 1
            call.exc = Boom("test", t["id"])
            raise call.exc
        if body == "skip":
            self.stats["fault:test_skips"] += 1
            try:
                pytest.skip("so")
            except BaseException as e:
                call.exc = e
                raise

    def body(self, t: dict[str, Any], vals: dict[str, Any]) -> None:
        call, rec = self._open(t, vals)
        try:
            self._values(t, vals, rec, call)
            for _ in range(t.get("gap", 0)):
                self._pause()
            for j, d in enumerate(t["params"]):
                if d["f"] == "p":
                    self.judge(f"test {t['id']}: p{j}()", self.handle("", vals[f"p{j}"], d, rec, call), {"k": d["k"], "f": "v"}, rec, call)
            if t.get("use") and "diwire_container" in vals:
                if vals["diwire_container"] is not rec.obj:
                    self.violate("isolation", f"test {t['id']}: the container fixture of another test")
                for d in t["params"]:
                    r = rec.regs.get(d["k"])
                    if d["f"] == "v" and not (r and r.get("req")):
                        self.judge(f"test {t['id']}: resolve(S{d['k']})", self.handle("", lambda: rec.obj.resolve(self.types[d["k"]]), d, rec, call),
                                   {"k": d["k"], "f": "v"}, rec, call)
            self._close(t, vals, call)
        finally:
            self.running -= 1

    async def abody(self, t: dict[str, Any], vals: dict[str, Any]) -> None:
        call, rec = self._open(t, vals)
        try:
            self._values(t, vals, rec, call)
            for _ in range(t.get("gap", 0)):
                await asyncio.sleep(0)
            for j, d in enumerate(t["params"]):
                if d["f"] == "ap":
                    self.judge(f"test {t['id']}: p{j}()", await self.handle("", lambda: self._await(vals[f"p{j}"], call), d, rec, call),
                               {"k": d["k"], "f": "v"}, rec, call)
            self._close(t, vals, call)
        finally:
            self.running -= 1

    async def _await(self, h: Any, call: Call) -> Any:
        try:
            return await h()
        except BaseException as e:  # noqa: BLE001
            call.exc = e
            raise

    # -- modules -----------------------------------------------------------------------------------
    def source(self, m: int) -> str:
        mod = self.spec["mods"][m]
        out = ["import pytest, functools"]

        def fixture(c: int, ind: str, selfish: bool) -> None:
            sc = self.spec["conts"][c]
            out.append(f"{ind}@pytest.fixture(scope={sc.get('fs', 'function')!r})")
            out.append(f"{ind}def diwire_container({'self' if selfish else ''}):")
            out.append(f"{ind}    yield from H.fixture({c})")

        def test(t: dict[str, Any], ind: str) -> None:
            ps = [f"p{j}: A[{t['id']}, {j}]" for j in range(len(t["params"]))]
            rest = [f for f in t.get("fx", ())] + (["n"] if t.get("pz") else []) + (["diwire_container"] if t.get("use") else [])
            ps = ps[:t.get("cut", 0)] + rest + ps[t.get("cut", 0):]
            names = [p.split(":")[0] for p in ps]
            if t.get("kw"):
                ps.insert(t["kw"] % (len(ps) + 1), "*")
                if ps[-1] == "*":
                    ps.pop()
            if t.get("dflt"):
                ps.append("z=7")
                names.append("z")
            kind = t["kind"]
            a = "async " if t.get("async") else ""
            if kind in ("meth", "inh"):
                ps.insert(0, "self")
            elif kind == "clsm":
                ps.insert(0, "cls")
                out.append(f"{ind}@classmethod")
            elif kind == "static":
                out.append(f"{ind}@staticmethod")
            if t.get("pz"):
                out.append(f"{ind}@pytest.mark.parametrize('n', list(range({t['pz']})))")
            if t.get("uf"):
                out.append(f"{ind}@pytest.mark.usefixtures({t['uf']!r})")
            if t.get("deco"):
                out.append(f"{ind}@H.{'adeco' if a else 'deco'}")
            out.append(f"{ind}{a}def test_{t['id']}({', '.join(ps)}):")
            vals = "{" + ", ".join(f"{n!r}: {n}" for n in names) + "}"
            out.append(f"{ind}    {'await ' if a else ''}H.{'a' if a else ''}body(TESTS[{t['id']}], {vals})")

        for c in mod.get("conts", ()):
            fixture(c, "", False)
        out.append("@pytest.fixture()\ndef fx0(): return ('fx', 'fx0')")
        out.append("@pytest.fixture()\ndef fx1(fx0, diwire_container):\n    assert diwire_container is not None\n    return ('fx', 'fx1')")
        out.append("@pytest.fixture()\ndef other(): return H.other()")
        for t in mod.get("tests", ()):
            test(t, "")
        for q, cl in enumerate(mod.get("classes", ())):
            base = "" if not cl.get("base") else "(Base)"
            if cl.get("base"):
                out.append("class Base:")
                for t in cl["tests"]:
                    test(t, "    ")
                out.append(f"class TestA{q}{base}:")
                for c in cl.get("conts", ()):
                    fixture(c, "    ", True)
                out.append("    pass")
                out.append(f"class TestB{q}{base}:\n    pass")
            else:
                out.append(f"class TestA{q}:")
                for c in cl.get("conts", ()):
                    fixture(c, "    ", True)
                for t in cl["tests"]:
                    test(t, "    ")
                out.append("    pass")
        return "\n".join(out) + "\n"

    def tests(self) -> dict[int, dict[str, Any]]:
        out = {}
        for mod in self.spec["mods"]:
            for t in list(mod.get("tests", ())) + [t for c in mod.get("classes", ()) for t in c["tests"]]:
                out[t["id"]] = t
        return out

    def expected_items(self) -> int:
        n = 0
        imported = {t: 1 + sum(t in m2.get("imports", ()) for m2 in self.spec["mods"]) for t in self.tests()}
        for mod in self.spec["mods"]:
            for t in mod.get("tests", ()):
                n += (t.get("pz") or 1) * imported[t["id"]]
            for c in mod.get("classes", ()):
                for t in c["tests"]:
                    n += (t.get("pz") or 1) * (2 if c.get("base") else 1)
        return n

    def modules(self) -> list[types.ModuleType]:
        tests = self.tests()
        for t in tests.values():
            t["params"] = [p for p in t["params"] if p["k"] in self.types]
        A: dict[Any, Any] = {}
        for t in tests.values():
            for j, d in enumerate(t["params"]):
                ann: Any = self.annotation(d)
                A[t["id"], j] = Injected[ann]
        H = types.SimpleNamespace(body=self.body, abody=self.abody, fixture=self.fixture, other=self.other, deco=deco, adeco=adeco)
        mods = []
        for m in range(len(self.spec["mods"])):
            mod = types.ModuleType(f"sim_m{m}")
            mod.__dict__.update(H=H, A=A, TESTS=tests)
            exec(compile(self.source(m), f"<workload m{m}>", "exec"), mod.__dict__)  # noqa: S102
            mods.append(mod)
        for m, spec in enumerate(self.spec["mods"]):
            for t in spec.get("imports", ()):
                for o in mods:
                    f = o.__dict__.get(f"test_{t}")
                    if f is not None and o is not mods[m]:
                        setattr(mods[m], f"test_{t}", f)
        return mods

    def fixture(self, c: int) -> Any:
        spec = self.spec["conts"][c]
        if self.nth["container", c] + 1 in spec.get("fail", ()):
            self.nth["container", c] += 1
            self.stats["fault:fixture_fails"] += 1
            e = Boom("fixture", c)
            self.fixture_booms.append(e)
            raise e
        cont = self.container(c, spec)
        yield cont
        rec = self.rec_of(cont)
        if spec.get("close"):
            rec.closed = True
            cont.compile()  # closing is for containers that have been compiled
            cont.close()
            for m in self.all:
                # (those made before the graph was extended: the known finding root-instances-dropped)
                if m.tag == (rec.cid, rec.n) and m.kind == "gen" and m.ended != 1 and m.item >= rec.since:
                    self.violate("rel-missing", f"S{m.k} of {m.tag} released {m.ended} times by the end of its container")

    def other(self) -> Container:
        """Another container, made while the test's own is in use."""
        self.stats["other_containers"] += 1
        o = self.spec.get("other")
        return Container() if o is None else self.container("other", o)


def deco(f: Any) -> Any:
    @functools.wraps(f)
    def wrapper(*args: Any, **kw: Any) -> Any:
        return f(*args, **kw)

    return wrapper


def adeco(f: Any) -> Any:
    @functools.wraps(f)
    async def wrapper(*args: Any, **kw: Any) -> Any:
        return await f(*args, **kw)

    return wrapper


class SimModule(pytest.Module):
    def _getobj(self) -> Any:
        return self.config.pluginmanager.get_plugin("dst-sim").mods[int(self.path.stem[1:])]


class Plugin:
    """The session's side of the simulator."""

    def __init__(self, w: PytWorld) -> None:
        self.w = w
        self.mods = w.modules()
        self.reported = 0
        self.abort: BaseException | None = None

    def pytest_collect_file(self, file_path: Any, parent: Any) -> Any:
        if file_path.suffix == ".sim":
            return SimModule.from_parent(parent, path=file_path)
        return None

    def pytest_collection_modifyitems(self, items: list[Any]) -> None:
        order = self.w.spec.get("order")
        if order:
            items[:] = [x for _, _, x in sorted((order[i % len(order)], i, x) for i, x in enumerate(items))]

    def pytest_runtest_setup(self, item: Any) -> None:
        w = self.w
        w.item_n += 1
        w.item = item
        w.cur = None
        w.calls = []
        w.booms = []
        w.ev(f"setup {item.nodeid}")

    @pytest.hookimpl(hookwrapper=True)
    def pytest_runtest_call(self, item: Any) -> Any:
        w = self.w
        c = item.funcargs.get("diwire_container")
        if c is None:
            w.violate("error", f"{item.nodeid}: no container")
        else:
            w.cur = w.rec_of(c)
            new = False
            w.fits = True
            t = w.tests()[int(item.originalname.split("_")[1])]
            if not w.cur.spec.get("strict"):
                for d in t["params"]:
                    if d["f"] != "m":
                        new = w.learn(w.cur, d["k"]) or new
            for d in t["params"]:
                strict = bool(w.cur.spec.get("strict"))
                if not (strict and d["f"] == "m" and d["k"] not in w.cur.regs):
                    w.fits = w.fits and wirable(w.svcs, w.cur.regs, d["k"], strict, False if d["f"] in ("p", "ap") else None)
            if not w.fits:
                w.stats["tests_not_judged"] += 1
            if new:
                w.cur.since = w.item_n
                w.cur.inst = {k: v for k, v in w.cur.inst.items() if (w.cur.regs.get(k) or {}).get("kind") == "inst"}
        yield

    @pytest.hookimpl
    def pytest_pyfunc_call(self, pyfuncitem: Any) -> Any:
        w = self.w
        f = pyfuncitem.obj
        kw = {a: pyfuncitem.funcargs[a] for a in pyfuncitem._fixtureinfo.argnames}
        t = w.tests()[int(pyfuncitem.originalname.split("_")[1])]
        par = t.get("par", 1)
        if t.get("async"):
            if not inspect.iscoroutinefunction(f):
                w.violate("wrong", f"{pyfuncitem.nodeid}: a coroutine test became an ordinary function")

            async def go() -> None:
                rs = await asyncio.gather(*(f(**kw) for _ in range(par)), return_exceptions=True)
                for r in rs:
                    if isinstance(r, BaseException):
                        raise r

            run_loop(go(), shutdown=False)
        elif par > 1:
            k, me = K.ACTIVE, K.current()
            assert k is not None and me is not None
            errs: list[BaseException] = []

            def one() -> None:
                try:
                    f(**kw)
                except K.SimAbort:
                    raise
                except BaseException as e:  # noqa: BLE001
                    errs.append(e)

            ts = [k.spawn_live(f"{pyfuncitem.name}.{i}", one) for i in range(par)]
            for x in ts:
                k.join(me, x)
            for e in errs:
                if isinstance(e, K.SimError):
                    raise e
            if errs:
                raise errs[0]
        else:
            f(**kw)
        return True

    def pytest_runtest_makereport(self, item: Any, call: Any) -> None:
        w = self.w
        e = call.excinfo.value if call.excinfo is not None else None
        if isinstance(e, (K.SimAbort, K.SimError)):
            self.abort = e
            raise e
        w.ev(f"{call.when} {type(e).__name__ if e else ''}")
        if call.when == "setup":
            if e is not None and not any(e is b for b in w.fixture_booms):
                w.violate("error", f"{item.nodeid}: setup failed: {type(e).__name__}: {str(e)[:300]}")
            if e is not None:
                self.reported += 1
            return
        if call.when == "teardown":
            if e is not None:
                w.violate("error", f"{item.nodeid}: teardown failed: {type(e).__name__}: {str(e)[:300]}")
            if item.obj is None:
                w.violate("error", f"{item.nodeid}: the test's function is gone")
            return
        self.reported += 1
        w.stats["tests"] += 1
        if not w.fits:
            return
        planned = list(w.booms) + [c.exc for c in w.calls if c.exc is not None]
        t = w.tests()[int(item.originalname.split("_")[1])]
        n = t.get("par", 1)
        if e is None:
            if planned:
                w.violate("exc-lost", f"{item.nodeid}: passed although {planned[0]!r} was raised")
            elif len(w.calls) != n:
                w.violate("error", f"{item.nodeid}: passed and ran {len(w.calls)} times instead of {n}")
        elif not any(e is p for p in planned):
            w.violate("error", f"{item.nodeid}: unexpected {type(e).__name__}: {str(e)[:300]}")
        elif n == 1 and not w.booms and len(w.calls) != 1:
            w.violate("error", f"{item.nodeid}: ran {len(w.calls)} times")
        for m in w.all:
            if m.item == w.item_n and m.kind in ("gen", "agen") and w.cur is not None:
                r = w.cur.regs.get(m.k)
                if m.tag == (w.cur.cid, w.cur.n) and r and r.get("req"):
                    if m.ended != 1:
                        w.violate("rel-missing", f"{item.nodeid}: S{m.k} of the test's scope was released {m.ended} times by the end of the test")
                    elif n == 1 and m.exc is not e and not isinstance(m.exc, GeneratorExit):
                        w.violate("rel-exc", f"{item.nodeid}: S{m.k} was released with {m.exc!r}, the test ended with {e!r}")


class PytExec:
    def __init__(self, w: PytWorld) -> None:
        self.w = w

    def main(self) -> None:
        w = self.w
        os.environ["PYTEST_DISABLE_PLUGIN_AUTOLOAD"] = "1"
        os.environ.pop("PYTEST_ADDOPTS", None)
        p = Plugin(w)
        d = scratch(len(p.mods))
        cwd = os.getcwd()
        try:
            rc = pytest.main([*FLAGS, "--rootdir", d, *(os.path.join(d, f"m{i}.sim") for i in range(len(p.mods)))], plugins=[_named(p)])
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, True)
        if p.abort is not None:
            raise p.abort
        w.stats["sessions"] += 1
        if rc not in (0, 1, 5):
            w.violate("error", f"the session ended with {rc!r}")
        elif p.reported != w.expected_items():
            w.violate("error", f"{p.reported} tests were run instead of {w.expected_items()}")


def _named(p: Plugin) -> Any:
    class Reg:
        """Registers the plugin under a known name."""

        @staticmethod
        def pytest_configure(config: Any) -> None:
            config.pluginmanager.register(p, "dst-sim")

    return Reg()
