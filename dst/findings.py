"""Known findings: each is shown by a deterministic probe, so that a repaired one stops being reported."""

from __future__ import annotations

import abc
from typing import Callable


class Abstract(abc.ABC):
    @abc.abstractmethod
    def f(self) -> None: ...


def _root_instances_dropped() -> bool:
    from diwire import Container, Lifetime, Scope

    class Known: ...

    class Unknown: ...

    c = Container()
    c.add(Known, scope=Scope.APP, lifetime=Lifetime.SCOPED)
    first = c.resolve(Known)
    c.resolve(Unknown)
    return c.resolve(Known) is not first


def _second_request_in_scope_refused() -> bool:
    from diwire import Container, Scope
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    class Known: ...

    class Unknown: ...

    c = Container(use_resolver_context=True)
    c.add(Known)
    with c.enter_scope(Scope.REQUEST):
        c.resolve(Unknown)
        try:
            c.resolve(Unknown)
        except DIWireDependencyNotRegisteredError:
            return True
    return False


def _unwirable_class_poisons() -> bool:
    from diwire import Container
    from diwire.exceptions import DIWireDependencyNotRegisteredError

    class Broken:
        def __init__(self, dep: Abstract) -> None: ...

    class Known: ...

    c = Container()
    c.add(Known)
    c.resolve(Known)
    for cls in (Broken, Known):
        try:
            c.resolve(cls)
        except DIWireDependencyNotRegisteredError:
            if cls is Known:
                return True
    return False


def _strict_on_missing_rejected() -> bool:
    from diwire import Container, DependencyRegistrationPolicy, MissingPolicy

    class Unknown: ...

    c = Container(
        missing_policy=MissingPolicy.ERROR,
        dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
        use_resolver_context=False,
    )
    c.compile()
    try:
        c.resolve(Unknown, on_missing=MissingPolicy.REGISTER_RECURSIVE)
    except TypeError:
        return True
    return False


def _injected_scope_of_later_registrations() -> bool:
    from diwire import Container, Injected, Lifetime, Scope, resolver_context
    from diwire.exceptions import DIWireScopeMismatchError

    class Known: ...

    c = Container(use_resolver_context=True)
    c.add(Known, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)

    def call(known):  # type: ignore[no-untyped-def]
        return known

    call.__annotations__["known"] = Injected[Known]
    call = resolver_context.inject(call)

    with c.enter_scope(Scope.SESSION) as session:
        call(diwire_resolver=session)
        c.add(Known, scope=Scope.APP, lifetime=Lifetime.SCOPED)
        try:
            call(diwire_resolver=session)
        except DIWireScopeMismatchError:
            return True
    return False


def _positional_only_after_omitted() -> bool:
    from typing import Any

    from diwire import Container, Maybe, MissingPolicy

    class A: ...

    class B: ...

    class S:
        def __init__(self, a: Maybe[A] = None, b: Any = None, /) -> None:  # type: ignore[assignment]
            self.b = b

    class T:
        def __init__(self, x=5, b: Any = None, /) -> None:  # type: ignore[no-untyped-def]  # noqa: ANN001
            self.x, self.b = x, b

    S.__init__.__annotations__ = {"a": Maybe[A], "b": B}
    T.__init__.__annotations__ = {"b": B}
    c = Container(missing_policy=MissingPolicy.ERROR)
    c.add(B)
    c.add(S)
    c.add(T)
    return c.resolve(S).b is None and isinstance(c.resolve(T).x, B)


def _star_after_omitted() -> bool:
    from diwire import All, Container, DependencyRegistrationPolicy, Maybe, MissingPolicy

    class Known: ...

    class Unknown: ...

    class Made: ...

    made = []

    def make(first="default", *rest):  # type: ignore[no-untyped-def]
        made.append((first, rest))
        return Made()

    make.__annotations__ = {"first": Maybe[Unknown], "rest": All[Known], "return": Made}
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    c.add(Known)
    c.add_factory(make)
    c.resolve(Made)
    return isinstance(made[0][0], Known)


def _plugin_sync_under_asyncio() -> bool:
    import os
    import subprocess
    import sys
    import tempfile

    import diwire

    with tempfile.TemporaryDirectory(prefix="dst-probe-") as d:
        with open(os.path.join(d, "test_probe.py"), "w") as f:
            f.write(
                "import pytest\n"
                "from diwire import Container, Injected\n"
                "class A: ...\n"
                "async def make() -> A:\n    return A()\n"
                "@pytest.fixture()\n"
                "def diwire_container():\n    c = Container()\n    c.add_factory(make)\n    return c\n"
                "@pytest.mark.asyncio\n"
                "async def test_probe(a: Injected[A]):\n    assert isinstance(a, A)\n")
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(diwire.__file__)), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(
            [sys.executable, "-m", "pytest", "-q", "-c", os.devnull, "--rootdir", d, "-p", "no:cacheprovider",
             "-p", "diwire.integrations.pytest_plugin", d],
            cwd=d, env=env, capture_output=True, text=True, timeout=60)
        return r.returncode == 1 and "DIWireAsyncDependencyInSyncContextError" in r.stdout


# name -> (property, what fails, probe); known_findings.txt lists the names
FINDINGS: dict[str, tuple[str, str, Callable[[], bool]]] = {
    "root-instances-dropped": (
        "P16", "wiring an unregistered class on request discards the instances owned by the root: "
        "a scoped root service resolved before and after differs (and what the old root owned is never released)",
        _root_instances_dropped),
    "second-request-in-scope-refused": (
        "P16", "use_resolver_context: inside a scope opened earlier the first container.resolve(Unregistered) works "
        "and the second one raises DIWireDependencyNotRegisteredError",
        _second_request_in_scope_refused),
    "unwirable-class-poisons": (
        "P16", "a request for a class that cannot be wired leaves it registered: every later request of any "
        "service fails with DIWireDependencyNotRegisteredError",
        _unwirable_class_poisons),
    "strict-on-missing-rejected": (
        "P16", "strict container without resolver context, compiled: resolve(..., on_missing=...) raises TypeError",
        _strict_on_missing_rejected),
    "injected-scope-of-later-registrations": (
        "P12", "a scope opened before a dependency of an injected function was re-registered with a shallower scope: calling "
        "the function there raises DIWireScopeMismatchError, because the scope to open is taken from the later registrations",
        _injected_scope_of_later_registrations),
    "star-after-omitted": (
        "P04", "a provider parameter that keeps its default (a missing Maybe[...] or a parameter without annotation) followed by "
        "*args: All[X] is given the first member of the collection",
        _star_after_omitted),
    "positional-only-after-omitted": (
        "P04", "a positional-only provider parameter that keeps its default (a missing Maybe[...] or a parameter without annotation) "
        "followed by a positional-only dependency: the dependency is not passed, or passed in the place of the first one",
        _positional_only_after_omitted),
    "plugin-sync-under-asyncio": (
        "P19", "a coroutine test run by pytest-asyncio, which turns it into an ordinary function before the plugin sees it, "
        "is injected synchronously: asynchronous services are refused",
        _plugin_sync_under_asyncio),
}


def probe(prop: str) -> list[str]:
    import os

    def shown(fails: Callable[[], bool]) -> bool:
        try:
            return fails()
        except Exception:  # something else is wrong: for the simulation to report
            return False

    listed = set()
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    for line in open(path):
        if line.startswith("finding:"):
            listed.add(line.split()[2])
    return [
        f"KNOWN-FINDING: property={prop} {text}"
        for name, (p, text, fails) in FINDINGS.items()
        if p == prop and name in listed and shown(fails)
    ]
