From d2ab84f7330b753b6ed8102982e5dd8c73dbdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 01/39] fix: keep the dispatch cache key and method in one
 attribute

Threads sharing a resolver could read the cached key of one request together with the
method cached for another and return a value of the wrong type.
---
 .../_internal/resolvers/assembly/compiler.py  | 83 ++++++++-----------
 1 file changed, 33 insertions(+), 50 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..3238c90 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -475,10 +475,8 @@ class ResolversAssemblyCompiler:
         if _dispatch_cache_enabled_for_class(plan=runtime.plan, class_plan=class_plan):
             slots.extend(
                 (
-                    "_last_sync_dependency",
-                    "_last_sync_method",
-                    "_last_async_dependency",
-                    "_last_async_method",
+                    "_last_sync_dispatch",
+                    "_last_async_dispatch",
                 ),
             )
         if runtime.has_cleanup:
@@ -640,10 +638,8 @@ class ResolversAssemblyCompiler:
         if enable_dispatch_cache:
             body_lines.extend(
                 [
-                    "self._last_sync_dependency = _MISSING_DEP_SLOT",
-                    "self._last_sync_method = None",
-                    "self._last_async_dependency = _MISSING_DEP_SLOT",
-                    "self._last_async_method = None",
+                    "self._last_sync_dispatch = (_MISSING_DEP_SLOT, None)",
+                    "self._last_async_dispatch = (_MISSING_DEP_SLOT, None)",
                 ],
             )
         if runtime.has_cleanup:
@@ -885,10 +881,9 @@ class ResolversAssemblyCompiler:
     ) -> Callable[..., Any]:
         method_name = "aresolve" if is_async else "resolve"
         call_prefix = "aresolve" if is_async else "resolve"
-        cache_dependency_attr_name = (
-            "_last_async_dependency" if is_async else "_last_sync_dependency"
-        )
-        cache_method_attr_name = "_last_async_method" if is_async else "_last_sync_method"
+        # The key and its method live in one attribute, so that threads sharing this resolver
+        # can never combine the key of one request with the method of another.
+        dispatch_cache_attr_name = "_last_async_dispatch" if is_async else "_last_sync_dispatch"
         dispatch_workflows = _dispatch_workflows(
             plan=runtime.plan,
             class_plan=class_plan,
@@ -903,45 +898,40 @@ class ResolversAssemblyCompiler:
 
         body: list[ast.stmt] = []
         if enable_dispatch_cache:
+            cached_call = ast.Call(
+                func=ast.Subscript(
+                    value=ast.Name(id="last_dispatch", ctx=ast.Load()),
+                    slice=ast.Constant(value=1),
+                    ctx=ast.Load(),
+                ),
+                args=[],
+                keywords=[],
+            )
             body.extend(
                 [
+                    ast.Assign(
+                        targets=[ast.Name(id="last_dispatch", ctx=ast.Store())],
+                        value=ast.Attribute(
+                            value=ast.Name(id="self", ctx=ast.Load()),
+                            attr=dispatch_cache_attr_name,
+                            ctx=ast.Load(),
+                        ),
+                    ),
                     ast.If(
                         test=ast.Compare(
                             left=ast.Name(id="dependency", ctx=ast.Load()),
                             ops=[ast.Is()],
                             comparators=[
-                                ast.Attribute(
-                                    value=ast.Name(id="self", ctx=ast.Load()),
-                                    attr=cache_dependency_attr_name,
+                                ast.Subscript(
+                                    value=ast.Name(id="last_dispatch", ctx=ast.Load()),
+                                    slice=ast.Constant(value=0),
                                     ctx=ast.Load(),
                                 ),
                             ],
                         ),
                         body=[
                             ast.Return(
-                                value=(
-                                    ast.Await(
-                                        value=ast.Call(
-                                            func=ast.Attribute(
-                                                value=ast.Name(id="self", ctx=ast.Load()),
-                                                attr=cache_method_attr_name,
-                                                ctx=ast.Load(),
-                                            ),
-                                            args=[],
-                                            keywords=[],
-                                        ),
-                                    )
-                                    if is_async
-                                    else ast.Call(
-                                        func=ast.Attribute(
-                                            value=ast.Name(id="self", ctx=ast.Load()),
-                                            attr=cache_method_attr_name,
-                                            ctx=ast.Load(),
-                                        ),
-                                        args=[],
-                                        keywords=[],
-                                    )
-                                ),
+                                value=ast.Await(value=cached_call) if is_async else cached_call,
                             ),
                         ],
                         orelse=[],
@@ -1047,21 +1037,14 @@ class ResolversAssemblyCompiler:
                     targets=[
                         ast.Attribute(
                             value=ast.Name(id="self", ctx=ast.Load()),
-                            attr=cache_dependency_attr_name,
+                            attr=dispatch_cache_attr_name,
                             ctx=ast.Store(),
                         ),
                     ],
-                    value=cache_dependency,
-                ),
-                ast.Assign(
-                    targets=[
-                        ast.Attribute(
-                            value=ast.Name(id="self", ctx=ast.Load()),
-                            attr=cache_method_attr_name,
-                            ctx=ast.Store(),
-                        ),
-                    ],
-                    value=ast.Name(id="cached_method", ctx=ast.Load()),
+                    value=ast.Tuple(
+                        elts=[cache_dependency, ast.Name(id="cached_method", ctx=ast.Load())],
+                        ctx=ast.Load(),
+                    ),
                 ),
                 ast.Return(
                     value=ast.Await(value=cached_method_call) if is_async else cached_method_call,
-- 
2.43.0


From 3ad99230d6d487ec9c422aac0ddb70a9cf71c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 02/39] fix: serialize container compilation and graph mutation

Threads racing to the first resolve compiled separate root resolvers, so root-scoped
services were constructed more than once and cleanup of the losing root never ran. A
compilation overlapping a registration could also publish an outdated graph.
---
 src/diwire/_internal/container.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..08e2cfe 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -187,6 +188,7 @@ class Container:
 
         self._root_resolver: ResolverProtocol | None = None
         self._graph_revision: int = 0
+        self._graph_lock = threading.RLock()
         self._registration_mutation_depth: int = 0
         self._registration_mutation_snapshot: _ContainerGraphSnapshot | None = None
         self._registration_mutation_failed: bool = False
@@ -2439,6 +2441,18 @@ class Container:
                 service = container.resolve(Service)
 
         """
+        root_resolver = self._root_resolver
+        if root_resolver is not None and (
+            self._missing_policy is not MissingPolicy.ERROR or self._use_resolver_context
+        ):
+            return root_resolver
+
+        # Threads racing to the first compilation must end up sharing one root resolver, and
+        # must not publish one that a concurrent registration has already outdated.
+        with self._graph_lock:
+            return self._compile_locked()
+
+    def _compile_locked(self) -> ResolverProtocol:
         if self._root_resolver is None:
             root_resolver = self._resolvers_manager.build_root_resolver(
                 root_scope=self._root_scope,
@@ -2490,6 +2504,11 @@ class Container:
 
     @contextmanager
     def _registration_mutation(self) -> Generator[None, None, None]:
+        with self._graph_lock, self._registration_mutation_locked():
+            yield
+
+    @contextmanager
+    def _registration_mutation_locked(self) -> Generator[None, None, None]:
         if self._registration_mutation_depth == 0:
             self._registration_mutation_snapshot = _ContainerGraphSnapshot(
                 providers_registrations=self._providers_registrations.snapshot(),
-- 
2.43.0


From 0bbcfe0c4104526db4b87cbbdab17e000a74b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 03/39] fix: give every entered scope a resolver of its own

The pooled scope resolver was handed out whenever it looked inactive, and it is inactive
again as soon as the first of several overlapping scopes ends (or between two threads'
check and set), so sibling scopes shared or lost each other's scoped services.
---
 .../_internal/resolvers/assembly/compiler.py   | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 3238c90..4409c80 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -806,24 +806,6 @@ class ResolversAssemblyCompiler:
                     f"    return self._root_resolver._scope_resolver_{target_level}",
                 ],
             )
-        elif class_plan.is_root and not runtime.has_cleanup:
-            pooled_lines = [
-                "if context is None and self._context is None and self._parent_context_resolver is None:",
-                f"    _pooled = self._scope_resolver_{target_level}",
-                "    if not _pooled._active:",
-                "        _pooled._context = None",
-                "        _pooled._parent_context_resolver = self",
-                "        _pooled._owned_scope_resolvers = ()",
-            ]
-            for cache_slot in runtime.cache_slots_by_owner_level.get(target_level, ()):
-                pooled_lines.append(f"        _pooled._cache_{cache_slot} = _MISSING_CACHE")
-            pooled_lines.extend(
-                [
-                    "        _pooled._active = True",
-                    "        return _pooled",
-                ],
-            )
-            transition_lines.extend(pooled_lines)
         transition_lines.extend(
             [
                 (
-- 
2.43.0


From b00d0de04ab90047bab936f9c0dafdde577b0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 04/39] fix: report an unopened owner scope of a dependency as
 a scope mismatch

A provider whose dependency belongs to a skipped scope failed with
AttributeError: 'object' object has no attribute 'resolve_N'.
---
 .../_internal/resolvers/assembly/compiler.py  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4409c80..c9477f6 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1452,6 +1452,13 @@ class ResolversAssemblyCompiler:
         if workflow.provider_attribute == "instance":
             value_expression = f"_provider_{workflow.slot}"
         else:
+            lines.extend(
+                self._missing_owner_guard_lines(
+                    runtime=runtime,
+                    class_plan=class_plan,
+                    workflow=workflow,
+                ),
+            )
             optimized_arguments = self._optimized_sync_arguments(
                 runtime=runtime,
                 class_plan=class_plan,
@@ -1487,6 +1494,29 @@ class ResolversAssemblyCompiler:
             generated_globals=generated_globals,
         )
 
+    def _missing_owner_guard_lines(
+        self,
+        *,
+        runtime: _ResolverRuntime,
+        class_plan: ScopePlan,
+        workflow: ProviderWorkflowPlan,
+    ) -> list[str]:
+        """Refuse the build when a dependency belongs to a scope that was never opened."""
+        lines: list[str] = []
+        for dependency_plan in workflow.dependency_plans:
+            if dependency_plan.kind != "provider" or dependency_plan.dependency_slot is None:
+                continue
+            dependency_workflow = runtime.workflows_by_slot[dependency_plan.dependency_slot]
+            owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
+            if owner_scope.is_root or owner_scope.scope_level >= class_plan.scope_level:
+                continue
+            lines.append(f"if self.{owner_scope.resolver_attr_name} is _MISSING_RESOLVER:")
+            lines.extend(
+                f"    {line}"
+                for line in _scope_mismatch_lines_for_source(workflow=dependency_workflow)
+            )
+        return lines
+
     def _optimized_sync_arguments(
         self,
         *,
-- 
2.43.0


From 4d7b20e50a290353604e2abdda26bf98306d7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 05/39] fix: let injected callables reuse an already open
 deepest scope

Calling one with its target scope already active raised a scope mismatch when that scope
was the deepest one, although every other scope is reused.
---
 src/diwire/_internal/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 08e2cfe..5f4095b 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2409,7 +2409,10 @@ class Container:
     @staticmethod
     def _is_already_deep_enough_scope_error(error: DIWireScopeMismatchError) -> bool:
         message = str(error)
-        return message.startswith("Cannot enter scope level ") and " from level " in message
+        return (
+            message.startswith(("Cannot enter scope level ", "Cannot enter deeper scope "))
+            and " from level " in message
+        )
 
     def _callable_name(self, callable_obj: Callable[..., Any]) -> str:
         return getattr(callable_obj, "__qualname__", repr(callable_obj))
-- 
2.43.0


From 45fb68f9aba9cd7f6e693ed43a2e4fa34a904314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/39] fix: refuse diwire_context when the injected callable's
 scope is already open

Entering the current scope again returns the same resolver, so the context was silently
dropped instead of being refused as documented.
---
 src/diwire/_internal/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 5f4095b..1668aeb 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2393,7 +2393,7 @@ class Container:
             if context is None:
                 return base_resolver.enter_scope(target_scope), True
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2401,6 +2401,7 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 4895c1f875e7b77bb81b5f69e131446544885b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 07/39] fix: lock decorator layers around a registered instance

---
 src/diwire/_internal/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 1668aeb..43512dd 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1272,7 +1272,10 @@ class Container:
         return _DecorationBaseMetadata(
             lifetime=provider_spec.lifetime,
             scope=provider_spec.scope,
-            lock_mode=provider_spec.lock_mode,
+            # Instances need no lock, but the layers built around them do.
+            lock_mode=(
+                provider_spec.lock_mode if provider_spec.instance is None else self._lock_mode
+            ),
             is_open_generic=False,
         )
 
-- 
2.43.0


From ba1649774a5166a523c023acf10b83a29b7c1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 08/39] fix: release the remaining resources of open generics
 when a release is interrupted

---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..0c03d81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1325,7 +1325,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1347,7 +1347,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From e77c24a7e17aa28a9fbfac9fa4c384b72615389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 09/39] fix: keep open generic resources of sibling scopes
 apart in graphs without scoped state

---
 src/diwire/_internal/open_generics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0c03d81..f94fb85 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -931,11 +931,18 @@ class _OpenGenericResolver:  # pragma: no cover
         self._cleanup_callbacks.append((kind, callback))
 
     def _resolver_cleanup_callbacks(self) -> list[tuple[int, Any]] | None:
+        if self._root_wrapper is not self and self._base_scopes_are_shared():
+            return None
         callbacks = getattr(self._base_resolver, "_cleanup_callbacks", None)
         if isinstance(callbacks, list):
             return callbacks
         return None
 
+    def _base_scopes_are_shared(self) -> bool:
+        # A base graph without scoped state hands the same resolver to every scope of a level.
+        runtime = getattr(type(self._base_resolver), "_runtime", None)
+        return bool(getattr(runtime, "uses_stateless_scope_reuse", False))
+
     def _resolve_execution_owner(self, spec: _OpenGenericSpec) -> _OpenGenericResolver:
         provider_scope_owner = self._scope_owner_for_level(spec.scope.level)
         if provider_scope_owner is None:
-- 
2.43.0


From c761bbc62b9044aeb2087b225f35512ee84aca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 10/39] fix: build an open generic once when it is requested
 asynchronously without async providers of its own

---
 src/diwire/_internal/open_generics.py | 39 ++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index f94fb85..8ce9eae 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -687,6 +687,21 @@ class _OpenGenericResolver:  # pragma: no cover
                     cache_owner.set_cached(dependency=dependency, value=value)
                     return value
 
+            if self._uses_thread_lock(match.spec):
+                # Arguments first: nothing may be awaited while a thread lock is held.
+                call_arguments = await execution_owner.resolve_call_arguments_async(match=match)
+                lock = cache_owner.get_thread_lock(dependency)
+                with lock:
+                    cached_value = cache_owner.get_cached(dependency)
+                    if cached_value is not _MISSING_CACHE:
+                        return cached_value
+                    value = execution_owner.build_open_value_sync(
+                        match=match,
+                        call_arguments=call_arguments,
+                    )
+                    cache_owner.set_cached(dependency=dependency, value=value)
+                    return value
+
             value = await execution_owner.build_open_value_async(match=match)
             cache_owner.set_cached(dependency=dependency, value=value)
             return value
@@ -713,14 +728,28 @@ class _OpenGenericResolver:  # pragma: no cover
     def get_async_lock(self, dependency: Any) -> asyncio.Lock:
         return self._async_locks.setdefault(dependency, asyncio.Lock())
 
-    def build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
-        return self._build_open_value_sync(match=match)
+    def build_open_value_sync(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        call_arguments: _CallArguments | None = None,
+    ) -> Any:
+        return self._build_open_value_sync(match=match, call_arguments=call_arguments)
+
+    async def resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
+        return await self._resolve_call_arguments_async(match=match)
 
     async def build_open_value_async(self, *, match: _OpenGenericMatch) -> Any:
         return await self._build_open_value_async(match=match)
 
-    def _build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
-        call_arguments = self._resolve_call_arguments_sync(match=match)
+    def _build_open_value_sync(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        call_arguments: _CallArguments | None = None,
+    ) -> Any:
+        if call_arguments is None:
+            call_arguments = self._resolve_call_arguments_sync(match=match)
         if match.spec.provider_kind == "concrete_type":
             concrete_type = _as_provider_type(match.spec.provider)
             return concrete_type(*call_arguments.args, **call_arguments.kwargs)
@@ -978,8 +1007,6 @@ class _OpenGenericResolver:  # pragma: no cover
         return self._effective_lock_mode(spec) is LockMode.THREAD
 
     def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
-            return False
         return self._effective_lock_mode(spec) is LockMode.ASYNC
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
-- 
2.43.0


From bd19d308d7ca68f3ecadd62437ede150780b7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 11/39] fix: let one container serve several event loops with
 async locks

---
 src/diwire/_internal/lock_mode.py             | 33 +++++++++++++++++++
 src/diwire/_internal/open_generics.py         |  9 +++--
 .../_internal/resolvers/assembly/compiler.py  |  7 ++--
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/lock_mode.py b/src/diwire/_internal/lock_mode.py
index 8a2ece4..0b10dd1 100644
--- a/src/diwire/_internal/lock_mode.py
+++ b/src/diwire/_internal/lock_mode.py
@@ -1,6 +1,9 @@
 from __future__ import annotations
 
+import asyncio
 from enum import Enum
+from types import TracebackType
+from weakref import WeakKeyDictionary
 
 
 class LockMode(Enum):
@@ -23,3 +26,33 @@ class LockMode(Enum):
 
     NONE = "none"
     """Disable locking around cache reads/writes for this provider."""
+
+
+class EventLoopLock:
+    """An ``asyncio.Lock`` for whichever event loop is running.
+
+    An ``asyncio.Lock`` belongs to the first loop it was contended on, while a
+    container may serve several event loops one after another.
+    """
+
+    __slots__ = ("_locks",)
+
+    def __init__(self) -> None:
+        self._locks: WeakKeyDictionary[asyncio.AbstractEventLoop, asyncio.Lock] = (
+            WeakKeyDictionary()
+        )
+
+    async def __aenter__(self) -> None:
+        loop = asyncio.get_running_loop()
+        lock = self._locks.get(loop)
+        if lock is None:
+            lock = self._locks[loop] = asyncio.Lock()
+        await lock.acquire()
+
+    async def __aexit__(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        self._locks[asyncio.get_running_loop()].release()
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 8ce9eae..44b37fe 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import asyncio
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -10,7 +9,7 @@ from types import TracebackType
 from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
 
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
-from diwire._internal.lock_mode import LockMode
+from diwire._internal.lock_mode import EventLoopLock, LockMode
 from diwire._internal.markers import (
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -349,7 +348,7 @@ class _OpenGenericResolver:  # pragma: no cover
         self._parent_wrapper = parent_wrapper
         self._cache: dict[Any, Any] = {}
         self._thread_locks: dict[Any, threading.Lock] = {}
-        self._async_locks: dict[Any, asyncio.Lock] = {}
+        self._async_locks: dict[Any, EventLoopLock] = {}
         self._cleanup_callbacks: list[tuple[int, Any]] = []
         self._cleanup_enabled = bool(
             getattr(base_resolver, "_cleanup_enabled", True),
@@ -725,8 +724,8 @@ class _OpenGenericResolver:  # pragma: no cover
     def get_thread_lock(self, dependency: Any) -> threading.Lock:
         return self._thread_locks.setdefault(dependency, threading.Lock())
 
-    def get_async_lock(self, dependency: Any) -> asyncio.Lock:
-        return self._async_locks.setdefault(dependency, asyncio.Lock())
+    def get_async_lock(self, dependency: Any) -> EventLoopLock:
+        return self._async_locks.setdefault(dependency, EventLoopLock())
 
     def build_open_value_sync(
         self,
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index c9477f6..5b8012a 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 # ruff: noqa: C901,FBT001,PERF203,PERF401,PLR0911,PLR0912,PLR0913,PLW0108,SLF001,TRY301
 import ast
-import asyncio
 import inspect
 import keyword
 import logging
@@ -15,7 +14,7 @@ from types import CodeType, TracebackType
 from typing import Any, Final, Literal, cast
 
 from diwire._internal.injection import INJECT_CONTEXT_KWARG, INJECT_RESOLVER_KWARG
-from diwire._internal.lock_mode import LockMode
+from diwire._internal.lock_mode import EventLoopLock, LockMode
 from diwire._internal.markers import (
     component_base_key,
     is_all_annotation,
@@ -84,7 +83,7 @@ class _ResolverRuntime:
     provider_by_slot: dict[int, Any]
     context_key_by_name: dict[str, Any]
     thread_lock_by_slot: dict[int, threading.Lock]
-    async_lock_by_slot: dict[int, asyncio.Lock]
+    async_lock_by_slot: dict[int, EventLoopLock]
     cache_slots_by_owner_level: dict[int, tuple[int, ...]]
     next_scope_options_by_level: dict[
         int, tuple[ScopePlan | None, ScopePlan | None, tuple[ScopePlan, ...]]
@@ -204,7 +203,7 @@ class ResolversAssemblyCompiler:
             if workflow.uses_thread_lock
         }
         async_lock_by_slot = {
-            workflow.slot: asyncio.Lock() for workflow in plan.workflows if workflow.uses_async_lock
+            workflow.slot: EventLoopLock() for workflow in plan.workflows if workflow.uses_async_lock
         }
 
         cache_slots_by_owner_level_mut: dict[int, list[int]] = {}
-- 
2.43.0


From 7226bd4d181ef455d3912714b634e11972b3f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 12/39] fix: let an already closed open generic scope be closed
 again concurrently

---
 src/diwire/_internal/open_generics.py | 38 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 44b37fe..a78b19d 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -526,9 +526,7 @@ class _OpenGenericResolver:  # pragma: no cover
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        callbacks: list[tuple[int, Any]] = (
-            self._cleanup_callbacks if self._resolver_cleanup_callbacks() is None else []
-        )
+        callbacks: list[tuple[int, Any]] = []
 
         def _base_exit_callback(
             callback_exc_type: type[BaseException] | None,
@@ -556,6 +554,8 @@ class _OpenGenericResolver:  # pragma: no cover
                 for owned_scope_wrapper in self._owned_scope_wrappers
             ]
 
+        if self._resolver_cleanup_callbacks() is None:
+            callbacks.append((0, self._exit_own_callbacks))
         callbacks.append((0, _base_exit_callback))
         _execute_sync_cleanup_callbacks(
             callbacks=callbacks,
@@ -572,6 +572,32 @@ class _OpenGenericResolver:  # pragma: no cover
     ) -> None:
         return self.__exit__(exc_type, exc_value, traceback)
 
+    def _exit_own_callbacks(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        _execute_sync_cleanup_callbacks(
+            callbacks=self._cleanup_callbacks,
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
+
+    async def _aexit_own_callbacks(
+        self,
+        exc_type: type[BaseException] | None,
+        exc_value: BaseException | None,
+        traceback: TracebackType | None,
+    ) -> None:
+        await _execute_async_cleanup_callbacks(
+            callbacks=self._cleanup_callbacks,
+            exc_type=exc_type,
+            exc_value=exc_value,
+            traceback=traceback,
+        )
+
     async def __aenter__(self) -> Self:
         enter_result = self._base_resolver.__aenter__()
         if inspect.isawaitable(enter_result):
@@ -584,9 +610,7 @@ class _OpenGenericResolver:  # pragma: no cover
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        callbacks: list[tuple[int, Any]] = (
-            self._cleanup_callbacks if self._resolver_cleanup_callbacks() is None else []
-        )
+        callbacks: list[tuple[int, Any]] = []
 
         async def _base_aexit_callback(
             callback_exc_type: type[BaseException] | None,
@@ -614,6 +638,8 @@ class _OpenGenericResolver:  # pragma: no cover
                 for owned_scope_wrapper in self._owned_scope_wrappers
             ]
 
+        if self._resolver_cleanup_callbacks() is None:
+            callbacks.append((1, self._aexit_own_callbacks))
         callbacks.append((1, _base_aexit_callback))
         await _execute_async_cleanup_callbacks(
             callbacks=callbacks,
-- 
2.43.0


From 6139fe062e35acb8c62d52806e3540b42f8fa11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 13/39] fix: treat an optional context value of a provider as
 optional

---
 .../_internal/resolvers/assembly/compiler.py  | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 5b8012a..c88a19c 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -187,13 +187,18 @@ class ResolversAssemblyCompiler:
                 context_key_name = dependency_plan.ctx_key_global_name
                 if context_key_name is None:
                     continue
-                context_key_by_name[context_key_name] = strip_from_context_annotation(
+                dependency = registration.dependencies[dependency_plan.dependency_index]
+                context_key = strip_from_context_annotation(
                     strip_non_component_annotation(
-                        strip_maybe_annotation(
-                            registration.dependencies[dependency_plan.dependency_index].provides,
-                        ),
+                        strip_maybe_annotation(dependency.provides),
                     ),
                 )
+                if is_maybe_annotation(dependency.provides):
+                    context_key = _OptionalContextKey(
+                        key=context_key,
+                        missing=_missing_optional_value(dependency.parameter),
+                    )
+                context_key_by_name[context_key_name] = context_key
 
         all_slots_by_key = {key: tuple(slots) for key, slots in all_slots_by_key_mut.items()}
 
@@ -2046,6 +2051,20 @@ def _build_transition_plan_to_target(
     return tuple(transition_plan)
 
 
+@dataclass(frozen=True, slots=True, eq=False)
+class _OptionalContextKey:
+    key: Any
+    missing: Any
+
+
+def _missing_optional_value(parameter: inspect.Parameter) -> Any:
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return None if parameter.default is inspect.Parameter.empty else parameter.default
+
+
 def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
     context = self._context
     if context is not None and key in context:
@@ -2058,6 +2077,12 @@ def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
             return parent_context[key]
         parent_context_resolver = parent_context_resolver._parent_context_resolver
 
+    if isinstance(key, _OptionalContextKey):
+        try:
+            return self._resolve_from_context(key.key)
+        except DIWireDependencyNotRegisteredError:
+            return key.missing
+
     msg = (
         f"Context value for {key!r} is not provided. Pass it via "
         "`enter_scope(..., context={...})` (or "
-- 
2.43.0


From a7e2aebb74c1f20dfa330e25c91f68fdf31fd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 14/39] fix: do not answer a request with another service when
 something it needs is missing

---
 src/diwire/_internal/open_generics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index a78b19d..f1a2b08 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -11,6 +11,7 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import EventLoopLock, LockMode
 from diwire._internal.markers import (
+    is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -367,6 +368,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_served_by_base(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -398,6 +401,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_served_by_base(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -433,6 +438,13 @@ class _OpenGenericResolver:  # pragma: no cover
             return False
         return self._registry.find_best_match(normalized_dependency) is not None
 
+    def _is_served_by_base(self, dependency: Any) -> bool:
+        # Such an error is about something the dependency needs, not about the dependency itself.
+        if is_all_annotation(dependency) or is_from_context_annotation(dependency):
+            return True
+        is_registered = getattr(self._base_resolver, "_is_registered_dependency", None)
+        return callable(is_registered) and is_registered(dependency)
+
     def _resolve_maybe_sync(self, *, dependency: Any) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
-- 
2.43.0


From fd678c7e791ff3b1406bb2003e5fa06288015aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 15/39] fix: keep the compiled graph and its instances when a
 registration is refused

---
 src/diwire/_internal/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 43512dd..8d04127 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2532,6 +2532,7 @@ class Container:
                     for provides, chain in self._decoration_chain_by_provides.items()
                 },
                 decoration_counter=self._decoration_counter,
+                root_resolver=self._root_resolver,
             )
             self._registration_mutation_failed = False
 
@@ -2563,6 +2564,7 @@ class Container:
                     }
                     self._decoration_counter = snapshot.decoration_counter
                     self._invalidate_compilation()
+                    self._root_resolver = snapshot.root_resolver
                 self._registration_mutation_snapshot = None
                 self._registration_mutation_failed = False
 
@@ -2947,3 +2949,4 @@ class _ContainerGraphSnapshot:
     decoration_rules_by_provides: dict[Any, list[_DecorationRule]]
     decoration_chain_by_provides: dict[Any, _DecorationChain]
     decoration_counter: int
+    root_resolver: ResolverProtocol | None
-- 
2.43.0


From 65bc2ec16958bdb0df55c1ff2497d88010b5d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 16/39] fix: keep open scopes on the open generic registrations
 they were opened with

---
 src/diwire/_internal/container.py     | 2 +-
 src/diwire/_internal/open_generics.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 8d04127..678e63d 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2473,7 +2473,7 @@ class Container:
                     "ResolverProtocol",
                     OpenGenericResolver(
                         base_resolver=root_resolver,
-                        registry=self._open_generic_registry,
+                        registry=self._open_generic_registry.copy(),
                         root_scope=self._root_scope,
                         has_async_specs=has_async_specs,
                         scope_level=self._root_scope.level,
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index f1a2b08..61915d3 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -231,6 +231,12 @@ class _OpenGenericRegistry:
         self._specs_by_key = dict(snapshot.specs_by_key)
         self._registration_counter = snapshot.registration_counter
 
+    def copy(self) -> _OpenGenericRegistry:
+        """Return a registry later registrations do not reach."""
+        registry = _OpenGenericRegistry()
+        registry.restore(self.snapshot())
+        return registry
+
     def has_specs(self) -> bool:
         return bool(self._specs_by_key)
 
-- 
2.43.0


From 987f9f03023803c20ec79507b61eb9c2143fc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 17/39] fix: concurrent auto-registration of one type must not
 fail the losing request

A request that found a type missing read the graph revision only after its first
attempt failed. When another request had registered the type in the meantime, the
revision looked unchanged and the request ended with DIWireDependencyNotRegisteredError.
---
 src/diwire/_internal/container.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 678e63d..233a602 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2493,8 +2493,9 @@ class Container:
         Any registration mutation can change the resolver graph, so cached compiled
         entrypoints must be reverted back to container methods until recompilation.
         """
-        self._graph_revision += 1
+        # A request that reads the new revision must not find the outdated resolver afterwards.
         self._root_resolver = None
+        self._graph_revision += 1
         self._restore_container_entrypoints()
 
     def _revalidate_injected_scope_contracts(self) -> None:
@@ -2647,6 +2648,8 @@ class Container:
                 service = container.resolve(Service)
 
         """
+        # Read before the resolver: whatever is registered from here on may be missing in it.
+        graph_revision_before = self._graph_revision
         resolver = self._get_context_bound_resolver_or_none()
         if resolver is None:
             resolver = self._root_resolver
@@ -2663,7 +2666,6 @@ class Container:
 
         provider_inner_dependency = self._extract_provider_inner_dependency_fast(dependency)
         if provider_inner_dependency is not None:
-            graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
@@ -2675,7 +2677,6 @@ class Container:
         try:
             return resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 dependency,
                 on_missing=resolved_on_missing,
@@ -2737,6 +2738,8 @@ class Container:
                 client = await container.aresolve(Client)
 
         """
+        # Read before the resolver: whatever is registered from here on may be missing in it.
+        graph_revision_before = self._graph_revision
         resolver = self._get_context_bound_resolver_or_none()
         if resolver is None:
             resolver = self._root_resolver
@@ -2753,7 +2756,6 @@ class Container:
 
         provider_inner_dependency = self._extract_provider_inner_dependency_fast(dependency)
         if provider_inner_dependency is not None:
-            graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
@@ -2765,7 +2767,6 @@ class Container:
         try:
             return await resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            graph_revision_before = self._graph_revision
             self._ensure_autoregistration(
                 dependency,
                 on_missing=resolved_on_missing,
-- 
2.43.0


From b86c1d17b8339311590ceaff54dbf0efeafb1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 18/39] fix: register a missing type once when several threads
 request it first

Both threads saw the type missing and both registered it; the second registration
replaced the graph the first thread was served from, so each got its own instance.
---
 src/diwire/_internal/container.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 233a602..1c7aa22 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1848,12 +1848,17 @@ class Container:
             else DependencyRegistrationPolicy.IGNORE
         )
 
-        self._autoregister_dependency(
-            dependency=dependency_key,
-            scope=self._root_scope,
-            lifetime=self._default_lifetime,
-            dependency_registration_policy=effective_dependency_policy,
-        )
+        with self._graph_lock:
+            # Another thread may have registered it since; registering again would replace the
+            # graph that thread is already being served from.
+            if self._providers_registrations.find_by_type(dependency_key):
+                return
+            self._autoregister_dependency(
+                dependency=dependency_key,
+                scope=self._root_scope,
+                lifetime=self._default_lifetime,
+                dependency_registration_policy=effective_dependency_policy,
+            )
 
     def _inject_callable(
         self,
-- 
2.43.0


From faf5f24475c44e32a8b7c54a242b3f4a6f5eaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 19/39] fix: threads racing to register one class may see it
 half registered or register it twice

---
 src/diwire/_internal/container.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 1c7aa22..c1bc61d 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1837,22 +1837,19 @@ class Container:
             self._unwrap_provider_dependency_key(dependency),
         )
 
-        if self._providers_registrations.find_by_type(dependency_key):
-            return
-        if self._open_generic_registry.has_match_for_dependency(dependency_key):
-            return
-
         effective_dependency_policy = (
             DependencyRegistrationPolicy.REGISTER_RECURSIVE
             if effective_on_missing is MissingPolicy.REGISTER_RECURSIVE
             else DependencyRegistrationPolicy.IGNORE
         )
 
+        # Locked, so that a registration another thread is in the middle of is waited for, and one
+        # it has made is not made again, which would replace the graph it is being served from.
         with self._graph_lock:
-            # Another thread may have registered it since; registering again would replace the
-            # graph that thread is already being served from.
             if self._providers_registrations.find_by_type(dependency_key):
                 return
+            if self._open_generic_registry.has_match_for_dependency(dependency_key):
+                return
             self._autoregister_dependency(
                 dependency=dependency_key,
                 scope=self._root_scope,
@@ -2027,9 +2024,10 @@ class Container:
             dependency_key = self._normalize_dependency_identity_key(
                 self._unwrap_provider_dependency_key(injected_parameter.dependency),
             )
-            if self._providers_registrations.find_by_type(dependency_key):
-                continue
-            with suppress(DIWireError):
+            # Locked, so that two threads calling the function first do not both register it.
+            with self._graph_lock, suppress(DIWireError):
+                if self._providers_registrations.find_by_type(dependency_key):
+                    continue
                 self._autoregister_dependency(
                     dependency=dependency_key,
                     scope=registration_scope,
-- 
2.43.0


From e526326c3f523ee586d5bb40be939a8b1a5cf44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 20/39] fix: pass the remaining arguments of an injected
 provider by keyword

A provider wrapped by ResolverContext.inject hides its injected parameters from its
signature; passing its other dependencies by position bound them to the injected ones.
---
 src/diwire/_internal/resolvers/assembly/planner.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..e2a4017 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -365,6 +365,9 @@ class ResolverGenerationPlanner:
         )
         uses_async_lock = is_cached and effective_lock_mode is LockMode.ASYNC and requires_async
         dispatch_kind = self._resolve_dispatch_kind(provides=spec.provides)
+        provider_is_inject_wrapper = bool(
+            getattr(provider_reference, INJECT_WRAPPER_MARKER, False),
+        )
 
         return ProviderWorkflowPlan(
             slot=spec.slot,
@@ -388,16 +391,17 @@ class ResolverGenerationPlanner:
             dependencies=tuple(spec.dependencies),
             dependency_slots=tuple(dependency_slots),
             dependency_requires_async=tuple(dependency_requires_async),
-            dependency_order_is_signature_order=self._dependency_order_is_signature_order(
-                spec=spec,
+            # Injected parameters are hidden from a wrapper's signature but still occupy a position,
+            # so the remaining parameters of a wrapper can only be passed by keyword.
+            dependency_order_is_signature_order=(
+                not provider_is_inject_wrapper
+                and self._dependency_order_is_signature_order(spec=spec)
             ),
             max_required_scope_level=self._max_required_scope_level_by_slot[spec.slot],
             dispatch_kind=dispatch_kind,
             sync_arguments=tuple(sync_arguments),
             async_arguments=tuple(async_arguments),
-            provider_is_inject_wrapper=bool(
-                getattr(provider_reference, INJECT_WRAPPER_MARKER, False),
-            ),
+            provider_is_inject_wrapper=provider_is_inject_wrapper,
             dependency_plans=tuple(dependency_plans),
         )
 
-- 
2.43.0


From 4c8e43770759ff14920bd4e366788532dce5c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 21/39] fix: hand out provider slots safely when containers
 register in several threads

---
 src/diwire/_internal/providers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..dc27976 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Generator
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
 from dataclasses import dataclass, field
@@ -41,6 +42,8 @@ UserProviderObject: TypeAlias = Any
 ProviderSlot: TypeAlias = int
 """A unique slot number assigned to each provider specification."""
 
+_SLOT_COUNTER_LOCK = threading.Lock()
+
 ConcreteTypeProvider: TypeAlias = type[T]
 """A concrete type that can be instantiated to produce a dependency."""
 
@@ -137,8 +140,11 @@ class ProviderSpec:
     """A unique slot number assigned to this provider specification."""
 
     def __post_init__(self) -> None:
-        self.__class__.SLOT_COUNTER += 1
-        self.slot = self.SLOT_COUNTER
+        # Containers may register in several threads at once, and a container must never get a
+        # slot number twice.
+        with _SLOT_COUNTER_LOCK:
+            self.__class__.SLOT_COUNTER += 1
+            self.slot = self.SLOT_COUNTER
 
 
 class Lifetime(Enum):
-- 
2.43.0


From 9cac51affc8d24af249eeaa4dd98e6647c1a7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 22/39] fix: bind arguments of closed generic constructors to
 the parameters that are not injected

---
 src/diwire/_internal/container.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index c1bc61d..01abe62 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1661,15 +1661,23 @@ class Container:
     ) -> Callable[..., Any]:
         constructor_signature = inspect.signature(concrete_type)
         factory_injected_arguments = dict(injected_arguments)
+        # Positional arguments are meant for the parameters that are not injected.
+        provided_signature = constructor_signature.replace(
+            parameters=[
+                parameter
+                for parameter in constructor_signature.parameters.values()
+                if parameter.name not in factory_injected_arguments
+            ],
+        )
 
         def _factory(*args: Any, **kwargs: Any) -> Any:
-            bound_arguments = constructor_signature.bind_partial(*args, **kwargs)
-            for argument_name, argument_value in factory_injected_arguments.items():
-                if argument_name in bound_arguments.arguments:
-                    continue
-                bound_arguments.arguments[argument_name] = argument_value
+            provided_arguments = provided_signature.bind_partial(*args, **kwargs)
+            bound_arguments = constructor_signature.bind_partial()
+            bound_arguments.arguments.update(factory_injected_arguments)
+            bound_arguments.arguments.update(provided_arguments.arguments)
             return concrete_type(*bound_arguments.args, **bound_arguments.kwargs)
 
+        _factory.__signature__ = provided_signature  # type: ignore[attr-defined]
         return _factory
 
     def _resolve_factory_registration_dependencies(
-- 
2.43.0


From c5140bf6be15cf9337e9155c9c2695c333b1dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 23/39] fix: keep provider handles and collections when closing
 type variables

---
 src/diwire/_internal/open_generics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 61915d3..93e9d53 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -11,6 +11,8 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import EventLoopLock, LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_all_annotation,
     is_async_provider_annotation,
     is_from_context_annotation,
@@ -157,6 +159,11 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
 
+    if isinstance(value, (ProviderMarker, AllMarker)):
+        return value._replace(
+            dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
+        )
+
     origin = get_origin(value)
     if origin is None:
         return value
-- 
2.43.0


From a33ac3c23cf12b4e05be2eba875289d517a47ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 24/39] fix: keep a template's registration order when it is
 decorated

---
 src/diwire/_internal/container.py     | 4 ++++
 src/diwire/_internal/open_generics.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 01abe62..b35241d 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1090,6 +1090,7 @@ class Container:
                 is_any_dependency_async=open_spec.is_any_dependency_async,
                 needs_cleanup=open_spec.needs_cleanup,
                 dependencies=dependencies,
+                registration_order=open_spec.registration_order,
             )
             return
 
@@ -1239,6 +1240,7 @@ class Container:
             is_any_dependency_async=is_any_dependency_async,
             needs_cleanup=False,
             dependencies=dependencies,
+            registration_order=metadata.registration_order,
         )
         if registered_spec is None:
             msg = f"Cannot register open-generic decorator layer for key {provides!r}."
@@ -1260,6 +1262,7 @@ class Container:
                 scope=open_spec.scope,
                 lock_mode=open_spec.lock_mode,
                 is_open_generic=True,
+                registration_order=open_spec.registration_order,
             )
 
         provider_spec = self._providers_registrations.find_by_type(base_key)
@@ -2952,6 +2955,7 @@ class _DecorationBaseMetadata:
     scope: BaseScope
     lock_mode: LockMode | Literal["auto"]
     is_open_generic: bool
+    registration_order: int | None = None
 
 
 @dataclass(frozen=True, slots=True)
diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 93e9d53..1e492b7 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -269,6 +269,7 @@ class _OpenGenericRegistry:
         is_any_dependency_async: bool,
         needs_cleanup: bool,
         dependencies: list[ProviderDependency],
+        registration_order: int | None = None,
     ) -> _OpenGenericSpec | None:
         canonical_key = canonicalize_open_key(provides)
         if canonical_key is None:
@@ -283,7 +284,9 @@ class _OpenGenericRegistry:
             for dependency in dependencies
         )
 
-        self._registration_counter += 1
+        if registration_order is None:
+            self._registration_counter += 1
+            registration_order = self._registration_counter
         spec = _OpenGenericSpec(
             canonical_key=canonical_key,
             provider_kind=provider_kind,
@@ -295,7 +298,7 @@ class _OpenGenericRegistry:
             is_any_dependency_async=is_any_dependency_async,
             needs_cleanup=needs_cleanup,
             bindings=bindings,
-            registration_order=self._registration_counter,
+            registration_order=registration_order,
             provider_is_inject_wrapper=bool(getattr(provider, INJECT_WRAPPER_MARKER, False)),
         )
         self._specs_by_key[canonical_key] = spec
-- 
2.43.0


From fd446a622562a1d9311c69e7678f0a6c3dc267ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 25/39] fix: prefer constructor annotations over class
 attributes and __call__

---
 src/diwire/_internal/providers.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index dc27976..5e3ba34 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -588,7 +588,9 @@ class ProviderDependenciesExtractor:
         annotations: dict[str, Any],
         annotation_error: Exception | None,
     ) -> tuple[dict[str, Any], Exception | None]:
-        merged_annotations = dict(annotations)
+        merged_annotations = self._constructor_parameter_hints(concrete_type)
+        for annotated_name, annotation in annotations.items():
+            merged_annotations.setdefault(annotated_name, annotation)
         merged_error = annotation_error
 
         for callable_member_name in ("__call__", "__new__", "__init__"):
@@ -604,6 +606,28 @@ class ProviderDependenciesExtractor:
 
         return merged_annotations, merged_error
 
+    def _constructor_parameter_hints(self, concrete_type: type[Any]) -> dict[str, Any]:
+        """Return hints the constructor itself declares, which outrank same-named attributes."""
+        for base in concrete_type.__mro__[:-1]:
+            for constructor_name in ("__new__", "__init__"):
+                if constructor_name not in vars(base):
+                    continue
+                constructor = getattr(base, constructor_name)
+                try:
+                    hints = get_type_hints(constructor, include_extras=True)
+                    declared = inspect.signature(constructor).parameters
+                    parameters = inspect.signature(concrete_type).parameters.values()
+                except (AttributeError, NameError, TypeError, ValueError):
+                    return {}
+                return {
+                    parameter.name: hints[parameter.name]
+                    for parameter in parameters
+                    if parameter.name in hints
+                    and parameter.name in declared
+                    and declared[parameter.name].kind is parameter.kind
+                }
+        return {}
+
     def _is_required_parameter(self, parameter: Parameter) -> bool:
         return (
             parameter.default is Parameter.empty
-- 
2.43.0


From bd1d8562e2c092ef60b6c7d0ab29fb3a716f4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 26/39] fix: recognise callable objects with an async __call__

---
 src/diwire/_internal/providers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 5e3ba34..1a533dd 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -6,6 +6,7 @@ from collections.abc import AsyncGenerator, Awaitable, Callable, Coroutine, Gene
 from contextlib import AbstractAsyncContextManager, AbstractContextManager
 from dataclasses import dataclass, field
 from enum import Enum, auto
+from functools import partial
 from inspect import Parameter
 from types import TracebackType
 from typing import (
@@ -647,6 +648,13 @@ class ProviderDependency:
     parameter: Parameter
 
 
+def _called_function(provider: Callable[..., Any]) -> Callable[..., Any]:
+    """Return what runs when the provider is called: ``__call__`` of callable objects."""
+    if isinstance(provider, type) or inspect.isroutine(provider) or isinstance(provider, partial):
+        return provider
+    return cast("Callable[..., Any]", provider.__call__)
+
+
 @dataclass(slots=True)
 class ProviderReturnTypeExtractor:
     """Extracts return types from user-defined provider objects."""
@@ -661,7 +669,9 @@ class ProviderReturnTypeExtractor:
             factory: Factory provider callable to inspect or validate.
 
         """
-        return inspect.iscoroutinefunction(factory) or self.return_annotation_matches_origins(
+        return inspect.iscoroutinefunction(
+            _called_function(factory),
+        ) or self.return_annotation_matches_origins(
             provider=factory,
             expected_origins=(Awaitable, Coroutine),
         )
@@ -676,7 +686,9 @@ class ProviderReturnTypeExtractor:
             generator: Generator provider callable to inspect or validate.
 
         """
-        return inspect.isasyncgenfunction(generator) or self.return_annotation_matches_origins(
+        return inspect.isasyncgenfunction(
+            _called_function(generator),
+        ) or self.return_annotation_matches_origins(
             provider=generator,
             expected_origins=(AsyncGenerator,),
         )
-- 
2.43.0


From f7469dcaf44601c1323de2ae77feb6026e311f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 27/39] fix: pass star arguments of template providers behind
 their other arguments

---
 src/diwire/_internal/open_generics.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 1e492b7..1cc48fe 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -846,6 +846,7 @@ class _OpenGenericResolver:  # pragma: no cover
     def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
+        by_position = _has_star_arguments(match.spec.bindings)
         for binding in match.spec.bindings:
             value = self._resolve_binding_value_sync(
                 binding=binding,
@@ -856,6 +857,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 value=value,
                 positional_arguments=positional_arguments,
                 keyword_arguments=keyword_arguments,
+                by_position=by_position,
             )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
@@ -867,6 +869,7 @@ class _OpenGenericResolver:  # pragma: no cover
     async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
         positional_arguments: list[Any] = []
         keyword_arguments: dict[str, Any] = {}
+        by_position = _has_star_arguments(match.spec.bindings)
         for binding in match.spec.bindings:
             value = await self._resolve_binding_value_async(
                 binding=binding,
@@ -877,6 +880,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 value=value,
                 positional_arguments=positional_arguments,
                 keyword_arguments=keyword_arguments,
+                by_position=by_position,
             )
         if match.spec.provider_is_inject_wrapper:
             keyword_arguments[INJECT_RESOLVER_KWARG] = self
@@ -1080,15 +1084,25 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _has_star_arguments(bindings: tuple[_OpenGenericBindingPlan, ...]) -> bool:
+    return any(
+        binding.dependency.parameter.kind is inspect.Parameter.VAR_POSITIONAL
+        for binding in bindings
+    )
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
     value: Any,
     positional_arguments: list[Any],
     keyword_arguments: dict[str, Any],
+    by_position: bool = False,
 ) -> None:
     kind = cast("Any", dependency.parameter.kind)
-    if kind is inspect.Parameter.POSITIONAL_ONLY:
+    if kind is inspect.Parameter.POSITIONAL_ONLY or (
+        by_position and kind is inspect.Parameter.POSITIONAL_OR_KEYWORD
+    ):
         positional_arguments.append(value)
         return
     if kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From 6161ae04091e56aff02fb15ab6476bc7d6c5d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 28/39] fix: keep parameter defaults for missing optional
 dependencies of template providers

---
 src/diwire/_internal/open_generics.py | 59 ++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 1cc48fe..38fc4de 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import dataclasses
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
@@ -48,6 +49,11 @@ OpenProviderKind = Literal["concrete_type", "factory", "generator", "context_man
 OpenBindingKind = Literal["dependency", "generic_argument", "generic_argument_type"]
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
+_DATACLASS_DEFAULT_FACTORY_SENTINEL: Any = getattr(
+    dataclasses,
+    "_HAS_DEFAULT_FACTORY",
+    object(),
+)
 
 
 @dataclass(frozen=True, slots=True)
@@ -461,29 +467,29 @@ class _OpenGenericResolver:  # pragma: no cover
         is_registered = getattr(self._base_resolver, "_is_registered_dependency", None)
         return callable(is_registered) and is_registered(dependency)
 
-    def _resolve_maybe_sync(self, *, dependency: Any) -> Any:
+    def _resolve_maybe_sync(self, *, dependency: Any, missing: Any = None) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
 
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
-            return self._resolve_maybe_from_context_sync(inner_dependency)
+            return self._resolve_maybe_from_context_sync(inner_dependency, missing)
         if not self._is_registered_dependency(inner_dependency):
-            return None
+            return missing
         return self.resolve(inner_dependency)
 
-    async def _resolve_maybe_async(self, *, dependency: Any) -> Any:
+    async def _resolve_maybe_async(self, *, dependency: Any, missing: Any = None) -> Any:
         if not is_maybe_annotation(dependency):
             return _MAYBE_UNHANDLED
 
         inner_dependency = strip_maybe_annotation(dependency)
         if is_from_context_annotation(inner_dependency):
-            return await self._resolve_maybe_from_context_async(inner_dependency)
+            return await self._resolve_maybe_from_context_async(inner_dependency, missing)
         if not self._is_registered_dependency(inner_dependency):
-            return None
+            return missing
         return await self.aresolve(inner_dependency)
 
-    def _resolve_maybe_from_context_sync(self, dependency: Any) -> Any | None:
+    def _resolve_maybe_from_context_sync(self, dependency: Any, missing: Any = None) -> Any:
         context_key = strip_non_component_annotation(strip_from_context_annotation(dependency))
         resolve_from_context = getattr(self._base_resolver, "_resolve_from_context", None)
         try:
@@ -491,9 +497,9 @@ class _OpenGenericResolver:  # pragma: no cover
                 return resolve_from_context(context_key)
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            return None
+            return missing
 
-    async def _resolve_maybe_from_context_async(self, dependency: Any) -> Any | None:
+    async def _resolve_maybe_from_context_async(self, dependency: Any, missing: Any = None) -> Any:
         context_key = strip_non_component_annotation(strip_from_context_annotation(dependency))
         resolve_from_context = getattr(self._base_resolver, "_resolve_from_context", None)
         try:
@@ -501,7 +507,7 @@ class _OpenGenericResolver:  # pragma: no cover
                 return resolve_from_context(context_key)
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-            return None
+            return missing
 
     def enter_scope(
         self,
@@ -908,6 +914,14 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        parameter = binding.dependency.parameter
+        if is_maybe_annotation(resolved_dependency):
+            return self._resolve_maybe_sync(
+                dependency=resolved_dependency,
+                missing=_missing_optional_value(parameter),
+            )
+        if self._is_left_to_default_factory(parameter, resolved_dependency):
+            return parameter.default
         return self.resolve(resolved_dependency)
 
     async def _resolve_binding_value_async(
@@ -929,8 +943,25 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        parameter = binding.dependency.parameter
+        if is_maybe_annotation(resolved_dependency):
+            return await self._resolve_maybe_async(
+                dependency=resolved_dependency,
+                missing=_missing_optional_value(parameter),
+            )
+        if self._is_left_to_default_factory(parameter, resolved_dependency):
+            return parameter.default
         return await self.aresolve(resolved_dependency)
 
+    def _is_left_to_default_factory(self, parameter: inspect.Parameter, dependency: Any) -> bool:
+        return (
+            parameter.default is _DATACLASS_DEFAULT_FACTORY_SENTINEL
+            and not is_all_annotation(dependency)
+            and not is_from_context_annotation(dependency)
+            and not is_provider_annotation(dependency)
+            and not self._is_registered_dependency(dependency)
+        )
+
     def _build_generator_sync(
         self,
         *,
@@ -1091,6 +1122,14 @@ def _has_star_arguments(bindings: tuple[_OpenGenericBindingPlan, ...]) -> bool:
     )
 
 
+def _missing_optional_value(parameter: inspect.Parameter) -> Any:
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return None if parameter.default is inspect.Parameter.empty else parameter.default
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
-- 
2.43.0


From 8c1c43fceee811bb20cdd90c8432f6f24512377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 29/39] fix: take the parameter order of a class from its own
 signature

---
 src/diwire/_internal/resolvers/assembly/planner.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index e2a4017..f43a798 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -858,8 +858,6 @@ class ResolverGenerationPlanner:
             return False
 
         parameters = list(inspect.signature(provider_callable).parameters.values())
-        if spec.concrete_type is not None and parameters:
-            parameters = parameters[1:]
 
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
         last_index = -1
@@ -872,7 +870,7 @@ class ResolverGenerationPlanner:
 
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
-            return spec.concrete_type.__init__
+            return spec.concrete_type
         if spec.factory is not None:
             return spec.factory
         if spec.generator is not None:
-- 
2.43.0


From 516c8c8c1604e512f12135cafae15c2f98d696d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 30/39] fix: order the arguments of inject wrappers by the
 wrapped signature

---
 .../_internal/resolvers/assembly/planner.py     | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index f43a798..6087c35 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -365,9 +365,6 @@ class ResolverGenerationPlanner:
         )
         uses_async_lock = is_cached and effective_lock_mode is LockMode.ASYNC and requires_async
         dispatch_kind = self._resolve_dispatch_kind(provides=spec.provides)
-        provider_is_inject_wrapper = bool(
-            getattr(provider_reference, INJECT_WRAPPER_MARKER, False),
-        )
 
         return ProviderWorkflowPlan(
             slot=spec.slot,
@@ -391,17 +388,16 @@ class ResolverGenerationPlanner:
             dependencies=tuple(spec.dependencies),
             dependency_slots=tuple(dependency_slots),
             dependency_requires_async=tuple(dependency_requires_async),
-            # Injected parameters are hidden from a wrapper's signature but still occupy a position,
-            # so the remaining parameters of a wrapper can only be passed by keyword.
-            dependency_order_is_signature_order=(
-                not provider_is_inject_wrapper
-                and self._dependency_order_is_signature_order(spec=spec)
+            dependency_order_is_signature_order=self._dependency_order_is_signature_order(
+                spec=spec,
             ),
             max_required_scope_level=self._max_required_scope_level_by_slot[spec.slot],
             dispatch_kind=dispatch_kind,
             sync_arguments=tuple(sync_arguments),
             async_arguments=tuple(async_arguments),
-            provider_is_inject_wrapper=provider_is_inject_wrapper,
+            provider_is_inject_wrapper=bool(
+                getattr(provider_reference, INJECT_WRAPPER_MARKER, False),
+            ),
             dependency_plans=tuple(dependency_plans),
         )
 
@@ -857,6 +853,9 @@ class ResolverGenerationPlanner:
         if provider_callable is None:
             return False
 
+        while getattr(provider_callable, INJECT_WRAPPER_MARKER, False):
+            # Injected parameters are hidden from the wrapper but still occupy a position.
+            provider_callable = provider_callable.__wrapped__
         parameters = list(inspect.signature(provider_callable).parameters.values())
 
         order_by_name = {parameter.name: index for index, parameter in enumerate(parameters)}
-- 
2.43.0


From 42f942b93937f8b2d38be0516055abdbef9aec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 31/39] fix: name the arguments behind a skipped parameter

---
 src/diwire/_internal/resolvers/assembly/planner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 6087c35..3747c76 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -865,6 +865,15 @@ class ResolverGenerationPlanner:
             if current_index is None or current_index < last_index:
                 return False
             last_index = current_index
+
+        # A skipped parameter keeps its default, so the parameters after it have to be named.
+        dependency_names = {dependency.parameter.name for dependency in spec.dependencies}
+        skipped = False
+        for parameter in parameters:
+            if parameter.name not in dependency_names:
+                skipped = True
+            elif skipped and parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
+                return False
         return True
 
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
-- 
2.43.0


From a3c248361322a78c7a14871600cc9932a227888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 32/39] fix: pytest plugin: test methods with injected
 parameters failed

Setting __signature__ on a bound method raises AttributeError, and parameters
of static and class methods were not hidden from fixture matching.
---
 src/diwire/_internal/integrations/pytest_plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 12a5c35..0f6af3a 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -67,6 +67,8 @@ def pytest_pycollect_makeitem(
         ``None`` to continue default collection flow.
 
     """
+    if isinstance(obj, (staticmethod, classmethod)):
+        obj = obj.__func__
     if not callable(obj):
         return None
     if not collector.istestfunction(obj, name):
@@ -104,7 +106,11 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
 
     """
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
-    original_callable_as_any = cast("Any", original_callable)
+    # Bound methods take no attributes: metadata and signature live on the function.
+    original_callable_as_any = cast(
+        "Any",
+        getattr(original_callable, "__func__", original_callable),
+    )
     injected_parameters = cast(
         "tuple[InjectedParameter, ...] | None",
         getattr(original_callable_as_any, _DIWIRE_INJECTED_PARAMETERS_ATTR, None),
-- 
2.43.0


From 216f969c3993888ff9ff9c89fcbf3ae219039e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 33/39] fix: pytest plugin: inject tests from their own
 container

The plugin injected through the global resolver context, whose fallback is the
container created last: registering and inferring scopes for a test's
parameters took place in any other container made before the test ran (and
failed when the test's container uses another resolver context).
---
 src/diwire/_internal/integrations/pytest_plugin.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 0f6af3a..8065bce 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -14,7 +14,6 @@ from diwire._internal.injection import (
     InjectedCallableInspector,
     InjectedParameter,
 )
-from diwire._internal.resolver_context import resolver_context
 
 _DIWIRE_CONTAINER_ATTR = "_diwire_container"
 _DIWIRE_INJECTED_PARAMETERS_ATTR = "__diwire_pytest_injected_parameters__"
@@ -90,7 +89,7 @@ def pytest_pycollect_makeitem(
 def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
     """Wrap test function execution to resolve ``Injected[...]`` parameters.
 
-    The wrapper swaps the callable with ``resolver_context.inject(original_callable)``
+    The wrapper swaps the callable with one injected from the test's container
     for the duration of the test call and executes with an explicit resolver
     kwarg. If no container state is attached to the node, this hook is a no-op.
 
@@ -139,7 +138,14 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
         original_callable_as_any.__signature__ = original_signature
 
     try:
-        injected_callable = resolver_context.inject(original_callable)
+        # Register and infer scopes in the test's own container, whichever container
+        # the ambient resolver context falls back to.
+        injected_callable = container._inject_callable(  # noqa: SLF001
+            callable_obj=original_callable,
+            scope=None,
+            dependency_registration_policy=None,
+            auto_open_scope=True,
+        )
         resolver = container.compile()
         if inspect.iscoroutinefunction(injected_callable):
 
-- 
2.43.0


From 14d6f49d9c8cfcd36404e3c7d173a1ba60c86075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:44 +0000
Subject: [PATCH 34/39] fix: pass injected positional-only parameters behind a
 kept default by position

---
 src/diwire/_internal/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index b35241d..173a8b6 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2231,6 +2231,8 @@ class Container:
             bound_arguments.arguments[context_parameter.name] = resolver.resolve(
                 context_parameter.dependency,
             )
+        # A parameter left to its default must not turn positional-only ones after it into keywords.
+        bound_arguments.apply_defaults()
         return bound_arguments
 
     async def _resolve_async_injected_arguments(
@@ -2278,6 +2280,8 @@ class Container:
             bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(
                 context_parameter.dependency,
             )
+        # A parameter left to its default must not turn positional-only ones after it into keywords.
+        bound_arguments.apply_defaults()
         return bound_arguments
 
     def _is_registered_in_resolver(
-- 
2.43.0


From aef5959208c36ee2bb391130b01012082a3069c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:44 +0000
Subject: [PATCH 35/39] fix: closing a container leaves the active resolver as
 it is

---
 src/diwire/_internal/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 173a8b6..3b65b84 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2898,7 +2898,10 @@ class Container:
             cleanup.
 
         """
-        return self.__exit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            return self.__exit__(exc_type, exc_value, traceback)
+        # Unlike the end of a block, this must leave the active resolver as it is.
+        return self._root_resolver.close(exc_type, exc_value, traceback)
 
     async def aclose(
         self,
@@ -2921,7 +2924,10 @@ class Container:
             owning a long-lived root resolver lifecycle explicitly.
 
         """
-        return await self.__aexit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            return await self.__aexit__(exc_type, exc_value, traceback)
+        # Unlike the end of a block, this must leave the active resolver as it is.
+        return await self._root_resolver.aclose(exc_type, exc_value, traceback)
 
     # endregion Resolution and Scope Management
 
-- 
2.43.0


From 4dd398e844f3abcc6836c065e246e59392e6f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:30 +0000
Subject: [PATCH 36/39] fix: accept None as a registered instance

---
 src/diwire/_internal/container.py                  | 5 ++++-
 src/diwire/_internal/providers.py                  | 5 +++--
 src/diwire/_internal/resolvers/assembly/planner.py | 7 ++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 3b65b84..a85db2e 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -51,6 +51,7 @@ from diwire._internal.open_generics import (
 )
 from diwire._internal.policies import DependencyRegistrationPolicy, MissingPolicy
 from diwire._internal.providers import (
+    MISSING_INSTANCE,
     ContextManagerProvider,
     FactoryProvider,
     GeneratorProvider,
@@ -1277,7 +1278,9 @@ class Container:
             scope=provider_spec.scope,
             # Instances need no lock, but the layers built around them do.
             lock_mode=(
-                provider_spec.lock_mode if provider_spec.instance is None else self._lock_mode
+                provider_spec.lock_mode
+                if provider_spec.instance is MISSING_INSTANCE
+                else self._lock_mode
             ),
             is_open_generic=False,
         )
diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index 1a533dd..fc43a95 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -84,6 +84,7 @@ ContextManagerProvider: TypeAlias = (
 )
 
 _MISSING_ANNOTATION: Any = object()
+MISSING_INSTANCE: Any = object()
 _IMPLICIT_FIRST_PARAMETER_NAMES = {"self", "cls"}
 _COROUTINE_RESULT_INDEX = 2
 _COROUTINE_ARGUMENT_COUNT = 3
@@ -111,8 +112,8 @@ class ProviderSpec:
     provides: UserDependency
     """The dependency type that this provider supplies."""
 
-    instance: UserDependency | None = None
-    """An optional instance of the provided dependency, if applicable."""
+    instance: UserDependency = MISSING_INSTANCE
+    """An optional instance of the provided dependency, if applicable (it may be ``None``)."""
     concrete_type: ConcreteTypeProvider[Any] | None = None
     """An optional concrete type of the provided dependency, if applicable."""
     factory: FactoryProvider[Any] | None = None
diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 3747c76..f21b46b 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -22,6 +22,7 @@ from diwire._internal.markers import (
     strip_provider_annotation,
 )
 from diwire._internal.providers import (
+    MISSING_INSTANCE,
     Lifetime,
     ProviderDependency,
     ProviderSpec,
@@ -651,7 +652,7 @@ class ResolverGenerationPlanner:
         return lock_mode
 
     def _resolve_provider_attribute(self, *, spec: ProviderSpec) -> str:
-        if spec.instance is not None:
+        if spec.instance is not MISSING_INSTANCE:
             return "instance"
         if spec.concrete_type is not None:
             return "concrete_type"
@@ -669,7 +670,7 @@ class ResolverGenerationPlanner:
         raise DIWireInvalidProviderSpecError(msg)
 
     def _is_cached(self, *, spec: ProviderSpec) -> bool:
-        if spec.instance is not None:
+        if spec.instance is not MISSING_INSTANCE:
             return True
         return spec.lifetime is not Lifetime.TRANSIENT
 
@@ -681,7 +682,7 @@ class ResolverGenerationPlanner:
     ) -> int | None:
         if not is_cached:
             return None
-        if spec.instance is not None:
+        if spec.instance is not MISSING_INSTANCE:
             return self._root_scope.level
         if spec.lifetime is Lifetime.SCOPED:
             return spec.scope.level
-- 
2.43.0


From a9ea119421c18eaf75a9482c7d157b80157a2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:23 +0000
Subject: [PATCH 37/39] fix: open generics keep the spelling of dependency keys
 and reach into Callable parameters

---
 src/diwire/_internal/open_generics.py | 55 +++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 38fc4de..999a02b 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -4,10 +4,20 @@ import dataclasses
 import inspect
 import threading
 from collections.abc import Iterable, Mapping
-from contextlib import asynccontextmanager, contextmanager
+from contextlib import asynccontextmanager, contextmanager, suppress
 from dataclasses import dataclass
 from types import TracebackType
-from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_args, get_origin
+from typing import (
+    TYPE_CHECKING,
+    Annotated,
+    Any,
+    Literal,
+    NoReturn,
+    TypeVar,
+    cast,
+    get_args,
+    get_origin,
+)
 
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import EventLoopLock, LockMode
@@ -139,6 +149,8 @@ def contains_typevar(value: Any) -> bool:
     """
     if isinstance(value, TypeVar):
         return True
+    if isinstance(value, list):  # the parameters of a Callable
+        return any(contains_typevar(item) for item in value)
 
     origin = get_origin(value)
     if origin is not None:
@@ -148,7 +160,11 @@ def contains_typevar(value: Any) -> bool:
     return any(isinstance(parameter, TypeVar) for parameter in parameters)
 
 
-def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
+def substitute_typevars(  # noqa: PLR0911
+    value: Any,
+    *,
+    mapping: Mapping[TypeVar, Any],
+) -> Any:
     """Substitute TypeVars in a type expression using a resolved mapping.
 
     This is used during open-generic resolution to derive closed dependency keys
@@ -170,9 +186,17 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
             dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
         )
 
+    if isinstance(value, list):  # the parameters of a Callable
+        return [substitute_typevars(item, mapping=mapping) for item in value]
+
     origin = get_origin(value)
-    if origin is None:
+    if origin is None or not contains_typevar(value):
         return value
+    if not _has_metadata(value):
+        # Keys are compared as they are spelled: List[T] becomes List[int], not list[int].
+        parameters = getattr(value, "__parameters__", ())
+        with suppress(TypeError):
+            return value[tuple(mapping.get(parameter, parameter) for parameter in parameters)]
 
     arguments = get_args(value)
     if not arguments:
@@ -184,6 +208,15 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     return _rebuild_alias(origin=origin, args=substituted_arguments, fallback=value)
 
 
+def _has_metadata(value: Any) -> bool:
+    if isinstance(value, list):
+        return any(_has_metadata(item) for item in value)
+    origin = get_origin(value)
+    if origin is Annotated:
+        return True
+    return origin is not None and any(_has_metadata(argument) for argument in get_args(value))
+
+
 def validate_typevar_arguments(typevar_map: Mapping[TypeVar, Any]) -> None:
     """Validate closed generic arguments against TypeVar constraints and bounds.
 
@@ -1246,6 +1279,10 @@ def _collect_typevars_into(*, value: Any, found: list[TypeVar]) -> None:
     if isinstance(value, TypeVar):
         found.append(value)
         return
+    if isinstance(value, list):  # the parameters of a Callable
+        for item in value:
+            _collect_typevars_into(value=item, found=found)
+        return
 
     origin = get_origin(value)
     if origin is not None:
@@ -1280,6 +1317,12 @@ def _match_node(  # noqa: PLR0911
             return True
         return known == concrete
 
+    if isinstance(template, list) and isinstance(concrete, list):  # the parameters of a Callable
+        return len(template) == len(concrete) and all(
+            _match_node(template=template_item, concrete=concrete_item, mapping=mapping)
+            for template_item, concrete_item in zip(template, concrete, strict=True)
+        )
+
     template_origin = get_origin(template)
     if template_origin is None:
         template_open = canonicalize_open_key(template)
@@ -1319,6 +1362,8 @@ def _is_closed_generic_dependency(dependency: Any) -> bool:
 def _specificity_score(value: Any) -> int:
     if isinstance(value, TypeVar):
         return 0
+    if isinstance(value, list):
+        return sum(_specificity_score(item) for item in value)
 
     origin = get_origin(value)
     if origin is None:
@@ -1333,6 +1378,8 @@ def _specificity_score(value: Any) -> int:
 def _normalize_generic_node(value: Any) -> Any:
     if isinstance(value, TypeVar):
         return value
+    if isinstance(value, list):
+        return [_normalize_generic_node(item) for item in value]
 
     origin = get_origin(value)
     if origin is not None:
-- 
2.43.0


From faf404394d5ffdf70ad80ca1e6f8e6b9fcbcfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:01 +0000
Subject: [PATCH 38/39] fix: unions as bounds of TypeVars and as arguments for
 bounded TypeVars

---
 src/diwire/_internal/open_generics.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 999a02b..4d20d9d 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -6,7 +6,7 @@ import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager, suppress
 from dataclasses import dataclass
-from types import TracebackType
+from types import TracebackType, UnionType
 from typing import (
     TYPE_CHECKING,
     Annotated,
@@ -14,6 +14,7 @@ from typing import (
     Literal,
     NoReturn,
     TypeVar,
+    Union,
     cast,
     get_args,
     get_origin,
@@ -1423,6 +1424,16 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
+    if _is_union(argument):
+        return all(
+            _matches_type_constraint(argument=member, constraint=constraint)
+            for member in get_args(argument)
+        )
+    if _is_union(constraint):
+        return any(
+            _matches_type_constraint(argument=argument, constraint=member)
+            for member in get_args(constraint)
+        )
     argument_type = _origin_or_self(argument)
     constraint_type = _origin_or_self(constraint)
     if isinstance(argument_type, type) and isinstance(constraint_type, type):
@@ -1433,6 +1444,11 @@ def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     return argument == constraint
 
 
+def _is_union(value: Any) -> bool:
+    origin = get_origin(value)
+    return origin is Union or origin is UnionType
+
+
 def _origin_or_self(value: Any) -> Any:
     return get_origin(value) or value
 
-- 
2.43.0


From 046cdb0e55d34b325298e8571d8725fa55e0ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:50 +0000
Subject: [PATCH 39/39] fix: forward references as bounds of TypeVars

---
 src/diwire/_internal/open_generics.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 4d20d9d..d17438e 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -2,15 +2,17 @@ from __future__ import annotations
 
 import dataclasses
 import inspect
+import sys
 import threading
 from collections.abc import Iterable, Mapping
 from contextlib import asynccontextmanager, contextmanager, suppress
 from dataclasses import dataclass
-from types import TracebackType, UnionType
+from types import SimpleNamespace, TracebackType, UnionType
 from typing import (
     TYPE_CHECKING,
     Annotated,
     Any,
+    ForwardRef,
     Literal,
     NoReturn,
     TypeVar,
@@ -18,6 +20,7 @@ from typing import (
     cast,
     get_args,
     get_origin,
+    get_type_hints,
 )
 
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
@@ -1418,9 +1421,20 @@ def _is_type_argument_valid(*, typevar: TypeVar, argument: Any) -> bool:
     bound = getattr(typevar, "__bound__", None)
     if bound is None:
         return True
+    if isinstance(bound, ForwardRef):
+        bound = _evaluate_bound(typevar=typevar, bound=bound)
     return _matches_type_constraint(argument=argument, constraint=bound)
 
 
+def _evaluate_bound(*, typevar: TypeVar, bound: ForwardRef) -> Any:
+    module = sys.modules.get(typevar.__module__)
+    holder = SimpleNamespace(__annotations__={"bound": bound.__forward_arg__})
+    try:
+        return get_type_hints(holder, globalns=vars(module) if module else {})["bound"]
+    except (AttributeError, NameError):
+        return bound
+
+
 def _matches_type_constraint(*, argument: Any, constraint: Any) -> bool:
     if constraint is Any:
         return True
-- 
2.43.0

