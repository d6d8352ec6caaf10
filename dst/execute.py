"""Interpreter of workload programs: performs each operation on the real container, then judges it."""

from __future__ import annotations

import asyncio
import contextvars
import inspect
import types
from typing import Any

from dst import kernel as K
from dst import world as W
from dst.loop import run_loop
from dst.model import LEVEL, Node, hk, transition
from dst.world import CUR, BodyBase, BodyError, Env, Op, World, dx

BODY = {"E": BodyError, "B": BodyBase, "K": type("BodyKey", (KeyError,), {}), "T": type("BodyTimeout", (TimeoutError,), {})}


# what callers pass for an injected parameter, besides objects of their own
GIVEN: dict[str, Any] = {"none": None, "zero": 0, "empty": (), "dots": ..., "missing": inspect.Parameter.empty}


class Call:
    """One call of an injected function."""

    __slots__ = ("inj", "env", "op", "node", "opened", "phase", "args", "body", "result", "exc", "seq", "extra", "named", "given", "maybe")

    def __init__(self) -> None:
        self.phase = "args"
        self.args: Any = None
        self.exc: Any = None
        self.result: Any = None
        self.extra: Any = None


CALL: contextvars.ContextVar[Call | None] = contextvars.ContextVar("dst_call", default=None)


class Exec:
    def __init__(self, w: World) -> None:
        self.w = w
        self.judged: set[int] = set()
        self.keep: list[Any] = []
        self.actor_n = 0
        self.peer: Exec | None = None  # runs the operations on a second container
        w.ex = self

    # -- entry points ------------------------------------------------------------------------
    def main(self) -> None:
        """Program of the first thread."""
        w = self.w
        spec = w.spec
        env = Env(w, "t", "main")
        env.actor = self.new_actor()
        try:
            if spec.get("loop"):
                for i, prog in enumerate(spec["loop"]):
                    self.in_loop(env, prog, i, final=i == len(spec["loop"]) - 1)
            else:
                W.drive(self.program(env, spec["main"]))
                W.drive(self.close_root(env, spec.get("end", "close")))
                W.drive(self.close_peer(env))
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (K.SimAbort, K.SimError)):
                raise
            if id(e) not in self.judged:
                w.violate("error", f"main: unexpected {type(e).__name__}: {e}")

    def in_loop(self, env: Env, prog: list[Any], i: int, final: bool = False) -> None:
        w = self.w
        e2 = env.child("a", f"{env.label}.loop{i}", inherit_active=True)
        e2.actor = self.new_actor()
        cancels: dict[int, list[int]] = {}
        for t, idx in w.spec.get("cancels", ()):
            cancels.setdefault(t, []).append(idx)
        me = K.current()

        def on_tick(n: int) -> None:
            for idx in cancels.get(n, ()):
                mine = [x for x in w.tasks if x[2] is me]
                if mine:
                    t, te, _ = mine[idx % len(mine)]
                    w.deliver_cancel(te, t)

        async def go() -> None:
            e2.task = asyncio.current_task()
            await self.program(e2, prog)
            await self.absorb()
            left = [t for t in asyncio.all_tasks() if t is not e2.task and asyncio.iscoroutine(t.get_coro()) and hasattr(t.get_coro(), "cr_code")]
            if left:
                w.violate("late-build", f"{e2.label}: {len(left)} tasks that no request waits for were left running")
            if final:
                await self.close_root(e2, w.spec.get("end", "aclose"))
                await self.close_peer(e2)
                await self.absorb()

        # async generators owned by the container outlive all loops but the last
        run_loop(go(), on_tick if cancels else None, shutdown=final)

    async def program(self, env: Env, prog: list[Any]) -> None:
        try:
            await self.body(env, prog)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            if id(e) not in self.judged:
                self.w.violate("error", f"{env.label}: unexpected {type(e).__name__}: {e}")

    async def absorb(self) -> None:
        """Take in a cancellation that has been delivered but has not arrived yet."""
        try:
            await asyncio.sleep(0)
        except asyncio.CancelledError:
            pass
        await self.uncancel()

    async def uncancel(self) -> None:
        t = asyncio.current_task()
        if t is not None:
            if getattr(t, "_must_cancel", False):
                # what was caught was not this cancellation, which is still to arrive
                try:
                    await asyncio.sleep(0)
                except asyncio.CancelledError:
                    pass
            while t.cancelling():
                t.uncancel()

    def new_actor(self) -> Any:
        self.actor_n += 1
        return ("actor", self.actor_n)

    async def close_root(self, env: Env, how: str) -> None:
        w = self.w
        if how == "none":
            return
        w.container.compile()
        node = w.root()
        sync = how == "close"
        kind = w.spec.get("rend", {})
        how = kind.get("how", "close")
        res: Any = w.container
        if how == "with":
            # a block over the container itself, or over what it was compiled to
            block: Any = w.container if not kind.get("comp") else w.container.compile()
            got = block.__enter__() if sync else await block.__aenter__()
            if not kind.get("comp") and got is not w.container.compile():
                w.violate("error", "the block over the container did not give its root resolver")
            res = block
        exc = None
        if kind.get("exc"):
            exc = BODY[kind["exc"]]("the program failed")
            w.stats["fault:body_exception"] += 1
        op = self.begin(env, node, f"root {'' if sync else 'async '}{how} after {type(exc).__name__ if exc is not None else 'normal end'}", "exit")
        w.close_begin(node, exc, sync)
        out = None
        ret = None
        try:
            ret = await self._exit_call(res, exc, not sync, how)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            out = e
        finally:
            self.end(op)
        w.close_end(node)
        if ret:
            w.violate("exit-exc", f"{op.what}: returned {ret!r}, which suppresses the exception")
        self.judge_exit(env, op, node, exc, out, sync)
        if kind.get("again"):
            await self.leave_again(env, node, w.container, exc if kind.get("again") == 2 else None, not sync, "close")

    def peer_env(self, env: Env) -> Env:
        assert self.peer is not None
        e = Env(self.peer.w, env.mode, f"{env.label}~2")
        e.actor = self.peer.new_actor()
        e.cancels = env.cancels
        e.task = env.task
        return e

    async def op_other(self, env: Env, o: dict[str, Any]) -> None:
        """Operations on the second container in the middle of a program for the first one."""
        if self.peer is None:
            return
        op, call = CUR.get(), CALL.get()
        await self.peer.program(self.peer_env(env), o["body"])
        CUR.set(op)
        CALL.set(call)

    async def close_peer(self, env: Env) -> None:
        if self.peer is not None:
            await self.peer.close_root(self.peer_env(env), self.peer.w.spec.get("end", "close"))

    # -- ops --------------------------------------------------------------------------------------
    async def body(self, env: Env, ops: list[Any]) -> None:
        for o in ops:
            if len(self.w.violations) > 3:
                return
            await self.one(env, o)

    async def one(self, env: Env, o: dict[str, Any]) -> None:
        k = K.ACTIVE
        me = K.current()
        if k is not None and me is not None:
            k.step(me, 1)
        await getattr(self, "op_" + o["o"])(env, o)

    def begin(self, env: Env, node: Node, what: str, kind: str) -> Op:
        op = Op(env, node, what, kind)
        op.seq0 = self.w.tick()
        op.cancel0 = env.cancels[0]
        CUR.set(op)
        self.w.stats["ops"] += 1
        self.w.open_ops += 1
        if self.w.open_ops > 1:
            self.w.stats["overlapping_ops"] += 1
        self.w.ev(env.label, what)
        return op

    def end(self, op: Op) -> None:
        op.seq1 = self.w.tick()
        self.w.open_ops -= 1
        self.w.ev(op.env.label, "end")
        CUR.set(None)

    def where(self, env: Env, on: str) -> tuple[Any, Node | None]:
        """Resolver object and model node an operation goes to (node None: no resolver is bound)."""
        w = self.w
        if on == "L":
            if env.res is not None:
                return env.res, env.node
            on = "C"
        if on == "C":
            if w.use_ctx and env.active is not None:
                return w.container, env.active
            return w.container, w.root()
        if on == "X":
            if env.active is not None:
                return w.rctx, env.active
            return w.rctx, w.root()
        raise K.SimError(on)

    # a task may be cancelled at most as often as the run delivered cancellations to it
    def was_cancelled(self, env: Env, op: Op, e: BaseException) -> bool:
        if not isinstance(e, asyncio.CancelledError):
            return False
        if env.cancels[0] > op.cancel0:
            return True
        try:
            t = asyncio.current_task()  # a cancellation delivered earlier arrives at the next suspension
        except RuntimeError:
            return False
        return t is not None and t.cancelling() > 0

    def ok_error(self, env: Env, op: Op, e: BaseException, expect: set[type], to: Any = None) -> bool:
        if any(e is f for f in op.faults):
            return True
        if type(e) in expect:
            return True
        if self.was_cancelled(env, op, e):
            return True
        if to is not None and type(e) is TimeoutError:
            return True
        return False

    def bad_error(self, op: Op, e: BaseException) -> None:
        w = self.w
        for b in w.builds:
            if b.exc is e:
                w.violate("foreign-error", f"{op.what}: ended with {type(e).__name__}({e}) which another request's provider raised")
                return
        if op.faults:
            f = op.faults[-1]
            w.violate("exc-changed", f"{op.what}: ended with {type(e).__name__}({e}) although its provider raised {type(f).__name__}")
            return
        if isinstance(e, asyncio.CancelledError):
            w.violate("error", f"{op.what}: CancelledError although nothing was cancelled")
            return
        w.violate("error", f"{op.what}: unexpected {type(e).__name__}: {e}")

    def reached(self, value: Any, seen: set[int]) -> None:
        if isinstance(value, tuple):
            for v in value:
                self.reached(v, seen)
        elif isinstance(value, W.Obj) and value.uid not in seen:
            seen.add(value.uid)
            for v in value.deps.values():
                self.reached(v, seen)

    def check_stray(self, op: Op, values: Any) -> None:
        ok = [b for b in op.builds if b.ok]
        if not ok or op.faults:
            return
        seen: set[int] = set()
        self.reached(values, seen)
        for b in ok:
            if (self.w.regspecs.get(b.pid) or {}).get("nv"):  # (its own arguments cannot be seen from what it gave)
                self.reached(b.obj, seen)
        for b in ok:
            if b.uid not in seen:
                if not op.sync and any(x.ok and x.op is not op and op.seq0 < x.seq1 and (x.rid or " ")[0] == "og" for x in self.w.builds):
                    return  # arguments of a thread-locked open generic are built before its lock is taken
                self.w.violate("stray-build", f"{op.what}: provider {b.pid} was called but its result is not part of the answer")
                return

    async def op_r(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        form, key = o["f"], hk(o["k"])
        mode = o.get("m") or ("a" if env.mode == "a" else "s")
        if env.mode != "a":
            mode = "s"
        on = o.get("on", "L")
        target, node = self.where(env, on)
        assert node is not None
        sync = mode == "s"
        dep = w.dep_annotation(form, key, o.get("mb"))
        what = f"{env.label}: {'resolve' if sync else 'aresolve'}({form} {key}) on {on}={w.show(node)}"
        expect = w.errors(form, key, node, sync)
        kind = "r"
        if sync and form in ("v", "m") and expect == {dx.DIWireAsyncDependencyInSyncContextError} and not w.touches_open(form, key, node):
            b = node.reg.get(key)
            own = node.owner(b.level) if b is not None else None
            if b is not None and node.reg.requires_async(b) and own is not None:
                kind = "static"
        op = self.begin(env, node, what, kind)
        op.sync = sync
        to = o.get("to") if not sync else None
        exc: BaseException | None = None
        value: Any = None
        nb = len(w.nodes)
        try:
            if sync:
                value = target.resolve(dep)
            elif to is not None:
                async with asyncio.timeout(to):
                    value = await target.aresolve(dep)
            else:
                value = await target.aresolve(dep)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        if exc is not None:
            w.stats["failed_requests"] += 1
            if not self.ok_error(env, op, exc, expect, to):
                self.bad_error(op, exc)
            await self.after_error(env, op, exc, o)
            return
        self.check_answer(op, form, key, value, node, expect, sync)
        if o.get("keep") and form in ("p", "ap"):
            pass

    def check_answer(self, op: Op, form: str, key: Any, value: Any, node: Node, expect: set[type], sync: bool) -> None:
        w = self.w
        lost = [b.exc for b in op.builds if b.exc is not None]
        if lost:
            f = lost[0]
            w.violate("exc-lost", f"{op.what}: returned a value although its provider raised {type(f).__name__}({f})")
            return
        if expect:
            if expect == {dx.DIWireAsyncDependencyInSyncContextError} and self.already_built(form, key, node):
                pass
            else:
                if form == "m" and value is None and dx.DIWireDependencyNotRegisteredError in expect:
                    return  # something the optional service needs is missing: None is an accepted answer
                w.violate("missing-error", f"{op.what}: returned {value!r} instead of {'/'.join(sorted(x.__name__ for x in expect))}")
                return
        w.check_value(form, key, value, node, op, op.what)
        self.check_stray(op, value)

    def already_built(self, form: str, key: Any, node: Node) -> bool:
        """Only services already built (hence needing nothing asynchronous any more) may answer."""
        w = self.w
        if form == "a":
            bs = node.reg.all_of(key[1])
        else:
            b = node.reg.get(key)
            bs = [b] if b is not None else []

        def built(b: Any, at: Node) -> bool:
            if b.kind == "inst" or not at.reg.requires_async(b):
                return True
            own = at.owner(b.level)
            if own is None:
                return False
            if b.scoped and w.ok_builds.get((own.nid, b.rid)):
                return True
            # an open generic asks for its dependencies one by one
            return b.rid[0] == "og" and not b.is_async and all(built(x, own) for x in at.reg.dep_bindings(b))

        return all(built(b, node) for b in bs)

    async def after_error(self, env: Env, op: Op, exc: BaseException, o: dict[str, Any]) -> None:
        """What the workload does with a failed request."""
        if self.was_cancelled(env, op, exc):
            if not o.get("swallow"):
                self.judge(exc)
                raise exc
            await self.uncancel()
        if o.get("prop"):
            self.judge(exc)
            raise exc

    def judge(self, e: BaseException) -> None:
        self.judged.add(id(e))
        self.keep.append(e)

    async def op_h(self, env: Env, o: dict[str, Any]) -> None:
        """Call a deferred handle that some service received earlier."""
        w = self.w
        here = env.node if env.node is not None else (env.active or w.root())
        forms = ("p", "ap") if env.mode == "a" else ("p",)
        usable = [h for h in w.handles if h[1] in forms and h[3].is_ancestor_of(here) and h[3].open and h[3].close0 is None]
        if not usable:
            return
        fn, form, key, node = usable[o["n"] % len(usable)]
        sync = form == "p"
        expect = w.errors("v", key, node, sync)
        op = self.begin(env, node, f"{env.label}: {'handle' if sync else 'async handle'} for {key} of {w.show(node)} called in {w.show(here)}", "h")
        op.sync = sync
        exc: BaseException | None = None
        value: Any = None
        to = o.get("to") if not sync else None
        try:
            if sync:
                value = fn()
            elif to is not None:
                async with asyncio.timeout(to):
                    value = await fn()
            else:
                value = await fn()
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        w.stats["handle_calls"] += 1
        if exc is not None:
            if not self.ok_error(env, op, exc, expect, to):
                self.bad_error(op, exc)
            await self.after_error(env, op, exc, o)
            return
        self.check_answer(op, "v", key, value, node, expect, sync)

    # -- scopes -----------------------------------------------------------------------------------
    def mapping(self, o: dict[str, Any]) -> tuple[dict[str, Any], Any]:
        """Context values for a scope; a workload may hand one mapping object to several scopes."""
        w = self.w
        n = o.get("csh")
        if n is not None and n in w.shared_ctx:
            return w.shared_ctx[n]
        ctxm: dict[str, Any] = {}
        ctx: Any = {}
        for name, val in o["ctx"].items():
            v = None if val == "none" else W.CtxVal((name, val, w.next_uid()))
            ctxm[name] = v
            ctx[w.CK(name)] = v
        if o.get("cty"):
            ctx = types.MappingProxyType(ctx)
        if n is not None:
            w.shared_ctx[n] = (ctxm, ctx)
        return ctxm, ctx

    async def op_scope(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        via = o.get("via", "L")
        target, base = self.where(env, via)
        assert base is not None
        lvl = LEVEL[o["lvl"]] if o.get("lvl") else None
        path = w.transition(base.level, lvl)
        ctx = None
        ctxm = None
        if o.get("ctx") is not None:
            ctxm, ctx = self.mapping(o)
        scope = w.scopes[o["lvl"]] if o.get("lvl") else None
        what = f"{env.label}: enter_scope({o.get('lvl')}) on {via}={w.show(base)}"
        op = self.begin(env, base, what, "enter")
        wrapped = w.use_ctx or via == "X" or (via == "L" and env.vars.get("_wrapped", (False,))[0])
        exc = None
        scoped = None
        try:
            if ctx is None:
                scoped = target.enter_scope(scope)
            else:
                scoped = target.enter_scope(scope, context=ctx)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            self.end(op)
        if exc is not None:
            # nothing is deeper than the last level: entering it again may be refused
            if (path is None or (not path and base.level == 5)) and type(exc) is dx.DIWireScopeMismatchError:
                return
            self.bad_error(op, exc)
            return
        if path is None:
            w.violate("missing-error", f"{what}: entered although that scope cannot be opened from there")
            return
        w.stats["scopes"] += 1
        e2 = env.nested()
        e2.res = scoped
        e2.vars["_wrapped"] = (wrapped, None)
        if not path:  # the scope that is open already
            e2.node = base
            if o.get("re") and base.level > 1:
                await self.reenter(e2, o, base, scoped, wrapped, env.mode == "a" and o.get("m", "a") == "a")
            else:
                await self.body(e2, o["body"])
            return
        node = w.open_chain(base, lvl, ctxm)
        assert node is not None
        e2.node = node
        how = o.get("how", "with")
        amode = env.mode == "a" and o.get("m", "a") == "a"
        if how in ("with", "withclose"):
            if wrapped:
                e2.active = node
            if amode:
                got = await scoped.__aenter__()
            else:
                got = scoped.__enter__()
            e2.res = got
        exc = None
        try:
            await self.body(e2, o["body"])
            end = o.get("end", "ok")
            if end != "ok":
                exc = BODY[end](f"body of {w.show(node)} failed")
                self.judge(exc)
                w.stats["fault:body_exception"] += 1
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        if how == "withclose":
            # explicit close inside the block, then the block ends as usual (a second close)
            try:
                await self.leave(env, o, node, scoped, exc if o.get("cexc") else None, amode, "close")
            except (K.SimAbort, K.SimError):
                raise
            except BaseException as e:  # noqa: BLE001
                await self.leave_again(env, node, e2.res, e, amode, "with")
                raise
            await self.leave_again(env, node, e2.res, exc, amode, "with")
        else:
            await self.leave(env, o, node, e2.res, exc, amode, how)
        for _ in range(o.get("dclose", 0)):
            await self.leave_again(env, node, scoped, None, amode, "close")
        if o.get("late"):
            w.late.append((node, scoped))
        if exc is not None and (o.get("prop") or isinstance(exc, asyncio.CancelledError)):
            self.judge(exc)
            raise exc

    async def op_rblock(self, env: Env, o: dict[str, Any]) -> None:
        """A block over the container itself (only where nothing needs a release, which the block's end would cause)."""
        w = self.w
        e2 = env.nested()
        e2.node = w.root()
        e2.vars["_wrapped"] = (w.use_ctx, None)
        block = w.container.compile() if o.get("comp") else w.container
        await self.reenter(e2, o, w.root(), block, w.use_ctx, env.mode == "a" and o.get("m", "a") == "a")

    async def reenter(self, e2: Env, o: dict[str, Any], base: Node, scoped: Any, wrapped: bool, amode: bool) -> None:
        """A block over the scope that is open already (only where nothing needs a release, which the block's end would cause)."""
        w = self.w
        w.stats["reentered_scopes"] += 1
        e2.res = await scoped.__aenter__() if amode else scoped.__enter__()
        if wrapped:
            e2.active = base
        exc: BaseException | None = None
        try:
            await self.body(e2, o["body"])
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        op = self.begin(e2, base, f"{e2.label}: exit of {w.show(base)} entered again", "exit")
        try:
            await self._exit_call(scoped, exc, amode, "with")
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            if not self.was_cancelled(e2, op, e):
                self.bad_error(op, e)
            exc = exc or e
        finally:
            self.end(op)
        if exc is not None:
            raise exc

    async def _exit_call(self, res: Any, exc: BaseException | None, amode: bool, how: str) -> Any:
        t = type(exc) if exc is not None else None
        tb = exc.__traceback__ if exc is not None else None
        if how == "with":
            if amode:
                return await res.__aexit__(t, exc, tb)
            return res.__exit__(t, exc, tb)
        if amode:
            return await res.aclose(t, exc, tb)
        return res.close(t, exc, tb)

    async def leave(self, env: Env, o: dict[str, Any], node: Node, res: Any, exc: BaseException | None, amode: bool, how: str) -> None:
        w = self.w
        op = self.begin(env, node, f"{env.label}: {'async ' if amode else ''}exit of {w.show(node)} ({how}) after {type(exc).__name__ if exc is not None else 'normal end'}", "exit")
        w.close_begin(node, exc, not amode)
        out: BaseException | None = None
        ret = None
        try:
            ret = await self._exit_call(res, exc, amode, how)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            out = e
        finally:
            self.end(op)
        w.close_end(node)
        if ret:
            w.violate("exit-exc", f"{op.what}: returned {ret!r}, which suppresses the exception")
        self.judge_exit(env, op, node, exc, out, not amode)
        if out is not None and out is not exc and exc is None:
            if self.was_cancelled(env, op, out) or o.get("prop"):
                self.judge(out)
                raise out

    def judge_exit(self, env: Env, op: Op, node: Node, exc: BaseException | None, out: BaseException | None, sync: bool) -> None:
        w = self.w
        group = [node, *node.owned]
        pending_async = sync and any(r.is_async and not r.rel_start for g in group for r in g.res)
        guard = dx.DIWireAsyncDependencyInSyncContextError
        if exc is not None:
            # `async with` re-raises what was passed in; __exit__ itself must not raise anything else
            if out is not None and out is not exc:
                if self.was_cancelled(env, op, out) and not op.faults:
                    return
                w.violate("exit-exc", f"{op.what}: {type(out).__name__}({out}) replaced the exception that ended the scope")
            return
        if out is None:
            if pending_async:
                w.violate("exit-exc", f"{op.what}: asynchronous resources were left pending without any error")
            elif op.faults:
                w.violate("exit-exc", f"{op.what}: failing release {type(op.faults[0]).__name__}({op.faults[0]}) was not reported")
            return
        if pending_async and type(out) is guard:
            return
        if op.faults:
            if out is op.faults[0]:
                return
            if self.was_cancelled(env, op, out):
                return
            w.violate("exit-exc", f"{op.what}: raised {type(out).__name__}({out}) instead of the first failing release {type(op.faults[0]).__name__}({op.faults[0]})")
            return
        if self.was_cancelled(env, op, out):
            return
        self.bad_error(op, out)

    async def leave_again(self, env: Env, node: Node, res: Any, exc: BaseException | None, amode: bool, how: str) -> None:
        w = self.w
        op = self.begin(env, node, f"{env.label}: second close of {w.show(node)} ({how})", "again")
        n = w.stats["releases"]
        try:
            ret = await self._exit_call(res, exc, amode, how)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            if not self.was_cancelled(env, op, e):
                w.violate("again", f"{op.what}: raised {type(e).__name__}: {e}")
        else:
            if ret:
                w.violate("exit-exc", f"{op.what}: returned {ret!r}")
        finally:
            self.end(op)
        if op.rels:
            w.violate("again", f"{op.what}: released {[r.build.obj for r in op.rels]}")

    async def op_temp(self, env: Env, o: dict[str, Any]) -> None:
        """Another container bound to the same resolver context is used and closed on the way."""
        w = self.w
        if w.temp is None:
            return
        box, (near, far), classes = w.temp
        how = o["how"]
        amode = env.mode == "a" and o.get("m", "a") == "a"
        what = f"{env.label}: other container: {how}"
        w.stats["other_container_uses"] += 1

        def see(where: str, key: Any, want: Any) -> Any:
            got = w.rctx.resolve(key)
            if type(got) is not key or (want is not None and got is not want):
                w.violate("active", f"{what}: {where} {key.__name__} came as {got!r}")
            return got

        async def close() -> None:
            if amode:
                await box.aclose()
            else:
                box.close()

        op, call = CUR.get(), CALL.get()
        CUR.set(None)
        try:
            if how == "close":
                await close()
                return
            block = {"with": box, "comp": box.compile()}.get(how) or box.compile().enter_scope(w.scopes["REQUEST"])
            got = await block.__aenter__() if amode else block.__enter__()
            key = near if how == "scope" else far
            exc: BaseException | None = None
            try:
                first = see("in its block", key, None)
                if o.get("close"):
                    await close()
                    see("in its block, after the container was closed", key, first)
                if o.get("d") is not None:
                    if amode:
                        await asyncio.sleep(o["d"])
                    see("in its block, later on,", key, first)
                if o.get("end"):
                    exc = BODY[o["end"]]("block over another container failed")
            except (K.SimAbort, K.SimError):
                raise
            except asyncio.CancelledError as e:
                exc = e
            try:
                await self._exit_call(got if how == "scope" else block, exc, amode, "with")
            except asyncio.CancelledError as e:
                exc = e
            if isinstance(exc, asyncio.CancelledError):
                self.judge(exc)
                raise exc
        finally:
            CUR.set(op)
            CALL.set(call)

    async def op_late(self, env: Env, o: dict[str, Any]) -> None:
        """Close once more a scope that was closed some time ago."""
        w = self.w
        if not w.late:
            return
        node, res = w.late[o["n"] % len(w.late)]
        amode = env.mode == "a" and o.get("m", "a") == "a"
        await self.leave_again(env, node, res, None, amode, "close")

    # -- concurrency ------------------------------------------------------------------------------
    async def op_par(self, env: Env, o: dict[str, Any]) -> None:
        if env.mode == "a":
            await self._par_tasks(env, o)
        else:
            self._par_threads(env, o)

    def _thread_body(self, e2: Env, prog: list[Any], loop: bool, idx: int) -> Any:
        def body() -> None:
            try:
                if loop:
                    self.in_loop(e2, prog, idx)
                else:
                    W.drive(self.body(e2, prog))
            except (K.SimAbort, K.SimError):
                raise
            except BaseException as e:  # noqa: BLE001
                if id(e) not in self.judged:
                    self.w.violate("error", f"{e2.label}: unexpected {type(e).__name__}: {e}")

        return lambda: contextvars.Context().run(body)

    def _par_threads(self, env: Env, o: dict[str, Any]) -> None:
        k = K.ACTIVE
        me = K.current()
        assert k is not None and me is not None
        ts = []
        for i, prog in enumerate(o["t"]):
            e2 = env.child("t", f"{env.label}.{i}", inherit_active=False)
            e2.actor = self.new_actor()
            loop = bool(o.get("loops")) and bool(o["loops"][i % len(o["loops"])])
            ts.append(k.spawn_live(e2.label, self._thread_body(e2, prog, loop, i)))
        for t in ts:
            k.join(me, t)

    async def _par_tasks(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        tasks = []
        for i, prog in enumerate(o["t"]):
            e2 = env.child("a", f"{env.label}.{i}", inherit_active=True)
            e2.actor = self.new_actor()
            t = asyncio.get_running_loop().create_task(self._task_body(e2, prog))
            e2.task = t
            w.tasks.append((t, e2, K.current()))
            tasks.append((t, e2))
        pend = {t for t, _ in tasks}
        cancelled = None
        while pend:
            try:
                await asyncio.wait([t for t, _ in tasks if t in pend])
            except asyncio.CancelledError as c:
                cancelled = c
                for t, e2 in tasks:
                    if not t.done():
                        w.deliver_cancel(e2, t)
            pend = {t for t in pend if not t.done()}
        for t, _ in tasks:
            if not t.cancelled():
                e = t.exception()
                if e is not None and isinstance(e, K.SimError):
                    raise e
        if cancelled is not None:
            self.judge(cancelled)
            raise cancelled

    async def _task_body(self, e2: Env, prog: list[Any]) -> None:
        try:
            await self.body(e2, prog)
        except (K.SimAbort, K.SimError, asyncio.CancelledError):
            raise
        except BaseException as e:  # noqa: BLE001
            if id(e) not in self.judged:
                self.w.violate("error", f"{e2.label}: unexpected {type(e).__name__}: {e}")

    async def op_exec(self, env: Env, o: dict[str, Any]) -> None:
        """Work handed to a pool thread: with the task's context (to_thread) or without."""
        if env.mode != "a":
            await self.body(env, o["body"])
            return
        inherit = o.get("inherit", True)
        e2 = env.child("t", f"{env.label}.pool", inherit_active=inherit)
        e2.actor = self.new_actor()

        def body() -> None:
            CUR.set(None)
            try:
                W.drive(self.body(e2, o["body"]))
            except (K.SimAbort, K.SimError):
                raise
            except BaseException as e:  # noqa: BLE001
                if id(e) not in self.judged:
                    self.w.violate("error", f"{e2.label}: unexpected {type(e).__name__}: {e}")

        loop = asyncio.get_running_loop()
        if inherit:
            fut = asyncio.ensure_future(asyncio.to_thread(body))
        else:
            fut = asyncio.ensure_future(loop.run_in_executor(None, body))
        cancelled = None
        while not fut.done():
            try:
                await asyncio.shield(fut)
            except asyncio.CancelledError as c:
                cancelled = c
        fut.result()
        if cancelled is not None:
            self.judge(cancelled)
            raise cancelled

    async def op_sl(self, env: Env, o: dict[str, Any]) -> None:
        d = o["d"]
        if env.mode == "a":
            if d <= 0:
                for _ in range(int(-d) or 1):
                    try:
                        await asyncio.sleep(0)
                    except asyncio.CancelledError as c:
                        self.judge(c)
                        raise
            else:
                try:
                    await asyncio.sleep(d)
                except asyncio.CancelledError as c:
                    self.judge(c)
                    raise
        else:
            k, me = K.ACTIVE, K.current()
            assert k is not None and me is not None
            k.sleep(me, max(d, 0.01))

    # -- registration inside a program ---------------------------------------------------------------
    async def op_reg(self, env: Env, o: dict[str, Any]) -> None:
        e = self.w.apply(o)
        self.w.stats["registrations"] += 1
        if e is not None:
            self.w.violate("reg-refused", f"{env.label}: {o['o']} {o['k']} refused: {type(e).__name__}: {e}")

    op_deco = op_open = op_odeco = op_reg

    async def op_bad(self, env: Env, o: dict[str, Any]) -> None:
        e = self.w.apply(o)
        self.w.stats["fault:refused_registration"] += 1
        if e is None:
            self.w.violate("reg-accepted", f"{env.label}: invalid registration {o['how']} of {o['k']} was accepted")

    async def op_compile(self, env: Env, o: dict[str, Any]) -> None:
        self.w.root()
        self.w.container.compile()

    # -- injected callables ---------------------------------------------------------------------------
    async def op_inj(self, env: Env, o: dict[str, Any]) -> None:
        w = self.w
        inj = w.injects[o["n"] % len(w.injects)]
        is_async = inj["async"]
        if is_async and env.mode != "a":
            return
        kw: dict[str, Any] = {}
        base: Node | None
        if o.get("rs") and env.res is not None:
            kw["diwire_resolver"] = env.res
            base = env.node
            wrapped = w.use_ctx or bool(env.vars.get("_wrapped", (False,))[0])
        elif env.active is not None:
            base = env.active
            wrapped = True
        elif w.use_ctx:
            base = w.root()
            wrapped = True
        else:
            base = None
            wrapped = False
        ctxm = None
        if o.get("ctx") is not None:
            ctxm, ctx = self.mapping(o)
            kw["diwire_context"] = ctx
        elif o.get("cnone"):
            kw["diwire_context"] = None
        expect: set[type] = set()
        soft: set[type] = set()
        maybe: set[int] = set()
        opened = False
        node = base
        if base is None:
            expect.add(dx.DIWireResolverNotSetError)
        else:
            level = w.inject_level(inj, base.reg) if inj.get("scope") is None else LEVEL[inj["scope"]]
            if inj.get("scope") is None and base.reg is not w.registry and w.inject_level(inj, w.registry) != level:
                return  # recorded finding injected-scope-of-later-registrations
            if inj.get("auto", True) and level > base.level and level != w.root_level:
                node = w.open_chain(base, level, ctxm)
                opened = True
            if ctxm is not None and not opened:
                expect.add(dx.DIWireInvalidRegistrationError)
        sync = not is_async
        params = inj["params"]
        given: dict[str, Any] = {}
        shape = W.inj_shape(inj)
        lead = 0
        if o.get("pos") and not inj.get("z"):
            while lead in o.get("give", ()) and lead < len(params) and shape[lead] != "k":
                lead += 1
        for j in o.get("give", ()):
            if j < len(params) and (j < lead or shape[j] not in "pq"):
                given[f"d{j}"] = GIVEN[o["gv"]] if o.get("gv") in GIVEN else W.CtxVal(("given", j, w.next_uid()))
        if node is not None and not expect:
            for j, p in enumerate(params):
                if f"d{j}" in given:
                    continue
                errs = w.errors(p["f"], hk(p["k"]), node, sync)
                if p["f"] == "m" and dx.DIWireDependencyNotRegisteredError in errs:
                    soft |= errs
                    maybe.add(j)
                else:
                    expect |= errs
        call_given = dict(given)
        front = [given.pop(f"d{j}") for j in range(lead)]
        kw.update(given)
        call = Call()
        call.inj = inj
        call.env = e2 = env.nested()
        call.node = node
        call.opened = opened
        if not is_async:
            e2.mode = "t"
        call.body = o
        call.seq = w.next_uid()
        call.maybe = maybe
        call.extra = (W.CtxVal(("pos", call.seq)),) * inj.get("plain", 0)
        call.given = call_given
        call.named = {}
        if inj.get("y"):
            call.named["y0"] = W.CtxVal(("named", call.seq))
        if inj.get("more") and o.get("more"):
            call.named["m0"] = W.CtxVal(("more", call.seq))
        kw.update(call.named)
        if inj.get("z"):
            call.named["z0"] = W.KEPT
        if inj.get("rest") and o.get("more") and set(shape) <= {"k"} and inj.get("z") in (None, "k"):
            call.extra += (W.CtxVal(("rest", call.seq)),)
        e2.label = f"{env.label}~inj{inj['i']}"
        if opened:
            node.inj = call
            e2.node = node
            # a scope opened by the call is not in the lexical reach of its body
        e2.active = node if (opened and wrapped) else env.active
        e2.node = env.node
        e2.res = env.res
        where = node if node is not None else w.root()
        op = self.begin(env, where, f"{env.label}: injected call {inj['i']} in {w.show(node)}{' (fresh)' if opened else ''}", "inj")
        op.sync = not inj["async"]
        call.op = op
        w.stats["injected_calls"] += 1
        tok = CALL.set(call)
        exc: BaseException | None = None
        ret: Any = None
        try:
            if is_async:
                ret = await inj["fn"](*call.extra, *front, **kw)
            else:
                ret = inj["fn"](*call.extra, *front, **kw)
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        finally:
            CALL.set(None)
            self.end(op)
        if opened:
            if call.phase == "body":
                w.violate("inject", f"{op.what}: ended while its body was running")
            if node.close0 is None:
                w.close_begin(node, exc, sync)
            call.phase = "done"
            w.close_end(node)
            bexc = call.exc if call.args is not None else exc
            for res in [r for g in (node, *node.owned) for r in g.res]:
                for got in res.rel_exc:
                    if got is not bexc:
                        w.violate("rel-exc", f"release of {res.build.obj!r} saw {got!r}, the call ended with {bexc!r}")
        if call.args is None:  # body never started
            if exc is None:
                w.violate("inject", f"{op.what}: returned {ret!r} without running the function")
            elif not self.ok_error(env, op, exc, expect | soft):
                self.bad_error(op, exc)
            if exc is not None:
                await self.after_error(env, op, exc, o)
            return
        if expect:
            w.violate("missing-error", f"{op.what}: the function ran instead of {'/'.join(sorted(x.__name__ for x in expect))}")
        if call.exc is not None:
            if exc is not call.exc and not (exc is not None and self.was_cancelled(env, op, exc)):
                w.violate("inject", f"{op.what}: ended with {exc!r} instead of the function's {call.exc!r}")
        elif exc is not None:
            if not self.ok_error(env, op, exc, set()):
                self.bad_error(op, exc)
        elif op.faults:
            w.violate("exit-exc", f"{op.what}: failing release {op.faults[0]!r} was not reported")
        elif ret is not call.result:
            w.violate("inject", f"{op.what}: returned {ret!r} instead of {call.result!r}")
        if exc is not None:
            await self.after_error(env, op, exc, o)

    async def run_inject_body(self, inj: dict[str, Any], args: dict[str, Any], plain: tuple[Any, ...], named: dict[str, Any]) -> Any:
        w = self.w
        call = CALL.get()
        if call is None or call.inj is not inj:
            w.violate("inject", f"injected function {inj['i']} ran outside its call")
            return None
        CALL.set(None)
        op = call.op
        if call.phase == "exit":
            w.violate("rel-early", f"{op.what}: resources were released before the function ran")
        call.args = args
        call.phase = "body"
        o = call.body
        e2 = call.env
        if plain != call.extra:
            w.violate("inject", f"{op.what}: plain arguments {plain!r} instead of {call.extra!r}")
        if named != call.named:
            w.violate("inject", f"{op.what}: further arguments {named!r} instead of {call.named!r}")
        given = call.given
        if call.node is not None:
            vals = []
            for j, p in enumerate(inj["params"]):
                v = args[f"d{j}"]
                if f"d{j}" in given:
                    if v is not given[f"d{j}"]:
                        w.violate("inject", f"{op.what}: caller's argument d{j} was replaced by {v!r}")
                    continue
                if v is W.KEPT and p["f"] == "m":
                    v = None  # the parameter's own default
                if v is None and j in call.maybe:
                    continue
                w.check_value(p["f"], hk(p["k"]), v, call.node, op, f"{op.what}.d{j}")
                vals.append(v)
            if not call.maybe:
                self.check_stray(op, tuple(vals))
        op.builds = []
        exc: BaseException | None = None
        try:
            CUR.set(None)
            await self.body(e2, o.get("body", []))
            if o.get("end", "ok") != "ok":
                exc = BODY[o["end"]]("injected function failed")
                self.judge(exc)
                w.stats["fault:body_exception"] += 1
        except (K.SimAbort, K.SimError):
            raise
        except BaseException as e:  # noqa: BLE001
            exc = e
        CUR.set(op)
        op.faults = []
        call.phase = "exit"
        call.exc = exc
        call.result = W.CtxVal(("result", call.seq))
        if call.opened and call.node is not None:
            w.close_begin(call.node, exc, not inj["async"])
        if exc is not None:
            self.judge(exc)
            raise exc
        return call.result
