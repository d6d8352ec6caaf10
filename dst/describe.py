"""What the evidence says about the simulation itself."""

RULE = (
    "One case is one simulated run: a seeded container configuration, registration graph, program (requests, scopes, injected calls, "
    "registrations; over threads or tasks), fault plan and schedule, executed by the real diwire code under the simulator and judged "
    "against the reference model while it runs and over its history afterwards. A case is non-trivial if at least one provider ran and "
    "operations overlapped, a context switch was made inside the library, or a fault fired; distinct_nontrivial counts different "
    "signatures (hash of the sequence of context switches, lock acquisitions, request starts/ends and provider calls per actor)."
)

COMPONENTS = {
    "real": [
        "all of diwire (container, compiler and the code it generates, scopes, injection, decorators, open generics, locks' use)",
        "asyncio tasks, futures, locks, timeouts, cancellation and async generators (standard library)",
        "contextvars, contextlib, OS threads (one runs at a time)",
        "P04, P13, P18: dataclasses, attrs, pydantic and pydantic-settings; P19: pytest with diwire's plugin (no other plugins)",
    ],
    "simulated": [
        "thread scheduling (sys.monitoring instruction events in diwire and in generated code; seeded choices)",
        "threading.Lock and threading.RLock",
        "the event loop's clock, selector, cross-thread wake-up and executor threads",
        "time (simulated seconds only)",
        "providers, their delays, failures and cancellations",
    ],
    "stubbed": ["the selector: there is no I/O to wait for"],
}

ASSUMPTIONS = [
    "Threads interleave between bytecode instructions that read or write shared state (attribute, item, cell, call, iteration, with); "
    "the interpreter (3.12, GIL) executes a single such instruction atomically.",
    "Task interleavings follow the standard library's event loop; they are varied through suspension points, delays and cancellations "
    "of providers and programs.",
    "Sampling: a clean batch is evidence, not proof.",
    "Providers and programs come from a generator; user code that breaks documented rules (re-entrant construction of the same service "
    "under its own lock, unguarded lock mode used from several threads) is outside the generated space.",
]
