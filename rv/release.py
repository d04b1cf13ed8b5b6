"""What closed scopes leave behind: values must be collectable, repeated work must not accumulate."""
from __future__ import annotations

import asyncio
import gc
import inspect
import random
import sys
import threading
import types
import typing
import weakref
from collections import Counter
from typing import Any

from diwire import All, AsyncProvider, Injected, Maybe, Provider, ResolverContext

from .harness import Case, Skip, Violation
from .inject import InjectDriver
from .monitor import Driver, Monitor, drive
from .opens import OpenDriver, OpenWorld
from .parts import sign
from .world import Rec, World


class Given:
    """A context value."""


def trail(obj: Any, ignore: set[int]) -> str:
    """One chain of referrers, for the report."""
    out = []
    seen = set(ignore)
    for _ in range(8):
        seen.add(id(obj))
        refs = [x for x in gc.get_referrers(obj) if id(x) not in seen and x is not sys._getframe()]
        seen.add(id(refs))
        if not refs:
            break
        obj = refs[0]
        out.append(f"{type(obj).__name__}:{repr(obj)[:120]}")
        del refs
    return "\n   <- ".join(out)


class Releasing:
    """Driver mixin: when every nested scope is closed, only what the root owns may still be alive."""

    ctx_refs: Any = None
    judged = True

    def _ctx_value(self, name: str) -> Any:
        v = super()._ctx_value(name)  # type: ignore[misc]
        if type(v) is object:
            v = Given()
            if self.ctx_refs is None:
                self.ctx_refs = []
            self.ctx_refs.append(weakref.ref(v))
        return v

    async def finish(self) -> None:
        d: Any = self
        while True:
            open_scopes = [s for s in d.scopes if s.open and s is not d.m.root]
            if not open_scopes:
                break
            await d.exit_scope(open_scopes[-1])
        gc.collect()
        for _ in range(4):  # finalizers of dropped asynchronous generators
            await pause()
        refs, allowed = self.expected()
        given = self.ctx_refs or []
        closed = d.case.counts["scopes_closed"]
        total = len(refs)
        self.forget()
        gc.collect()
        d.w.rt.log.clear()  # abandoned generators have reported themselves
        gc.collect()
        alive = [r() for r in refs if r() is not None]
        kept = [r for r in alive if r.uid not in allowed]
        d.case.count("values_released", total - len(alive))
        d.case.count("values_kept_by_root", len(alive) - len(kept))
        d.case.count("release_checks", closed)
        if kept:
            bad = kept[0]
            d.m.fail(f"{len(kept)} values of closed scopes are still alive, for instance {bad}, held by\n   {trail(bad.value, {id(kept), id(alive), id(bad)}) or trail(bad, {id(kept), id(alive), id(bad.value), id(getattr(bad.value, '__dict__', None))})}")
        left = [r() for r in given if r() is not None and self.judged]
        d.case.count("context_values", len(given))
        if left:
            d.m.fail(f"a context value of a closed scope is still alive, held by\n   {trail(left[0], {id(left)})}")
        del alive, kept, left
        try:
            await d.c.aclose()
        except BaseException:  # noqa: BLE001, S110  whether exits work is judged elsewhere
            pass
        d.w.rt.rel_faults.clear()

    def expected(self) -> tuple[list[Any], set[int]]:
        """Weak references to every record; the numbers of those the root may keep."""
        d: Any = self
        recs = list(d.w.rt.recs.values())
        allowed: set[int] = set()
        if any(d.w.nodes[rec.pid].resource and d.w.nodes[rec.pid].level == 1 and d.w.nodes[rec.pid].need > 1 for rec in recs):
            # its cleanup belongs to the root, its handles to the scope that asked for it
            d.case.count("unjudged_histories")
            self.judged = False
            allowed.update(rec.uid for rec in recs)
        todo = [rec for rec in recs if rec.uid in d.m.dropped or not gc.is_tracked(rec.value) or self.rooted(d.w.nodes[rec.pid])]
        while todo:
            rec = todo.pop()
            if rec.uid in allowed:
                continue
            allowed.add(rec.uid)
            stack = [v for _, v in rec.args]
            while stack:
                v = stack.pop()
                if isinstance(v, tuple) and not hasattr(v, "_rv"):
                    stack.extend(v)
                    continue
                more = getattr(v, "_rv", None)
                if isinstance(more, Rec):
                    todo.append(more)
        return [weakref.ref(rec) for rec in recs], allowed

    def rooted(self, n: Any) -> bool:
        return n.level == 1 and (n.cached or n.resource is not None)

    def forget(self) -> None:
        """Drop every reference the harness itself holds."""
        d: Any = self
        rt = d.w.rt
        rt.log.clear()
        rt.recs.clear()
        rt.faults.clear()
        d.m = Monitor(d.case, d.w)
        d.scopes = [d.m.root]
        for name in ("frames",):
            if hasattr(d, name):
                getattr(d, name).clear()
        d.broken = None


@types.coroutine
def pause():  # noqa: ANN201
    yield None


class ReleaseDriver(Releasing, Driver):
    pass


class ReleaseInject(Releasing, InjectDriver):
    pass


class ReleaseOpen(Releasing, OpenDriver):
    pass


LEVELS = ([3], [3, 4], [1, 3], [1, 3, 4], [2, 4], [1, 2, 3, 4, 5], [1, 4, 5], [3, 5], [5])
HISTORY = {"feasible": 0.6, "enter": 0.25, "exit": 0.18, "ops": (12, 40), "relfault": 0.03, "fault": 0.08, "cancel": 0.05, "with": 0.5, "loop": 0.5}


def world_release(case: Case) -> None:
    w = World(case.rng, **{"ladder": 0.1, "levels": case.rng.choice(LEVELS), "resources": 0.35, "handles": 0.2, "nodes": (3, 9)})
    d = ReleaseDriver(case, w, **HISTORY)
    d.run()
    sign(case, w, d)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["scopes_closed"] >= 1


def open_release(case: Case) -> None:
    w = OpenWorld(case.rng, **{"ladder": 0.1, "levels": case.rng.choice(LEVELS), "nodes": (1, 5), "resources": 0.35})
    d = ReleaseOpen(case, w, **HISTORY)
    d.run()
    sign(case, w, d)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["scopes_closed"] >= 1


def inject_release(case: Case) -> None:
    w = World(case.rng, **{"nodes": (2, 7), "ladder": 0.1, "unbound": 0.2, "eager": 0.05, "handles": 0.1, "levels": case.rng.choice(LEVELS)})
    d = ReleaseInject(case, w, **{**HISTORY, "call": 0.5, "fault": 0.05, "cancel": 0.0})
    d.run()
    sign(case, w, d, tuple(d.fsources))
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["bodies"] >= 1


# ---------------------------------------------------------------------------------------------
# repetition


class Session:
    """One random stretch of work that can be repeated exactly, in fresh scopes, loops and threads."""

    def __init__(self, case: Case, w: World) -> None:
        r = case.rng
        self.case, self.w = case, w
        self.rc = ResolverContext()
        self.c = w.new_container(resolver_context=self.rc)
        w.populate(self.c)
        self.seed = r.random()
        self.mode = r.choice(("plain", "driven", "loop", "loop", "threads"))
        if self.mode in ("driven", "loop") and not w.has_async:
            self.mode = "plain"
        self.steps: list[str] = []
        self.rounds = 0
        self.failed = 0
        self.fns = []
        for n in r.sample(w.public, min(2, len(w.public))):
            if n.error is None and not n.absent:
                self.fns.append(self.function(n.pid))
        case.describe = lambda: f"config {w.config}\n{w.source}\nmode {self.mode}, {self.rounds} rounds of:\n" + "\n".join(self.steps)

    def function(self, pid: int) -> Any:
        key = self.w.key(pid)

        def plain(x):  # noqa: ANN001, ANN202
            return None

        async def coro(x):  # noqa: ANN001, ANN202
            await pause()

        f = coro if self.w.nodes[pid].req_async else plain
        f.__annotations__ = {"x": Injected[key]}
        return self.rc.inject(f), f is coro

    def round(self) -> None:
        self.steps = []
        self.rounds += 1
        if self.mode == "plain":
            drive(self.work(0))
        elif self.mode == "driven":
            drive(self.work(0))
        elif self.mode == "loop":
            asyncio.run(self.crowd())
        else:
            ts = [threading.Thread(target=self.thread, args=(i,)) for i in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        rt = self.w.rt
        rt.faults.clear()
        rt.rel_faults.clear()
        gc.collect()
        rt.log.clear()
        rt.recs.clear()
        for clear in typing._cleanups:  # type: ignore[attr-defined]  # bounded caches, slow to fill
            clear()
        gc.collect()

    def thread(self, i: int) -> None:
        drive(self.work(i))

    async def crowd(self) -> None:
        await asyncio.gather(*(self.work(i) for i in range(3)))

    async def attempt(self, coro: Any) -> Any:
        try:
            v = coro()
            if inspect.isawaitable(v) and hasattr(v, "send"):
                v = await v
            return v
        except Violation:
            raise
        except BaseException:  # noqa: BLE001  judged elsewhere
            self.failed += 1
            return None

    async def work(self, who: int) -> None:
        r = random.Random(f"{self.seed}:{who}")
        w = self.w
        bind = bool(w.config["use_resolver_context"]) and r.random() < 0.6
        scopes: list[Any] = [self.c.compile()]
        for _ in range(r.randint(8, 24)):
            x = r.random()
            top = scopes[-1]
            if x < 0.25 and len(scopes) < 6:
                ctx = {w.ns[n]: Given() for n in w.ctx_keys if r.random() < 0.5} if r.random() < 0.5 else None
                deeper = r.choice([None, *w.rungs[1:]])
                self.steps.append(f"{who}: enter {deeper}")
                try:
                    s = top.enter_scope(None if deeper is None else w.ladder[deeper], context=ctx)
                except Exception:  # noqa: BLE001
                    continue
                if s in scopes:
                    continue
                scopes.append(s.__enter__() if bind else s)
            elif x < 0.4 and len(scopes) > 1:
                await self.leave(r, scopes, bind, who)
            elif x < 0.5 and not who:
                n = r.choice(w.nodes)
                if n.lifetime != "I":
                    self.steps.append(f"{who}: fault p{n.pid}")
                    w.rt.faults[n.pid] = [ValueError("fault")]
            elif x < 0.55 and not who:
                n = r.choice(w.nodes)
                if n.resource:
                    w.rt.rel_faults[n.pid] = [ValueError("release fault")]
            elif x < 0.7 and self.fns:
                f, is_async = r.choice(self.fns)
                self.steps.append(f"{who}: call {f.__name__}")
                if bind or len(scopes) == 1:
                    await self.attempt(f)
                else:
                    await self.attempt(lambda f=f, top=top: f(diwire_resolver=top))
            else:
                pid = r.choice(w.public).pid
                key = w.key(pid)
                request = r.choice((key, key, key, Maybe[key], All[w.base_key(w.nodes[pid].base)], Provider[key], AsyncProvider[key]))
                sync = r.random() < (0.5 if w.has_async else 0.9)
                self.steps.append(f"{who}: {'resolve' if sync else 'aresolve'} {request}")
                await self.attempt(lambda top=top, request=request, sync=sync: (top.resolve if sync else top.aresolve)(request))
        while len(scopes) > 1:
            await self.leave(r, scopes, bind, who)

    async def leave(self, r: random.Random, scopes: list[Any], bind: bool, who: int) -> None:
        s = scopes.pop()
        sync = r.random() < 0.4
        self.steps.append(f"{who}: leave sync={sync}")
        exc = ValueError("body") if r.random() < 0.2 else None
        trio = (type(exc), exc, None) if exc is not None else (None, None, None)
        self.case.count("session_scopes")
        if sync:
            await self.attempt(lambda: (s.__exit__ if bind else s.close)(*trio))
        else:
            await self.attempt(lambda: (s.__aexit__ if bind else s.aclose)(*trio))


RESOURCES = ("gen", "cm", "fcm", "agen", "acm", "afcm")


def census() -> Counter[str]:
    return Counter(f"{type(x).__module__}.{type(x).__qualname__}" for x in gc.get_objects())


def repeat_case(case: Case) -> None:
    """The same work again and again: what the container retains must stop growing."""
    knobs = {"levels": case.rng.choice(([3], [3, 4], [1, 3], [1, 3, 4], [2, 4], [3, 5])), "resources": 0.35, "models": 0.0, "ladder": 0.1, "async": 0.7}
    w: World = OpenWorld(case.rng, **{**knobs, "nodes": (1, 4)}) if case.rng.random() < 0.35 else World(case.rng, **{**knobs, "nodes": (2, 7)})
    shapes = [*w.nodes, *getattr(w, "patterns", ()), *getattr(w, "deco_todo", ())]
    if any(n.level == 1 and n.lifetime == "T" and n.form in RESOURCES for n in shapes):
        raise Skip("the root owns every resource of such a provider until it closes")
    s = Session(case, w)
    try:
        for _ in range(4):
            s.round()
        sizes = [len(gc.get_objects())]
        before = census()
        for batch in (5, 7):
            for _ in range(batch):
                s.round()
                sizes.append(len(gc.get_objects()))
            if not all(b > a for a, b in zip(sizes[-batch - 1 :], sizes[-batch:])):
                break
        else:
            more = (census() - before).most_common(8)
            case.fail(f"every repetition leaves more behind: {sizes} tracked objects; {more}")
        case.count("rounds", s.rounds)
        case.count("sizes_compared", len(sizes))
        case.count("failed_requests", s.failed)
        case.state(s.mode, len(s.steps), w.shape())
        case.signature = f"{hash((w.shape(), tuple(s.steps), s.mode)) & 0xFFFFFFFFFFFF:x}"
        case.nontrivial = case.counts["session_scopes"] >= 5
    finally:
        w.close()
