"""The reference semantics of scopes, and the online monitor that matches executions against it.

After every operation the monitor takes the slice of provider events that operation produced and
decides whether result, events and errors are explained by the registration graph and the scopes
open at that moment.  It never predicts an evaluation order the properties do not fix.
"""
from __future__ import annotations

import asyncio
import re
import gc
import inspect
import types
import typing
from dataclasses import dataclass, field
from typing import Any

from diwire import All, AsyncProvider, FromContext, Maybe, Provider, resolver_context  # noqa: F401
from diwire.exceptions import (
    DIWireAsyncDependencyInSyncContextError,
    DIWireDependencyNotRegisteredError,
    DIWireScopeMismatchError,
)

from .harness import Case, Violation
from .world import FAULT_TYPES, LEVELS, SKIPPABLE, Node, Rec, World

MISMATCH = DIWireScopeMismatchError
ASYNC = DIWireAsyncDependencyInSyncContextError
MISSING = DIWireDependencyNotRegisteredError
ALL_LEVELS = sorted(LEVELS)


class MScope:
    """One open scope of the reference model."""

    count = 0

    def __init__(self, level: int, parent: "MScope | None", ctx: dict | None) -> None:
        MScope.count += 1
        self.no = MScope.count
        self.level, self.parent, self.ctx = level, parent, ctx
        self.cache: dict[int, Any] = {}
        self.callbacks: list[tuple[Rec, str]] = []
        self.implicit: list[MScope] = []
        self.children: list[MScope] = []
        self.obj: Any = None
        self.open = True
        self.bound = False
        self.implied = False

    def anc(self, level: int) -> "MScope | None":
        s: MScope | None = self
        while s is not None:
            if s.level == level:
                return s
            if s.level < level:
                return None
            s = s.parent
        return None

    def lookup(self, key: Any) -> tuple[bool, Any]:
        s: MScope | None = self
        while s is not None:
            if s.ctx is not None and key in s.ctx:
                return True, s.ctx[key]
            s = s.parent
        return False, None

    def __repr__(self) -> str:
        return f"S{self.no}@{self.level}"


def transition(level: int, target: int | None, levels: list[int] = ALL_LEVELS, skippable: set[int] = SKIPPABLE) -> list[int] | str:
    """Levels opened, 'same' (the scope itself), or 'error'."""
    deeper = [x for x in levels if x > level]

    def nxt(cur: int) -> tuple[int, int]:
        d = [x for x in levels if x > cur]
        default = next((x for x in d if x not in skippable), d[0])
        return d[0], default

    if target is None:
        return [nxt(level)[1]] if deeper else "error"
    if target == level:
        return "same" if deeper else "error"
    if target < level or target not in levels:
        return "error"
    out = []
    cur = level
    while cur < target:
        imm, dfl = nxt(cur)
        cur = imm if imm == target else (dfl if dfl <= target else imm)
        out.append(cur)
    return out


@dataclass
class Expect:
    must: list[Any] = field(default_factory=list)
    may: list[Any] = field(default_factory=list)

    def allows(self, exc: BaseException) -> bool:
        return any((isinstance(x, type) and type(exc) is x) or x is exc for x in self.must + self.may)


class Monitor:
    def __init__(self, case: Case, world: World) -> None:
        self.case, self.w, self.rt = case, world, world.rt
        self.root = MScope(1, None, None)
        self.handles: list[tuple[Any, int, bool, MScope, str]] = []
        self.released: set[int] = set()
        self.dropped: set[int] = set()
        self.live: set[int] = set()
        self.cancel_exc: BaseException | None = None

    def fail(self, text: str) -> None:
        raise Violation(text)

    # -------------------------------------------------------------- prediction
    def exec_scope(self, n: Node, R: MScope) -> MScope | None:
        """Where the node's dependencies are resolved (its handles and context bind there)."""
        a = R.anc(n.level)
        if a is None:
            return None
        if n.cached or n.open or n.need <= n.level:
            return a
        return R

    def predict(self, pid: int, R: MScope, sync: bool, out: Expect, seen: set[tuple[int, int, bool]]) -> bool:
        """Collect the errors resolving pid at R may give; returns whether something async must run."""
        n = self.w.nodes[pid]
        if n.absent:
            out.must.append(MISSING)
            return False
        if n.error is not None:
            out.must.append(n.error)
            return False
        if n.lifetime == "I":
            return False
        a = R.anc(n.level)
        if a is None:
            out.must.append(MISMATCH)
            if sync and n.req_async:
                out.may.append(ASYNC)
            return n.req_async
        if n.cached and pid in a.cache:
            if sync and n.req_async:
                out.may.append(ASYNC)
            return False
        where = (a if n.cached or n.open or n.need <= n.level else R).no
        key = (pid, where, sync)
        if key in seen:
            return n.is_async
        seen.add(key)
        if n.cached and (pid, where, not sync) in seen:
            # whether the other request got there first decides; accept both
            sub = Expect()
            need = self._predict_deps(n, R, sync, sub, seen)
            out.may += sub.must + sub.may
            return need
        return self._predict_deps(n, R, sync, out, seen)

    def _predict_deps(self, n: Node, R: MScope, sync: bool, out: Expect, seen: set[tuple[int, int, bool]]) -> bool:
        pid = n.pid
        E = self.exec_scope(n, R)
        assert E is not None
        need_async = n.is_async
        for p in n.params:
            need_async |= self.predict_dep(p, E, sync, out, seen)
        for name, is_a in n.eager:
            target = next(p.dep[1] for p in n.params if p.name == name)
            self.predict(target, E, not is_a, out, seen)
        for exc in self.rt.faults.get(pid, ())[:1]:
            out.must.append(exc)
        if sync and n.req_async:
            (out.must if need_async else out.may).append(ASYNC)
        return need_async

    def predict_dep(self, p: Any, E: MScope, sync: bool, out: Expect, seen: set) -> bool:
        t = p.dep[0]
        if t == "maybe" and p.dep[1] is not None and self.w.nodes[p.dep[1]].absent:
            return False
        if t in ("key", "meta") or (t == "maybe" and p.dep[1] is not None):
            return self.predict(p.dep[1], E, sync, out, seen)
        if t == "all":
            res = False
            for q in self.w.all_slots(p.dep[1]):
                res |= self.predict(q, E, sync, out, seen)
            return res
        if t == "ctx":
            if not E.lookup(self.w.ns[p.dep[1]])[0]:
                out.must.append(MISSING)
        if t == "ctxmap" and not E.lookup(self.w.ns["CD"])[0]:
            out.must.append(MISSING)
        return False

    # -------------------------------------------------------------- matching
    def open_slice(self) -> bool:
        """Whether anything happened since the slice began (resources of superseded roots may be collected at any time)."""
        return any(not (e[0] == "leak" and e[1].uid in self.dropped) for e in self.rt.log[self.mark :])

    def match(self, pid: int, R: MScope, value: Any, where: str) -> None:
        n = self.w.nodes[pid]
        self.case.counts["matched"] += 1
        if n.lifetime == "I":
            if value is not self.w.instances[pid]:
                self.fail(f"{where}: expected the registered instance p{pid}, got {value!r} {getattr(value, '_rv', '')}")
            return
        a = R.anc(n.level)
        if a is None:
            self.fail(f"{where}: p{pid} needs scope level {n.level}, which is not open from {R}, yet a value was returned")
        assert a is not None
        rec = getattr(value, "_rv", None)
        if not isinstance(rec, Rec) or rec.value is not value:
            self.fail(f"{where}: expected a value of provider p{pid}, got {value!r}")
        if rec.pid != pid:
            self.fail(f"{where}: expected provider p{pid}, got a value of p{rec.pid}")
        if n.cached and pid in a.cache:
            if a.cache[pid] is not value:
                self.fail(f"{where}: p{pid} is scoped and {a} already holds {a.cache[pid]._rv}, got {rec}")
            self.case.counts["cache_hits"] += 1
            return
        self.consume(rec, where)
        if n.cached:
            a.cache[pid] = value
            self.match_args(n, a, rec, where)
        else:
            E = self.exec_scope(n, R)
            assert E is not None
            self.match_args(n, E, rec, where)

    def consume(self, rec: Rec, where: str) -> None:
        if rec.consumed:
            self.fail(f"{where}: {rec} was constructed for another use (a transient value was shared, or a scoped one crossed scopes)")
        if rec.uid not in self.fresh:
            self.fail(f"{where}: {rec} was constructed by an earlier operation")
        rec.consumed = True
        self.fresh.discard(rec.uid)

    def match_args(self, n: Node, E: MScope, rec: Rec, where: str) -> None:
        got = {}
        order = []
        for name, v in rec.args:
            got[name] = v
            order.append(name)
        if ("alt" in got) != n.alt:
            self.fail(f"{where}: {rec} came from a provider that is no longer registered (alternative: {'alt' in got})")
        for p in n.params:
            if n.eager and self.w.wrapped(n, p):
                continue
            self.match_param(n, p, E, got[p.name], f"{where} > p{n.pid}.{p.name}")
        for name, _ in n.eager:
            target = next(p.dep[1] for p in n.params if p.name == name)
            self.match(target, E, got["!" + name], f"{where} > p{n.pid}.{name}()")

    def match_param(self, n: Node, p: Any, E: MScope, v: Any, where: str) -> None:
        t = p.dep[0]
        self.case.counts[f"param_{p.kind}"] += 1
        if t in ("key", "meta"):
            self.match(p.dep[1], E, v, where)
        elif t == "maybe":
            if p.dep[1] is not None and not self.w.nodes[p.dep[1]].absent:
                self.match(p.dep[1], E, v, where)
            elif not self.same(v, p.default_value):
                self.fail(f"{where}: optional dependency is not registered, expected {p.default_value!r}, got {v!r}")
        elif t in ("none", "dfac"):
            if not self.same(v, p.default_value):
                self.fail(f"{where}: expected its declared default {p.default_value!r}, got {v!r}")
        elif t == "all":
            slots = self.w.all_slots(p.dep[1])
            if type(v) is not tuple or len(v) != len(slots):
                self.fail(f"{where}: All expected {len(slots)} values, got {v!r}")
            for q, x in self.pair(slots, v):
                self.match(q, E, x, where + f"[{q}]")
        elif t in ("provider", "aprovider"):
            if not callable(v) or hasattr(v, "_rv"):
                self.fail(f"{where}: expected a provider handle, got {v!r}")
            if not self.w.nodes[p.dep[1]].poison:
                self.handles.append((v, p.dep[1], t == "aprovider", E, where))
        elif t in ("ctx", "mctx"):
            found, expect = E.lookup(self.w.ns[p.dep[1]])
            if not found:
                if t == "ctx":
                    self.fail(f"{where}: no context value for {p.dep[1]} from {E}, yet it was constructed with {v!r}")
                expect = p.default_value
            if v is not expect and not (isinstance(expect, tuple) and v == expect):
                self.fail(f"{where}: context value from {E} expected {expect!r}, got {v!r}")
        elif t == "mctxtup":
            found, expect = E.lookup(self.w.ns["CT"])
            if v != (tuple(expect) if found else ()):
                self.fail(f"{where}: star context from {E} expected {expect!r}, got {v!r}")
        elif t in ("mctxmap", "ctxmap"):
            found, expect = E.lookup(self.w.ns["CD"])
            if v != (dict(expect) if found else {}):
                self.fail(f"{where}: star-star context from {E} expected {expect!r}, got {v!r}")
        else:
            raise AssertionError(t)

    def pair(self, slots: list[int], values: tuple) -> Any:
        """Whether decorating a key moves it in All[...] is unspecified: pair by provider then."""
        if any(self.w.decorated(q) for q in slots):
            by = {getattr(getattr(v, "_rv", None), "pid", None): v for v in values}
            return [(q, by.get(q)) for q in slots]
        return zip(slots, values)

    @staticmethod
    def same(v: Any, expect: Any) -> bool:
        return v is expect or (isinstance(expect, tuple) and v == expect)

    # -------------------------------------------------------------- one operation's slice
    def begin_slice(self) -> None:
        self.mark = len(self.rt.log)

    def read_slice(self) -> list[tuple]:
        ev = self.rt.log[self.mark :]
        self.fresh = {e[1].uid for e in ev if e[0] == "made"}
        self.case.counts["events"] += len(ev)
        for e in ev:
            if e[0] == "made":
                self.case.counts["constructions"] += 1
            elif e[0] == "stray":
                self.fail(f"the context manager of p{e[1]} was exited although it was never entered")
        return ev

    def settle_resources(self, ev: list[tuple], R: MScope, where: str) -> None:
        for e in ev:
            if e[0] == "acq":
                rec = e[1]
                n = self.w.nodes[rec.pid]
                a = R.anc(n.level)
                if a is None:
                    self.fail(f"{where}: resource {rec} acquired although level {n.level} is not open")
                assert a is not None
                a.callbacks.append((rec, n.resource or "sync"))
                self.live.add(rec.uid)
                self.case.counts["acquisitions"] += 1
            elif e[0] == "rel":
                self.fail(f"{where}: {e[1]} was released although no scope exited")
            elif e[0] == "leak" and e[1].uid not in self.dropped:
                self.fail(f"{where}: resource {e[1]} was dropped without being released")

    def after_success(self, ev: list[tuple], where: str) -> None:
        begins = sum(1 for e in ev if e[0] == "begin")
        made = sum(1 for e in ev if e[0] == "made")
        if begins != made:
            self.fail(f"{where}: {begins} providers started, {made} completed, in a request that succeeded")
        left = [self.rt.recs[u] for u in self.fresh]
        if left:
            self.fail(f"{where}: constructed but not part of the answer: {left}")

    def after_failure(self, ev: list[tuple], R: MScope, where: str) -> None:
        """Completed scoped values keep their lifetime; adopt them (a second build is a violation)."""
        made = [e[1] for e in ev if e[0] == "made"]
        for rec in reversed(made):
            if rec.consumed:
                continue
            n = self.w.nodes[rec.pid]
            a = R.anc(n.level)
            if a is None:
                self.fail(f"{where}: {rec} was constructed although level {n.level} is not open")
            assert a is not None
            if not n.cached:
                rec.consumed = True
                self.fresh.discard(rec.uid)
                continue
            if rec.pid in a.cache:
                self.fail(f"{where}: p{rec.pid} was constructed again although {a} holds {a.cache[rec.pid]._rv}")
            self.consume(rec, where)
            a.cache[rec.pid] = rec.value
            self.match_args(n, a, rec, where + f" > adopted {rec}")
            self.case.counts["adopted"] += 1

    # -------------------------------------------------------------- scope exit
    def expected_exit(self, s: MScope) -> list[tuple[Rec, str]]:
        out: list[tuple[Rec, str]] = []
        for scope in [s, *reversed(s.implicit)]:
            out.extend(reversed(scope.callbacks))
        return out

    def check_exit(self, s: MScope, sync: bool, exc: BaseException | None, raised: BaseException | None, returned: Any) -> None:
        ev = self.read_slice()
        where = f"exit of {s}"
        expected = self.expected_exit(s)
        rels = [e for e in ev if e[0] == "rel"]
        errs: list[Any] = []
        j = 0
        relfaults = {e[1].uid: e[2] for e in ev if e[0] == "relfault"}
        for rec, kind in expected:
            if kind == "async" and sync:
                errs.append(ASYNC)
                self.dropped.add(rec.uid)
                continue
            if j >= len(rels):
                self.fail(f"{where}: {rec} was not released (released: {[e[1] for e in rels]}, expected {[x[0] for x in expected]})")
            if rels[j][1] is not rec:
                self.fail(f"{where}: released {[e[1] for e in rels]}, expected order {[x[0] for x in expected if not (x[1] == 'async' and sync)]}")
            if rels[j][2] is not exc:
                self.fail(f"{where}: {rec} saw {rels[j][2]!r} instead of the body's exception {exc!r}")
            if rec.uid in self.released:
                self.fail(f"{where}: {rec} released twice")
            self.released.add(rec.uid)
            self.live.discard(rec.uid)
            if rec.uid in relfaults:
                errs.append(relfaults[rec.uid])
            j += 1
            self.case.counts["releases"] += 1
        if j != len(rels):
            self.fail(f"{where}: released {[e[1] for e in rels[j:]]} which it does not own (or twice)")
        for e in ev:
            if e[0] in ("made", "acq", "leak") and not (e[0] == "leak" and e[1].uid in self.dropped):
                self.fail(f"{where}: unexpected event {e}")
        if exc is not None:
            if raised is not None and raised is not exc:
                self.fail(f"{where}: body exception {exc!r} was replaced by {raised!r}")
            if raised is None and returned:
                self.fail(f"{where}: returned {returned!r}, which would suppress the body's {exc!r}")
        elif errs:
            first = errs[0]
            ok = raised is first or (isinstance(first, type) and type(raised) is first)
            if not ok:
                self.fail(f"{where}: first cleanup error is {first!r}, but {raised!r} was raised")
            self.case.counts["exit_errors"] += 1
        elif raised is not None:
            self.fail(f"{where}: raised {raised!r} although every cleanup succeeded")
        for scope in [s, *s.implicit]:
            scope.callbacks = []
            scope.open = False


def drive(coro: Any) -> Any:
    """Run a coroutine that only suspends through bare yields."""
    steps = 0
    while True:
        try:
            got = coro.send(None)
        except StopIteration as e:
            return e.value
        if got is not None:
            raise Violation(f"the driven coroutine awaited {got!r}, which nothing will ever complete")
        steps += 1
        if steps > 100000:
            raise Violation("a request kept suspending without end")


@types.coroutine
def cancel_at(coro: Any, k: int, exc: BaseException, fired: list[bool]):  # noqa: ANN201
    n = 0
    it = coro.__await__() if not hasattr(coro, "send") else coro
    try:
        y = it.send(None) if hasattr(it, "send") else next(it)
    except StopIteration as e:
        return e.value
    while True:
        try:
            if n == k:
                fired.append(True)
                y = it.throw(exc)
            else:
                yield y
                y = it.send(None)
        except StopIteration as e:
            return e.value
        n += 1


class Driver:
    """Random histories over one container, checked after every step."""

    def __init__(self, case: Case, world: World, **knobs: Any) -> None:
        self.case, self.w = case, world
        self.r = case.rng
        self.k = {
            "feasible": 0.3,
            "ops": (8, 40),
            "sync": 0.5,
            "enter": 0.22,
            "exit": 0.14,
            "fault": 0.12,
            "relfault": 0.06,
            "handle": 0.1,
            "cancel": 0.04,
            "body_exc": 0.25,
            "ctx": 0.5,
            "with": 0.4,
            "bad_enter": 0.05,
            "loop": 0.3,
            "max_open": 6,
        }
        self.k.update(knobs)
        self.m = Monitor(case, world)
        self.scopes: list[MScope] = [self.m.root]
        self.history: list[str] = []
        case.describe = self.describe

    def describe(self) -> str:
        return f"config {self.w.config} wrapper={self.w.open_wrapper} order={self.w.reg_order}\n{self.w.source}\nhistory:\n" + "\n".join(self.history)

    def log(self, text: str) -> None:
        self.history.append(text)

    def run(self) -> None:
        w = self.w
        try:
            self.c = w.new_container()
            w.populate(self.c)
            self.with_mode = w.config["use_resolver_context"] and self.r.random() < self.k["with"]
            if w.config["use_resolver_context"] and not self.with_mode and self.r.random() < 0.5:
                w.ctx_obj.set_fallback_container(self.c)
            use_loop = w.has_async and self.r.random() < self.k["loop"]
            self.case.count("loop_worlds" if use_loop else "driven_worlds")
            if use_loop:
                asyncio.run(self._amain())
            else:
                drive(self._amain())
            del self.m.handles[:]
        finally:
            w.close()

    async def _amain(self) -> None:
        r = self.r
        if r.random() < 0.3:
            self.c.compile()
        self.log(f"mode with={self.with_mode}")
        if self.with_mode and r.random() < 0.3:
            self.m.begin_slice()
            self.m.root.obj = await self.c.__aenter__() if r.random() < 0.3 else self.c.__enter__()
            self.m.root.bound = True
        n = r.randint(*self.k["ops"])
        for _ in range(n):
            await self.step()
        await self.finish()

    async def step(self) -> None:
        r, k = self.r, self.k
        x = r.random()
        open_scopes = [s for s in self.scopes if s.open]
        if x < k["enter"] and len(open_scopes) < k["max_open"]:
            return await self.op_enter(open_scopes)
        x -= k["enter"]
        if x < k["exit"]:
            return await self.op_exit(open_scopes)
        x -= k["exit"]
        if x < k["fault"]:
            return self.op_fault()
        x -= k["fault"]
        if x < k["relfault"]:
            return self.op_relfault()
        x -= k["relfault"]
        if x < k["handle"]:
            return await self.op_handle()
        return await self.op_resolve(open_scopes)

    # ------------------------------------------------------------------ ops
    def _usable(self, open_scopes: list[MScope]) -> list[MScope]:
        # a scope whose parent was closed before it may only be closed
        return [s for s in open_scopes if self._chain_open(s)]

    def _chain_open(self, s: MScope | None) -> bool:
        while s is not None:
            if not s.open:
                return False
            s = s.parent
        return True

    def innermost(self) -> MScope | None:
        bound = [s for s in self.scopes if s.open and s.bound]
        return bound[-1] if bound else None

    async def op_enter(self, open_scopes: list[MScope]) -> None:
        r = self.r
        usable = self._usable(open_scopes)
        if self.with_mode:
            parent = self.innermost() or self.m.root
            if r.random() < 0.1:
                parent = r.choice(usable)
        else:
            parent = r.choice(usable[-3:] if r.random() < 0.6 else usable)
        target: int | None = None
        if r.random() < self.k["bad_enter"]:
            target = r.choice([x for x in self.w.rungs if x <= parent.level] + [0] * len(self.w.above))
            if target == parent.level:  # entering the same level hands the scope itself back
                target = None if target == 1 else 1
        elif r.random() < 0.65:
            deeper = [x for x in self.w.rungs if x > parent.level]
            target = r.choice(deeper) if deeper else None
        ctx: dict | None = None
        if r.random() < self.k["ctx"]:
            ctx = {}
            for name in self.w.ctx_keys:
                if r.random() < 0.5:
                    ctx[self.w.ns[name]] = self._ctx_value(name)
            if r.random() < 0.3:
                ctx[self.w.ns["CT"]] = tuple(object() for _ in range(r.randint(0, 3)))
            if r.random() < 0.3:
                ctx[self.w.ns["CD"]] = {f"x{i}": object() for i in range(r.randint(0, 2))}
        plan = transition(parent.level, target, self.w.rungs, self.w.skippable)
        where = f"enter {target} from {parent} ctx={None if ctx is None else sorted(getattr(q, '__name__', '?') for q in ctx)}"
        self.log(where)
        self.m.begin_slice()
        use_ctx_entry = parent.obj is None or (parent.bound and parent is self.innermost())
        kw: dict[str, Any] = {} if ctx is None and r.random() < 0.7 else {"context": ctx}
        args = () if target is None and r.random() < 0.7 else (None if target is None else r.choice(self.w.above) if target == 0 else self.w.ladder[target],)
        opener = self.opener(parent)
        try:
            obj = opener(*args, **kw)
        except MISMATCH as e:
            if plan != "error":
                self.m.fail(f"{where}: rejected with {e!r}")
            self.m.read_slice()
            self.case.count("enter_rejected")
            return
        if plan == "error":
            self.m.fail(f"{where}: accepted, although the scope mismatch error is due")
        del use_ctx_entry
        ev = [e for e in self.m.read_slice() if not (e[0] == "leak" and e[1].uid in self.m.dropped)]
        if ev:
            self.m.fail(f"{where}: providers ran while entering: {ev}")
        prev = parent
        created: list[MScope] = []
        assert isinstance(plan, list)
        for i, lvl in enumerate(plan):
            s = MScope(lvl, prev, ctx if i == len(plan) - 1 else None)
            s.implied = i < len(plan) - 1
            created.append(s)
            prev.children.append(s)
            prev = s
        top = created[-1]
        top.implicit = created[:-1]
        if self.with_mode:
            entered = await obj.__aenter__() if r.random() < 0.3 else obj.__enter__()
            top.obj = entered
            top.exiter = obj  # type: ignore[attr-defined]
            top.bound = True
        else:
            top.obj = obj
            top.exiter = obj  # type: ignore[attr-defined]
            if not w_bound(self.w) and r.random() < 0.3:
                obj.__enter__()
        self.scopes.append(top)
        self.case.count("scopes_opened")
        self.case.state("enter", parent.level, target, tuple(plan), ctx is not None)

    def _ctx_value(self, name: str) -> Any:
        x = self.r.random()
        if x < 0.1:
            return None
        if x < 0.2:
            return 0
        return object()

    def opener(self, parent: MScope) -> Any:
        if parent is self.m.root:
            inner = self.innermost()
            if parent.obj is not None and self.r.random() < 0.5:
                return parent.obj.enter_scope
            if inner is None or inner is parent:
                if not w_bound(self.w) or self.r.random() < 0.7:
                    return self.c.enter_scope
                if w_bound(self.w) and self.fallback_set():
                    return self.w.ctx_obj.enter_scope
                return self.c.enter_scope
            return self.c.compile().enter_scope
        if parent.bound and parent is self.innermost() and self.r.random() < 0.5:
            return self.c.enter_scope if self.r.random() < 0.5 else self.w.ctx_obj.enter_scope
        return parent.obj.enter_scope

    def fallback_set(self) -> bool:
        return False

    def resolver_for(self, s: MScope, sync: bool) -> Any:
        """One of the equivalent public ways to ask scope `s`."""
        r = self.r
        name = "resolve" if sync else "aresolve"
        if s is self.m.root:
            inner = self.innermost()
            if s.obj is not None and r.random() < 0.3:
                return getattr(s.obj, name)
            if inner is None or inner is s:
                return getattr(self.c, name)
            return getattr(self.c.compile(), name)
        if s.bound and s is self.innermost():
            x = r.random()
            if x < 0.35:
                return getattr(self.c, name)
            if x < 0.55:
                return getattr(self.w.ctx_obj, name)
        return getattr(s.obj, name)

    async def op_resolve(self, open_scopes: list[MScope]) -> None:
        r, w = self.r, self.w
        usable = self._usable(open_scopes)
        s = r.choice(usable) if r.random() < 0.5 else usable[-1]
        # without a resolver that bypasses context binding, the root is only reachable when nothing is bound
        sync = not (w.has_async and r.random() > self.k["sync"]) if r.random() < 0.85 else r.random() < 0.5
        pid = r.choice(w.public).pid if r.random() < 0.5 else r.choice([n.pid for n in w.public[-4:]])
        if w.chain and r.random() < 0.3:
            pid = r.choice(list(w.chain))
        if r.random() < self.k["feasible"]:
            feasible = [n.pid for n in w.public if s.anc(n.level) is not None and n.need <= s.level and (self.k["feasible"] < 0.5 or not (n.absent or n.error))]
            if feasible:
                pid = r.choice(feasible)
        form = r.choice(("key",) * 12 + ("meta", "maybe", "maybe_missing", "all", "provider", "aprovider", "ctx", "mctx"))
        if r.random() < self.k.get("ask_ctx", 0.0):
            form = r.choice(("ctx", "mctx"))
        await self.do_resolve(s, sync, form, pid)

    async def do_resolve(self, s: MScope, sync: bool, form: str, pid: int) -> None:
        r, w, m = self.r, self.w, self.m
        key = w.key(pid)
        exp = Expect()
        ctx_name = r.choice(w.ctx_keys)
        base = w.nodes[pid].base
        if w.nodes[pid].absent:
            form = {"maybe": "maybe_absent", "all": "all"}.get(form, "key")
        if w.nodes[pid].error is not None and form != "all":
            form = "key"
        if form in ("key", "meta", "maybe"):
            m.predict(pid, s, sync, exp, set())
            if form == "maybe" and MISSING in exp.must:
                form = "key"  # optional requests swallow it: a listed finding
            if form == "meta" and w.nodes[pid].comp:
                form = "key"
            request = {"key": key, "meta": typing.Annotated[key, "meta"], "maybe": Maybe[key]}[form]
            if form == "meta" and MISSING in exp.must:
                request = key
        elif form == "maybe_missing":
            request = eval(f"Maybe[{w.missing_src()}]", w.ns)  # noqa: S307
        elif form == "maybe_absent":
            request = Maybe[key]
        elif form == "all":
            for q in w.all_slots(base):
                m.predict(q, s, sync, exp, set())
            request = All[w.base_key(base)]
        elif form in ("provider", "aprovider"):
            request = Provider[key] if form == "provider" else AsyncProvider[key]
            if r.random() < 0.25:
                request = Maybe[request]
        elif form == "ctx":
            request = FromContext[w.ns[ctx_name]]
            if not s.lookup(w.ns[ctx_name])[0]:
                exp.must.append(MISSING)
        else:
            request = Maybe[FromContext[w.ns[ctx_name]]]
        where = f"{'resolve' if sync else 'aresolve'} {form}:{pid if form not in ('ctx', 'mctx') else ctx_name} at {s}"
        self.log(f"{where}  armed={list(w.rt.faults)}")
        fn = self.resolver_for(s, sync)
        await self.call(where, s, sync, exp, fn, (request,), lambda v: self.check_value(form, pid, s, v, where, ctx_name))

    def check_value(self, form: str, pid: int, s: MScope, v: Any, where: str, ctx_name: str = "") -> None:
        w, m = self.w, self.m
        if form in ("key", "meta", "maybe"):
            m.match(pid, s, v, where)
        elif form in ("maybe_missing", "maybe_absent"):
            if v is not None:
                m.fail(f"{where}: optional unregistered key gave {v!r}")
        elif form == "all":
            slots = w.all_slots(w.nodes[pid].base)
            if type(v) is not tuple or len(v) != len(slots):
                m.fail(f"{where}: All expected {len(slots)} values, got {v!r}")
            for q, x in m.pair(slots, v):
                m.match(q, s, x, f"{where}[{q}]")
        elif form in ("provider", "aprovider"):
            if not callable(v) or hasattr(v, "_rv"):
                m.fail(f"{where}: expected a handle, got {v!r}")
            m.handles.append((v, pid, form == "aprovider", s, where))
        else:
            found, expect = s.lookup(w.ns[ctx_name])
            if v is not (expect if found else None):
                m.fail(f"{where}: context lookup expected {expect!r}, got {v!r}")

    async def call(self, where: str, s: MScope, sync: bool, exp: Expect, fn: Any, args: tuple, check: Any, is_handle: bool = False) -> None:
        r, m = self.r, self.m
        m.begin_slice()
        raised: BaseException | None = None
        value: Any = None
        fired: list[bool] = []
        cancel: BaseException | None = None
        try:
            if sync:
                value = fn(*args)
            else:
                coro = fn(*args)
                if not inspect.isawaitable(coro):
                    m.fail(f"{where}: asynchronous resolution returned {coro!r}, not an awaitable")
                if r.random() < self.k["cancel"]:
                    cancel = asyncio.CancelledError("injected")
                    value = await cancel_at(coro, r.randint(0, 4), cancel, fired)
                else:
                    value = await coro
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            raised = e
        ev = m.read_slice()
        m.settle_resources(ev, s, where)
        if raised is None:
            if fired:
                m.fail(f"{where}: swallowed a cancellation and returned {value!r}")
            if exp.must:
                m.fail(f"{where}: expected one of {exp.must}, but it returned {value!r}")
            check(value)
            m.after_success(ev, where)
            self.case.count("resolved")
        else:
            self.log(f"    -> {type(raised).__name__}: {str(raised)[:80]}")
            if fired:
                if raised is not cancel and not exp.allows(raised):
                    m.fail(f"{where}: cancelled, but raised {raised!r}")
            elif not exp.allows(raised):
                tb = "".join(__import__("traceback").format_exception(raised)[-6:])
                m.fail(f"{where}: raised {type(raised).__name__}({raised}) but expected {('one of %s' % (exp.must + exp.may)) if exp.must or exp.may else 'a value'}\n{tb}")
            m.after_failure(ev, s, where)
            self.case.count("failed_" + ("fault" if isinstance(raised, tuple(FAULT_TYPES)) and not isinstance(raised, (MISMATCH, ASYNC, MISSING)) else type(raised).__name__))
        self.case.state(where.split(" at ")[0], s.level, raised is None, len(ev))
        raised = None

    def op_fault(self) -> None:
        r, w = self.r, self.w
        node = r.choice(w.nodes)
        if node.lifetime == "I":
            return
        excs = [r.choice(FAULT_TYPES)(f"fault p{node.pid}") for _ in range(r.choice((1, 1, 1, 2)))]
        w.rt.faults[node.pid] = excs
        self.log(f"arm p{node.pid} {excs}")
        self.case.count("faults_armed")

    def op_relfault(self) -> None:
        r, w = self.r, self.w
        pool = [n for n in w.nodes if n.resource]
        if not pool:
            return
        node = r.choice(pool)
        types_ = [t for t in FAULT_TYPES if t is not asyncio.CancelledError or node.resource == "async"]
        w.rt.rel_faults[node.pid] = [r.choice(types_)(f"release fault p{node.pid}") for _ in range(r.choice((1, 1, 2)))]
        self.log(f"arm release p{node.pid}")
        self.case.count("release_faults_armed")

    async def op_handle(self) -> None:
        r, m, w = self.r, self.m, self.w
        live = [h for h in m.handles if h[3].open and self._chain_open(h[3])]
        if not live:
            return
        fn, pid, is_async, E, origin = r.choice(live[-12:])
        exp = Expect()
        m.predict(pid, E, not is_async, exp, set())
        where = f"{'async ' if is_async else ''}handle call p{pid} bound to {E} (from {origin})"
        self.log(where)
        self.case.count("handle_calls")
        await self.call(where, E, not is_async, exp, fn, (), lambda v: m.match(pid, E, v, where), True)

    async def op_exit(self, open_scopes: list[MScope], force: MScope | None = None) -> None:
        r, m = self.r, self.m
        cands = [s for s in open_scopes if s is not m.root]
        if force is not None:
            s = force
        else:
            if not cands:
                return
            if self.with_mode:
                inner = self.innermost()
                if inner is None or inner is m.root:
                    return
                s = inner
            else:
                leaves = [q for q in cands if not any(x.open and x is not q and self._below(x, q) for x in cands)]
                s = r.choice(leaves) if r.random() < 0.9 else r.choice(cands)
        await self.exit_scope(s)

    def _below(self, x: MScope, q: MScope) -> bool:
        p = x.parent
        while p is not None:
            if p is q:
                return True
            p = p.parent
        return False

    async def exit_scope(self, s: MScope) -> None:
        r, m, w = self.r, self.m, self.w
        has_async = any(kind == "async" for _, kind in m.expected_exit(s))
        sync = r.random() < (0.25 if has_async else 0.6)
        exc: BaseException | None = None
        if r.random() < self.k["body_exc"]:
            exc = r.choice(FAULT_TYPES)("body")
        self.log(f"exit {s} sync={sync} exc={exc!r} owns={[q[0] for q in m.expected_exit(s)]}")
        if s is m.root:
            self.c.compile()  # closing a container that was never used is a documented RuntimeError
        m.begin_slice()
        raised: BaseException | None = None
        returned: Any = None
        obj = self.c if s is m.root else s.exiter  # type: ignore[attr-defined]
        trio: tuple = (type(exc), exc, None) if exc is not None else (None, None, None)
        dunder = s.bound or r.random() < 0.4
        if s is m.root and not s.bound:
            dunder = False
        try:
            if sync:
                if dunder:
                    returned = obj.__exit__(*trio)
                else:
                    returned = obj.close(*trio) if exc is not None or r.random() < 0.3 else obj.close()
            elif dunder:
                returned = await obj.__aexit__(*trio)
            else:
                returned = await (obj.aclose(*trio) if exc is not None or r.random() < 0.3 else obj.aclose())
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            raised = e
        m.check_exit(s, sync, exc, raised, returned)
        s.open = False
        if s in self.scopes:
            self.scopes.remove(s)
        self.case.count("scopes_closed")
        self.case.state("exit", s.level, sync, exc is not None, raised is not None, len(s.implicit))
        del raised, exc, trio

    async def finish(self) -> None:
        m = self.m
        while True:
            open_scopes = [s for s in self.scopes if s.open and s is not m.root]
            if not open_scopes:
                break
            await self.exit_scope(open_scopes[-1])
        await self.exit_scope(m.root)
        self.w.rt.rel_faults.clear()  # dropped async generators are finalized by the loop
        left = m.live - m.dropped
        if left:
            m.fail(f"never released: {[self.w.rt.recs[u] for u in left]}")
        # nothing may be released or run afterwards, also not by the garbage collector
        m.begin_slice()
        m.handles.clear()
        self.scopes.clear()
        m.root = None  # type: ignore[assignment]
        self.c = None
        leaks = [e for e in self.w.rt.log[m.mark :] if e[0] in ("rel", "made", "acq") or (e[0] == "leak" and e[1].uid not in m.dropped)]
        if leaks:
            m.fail(f"events after everything was closed: {leaks}")


def w_bound(w: World) -> bool:
    return bool(w.config["use_resolver_context"])


def world_case(case: Case, world_knobs: dict | None = None, driver_knobs: dict | None = None) -> Driver:
    w = World(case.rng, **{"ladder": 0.1, **(world_knobs or {})})
    d = Driver(case, w, **(driver_knobs or {}))
    d.run()
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["resolved"] >= 1
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:25]}
    return d
