"""Concurrent histories (threads or asyncio tasks) over one container, judged offline.

Actors run random scripts against shared and private scopes.  Each operation is recorded at the
caller's boundary, each provider event carries the operation it ran in.  After the run the whole
history is matched against the same reference semantics as the sequential monitor: matching is
first-come per (scope, registration), so it needs no assumption about the order of operations.
"""
from __future__ import annotations

import asyncio
import contextvars
import itertools
import random
import sys
import threading
import time
import zlib
from dataclasses import dataclass, field
from typing import Any

from diwire import All, AsyncProvider, Injected, Maybe, Provider

from .harness import Case, Violation
from .monitor import ASYNC, MISMATCH, MISSING, Expect, Monitor, MScope, drive, transition
from .world import FAULT_TYPES, World

OP: contextvars.ContextVar[Any] = contextvars.ContextVar("rv_op", default=None)


@dataclass(eq=False)
class Op:
    actor: int
    no: int
    kind: str
    scope: MScope | None = None
    pid: int = -1
    form: str = "key"
    sync: bool = True
    value: Any = None
    raised: BaseException | None = None
    body: BaseException | None = None
    exp: Expect = field(default_factory=Expect)
    cancelled: bool = False
    done: bool = False
    exact: bool = True
    opened: bool = False  # an injected call that opens (and closes) its scope

    def __repr__(self) -> str:
        what = f"{self.form}:{self.pid}" if self.pid >= 0 else ""
        res = "" if not self.done else f" -> {type(self.raised).__name__}" if self.raised is not None else " -> ok"
        return f"[A{self.actor}.{self.no} {self.kind}{'' if self.sync else '(async)'} {what} at {self.scope}{res}]"


class Conc:
    def __init__(self, case: Case, world: World, **knobs: Any) -> None:
        self.case, self.w, self.rt = case, world, world.rt
        self.r = case.rng
        self.k = {
            "actors": (2, 6),
            "ops": (2, 9),
            "shared": (0, 2),
            "async": False,
            "aresolve": 0.0,  # threads: share of requests made with aresolve (nothing to await in such a graph)
            "faults": 0.0,
            "relfaults": 0.0,
            "enter": 0.2,
            "exit": 0.1,
            "handle": 0.12,
            "own": 0.4,
            "body_exc": 0.2,
            "cancel": 0.0,
            "sync": 0.3,
            "warm": 0.2,
            "hot": 0.6,
            "bound": True,
            "ctx": 0.5,
            "handles_first": (0, 2),
            "calls": (0, 3),  # injected functions every actor may call
            "call": 0.12,
        }
        self.k.update(knobs)
        self.m = Monitor(case, world)
        self.ops: list[Op] = []
        self.shared: list[MScope] = [self.m.root]
        self.shared_handles: list[tuple[Any, int, bool, MScope]] = []
        self.cancelled: set[int] = set()
        self.armed: dict[int, list[BaseException]] = {}
        self.rt.current = OP.get
        self.stamp = itertools.count()
        self.fns: list[tuple[Any, int, int, bool]] = []
        case.describe = self.describe

    def describe(self) -> str:
        return f"config {self.w.config} wrapper={self.w.open_wrapper}\n{self.w.source}\nops (completion order):\n" + "\n".join(map(repr, self.ops))

    # ------------------------------------------------------------------ set-up
    def setup(self, **over: Any) -> None:
        w, r = self.w, self.r
        self.c = w.new_container(**over)
        w.populate(self.c)
        self.bound_mode = bool(w.config["use_resolver_context"]) and self.k["bound"]
        if r.random() < 0.4:
            self.c.compile()

    def open_shared(self) -> None:
        r = self.r
        for _ in range(r.randint(*self.k["shared"])):
            parent = r.choice(self.shared)
            deeper = [x for x in self.w.rungs if x > parent.level]
            if not deeper:
                continue
            lvl = r.choice([x for x in self.w.levels if x > parent.level] or deeper)
            self.shared.append(self.enter(parent, lvl, r))

    def make_calls(self) -> None:
        """Injected functions shared by all actors, with whatever they work out on their first call."""
        from .inject import InjectDriver

        w, r = self.w, self.r
        if not self.bound_mode:
            return
        self.members = lambda base: InjectDriver.members(self, base)  # type: ignore[arg-type]
        self.infer = lambda pid, seen=None: InjectDriver.infer(self, pid, seen)  # type: ignore[arg-type]
        for _ in range(r.randint(*self.k["calls"])):
            ok = [n.pid for n in w.public if not n.absent and not n.error]
            hot = [p for p in self.hot if p in ok]
            if not ok:
                return
            pid = r.choice(hot) if hot and r.random() < 0.6 else r.choice(ok)
            deep = self.infer(pid)
            level, kw = deep, {}
            if deep != w.nodes[pid].need or r.random() < 0.4:
                level = r.choice([x for x in w.ladder if x >= deep])
                kw = {"scope": w.ladder[level]}
            is_async = self.k["async"] and r.random() < 0.75

            def run(a: Any) -> Any:
                return a

            async def arun(a: Any) -> Any:
                return a

            f: Any = arun if is_async else run
            f.__annotations__ = {"a": Injected[w.key(pid)]}
            self.fns.append((w.ctx_obj.inject(**kw)(f), pid, level, is_async))

    async def call(self, no: int, n: int, r: random.Random, own: list[MScope]) -> Op:
        """One injected call, from a shared scope given explicitly or the actor's own, bound one."""
        w = self.w
        fn, pid, level, is_async = r.choice(self.fns)
        s = own[-1] if own and r.random() < 0.7 else r.choice(self.shared)
        kw: dict[str, Any] = {}
        if s is self.m.root:
            kw["diwire_resolver"] = self.c.compile()
        elif not own or s is not own[-1] or r.random() < 0.3:
            kw["diwire_resolver"] = s.obj
        op = Op(no, n, "call", s, pid, "key", not is_async)
        if level > s.level:
            plan = transition(s.level, level, w.rungs, w.skippable)
            assert isinstance(plan, list)
            prev, made = s, []
            for lvl in plan:
                prev = MScope(lvl, prev, None)
                made.append(prev)
            prev.implicit = made[:-1]
            op.scope, op.opened = prev, True
        await self.run(op, fn, (), kw)
        if op.opened:
            op.scope.open = False
        return op

    def arm(self) -> None:
        r = self.r
        for node in self.w.nodes:
            if node.lifetime == "I":
                continue
            if r.random() < self.k["faults"]:
                excs = [r.choice(self.fault_types())(f"fault p{node.pid} {i}") for i in range(r.choice((1, 1, 2, 3)))]
                self.armed[node.pid] = list(excs)
                self.rt.faults[node.pid] = excs
            if node.resource and r.random() < self.k["relfaults"]:
                self.rt.rel_faults[node.pid] = [r.choice([ValueError, AttributeError])(f"rel p{node.pid}")]

    def fault_types(self) -> list[type]:
        return [t for t in FAULT_TYPES if t not in (asyncio.CancelledError, KeyboardInterrupt, SystemExit)] if self.k["async"] else list(FAULT_TYPES)

    # ------------------------------------------------------------------ operations
    def enter(self, parent: MScope, target: int | None, r: random.Random, via: Any = None) -> MScope:
        w = self.w
        ctx: dict | None = None
        if r.random() < self.k["ctx"]:
            ctx = {w.ns[n]: object() for n in w.ctx_keys if r.random() < 0.6}
            if r.random() < 0.4:
                ctx[w.ns["CT"]] = tuple(object() for _ in range(r.randint(0, 2)))
            if r.random() < 0.4:
                ctx[w.ns["CD"]] = {"x0": object()}
        plan = transition(parent.level, target, w.rungs, w.skippable)
        assert isinstance(plan, list)
        opener = via or (self.c.enter_scope if parent is self.m.root else parent.obj.enter_scope)
        obj = opener(None if target is None else w.ladder[target], context=ctx) if ctx is not None else opener(*(() if target is None else (w.ladder[target],)))
        prev = parent
        made = []
        for i, lvl in enumerate(plan):
            s = MScope(lvl, prev, ctx if i == len(plan) - 1 else None)
            made.append(s)
            prev = s
        top = made[-1]
        top.implicit = made[:-1]
        top.obj = top.exiter = obj  # type: ignore[attr-defined]
        return top

    async def actor(self, no: int, seed: str) -> None:
        r = random.Random(seed)
        own: list[MScope] = []
        handles: list[tuple[Any, int, bool, MScope]] = []
        n = r.randint(*self.k["ops"])
        counter = itertools.count()
        stop = False
        for _ in range(n):
            x = r.random()
            if x < self.k["enter"] and len(own) < 3:
                parent = own[-1] if own and r.random() < 0.6 else r.choice(self.shared)
                if own and self.bound_mode:
                    parent = own[-1]
                deeper = [y for y in self.w.rungs if y > parent.level]
                if deeper:
                    target = r.choice(deeper) if r.random() < 0.7 else None
                    via = self.c.enter_scope if self.bound_mode and own and parent is own[-1] and own[-1].bound else None
                    s = self.enter(parent, target, r, via)
                    if self.bound_mode:
                        s.obj = s.exiter.__enter__() if r.random() < 0.7 or not self.k["async"] else await s.exiter.__aenter__()  # type: ignore[attr-defined]
                        s.bound = True
                    own.append(s)
                    continue
            x -= self.k["enter"]
            if x < self.k["exit"] and own:
                await self.exit(no, next(counter), own.pop(), r)
                if no in self.cancelled:
                    break
                continue
            x -= self.k["exit"]
            pool = [h for h in handles if h[3].open] + self.shared_handles
            if x < self.k["handle"] and pool:
                fn, pid, is_async, E = r.choice(pool)
                if not (is_async and not self.k["async"]):
                    op = Op(no, next(counter), "handle", E, pid, "key", not is_async)
                    await self.run(op, fn, ())
                    if op.raised is not None and self.is_cancel(op):
                        break
                    continue
            if self.fns and r.random() < self.k["call"]:
                op = await self.call(no, next(counter), r, own)
                if op.raised is not None and self.is_cancel(op):
                    break
                continue
            s = own[r.randrange(len(own))] if own and r.random() < self.k["own"] else r.choice(self.shared)
            pid = self.pick(r, s)
            sync = r.random() < self.k["sync"] if self.k["async"] else r.random() >= self.k["aresolve"]
            form = r.choice(("key",) * 9 + ("maybe", "all", "provider", "aprovider") if self.k["async"] else ("key",) * 9 + ("maybe", "all", "provider"))
            op = Op(no, next(counter), "resolve", s, pid, form, sync)
            await self.run(op, self.resolver(s, sync, own, r), (self.request(form, pid),))
            if op.raised is None and form in ("provider", "aprovider"):
                handles.append((op.value, pid, form == "aprovider", s))
            if op.raised is not None and self.is_cancel(op):
                stop = True
                break
        del stop
        while own:
            await self.exit(no, next(counter), own.pop(), r)

    def pick(self, r: random.Random, s: MScope) -> int:
        w = self.w
        feasible = self.ok(s)
        hot = [p for p in self.hot if p in feasible]
        if hot and r.random() < self.k["hot"]:
            return r.choice(hot)
        return r.choice(feasible) if feasible and r.random() < 0.85 else r.choice(w.public).pid

    def ok(self, s: MScope) -> list[int]:
        """Registrations that can be built from this scope (asynchronously)."""
        found = getattr(s, "rv_ok", None)
        if found is None:
            found = []
            for n in self.w.public:
                exp = Expect()
                self.m.predict(n.pid, s, False, exp, set())
                if not [x for x in exp.must if not isinstance(x, BaseException)]:
                    found.append(n.pid)
            s.rv_ok = found  # type: ignore[attr-defined]
        return found

    def is_cancel(self, op: Op) -> bool:
        if isinstance(op.raised, asyncio.CancelledError) and op.actor in self.cancelled:
            op.cancelled = True
            return True
        return False

    def request(self, form: str, pid: int) -> Any:
        key = self.w.key(pid)
        if form == "all":
            return All[self.w.base_key(self.w.nodes[pid].base)]
        return {"key": key, "maybe": Maybe[key], "provider": Provider[key], "aprovider": AsyncProvider[key]}[form]

    def resolver(self, s: MScope, sync: bool, own: list[MScope], r: random.Random) -> Any:
        name = "resolve" if sync else "aresolve"
        if s is self.m.root:
            if own and self.bound_mode:
                return getattr(self.c.compile(), name)
            return getattr(self.c, name)
        if self.bound_mode and own and s is own[-1] and r.random() < 0.5:
            return getattr(self.c, name)
        return getattr(s.obj, name)

    async def run(self, op: Op, fn: Any, args: tuple, kwargs: dict[str, Any] | None = None) -> None:
        m = self.m
        if op.form == "all":
            for q in self.w.all_slots(self.w.nodes[op.pid].base):
                m.predict(q, op.scope, op.sync, op.exp, set())
        elif op.form in ("key", "maybe"):
            m.predict(op.pid, op.scope, op.sync, op.exp, set())
            if op.form == "maybe" and (MISSING in op.exp.must or self.w.nodes[op.pid].error) and args:
                args = (self.w.key(op.pid),)  # optional requests swallow it: a listed finding
        token = OP.set(op)
        try:
            op.value = fn(*args, **(kwargs or {}))
            if not op.sync:
                op.value = await op.value
        except Violation:
            raise
        except BaseException as e:  # noqa: BLE001
            op.raised = e
        finally:
            OP.reset(token)
        op.done = True
        self.ops.append(op)

    async def exit(self, actor: int, no: int, s: MScope, r: random.Random, *, exact: bool = True) -> None:
        body = r.choice([ValueError, KeyError, RuntimeError])(f"body {actor}.{no}") if r.random() < self.k["body_exc"] else None
        op = Op(actor, no, "exit", s, body=body, sync=not self.k["async"] or r.random() < 0.25, exact=exact)
        trio = (type(body), body, None) if body is not None else (None, None, None)
        obj = self.c if s is self.m.root else s.exiter  # type: ignore[attr-defined]
        token = OP.set(op)
        try:
            if op.sync:
                op.value = obj.__exit__(*trio) if s.bound or s is not self.m.root else obj.close(*trio)
            else:
                op.value = await (obj.__aexit__(*trio) if s.bound or s is not self.m.root else obj.aclose(*trio))
        except BaseException as e:  # noqa: BLE001
            op.raised = e
        finally:
            OP.reset(token)
        op.done = True
        s.open = False
        self.ops.append(op)

    # ------------------------------------------------------------------ the offline oracle
    def judge(self) -> None:
        m, rt, w = self.m, self.rt, self.w
        self.judged = True
        log = list(rt.log)
        m.fresh = {e[1].uid for e in log if e[0] == "made"}
        made = [e[1] for e in log if e[0] == "made"]
        count = self.case.count
        count("events", len(log))
        count("constructions", len(made))
        count("operations", len(self.ops))
        fault_op: dict[int, Any] = {}
        for e in log:
            if e[0] == "fault":
                fault_op[id(e[2])] = e[3]
                op = e[3]
                if op is None:
                    m.fail(f"provider p{e[1]} ran outside every request")
                if op.kind == "exit":
                    m.fail(f"provider p{e[1]} ran inside {op}")
        receivers: dict[int, int] = {}
        for op in self.ops:
            if op.kind == "exit":
                continue
            if op.raised is not None:
                e = op.raised
                if op.cancelled:
                    count("cancelled")
                    continue
                if id(e) in fault_op:
                    if fault_op[id(e)] is not op:
                        m.fail(f"{op}: received {e!r}, which a provider raised inside {fault_op[id(e)]}")
                    receivers[id(e)] = receivers.get(id(e), 0) + 1
                    count("faulted")
                    continue
                if op.opened and any(e is x[2] for x in log if x[0] == "relfault"):
                    count("failed_cleanup")
                    continue  # judged with the exits
                if op.exp.allows(e):
                    count("failed_" + type(e).__name__)
                    continue
                m.fail(f"{op}: raised {e!r}, expected {op.exp.must + op.exp.may or 'a value'}\n{_tb(e)}")
            elif [x for x in op.exp.must if x is not ASYNC and not isinstance(x, BaseException)]:
                m.fail(f"{op}: returned {op.value!r}, expected one of {op.exp.must}")
        for e in log:
            if e[0] == "fault" and receivers.get(id(e[2])) != 1:
                op = e[3]
                if op.cancelled:
                    continue
                m.fail(f"{op}: its provider p{e[1]} raised {e[2]!r}, but it ended with {op.raised!r} ({receivers.get(id(e[2]), 0)} requests received it)")
        # who produced what
        for op in self.ops:
            if op.kind == "exit" or op.raised is not None:
                continue
            where = repr(op)
            if op.form in ("key", "maybe"):
                m.match(op.pid, op.scope, op.value, where)
            elif op.form == "all":
                slots = w.all_slots(w.nodes[op.pid].base)
                if type(op.value) is not tuple or len(op.value) != len(slots):
                    m.fail(f"{where}: All expected {len(slots)} values, got {op.value!r}")
                for q, x in self.m.pair(slots, op.value):
                    m.match(q, op.scope, x, where)
            elif not callable(op.value) or hasattr(op.value, "_rv"):
                m.fail(f"{where}: expected a handle, got {op.value!r}")
            count("resolved")
        for rec in reversed(made):
            if rec.consumed:
                continue
            op = rec.extra
            if op is None or op.kind == "exit":
                m.fail(f"{rec} was constructed outside every request ({op})")
            if op.raised is None:
                holder = ""
                n = w.nodes[rec.pid]
                a = op.scope.anc(n.level)
                if n.cached and a is not None and rec.pid in a.cache:
                    holder = f"; {a} holds {a.cache[rec.pid]._rv}"
                m.fail(f"{op} constructed {rec}, which reached nobody{holder}")
            n = w.nodes[rec.pid]
            a = op.scope.anc(n.level)
            if a is None:
                m.fail(f"{op}: {rec} was constructed although level {n.level} is not open")
            if not n.cached:
                rec.consumed = True
                m.fresh.discard(rec.uid)
                continue
            if rec.pid in a.cache:
                m.fail(f"{op}: constructed {rec} although {a} holds {a.cache[rec.pid]._rv}")
            m.consume(rec, repr(op))
            a.cache[rec.pid] = rec.value
            m.match_args(n, a, rec, f"{op} > adopted {rec}")
            count("adopted")
        # resources
        owned: dict[MScope, list[Any]] = {}
        owner: dict[int, MScope] = {}
        for e in log:
            if e[0] == "acq":
                rec = e[1]
                a = rec.extra.scope.anc(w.nodes[rec.pid].level)
                owned.setdefault(a, []).append(rec)
                owner[rec.uid] = a
                count("acquisitions")
            elif e[0] == "stray":
                m.fail(f"the context manager of p{e[1]} was exited although it was never entered")
            elif e[0] == "leak":
                if e[1].uid not in m.dropped and not self.dropped_ok(e[1], owner):
                    m.fail(f"resource {e[1]} was dropped without being released")
        rels: dict[Op, list[tuple]] = {}
        relfault: dict[int, BaseException] = {}
        seen: set[int] = set()
        for e in log:
            if e[0] == "rel":
                if self.dropped_ok(e[1], owner):
                    continue  # finalized by the event loop or the garbage collector
                if e[3] is None or (e[3].kind != "exit" and not e[3].opened):
                    m.fail(f"{e[1]} was released outside a scope exit (in {e[3]})")
                if e[1].uid in seen:
                    m.fail(f"{e[1]} was released twice")
                seen.add(e[1].uid)
                rels.setdefault(e[3], []).append(e)
                count("releases")
            elif e[0] == "relfault":
                relfault[e[1].uid] = e[2]
        for op in self.ops:
            if op.kind != "exit" and not op.opened:
                continue
            s = op.scope
            if op.opened:
                count("calls_opened")
                if op.raised is not None and not any(op.raised is x for x in relfault.values()):
                    op.body = op.raised
            expected = []
            for scope in [s, *reversed(s.implicit)]:
                expected.extend(reversed(owned.get(scope, [])))
            errs: list[Any] = []
            due = []
            for rec in expected:
                if op.sync and w.nodes[rec.pid].resource == "async":
                    errs.append(ASYNC)
                else:
                    due.append(rec)
                    if rec.uid in relfault:
                        errs.append(relfault[rec.uid])
            got = [e[1] for e in rels.get(op, [])]
            if op.exact and got != due or {g.uid for g in got} != {d.uid for d in due}:
                m.fail(f"{op}: released {got}, expected {due}")
            pos = {g.uid: i for i, g in enumerate(got)}
            for g in got:
                for d in self.depends(g):
                    if d in pos and pos[d] < pos[g.uid] and d != g.uid and owner[d] is owner[g.uid]:
                        m.fail(f"{op}: released #{d} before {g}, which depends on it: {got}")
            for e in rels.get(op, []):
                if e[2] is not op.body and not (op.opened and op.cancelled):
                    m.fail(f"{op}: {e[1]} saw {e[2]!r} instead of {op.body!r}")
            if op.body is not None:
                if op.raised is not None and op.raised is not op.body and not isinstance(op.raised, asyncio.CancelledError):
                    m.fail(f"{op}: body exception replaced by {op.raised!r}")
                if op.raised is None and op.value and op.kind == "exit":
                    m.fail(f"{op}: would suppress the body's exception")
            elif op.raised is not None:
                if isinstance(op.raised, asyncio.CancelledError) and op.actor in self.cancelled:
                    continue
                if not any(op.raised is x or (isinstance(x, type) and type(op.raised) is x) for x in (errs[:1] if op.exact else errs)):
                    m.fail(f"{op}: raised {op.raised!r}, cleanup errors {errs}\n{_tb(op.raised)}")
            elif errs and op.actor not in self.cancelled:
                m.fail(f"{op}: cleanup errors {errs} were lost")
            if op.kind == "exit":
                count("scopes_closed")
        missing = [rec for a, recs in owned.items() for rec in recs if rec.uid not in seen and not self.dropped_ok(rec, owner)]
        if missing:
            m.fail(f"never released: {missing}")
        self.case.nontrivial = len(made) >= 2 and self.case.counts["resolved"] >= 2
        order = [(op.actor, op.no) for op in self.ops]
        runs = [e[1].pid if e[0] == "made" else e[1] for e in log if e[0] in ("begin", "made")]
        self.case.state(self.w.shape(), order, runs)
        self.case.signature = f"{hash((self.w.shape(), repr(order), repr(runs))) & 0xFFFFFFFFFFFF:x}"

    def depends(self, rec: Any) -> set[int]:
        out: set[int] = set()
        todo = [rec]
        while todo:
            x = todo.pop()
            for _, v in x.args:
                for q in v if isinstance(v, tuple) else (v,):
                    y = getattr(q, "_rv", None)
                    if y is not None and y.uid not in out and hasattr(y, "args"):
                        out.add(y.uid)
                        todo.append(y)
        return out

    def dropped_ok(self, rec: Any, owner: dict[int, MScope]) -> bool:
        """Async resources of a scope that was left synchronously are reported, not released."""
        if self.w.nodes[rec.pid].resource != "async":
            return False
        a = owner.get(rec.uid)
        return any(op.kind == "exit" and op.sync and (op.scope is a or a in op.scope.implicit) for op in self.ops)

    def finish_exits(self) -> list[MScope]:
        return [*reversed(self.shared[1:]), self.m.root]


def _tb(e: BaseException) -> str:
    import traceback

    return "".join(traceback.format_exception(e)[-8:])


# ---------------------------------------------------------------------------------------------
# threads


class Preempter:
    """Sleeps at random instruction or line events of library code: every other thread may run there."""

    def __init__(self, rng: random.Random, points: int, horizon: int, opcodes: bool) -> None:
        self.at = {int(horizon ** rng.random()) for _ in range(points)}
        self.opcodes = opcodes
        self.n = 0
        self.rng = rng
        self.hits = 0
        self.last = max(self.at, default=0)

    def trace(self, frame: Any, event: str, arg: Any) -> Any:
        name = frame.f_code.co_filename
        if not (name == "<diwire-resolver>" or "/diwire/" in name):
            return None
        if self.n > self.last:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame: Any, event: str, arg: Any) -> Any:
        self.n += 1
        if self.n in self.at:
            self.hits += 1
            time.sleep(self.rng.choice((0.0002, 0.001, 0.003)))
        elif self.n > self.last:
            frame.f_trace_opcodes = False
            return None
        return self.local


class Spotter(Preempter):
    """Sleeps at random instructions of a few functions only, so that short stretches are hit, too."""

    def __init__(self, rng: random.Random, points: int, horizon: int, opcodes: bool) -> None:
        super().__init__(rng, points, horizon, True)
        self.salt, self.mod, self.chance = rng.randrange(1 << 30), rng.choice((10, 30, 60)), rng.choice((0.03, 0.1, 0.3))
        self.budget = 12

    def trace(self, frame: Any, event: str, arg: Any) -> Any:
        code = frame.f_code
        name = code.co_filename
        if self.budget <= 0 or not (name == "<diwire-resolver>" or "/diwire/" in name):
            return None
        if zlib.crc32(f"{name.rsplit('/', 1)[-1]}{code.co_name}{self.salt}".encode()) % self.mod:
            return None
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame: Any, event: str, arg: Any) -> Any:
        if event == "opcode" and self.budget > 0 and self.rng.random() < self.chance:
            self.budget -= 1
            self.hits += 1
            time.sleep(self.rng.choice((0.0002, 0.001, 0.003)))
        return self.local


class Meeting:
    """Makes threads meet at randomly chosen lines of library code: whoever comes first waits for another."""

    def __init__(self, rng: random.Random, threads: int, whole: bool = False) -> None:
        self.salt, self.mod = rng.randrange(1 << 30), rng.choice((12, 30, 60, 120))
        self.whole = whole  # every line of some functions, instead of some lines of every function
        self.lock = threading.Lock()
        self.waiting: dict[tuple, threading.Event] = {}
        self.met = 0
        self.choice = rng.choice
        if whole:
            self.mod = rng.choice((4, 8, 16))
        self.budget = (20 if whole else 8) * threads
        self.opcodes = False

    def trace(self, frame: Any, event: str, arg: Any) -> Any:
        name = frame.f_code.co_filename
        if not (name == "<diwire-resolver>" or "/diwire/" in name) or self.budget <= 0:
            return None
        return self.local

    def local(self, frame: Any, event: str, arg: Any) -> Any:
        if event != "line" or self.budget <= 0:
            return self.local if self.budget > 0 else None
        code = frame.f_code
        here = (code.co_name, frame.f_lineno)
        if zlib.crc32(f"{code.co_name if self.whole else here}{self.salt}".encode()) % self.mod:
            return self.local
        with self.lock:
            self.budget -= 1
            other = self.waiting.pop(here, None)
            mine = None
            if other is None:
                mine = self.waiting[here] = threading.Event()
        if mine is not None:
            if not mine.wait(0.003):
                with self.lock:
                    if self.waiting.get(here) is mine:
                        del self.waiting[here]
        else:
            self.met += 1
            other.set()  # type: ignore[union-attr]
        pause = self.choice((0, 0, 0.0002, 0.001))
        if pause:
            time.sleep(pause)
        return self.local


def run_threads(case: Case, bodies: list[Any], *, preempt: bool = True, modes: tuple = ("free", "line", "op", "op", "meet", "meet", "whole", "spot")) -> None:
    """Run callables concurrently: common start line, aggressive switching, preemption points."""
    r = case.rng
    barrier = threading.Barrier(len(bodies))
    errors: list[BaseException] = []
    mode = r.choice(modes) if preempt else "free"
    horizon = r.choice((30, 120, 500, 2000))
    pre = [(Spotter if mode == "spot" else Preempter)(random.Random(r.random()), r.choice((1, 1, 2, 3, 5)), horizon, mode == "op") for _ in bodies]
    meeting = Meeting(random.Random(r.random()), len(bodies), mode == "whole")
    stagger = [r.choice((0, 0, 0, 0.0005, 0.002)) for _ in bodies]

    def main(i: int) -> None:
        try:
            barrier.wait()
            if stagger[i]:
                time.sleep(stagger[i])
            if mode != "free":
                sys.settrace(meeting.trace if mode in ("meet", "whole") else pre[i].trace)
            try:
                bodies[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))
    try:
        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    case.count("threads", len(bodies))
    case.count("preemptions", sum(p.hits for p in pre))
    case.count("meetings", meeting.met)
    case.count("mode_" + mode)
    for e in errors:
        raise e


def thread_case(case: Case, world_knobs: dict | None = None, knobs: dict | None = None, make: Any = World, conc: Any = None) -> Conc:
    r = case.rng
    w = make(r, **{"async": 0.0, "locks": 0.0, "eager": 0.1, "deco": r.choice((0.0, 0.0, 0.25)), **(world_knobs or {})})
    try:
        d = (conc or Conc)(case, w, **{"aresolve": r.choice((0.0, 0.0, 0.5)), **(knobs or {})})
        d.setup(lock_mode=r.choice(["auto", "auto", __import__("diwire").LockMode.THREAD]))
        d.open_shared()
        hot = d.ok(d.shared[-1])
        if d.k.get("hot_open"):
            hot = [q for q in hot if w.nodes[q].open and not w.nodes[q].absent and not w.nodes[q].error] or hot
        d.hot = r.sample(hot, min(2, len(hot)))
        if r.random() < d.k["warm"]:
            drive(d.actor(0, f"{r.random()}"))
        for _ in range(r.randint(*d.k["handles_first"])):
            s = r.choice(d.shared)
            ok = [n.pid for n in w.public if n.level <= s.level]
            if ok and r.random() < 0.6:
                pid = r.choice(ok)
                op = Op(0, -1, "resolve", s, pid, "provider", True)
                drive(d.run(op, d.resolver(s, True, [], r), (d.request("provider", pid),)))
                if op.raised is None:
                    d.shared_handles.append((op.value, pid, False, s))
        d.make_calls()
        d.arm()
        delay = random.Random(r.random())

        def hook(pid: int) -> None:
            if delay.random() < 0.3:
                time.sleep(delay.choice((0, 0.0001, 0.001)))

        d.rt.sync_hook = hook if r.random() < 0.6 else None
        seeds = [f"{r.random()}" for _ in range(r.randint(*d.k["actors"]))]
        run_threads(case, [lambda i=i, s=s: drive(d.actor(i + 1, s)) for i, s in enumerate(seeds)], **({"modes": d.k["modes"]} if "modes" in d.k else {}))
        d.rt.sync_hook = None
        for s in d.finish_exits():
            if s is d.m.root:
                d.c.compile()
            drive(d.exit(0, 1000, s, r, exact=False))
        d.judge()
        if case.index < 2:
            case.sample = {"graph": w.shape(), "ops": [repr(o) for o in d.ops[:20]]}
        return d
    finally:
        w.close()


# ---------------------------------------------------------------------------------------------
# asyncio tasks


def task_case(case: Case, world_knobs: dict | None = None, knobs: dict | None = None, *, loops: tuple[int, int] = (1, 1), make: Any = World, conc: Any = None) -> Conc:
    from diwire import LockMode

    r = case.rng
    w = make(r, **{"async": 1.0, "async_p": 0.7, "locks": 0.0, "eager": 0.1, "deco": r.choice((0.0, 0.0, 0.25)), **(world_knobs or {})})
    try:
        d = (conc or Conc)(case, w, **{"async": True, **(knobs or {})})
        lock = "auto" if (any(n.is_async for n in w.nodes) or w.async_patterns()) and r.random() < 0.7 else LockMode.ASYNC
        d.setup(lock_mode=lock)
        d.open_shared()
        d.hot = r.sample(d.ok(d.shared[-1]), min(2, len(d.ok(d.shared[-1]))))
        d.make_calls()
        d.arm()
        serial = itertools.count(1)
        nloops = r.randint(*loops)
        for phase in range(nloops):
            async def main() -> None:
                tasks = {}
                if r.random() < 0.5:
                    # started from a task that has its own scope bound: children inherit a copy
                    await asyncio.sleep(0)
                for _ in range(r.randint(*d.k["actors"])):
                    i = next(serial)
                    tasks[i] = asyncio.ensure_future(d.actor(i, f"{r.random()}"))
                    if r.random() < 0.3:
                        await asyncio.sleep(0)
                ticks = 0
                while not all(t.done() for t in tasks.values()):
                    await asyncio.sleep(0)
                    ticks += 1
                    if d.k["cancel"] and r.random() < d.k["cancel"]:
                        live = [i for i, t in tasks.items() if not t.done() and i not in d.cancelled]
                        if live:
                            i = r.choice(live)
                            d.cancelled.add(i)
                            tasks[i].cancel()
                            case.count("cancellations")
                    if ticks > 20000:
                        stuck = [i for i, t in tasks.items() if not t.done()]
                        raise Violation(f"tasks {stuck} made no progress: every other task finished or waits ({[o for o in d.ops[-3:]]})")
                for i, t in tasks.items():
                    if t.cancelled():
                        if i not in d.cancelled:
                            raise Violation(f"task {i} was cancelled by nobody")
                        continue
                    e = t.exception()
                    if e is not None:
                        if isinstance(e, asyncio.CancelledError) and i in d.cancelled:
                            continue
                        raise e
                case.count("tasks", len(tasks))
                case.count("ticks", ticks)
                if phase == nloops - 1:
                    for s in d.finish_exits():
                        if s is d.m.root:
                            d.c.compile()
                        await d.exit(0, 1000, s, r, exact=False)
                    d.rt.rel_faults.clear()

            asyncio.run(main())
            case.count("loops")
        d.judge()
        if case.index < 2:
            case.sample = {"graph": w.shape(), "ops": [repr(o) for o in d.ops[:20]]}
        return d
    finally:
        w.close()
