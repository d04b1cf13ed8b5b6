"""Several containers over the same classes and provider objects, used in turns.

Each container has registrations, scopes and a monitor of its own; steps of one run between any
two steps of the other, so whatever one leaves behind in shared places meets the other's oracle.
"""
from __future__ import annotations

import asyncio
import copy
import itertools
import random
import threading
from typing import Any

from diwire import Container, DependencyRegistrationPolicy, Injected, Lifetime, ResolverContext

from .conc import run_threads
from .harness import Case, Violation
from .monitor import Expect, Monitor, drive
from .opens import OpenPhases, OpenWorld
from .parts import sign
from .phases import PhaseDriver
from .world import Runtime, World


class Switch:
    """What the shared providers see: the event log of the container this thread is using."""

    def __init__(self) -> None:
        self._local = threading.local()

    def to(self, rt: Runtime) -> None:
        self._local.rt = rt

    def __getattr__(self, name: str) -> Any:
        return getattr(self._local.rt, name)

    def rel(self, value: Any, exc: BaseException | None, pid: int = -1) -> None:
        (self._local.rt if value is None else value._rv.extra).rel(value, exc, pid)

    def leak(self, value: Any) -> None:
        value._rv.extra.leak(value)  # the garbage collector may run in any thread


def twin(w: World, number: int) -> World:
    """The same keys and provider objects; registrations and event log of its own."""
    v = copy.copy(w)
    v.close = lambda: None  # type: ignore[method-assign]
    v.rng = random.Random(w.rng.random())
    of = {id(n): copy.copy(n) for n in [*w.nodes, *w.decos]}
    for n in of.values():
        n.params = [copy.copy(p) for p in n.params]
        n.eager = list(n.eager)
    v.nodes = [of[id(n)] for n in w.nodes]
    v.decos = [of[id(n)] for n in w.decos]
    v.applied, v.chain, v.slot = [], {}, {}
    v.instances = dict(w.instances)
    v.k = dict(w.k)
    v.rt = Runtime(v)
    v.rt.current = lambda: v.rt
    if isinstance(v, OpenWorld):
        v.rt.which = v.which  # type: ignore[attr-defined]
        for name in ("patterns", "layers", "active", "keys", "virtual", "inner_nodes", "index", "key_of", "terms", "wanted", "deco_todo"):
            setattr(v, name, copy.copy(getattr(v, name)))
        v.serial += 100_000 * number
    return v


class Twin:
    """One container's side: phases begin and end when the conductor says so."""

    name = ""
    phase = -1
    left = 0
    context: Any = None
    newest = False
    fns: Any = None  # functions injected by every container: shared between them
    phases_left = -1
    def log(self, text: str) -> None:
        self.history.append(f"{self.name}: {text}")

    def prepare(self) -> None:
        over = {} if self.context is None else {"resolver_context": self.context}
        self.keep = self.c = self.w.new_container(**over)
        self.w.open_wrapper = False

    def body(self) -> None:
        self.switcher.to(self.w.rt)
        self.run()
        self.keep = None

    def fallback_set(self) -> bool:
        """Whether the resolver context, with nothing bound, leads to this container."""
        return self.context is None or self.newest

    def resolver_for(self, s: Any, sync: bool) -> Any:
        if s is self.m.root and self.innermost() is None and self.fallback_set() and self.r.random() < 0.3:
            self.case.count("through_context")
            return getattr(self.w.ctx_obj, "resolve" if sync else "aresolve")
        return super().resolver_for(s, sync)  # type: ignore[misc]

    async def step(self) -> None:
        if self.fns is not None and self.phases_left == 0 and self.r.random() < 0.12:
            await self.op_injected()
        else:
            await super().step()  # type: ignore[misc]

    async def op_injected(self) -> None:
        """Call a function that every container injects for itself."""
        r, w, m = self.r, self.w, self.m
        usable = self._usable([s for s in self.scopes if s.open])
        s = r.choice(usable)
        inner = self.innermost()
        explicit = True
        if w.config["use_resolver_context"] and (s is inner or (inner is None and s is m.root and self.fallback_set())):
            explicit = r.random() < 0.3
        pool = [n for n in w.public if s.anc(n.level) is not None and n.need <= s.level and not (n.absent or n.error)]
        if not pool:
            return
        pid = r.choice(pool).pid
        key = w.key(pid)
        sync = not (w.has_async and r.random() < 0.5)
        if (key, sync) not in self.fns:
            if sync:

                def f(x):  # noqa: ANN001, ANN202
                    return x
            else:

                async def f(x):  # noqa: ANN001, ANN202
                    return x

            f.__annotations__ = {"x": Injected[key]}
            self.fns[key, sync] = f
        fn = self.wrapped.get((key, sync))
        if fn is None:
            fn = self.wrapped[key, sync] = w.ctx_obj.inject(auto_open_scope=False, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)(self.fns[key, sync])
        exp = Expect()
        m.predict(pid, s, sync, exp, set())
        where = f"injected {'call' if sync else 'acall'} p{pid} at {s}{' explicitly' if explicit else ''}"
        self.log(where)
        self.case.count("injected_calls")
        if explicit:
            resolver = self.c.compile() if s is m.root else s.obj
            call = lambda: fn(diwire_resolver=resolver)  # noqa: E731
        else:
            call = fn
        await self.call(where, s, sync, exp, call, (), lambda v: m.match(pid, s, v, where))

    def begin_phase(self) -> None:
        self.phase += 1
        self.log(f"phase {self.phase}")
        self.c = self.keep
        rt = self.w.rt
        rt.faults.clear()
        rt.rel_faults.clear()
        dirty = self.mutate(self.phase == 0)
        start = len(rt.log)
        self.register_phase(dirty, self.phase == 0)
        self.m = Monitor(self.case, self.w)
        self.m.dropped.update(self.dropped)
        self.m.dropped.update(e[1].uid for e in rt.log[start:] if e[0] == "acq")
        self.dropped = self.m.dropped
        self.m.begin_slice()
        self.scopes = [self.m.root]
        self.with_mode = self.w.config["use_resolver_context"] and self.r.random() < self.k["with"]
        self.left = self.r.randint(*self.k["ops"])
        self.case.count("phases")


class TwinDriver(Twin, PhaseDriver):
    pass


class TwinOpen(Twin, OpenPhases):
    pass


class Conductor:
    def __init__(self, case: Case, world: dict[str, Any], driver: dict[str, Any], make: Any = World) -> None:
        r = self.r = case.rng
        self.case = case
        w = make(r, alts=True, **{"nodes": (3, 7), "open_wrapper": 0.0, "eager": 0.05, "strict": 0.6, "ladder": 0.1, **world})
        self.switch = Switch()
        w.ns["RT"] = self.switch
        worlds = [twin(w, i) for i in range(r.choice((2, 2, 3)))]
        self.world = w
        uids = itertools.count(1)
        shared = ResolverContext() if r.random() < 0.2 else None  # nothing is ever bound then
        history: list[str] = []
        fns: dict[Any, Any] | None = None if make is OpenWorld else {}
        self.ds: list[TwinDriver] = []
        for i, v in enumerate(worlds):
            d = (TwinOpen if make is OpenWorld else TwinDriver)(case, v, **{"ops": (4, 14), "cancel": 0.0, "fault": 0.05, "relfault": 0.02, **driver, **({} if shared is None else {"with": 0.0})})
            d.name, d.history, d.dropped, d.context, d.switcher, d.r = "ABC"[i], history, set(), shared, self.switch, v.rng
            v.rt.uids = uids
            d.phases_left, d.fns, d.wrapped = r.randint(1, 3), fns, {}
            self.ds.append(d)
        case.describe = lambda: "\n".join(f"{d.name}: config {getattr(d.w, 'config', None)} order={getattr(d.w, 'reg_order', None)}" + (d.w.describe_open() if make is OpenWorld else "") for d in self.ds) + f"\n{w.source}\nhistory:\n" + "\n".join(history)

    async def play(self) -> None:
        r = self.r
        todo = list(self.ds)
        last = None
        while todo:
            d = r.choice(todo) if last is None or last not in todo or r.random() < 0.6 else last
            if d is not last:
                self.case.count("turns")
            last = d
            self.switch.to(d.w.rt)
            if d.left <= 0:
                if d.left == 0 and d.phase >= 0:
                    await d.finish()
                    d.m.handles.clear()
                    d.left = -1
                if d.phases_left == 0:
                    todo.remove(d)
                    d.keep = None
                    continue
                d.phases_left -= 1
                d.begin_phase()
                continue
            others = sum(1 for e in self.ds if e is not d and e.left > 0)
            if others:
                self.case.count("steps_beside_others")
            d.left -= 1
            await d.step()

    def run(self) -> None:
        try:
            for d in self.ds:
                self.switch.to(d.w.rt)
                d.prepare()
            self.ds[-1].newest = True
            if self.world.has_async and self.r.random() < 0.3:
                asyncio.run(self.play())
            else:
                drive(self.play())
        finally:
            self.world.close()

    def race(self) -> None:
        for d in self.ds:
            d.fns = None
        try:
            run_threads(self.case, [d.body for d in self.ds], modes=("free", "line", "op", "op", "meet", "whole", "spot", "spot"))
        finally:
            self.world.close()


def twin_case(case: Case, world: dict[str, Any] | None = None, driver: dict[str, Any] | None = None, make: Any = World) -> None:
    k = Conductor(case, world or {}, driver or {}, make)
    k.run()
    sign(case, k.ds[0].w, k.ds[0])
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["steps_beside_others"] >= 4


def race_case(case: Case, world: dict[str, Any] | None = None, driver: dict[str, Any] | None = None, make: Any = World) -> None:
    k = Conductor(case, world or {}, {"phases": (1, 2), **(driver or {})}, make)
    k.race()
    sign(case, k.ds[0].w, k.ds[0])
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["phases"] >= 2


# ---------------------------------------------------------------------------------------------
# many registrations at once


class Plain:
    def __init__(self, owner: int, key: int, dep: Any = None) -> None:
        self.owner, self.key, self.dep = owner, key, dep


def build_case(case: Case) -> None:
    """Threads that each fill a container of their own: every key answers with its own provider."""
    r = case.rng
    count = r.choice((6, 12, 20))
    keys = [type(f"B{j}", (), {}) for j in range(count)]
    threads = r.choice((2, 3, 4))
    seeds = [r.random() for _ in range(threads)]
    notes: list[str] = []
    case.describe = lambda: f"{count} keys, {threads} threads\n" + "\n".join(notes)

    def body(i: int) -> None:
        rng = random.Random(seeds[i])
        c = Container(default_lifetime=rng.choice((Lifetime.SCOPED, Lifetime.TRANSIENT)))
        deps: dict[int, int | None] = {}

        def add(j: int) -> None:
            dep = rng.randrange(j) if j and rng.random() < 0.4 else None
            deps[j] = dep
            form = rng.choice(("instance", "factory", "factory", "generator", "class"))
            if form == "instance":
                deps[j] = None
                c.add_instance(Plain(i, j), provides=keys[j])
                return
            if form == "class":
                deps[j] = None
                c.add(type(f"I{j}", (Plain,), {"__init__": lambda self: Plain.__init__(self, i, j)}), provides=keys[j])
                return
            if form == "generator":

                def gen(x=None):  # noqa: ANN001, ANN202
                    yield Plain(i, j, x)

                if dep is not None:
                    gen.__annotations__["x"] = keys[dep]
                c.add_generator(gen, provides=keys[j])
                return

            def make(x=None):  # noqa: ANN001, ANN202
                return Plain(i, j, x)

            if dep is not None:
                make.__annotations__["x"] = keys[dep]
            c.add_factory(make, provides=keys[j])

        for j in range(count):
            add(j)
            if rng.random() < 0.02:
                c.resolve(keys[rng.randrange(j + 1)])
        if rng.random() < 0.5:
            c.compile()
        order = list(range(count))
        rng.shuffle(order)
        for j in order:
            try:
                v = c.resolve(keys[j])
            except Exception as e:  # noqa: BLE001
                raise Violation(f"container {i}: key {j}: {type(e).__name__}: {e}") from e
            where = j
            while True:
                if type(v).__mro__[-2] is not Plain or (v.owner, v.key) != (i, where):
                    raise Violation(f"container {i}: key {j}: got {vars(v)} where container {i}'s key {where} belongs")
                case.count("keys_judged")
                if deps[where] is None:
                    break
                v, where = v.dep, deps[where]
        c.close()

    run_threads(case, [lambda i=i: body(i) for i in range(threads)], modes=("free", "line", "op", "spot", "spot", "spot"))
    case.signature = f"{hash((count, tuple(seeds))) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = True
