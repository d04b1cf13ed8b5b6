"""Worlds whose classes may be left to auto-registration, and a model of what that registers.

The model keeps the registry a user would have had to write by hand; requests are then judged by
the ordinary reference semantics over that registry.
"""
from __future__ import annotations

from typing import Any

from diwire import AsyncProvider, DependencyRegistrationPolicy, Injected, MissingPolicy, Provider
from diwire.exceptions import DIWireError

from .conc import Conc, Op
from .harness import Skip
from .monitor import MISSING, Driver, Expect, Monitor, drive
from .world import LEVELS, Node, World

REC, IGN = DependencyRegistrationPolicy.REGISTER_RECURSIVE, DependencyRegistrationPolicy.IGNORE
ROOT, DEEP, ERROR = MissingPolicy.REGISTER_ROOT, MissingPolicy.REGISTER_RECURSIVE, MissingPolicy.ERROR
BUILTINS = ("int", "str", "bytes", "dict", "float", "object")
LIBRARY = ("uuid.UUID", "pathlib.Path", "decimal.Decimal", "datetime.datetime", "datetime.timedelta")


class AutoWorld(World):
    def __init__(self, rng: Any, **knobs: Any) -> None:
        self.kinds: dict[int, str] = {}  # key class -> what makes it ineligible
        self.settings: set[int] = set()
        super().__init__(rng, **{"concrete": 0.85, "eager": 0.0, "nodes": (3, 9), "comp": 0.15, "handles": 0.15, "bad_level": 0.0, "resources": 0.2, "open_wrapper": 0.15, "optional_handle": 0.0, "wrappers": 0.0, **knobs})

    def _form(self) -> str:
        return self.rng.choice(("cls", "cls", "cls", "dataclass", "newcls")) if self.rng.random() < 0.65 else super()._form()

    def _gen(self) -> None:
        r = self.rng
        super()._gen()
        for n in self.nodes:
            n.selfret = False
            if n.concrete_key:
                n.explicit = False
                if n.form == "cls" and not n.params and r.random() < 0.15:
                    self.settings.add(n.pid)

    def _key_class_src(self, node: Node) -> str:
        b = node.base
        free = [x for x in (*BUILTINS, *LIBRARY) if x not in self.kinds.values()]
        kind = self.rng.choice(("abstract", "protocol", "runtime", "meta", "path", "uuid", "date", "decimal", "broken", "broken", *free[:3]))
        self.kinds[b] = kind
        if kind == "protocol":
            self.opaque.add(b)
        text = {
            "abstract": f"class K{b}(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...\n",
            "protocol": f"class K{b}(Protocol):\n    def rv(self): ...\n",
            "runtime": f"@typing.runtime_checkable\nclass K{b}(Protocol):\n    def rv(self): ...\n",
            "meta": f"class K{b}(type): pass\n",
            "path": f"import pathlib\nclass K{b}(pathlib.PurePosixPath): pass\n",
            "uuid": f"import uuid\nclass K{b}(uuid.UUID): pass\n",
            "date": f"import datetime\nclass K{b}(datetime.date): pass\n",
            "decimal": f"import decimal\nclass K{b}(decimal.Decimal): pass\n",
            "broken": f"class K{b}:\n    def __init__(self, unknown): ...\n",
        }.get(kind)
        return text or f"import uuid, pathlib, decimal, datetime\nK{b} = {kind}\n"

    def _value_base(self, node: Node) -> str:
        return super()._value_base(node) if self.kinds.get(node.base) in (None, "abstract", "protocol", "runtime") else "object"

    def _concrete_head(self, node: Node) -> str:
        if node.pid in self.settings:
            return f"from pydantic_settings import BaseSettings\nclass K{node.pid}(BaseSettings):"
        if node.form == "cls":
            return f"class K{node.pid}{self.rng.choice(('', '', '(MBase)', '(PBase)', '(Exception)', '(dict)'))}:"
        return f"class K{node.pid}:"

    def _class_src(self, node: Node, head: str, cls: str) -> str:
        text = super()._class_src(node, head, cls)
        if node.concrete_key and node.pid in self.settings:
            text = text.replace(f"        RT.begin({node.pid})\n", f"        super().__init__()\n        RT.begin({node.pid})\n", 1)
        return text

    def _build(self) -> None:
        from . import world

        keep = world.PROLOGUE
        world.PROLOGUE = keep + "class MBase(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...\nclass PBase(Protocol):\n    def rv(self): ...\n"
        try:
            super()._build()
        finally:
            world.PROLOGUE = keep

    # ------------------------------------------------------------------ the registry model
    def eligible(self, n: Node) -> bool:
        return n.concrete_key

    @property
    def public(self) -> list[Node]:
        """Nodes that can be asked for without registering anything."""
        lenient = getattr(self, "config", {}).get("missing_policy", DEEP) is not ERROR
        return [n for n in super().public if not (n.absent and lenient and (self.eligible(n) or self.kinds.get(n.base) == "broken"))]

    @staticmethod
    def needs(n: Node) -> list[int]:
        """What auto-registration of a provider's dependencies looks at, in signature order."""
        return [p.dep[1] for p in n.params if p.dep[0] in ("key", "meta", "provider", "aprovider")]

    def put(self, pid: int, level: int, lifetime: str) -> None:
        n = self.nodes[pid]
        n.absent, n.level = False, level
        if n.form != "instance":
            n.lifetime = lifetime
        if pid in self.reg_order:
            self.reg_order.remove(pid)
        self.reg_order.append(pid)

    def auto(self, pid: int, level: int, lifetime: str, deep: bool) -> None:
        n = self.nodes[pid]
        if not n.absent or not self.eligible(n):
            return
        if pid in self.settings:
            self.put(pid, 1, "S")
            return
        self.put(pid, level, lifetime)
        if deep:
            self.auto_deps(n, level, lifetime)

    def auto_deps(self, n: Node, level: int, lifetime: str) -> None:
        for q in self.needs(n):
            self.auto(q, level, lifetime, True)

    def missing_of(self) -> list[int]:
        """Absent keys that registered providers require."""
        return [q for n in self.nodes if not n.absent for q in self.needs(n) if self.nodes[q].absent]

    def save(self) -> tuple:
        return [(n.absent, n.level, n.lifetime) for n in self.nodes], list(self.reg_order)

    def load(self, s: tuple) -> None:
        for n, (n.absent, n.level, n.lifetime) in zip(self.nodes, s[0]):
            pass
        self.reg_order = list(s[1])

    def legal(self) -> bool:
        """Whether the registry stays within what the reference semantics specifies."""
        for n in self.nodes:
            if n.absent:
                continue
            for p in n.params:
                if p.dep[0] in ("provider", "aprovider") and not self.nodes[p.dep[1]].absent and self.nodes[p.dep[1]].level > n.level:
                    return False
                if p.dep[0] in ("key", "meta", "provider", "aprovider") and self.nodes[p.dep[1]].absent and p.default is not None:
                    return False  # whether a declared default makes a plain dependency optional is not specified
        if self._toposort() is None:
            return False
        self.settle()
        return True


class AutoDriver(Driver):
    def __init__(self, case: Any, world: AutoWorld, **knobs: Any) -> None:
        super().__init__(case, world, **{"phases": (1, 3), "changes": (1, 4), "fault": 0.03, "relfault": 0.0, "cancel": 0.02, "ops": (3, 14), **knobs})

    def fresh_model(self) -> None:
        """The registrations changed: a new root, whose predecessor's resources are a listed finding."""
        self.stale = False
        w = self.w
        dropped = self.m.dropped
        self.m = Monitor(self.case, w)
        self.m.dropped |= dropped
        self.m.dropped.update(e[1].uid for e in w.rt.log if e[0] == "acq")
        self.m.begin_slice()
        self.scopes = [self.m.root]

    stale = True

    def start(self) -> None:
        r, w = self.r, self.w
        strict = r.random() < 0.25
        self.c = w.new_container(
            missing_policy=ERROR if strict else r.choice((DEEP, DEEP, ROOT, ERROR)),
            dependency_registration_policy=IGN if strict else r.choice((REC, REC, IGN)),
        )
        for n in w.nodes:
            n.absent = True
        w.reg_order = []
        w.open_wrapper = False

    def run(self) -> None:
        w, r = self.w, self.r
        try:
            self.start()
            c = self.c
            use_loop = w.has_async and r.random() < self.k["loop"]
            for phase in range(r.randint(*self.k["phases"])):
                self.log(f"phase {phase}")
                self.c = c
                w.rt.faults.clear()
                w.rt.rel_faults.clear()
                self.with_mode = False
                done = self.register_one()
                for _ in range(r.randint(*self.k["changes"])):
                    done = self.change() or done
                    if w.missing_of() and not self.complete():
                        return
                if w.missing_of() and not self.complete():
                    return
                if not done or all(n.absent for n in w.nodes):
                    continue
                if self.stale:
                    self.fresh_model()
                self.with_mode = w.config["use_resolver_context"] and r.random() < self.k["with"]
                import asyncio

                if use_loop:
                    asyncio.run(self._amain())
                else:
                    drive(self._amain())
                del self.m.handles[:]
                self.case.count("phases")
        finally:
            w.close()

    # ------------------------------------------------------------------ changes of the registry
    def attempt(self, change: Any) -> bool:
        """Apply a change to the model; False when it leaves the specified domain."""
        w = self.w
        before = w.save()
        change()
        if w.legal():
            return True
        w.load(before)
        w.settle()
        return False

    def change(self) -> bool:
        x = self.r.random()
        if x < 0.35:
            return self.register_one()
        if x < 0.5:
            return self.declare()
        return self.request()

    def register_one(self, pid: int | None = None) -> bool:
        r, w = self.r, self.w
        pid = r.choice([n.pid for n in w.nodes]) if pid is None else pid
        n = w.nodes[pid]
        policy = r.choice((None, None, REC, IGN))
        deep = (policy or w.config["dependency_registration_policy"]) is REC
        level, lifetime = (1, "I") if n.form == "instance" else (r.choice(w.levels), r.choice("ST"))

        def model() -> None:
            w.put(pid, level, lifetime)
            if n.form != "instance" and deep:
                w.auto_deps(n, level, lifetime)

        before = {q.pid for q in w.nodes if not q.absent}
        if not self.attempt(model):
            return False
        w.extra_kw = {} if policy is None else {"dependency_registration_policy": policy}
        w.register(self.c, pid)
        w.extra_kw = {}
        self.stale = True
        got = {q.pid for q in w.nodes if not q.absent} - before - {pid}
        self.log(f"register {pid} {n.lifetime}{n.level} policy={policy} auto={sorted(got)}")
        self.case.count("auto_registered", len(got))
        return True

    def declare(self) -> bool:
        """Injecting a callable auto-registers what it asks for."""
        r, w = self.r, self.w
        pids = [r.choice(w.nodes).pid for _ in range(r.randint(1, 3))]
        policy = r.choice((None, None, REC, IGN))
        deep = (policy or w.config["dependency_registration_policy"]) is REC
        forms = [r.choice(("key", "key", "provider", "aprovider")) for _ in pids]

        def model() -> None:
            for q in pids if deep else ():
                w.auto(q, 1, w.default_lifetime, True)

        before = {q.pid for q in w.nodes if not q.absent}
        if not self.attempt(model):
            return False

        def f(*args: Any) -> Any: ...

        import inspect

        anns = [Injected[{"key": w.key(q), "provider": Provider[w.key(q)], "aprovider": AsyncProvider[w.key(q)]}[k]] for q, k in zip(pids, forms)]
        f.__signature__ = inspect.Signature([inspect.Parameter("abc"[i], inspect.Parameter.KEYWORD_ONLY, annotation=a) for i, a in enumerate(anns)])  # type: ignore[attr-defined]
        f.__annotations__ = {"abc"[i]: a for i, a in enumerate(anns)}
        kw = {} if policy is None else {"dependency_registration_policy": policy}
        self.log(f"inject {list(zip(forms, pids))} policy={policy}")
        self.inject(f, kw)
        got = {q.pid for q in w.nodes if not q.absent} - before
        self.case.count("auto_registered", len(got))
        self.case.count("declared")
        self.stale = self.stale or bool(got)
        return bool(got)

    def inject(self, f: Any, kw: dict) -> None:
        self.w.ctx_obj.set_fallback_container(self.c)
        self.w.ctx_obj.inject(**kw)(f)

    def request(self) -> bool:
        """Ask the container for something not registered."""
        r, w, case = self.r, self.w, self.case
        if w.missing_of():
            return False  # until the graph is complete nothing resolves
        pool = [n for n in w.nodes if n.absent]
        if not pool:
            return False
        n = r.choice(pool)
        policy = r.choice((None, None, None, ERROR, ROOT, DEEP))
        eff = policy or w.config["missing_policy"]
        if policy is ERROR and not w.config["use_resolver_context"]:
            policy = None
            eff = w.config["missing_policy"]
        kw = {} if policy is None else {"on_missing": policy}
        if not w.config["use_resolver_context"] and w.config["missing_policy"] is ERROR and kw:
            return False  # listed finding: a compiled strict container without contexts rejects the argument
        if eff is ERROR or not w.eligible(n):
            return self.refuse(n, kw, eff)
        before = {q.pid for q in w.nodes if not q.absent}
        if not self.attempt(lambda: w.auto(n.pid, 1, w.default_lifetime, eff is DEEP)):
            return False
        got = {q.pid for q in w.nodes if not q.absent} - before
        case.count("auto_registered", len(got))
        case.count("auto_roots")
        self.fresh_model()
        form = r.choice(("key", "key", "key", "meta", "provider"))
        sync = not n.req_async if r.random() < 0.8 else r.random() < 0.5
        key = w.key(n.pid)
        exp = Expect()
        lost = self.lost(n.pid, set())
        if w.missing_of():
            if not lost:
                return True  # unreachable: what is missing is below the root just registered
            exp.must.append(MISSING)
            if form == "provider":
                form = "key"
        elif form != "provider":
            self.m.predict(n.pid, self.m.root, sync, exp, set())
        if form == "meta":
            import typing

            key = typing.Annotated[key, "meta"]
        arg = Provider[key] if form == "provider" else key
        where = f"request of unregistered {form}:{n.pid} sync={sync} {kw}, auto={sorted(got)}"
        self.log(where)
        fn = self.c.resolve if sync else self.c.aresolve
        if exp.must == [MISSING] and w.missing_of():
            case.count("incomplete_requests")
        drive(self.call(where, self.m.root, sync, exp, lambda a: fn(a, **kw), (arg,), lambda v: self.check_value(form, n.pid, self.m.root, v, where)))
        return True

    def lost(self, pid: int, seen: set[int]) -> bool:
        """Whether something required below a key is missing."""
        if pid in seen:
            return False
        seen.add(pid)
        n = self.w.nodes[pid]
        return n.absent or any(self.lost(q, seen) for q in self.w.needs(n))

    def refuse(self, n: Node, kw: dict, eff: Any) -> bool:
        """Must raise, register nothing and run nothing."""
        w, c = self.w, self.c
        if w.missing_of():
            return False
        broken = eff is not ERROR and w.kinds.get(n.base) == "broken"
        sync = self.r.random() < 0.6
        self.log(f"refused request of {n.pid} ({w.kinds.get(n.base, 'eligible')}) sync={sync} {kw}")
        mark = len(w.rt.log)
        try:
            v = c.resolve(w.key(n.pid), **kw) if sync else drive(c.aresolve(w.key(n.pid), **kw))
        except MISSING:
            pass
        except DIWireError:
            if not broken:
                raise
        else:
            self.m.fail(f"{w.key(n.pid)} ({w.kinds.get(n.base, 'eligible, but auto-registration is off')}) is not registered, yet {v!r} was returned")
        if [e for e in w.rt.log[mark:] if e[0] in ("begin", "made")]:
            self.m.fail("a refused request ran providers")
        self.case.count("refused_" + w.kinds.get(n.base, "strict"))
        return False

    def complete(self) -> bool:
        """Register what is missing; requests work again afterwards."""
        w = self.w
        for _ in range(12):
            miss = w.missing_of()
            if not miss:
                self.case.count("completed")
                return True
            if not self.register_one(self.r.choice(miss)):
                pass
        return False


class AutoConc(Conc):
    """Every actor's first request is the same unregistered class."""

    def __init__(self, case: Any, world: AutoWorld, **knobs: Any) -> None:
        super().__init__(case, world, **{"shared": (0, 0), "warm": 0.0, "handles_first": (0, 0), **knobs})

    def setup(self, **over: Any) -> None:
        w, r = self.w, self.r
        deep = r.random() < 0.8
        self.c = w.new_container(missing_policy=DEEP if deep else ROOT, dependency_registration_policy=IGN, **over)
        for n in w.nodes:
            n.absent = True
        w.reg_order = []
        w.open_wrapper = False
        for n in w.nodes:
            if not w.eligible(n) and r.random() < 0.5:
                self.add(n.pid)
        roots = [n.pid for n in w.nodes if w.eligible(n)]
        self.root = -1
        r.shuffle(roots)
        for q in roots:
            state = w.save()
            if not w.nodes[q].absent or not self.complete():
                continue
            for _ in range(20):
                state = w.save()
                w.auto(q, 1, w.default_lifetime, deep)
                miss = w.missing_of()
                if w.legal() and not miss:
                    self.root = q
                    break
                w.load(state)
                w.settle()
                if not miss or q in miss or not self.add(r.choice(miss)) or not self.complete():
                    break
            if self.root >= 0:
                break
        if self.root < 0:
            raise Skip
        self.case.count("auto_roots")
        self.case.count("auto_registered", sum(1 for n, (absent, _, _) in zip(w.nodes, state[0]) if absent and not n.absent))
        self.bound_mode = bool(w.config["use_resolver_context"]) and self.k["bound"]
        if r.random() < 0.4:
            self.c.compile()

    def add(self, pid: int) -> bool:
        w, r = self.w, self.r
        n = w.nodes[pid]
        if not n.absent:
            return False
        state = w.save()
        w.put(pid, *((1, "I") if n.form == "instance" else (r.choice((1, 1, 1, r.choice(w.levels))), r.choice("ST"))))
        if not w.legal():
            w.load(state)
            w.settle()
            return False
        w.register(self.c, pid)
        return True

    def complete(self) -> bool:
        for _ in range(12):
            miss = self.w.missing_of()
            if not miss:
                return True
            self.add(self.r.choice(miss))
        return False

    async def actor(self, no: int, seed: str) -> None:
        import random

        r = random.Random(seed)
        n = self.w.nodes[self.root]
        sync = not self.k["async"] or (not n.req_async and r.random() < self.k["sync"])
        form = r.choice(("key", "key", "key", "provider"))
        op = Op(no, -2, "resolve", self.m.root, self.root, form, sync)
        await self.run(op, self.c.resolve if sync else self.c.aresolve, (self.request(form, self.root),))
        if op.raised is None and form == "provider":
            await self.run(Op(no, -1, "handle", self.m.root, self.root, "key", True), op.value, ()) if not n.req_async else None
        if op.raised is not None and self.is_cancel(op):
            return
        await super().actor(no, seed)


def describe(w: AutoWorld) -> str:
    return ", ".join(f"K{b}={k}" for b, k in w.kinds.items())
