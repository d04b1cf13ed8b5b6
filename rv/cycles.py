"""Registration graphs with missing and circular dependencies, and what each request must do."""
from __future__ import annotations

import sys
import types
from typing import Any

from diwire import All, AsyncProvider, Component, Container, DependencyRegistrationPolicy, Injected, Lifetime, Maybe, MissingPolicy, Provider, ResolverContext, Scope
from diwire.exceptions import DIWireAsyncDependencyInSyncContextError, DIWireDependencyNotRegisteredError, DIWireInvalidProviderSpecError, DIWireScopeMismatchError

from .monitor import drive

MISSING, CYCLE = DIWireDependencyNotRegisteredError, DIWireInvalidProviderSpecError
LEVEL = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}
IGN, REC = DependencyRegistrationPolicy.IGNORE, DependencyRegistrationPolicy.REGISTER_RECURSIVE

HEAD = """
import abc, contextlib
from typing import Annotated, Any, AsyncGenerator, Awaitable, Generator, Generic, TypeVar
from diwire import All, AsyncProvider, Component, Maybe, Provider
T = TypeVar("T")
class Val:
    def __init__(self, pid, args): self.pid, self.args = pid, args
"""


class Key:
    """A key with the registration it may carry: absent, "full" (all its edges) or "leaf"."""

    def __init__(self, pid: int) -> None:
        self.pid = pid
        self.base = pid
        self.comp = ""
        self.kind = "abs"  # abs, auto (a class of its own), open
        self.edges: list[tuple[str, int]] = []  # what the full provider asks for
        self.deco: list[tuple[str, int]] | None = None  # what a decorator of it asks for
        self.form = "factory"
        self.style: list[str] = []
        self.level = 1
        self.lifetime = Lifetime.SCOPED
        self.state = "absent"
        self.decorated = False

    @property
    def is_async(self) -> bool:
        return self.state == "full" and self.form in ("afactory", "agen", "acm")

    @property
    def now(self) -> list[tuple[str, int]]:
        out = list(self.edges) if self.state == "full" else []
        return out + (self.deco if self.deco and self.decorated else [])


class Net:
    serial = 0

    def __init__(self, case: Any, *, auto: bool = False, opens: bool = False) -> None:
        self.case, r = case, case.rng
        self.r, self.auto = r, auto
        self.log: list[int] = []
        self.history: list[str] = []
        Net.serial += 1
        self.mod = types.ModuleType(f"rvnet_{Net.serial}")
        sys.modules[self.mod.__name__] = self.mod
        n = r.choice((2, 3, 4, 5, 6, 8, 10, 14)) if r.random() < 0.9 else r.randint(20, 60)
        self.keys = [Key(i) for i in range(n)]
        for k in self.keys:
            if opens and r.random() < 0.6:
                k.kind = "open"
            elif auto and r.random() < 0.7:
                k.kind = "auto"
            if k.kind != "auto" and k.pid and r.random() < 0.15:
                prev = self.keys[r.randrange(k.pid)]
                if prev.kind == k.kind and not prev.comp:
                    k.base, k.comp = prev.pid, f"c{k.pid}"
            k.lifetime = r.choice((Lifetime.SCOPED, Lifetime.TRANSIENT))
            k.form = "class" if k.kind == "auto" else r.choice(("factory", "factory", "class", "gen", "cm", "static", "afactory" if r.random() < 0.4 else "class", "agen" if r.random() < 0.2 else "factory"))
        flat = r.random() < 0.6 or auto
        for k in self.keys:
            k.level = 1 if flat else r.choice((1, 1, 3, 3, 4))
        self.topology()
        self.build()
        case.describe = self.describe

    def describe(self) -> str:
        return self.source + "\nlevels " + repr([(k.pid, k.level, k.lifetime.name) for k in self.keys]) + "\nhistory:\n" + "\n".join(self.history)

    # ------------------------------------------------------------------ generation
    def topology(self) -> None:
        r, keys = self.r, self.keys
        n = len(keys)
        order = list(range(n))
        r.shuffle(order)
        rank = {p: i for i, p in enumerate(order)}
        shape = r.choice(("random", "random", "chain", "ladder", "star"))

        def edge(u: Key, v: int, handle: float = 0.1) -> None:
            t = keys[v]
            form = r.choice(("key",) * 6 + ("meta", "maybe", "all"))
            if r.random() < handle:
                form = r.choice(("provider", "provider", "aprovider"))
            if form == "meta" and t.comp:
                form = "key"
            if u.kind == "open":
                form = "maybe" if form == "maybe" else "key"
                if t.kind != "open" and form == "maybe":
                    form = "key"
            elif t.kind == "open":
                return  # closed providers name closed keys: those are a listed limit
            if form in ("provider", "aprovider") and t.level > u.level:
                form = "key"
            u.edges.append((form, v))

        for i, p in enumerate(order):
            u = keys[p]
            later = order[i + 1 :]
            if not later:
                continue
            if shape == "chain":
                edge(u, later[0])
            elif shape == "ladder":
                for q in later[:2]:
                    edge(u, q)
            elif shape == "star":
                edge(u, order[-1])
            else:
                for q in r.sample(later, min(len(later), r.choice((0, 1, 1, 2, 3)))):
                    edge(u, q)
        for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
            u = keys[r.choice(order)]
            back = [q for q in order if rank[q] <= rank[u.pid]]
            v = r.choice(back) if r.random() < 0.8 else r.choice((order[0], u.pid))
            edge(u, v, 0.25)
        for u in keys:
            r.shuffle(u.edges)
            u.edges = u.edges[:5]
            if u.kind != "open" and r.random() < 0.12:
                u.deco = []
                if r.random() < 0.7:
                    t = r.choice([q for q in keys if q.kind != "open"] or [u])
                    if t.level <= u.level:
                        u.deco.append((r.choice(("key", "key", "maybe", "provider")), t.pid))

    def ann(self, form: str, v: int, arg: str = "T") -> str:
        t = self.keys[v]
        key = f"K{t.base}" + (f"[{arg}]" if t.kind == "open" else "")
        if form == "all":
            return f"All[{key}]"
        if t.comp:
            key = f'Annotated[{key}, Component("{t.comp}")]'
        return {"key": "{}", "meta": 'Annotated[{}, "m"]', "maybe": "Maybe[{}]", "provider": "Provider[{}]", "aprovider": "AsyncProvider[{}]"}[form].format(key)

    def params(self, edges: list[tuple[str, int]], quote: bool) -> tuple[str, str]:
        r = self.r
        kinds = sorted(r.choice(("PK", "PK", "KO")) for _ in edges)[::-1]  # PK before KO
        out, names = [], []
        for j, ((form, v), kind) in enumerate(zip(edges, kinds)):
            if kind == "KO" and "*" not in out:
                out.append("*")
            a = self.ann(form, v)
            out.append(f"a{j}: {a!r}" if quote else f"a{j}: {a}")
            names.append(f"a{j}")
        return ", ".join(out), "(" + "".join(f"{x}, " for x in names) + ")"

    def build(self) -> None:
        r = self.r
        out = [HEAD]
        for k in self.keys:
            if k.comp:
                continue
            if k.kind == "abs":
                out.append(f"class K{k.pid}(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...")
            elif k.kind == "open":
                out.append(f"class K{k.pid}(Generic[T]): pass")
            else:
                sig, tup = self.params(k.edges, True)
                out.append(f"class K{k.pid}(Val):\n    def __init__(self{', ' if sig else ''}{sig}):\n        LOG.append({k.pid})\n        Val.__init__(self, {k.pid}, {tup})")
        for k in self.keys:
            i = k.pid
            ret = self.ann("key", i) if not k.comp else "Any"
            val = ret if k.kind != "open" and not k.comp else "Any"
            if k.kind != "auto":
                sig, tup = self.params(k.edges, r.random() < 0.2)
                head = f"LOG.append({i})"
                done = f"Val({i}, {tup})"
                if k.form == "class":
                    gen = "Generic[T]" if k.kind == "open" else ""
                    out.append(f"class P{i}(Val{', ' + gen if gen else ''}):\n    def __init__(self{', ' if sig else ''}{sig}):\n        {head}\n        Val.__init__(self, {i}, {tup})")
                elif k.form == "static":
                    out.append(f"class H{i}:\n    @staticmethod\n    def make({sig}):\n        {head}\n        return {done}\nP{i} = H{i}.make")
                elif k.form in ("gen", "agen"):
                    a = "async " if k.form == "agen" else ""
                    out.append(f"{a}def P{i}({sig}):\n    {head}\n    yield {done}")
                elif k.form == "cm":
                    out.append(f"@contextlib.contextmanager\ndef P{i}({sig}):\n    {head}\n    yield {done}")
                else:
                    a = "async " if k.form == "afactory" else ""
                    out.append(f"{a}def P{i}({sig}):\n    {head}\n    return {done}")
            out.append(f"def L{i}():\n    LOG.append({i})\n    return Val({i}, None)")
            if k.deco is not None:
                sig, tup = self.params(k.deco, False)
                inner = self.ann("key", i)
                out.append(f"def D{i}(inner: {inner}{', ' if sig else ''}{sig}):\n    LOG.append(-{i} - 1)\n    v = Val({i}, {tup})\n    v.inner = inner\n    return v")
            del val, ret
        self.source = "\n\n".join(out)
        self.mod.LOG = self.log  # type: ignore[attr-defined]
        exec(compile(self.source, f"<{self.mod.__name__}>", "exec", dont_inherit=True), self.mod.__dict__)
        self.ns = self.mod.__dict__

    def key(self, pid: int, form: str = "key", arg: str = "int") -> Any:
        return eval(self.ann(form, pid, arg), self.ns)

    # ------------------------------------------------------------------ the model
    def members(self, v: int) -> list[int]:
        b = self.keys[v].base
        return [k.pid for k in self.keys if k.base == b and k.state != "absent"]

    def strong(self, u: int) -> list[int]:
        out: list[int] = []
        for form, v in self.keys[u].now:
            if form in ("key", "meta"):
                out.append(v)
            elif form == "maybe" and self.keys[v].state != "absent":
                out.append(v)
            elif form == "all":
                out += self.members(v)
        return [v for v in out if self.keys[v].state != "absent"]

    def weak(self, u: int) -> list[int]:
        return [v for form, v in self.keys[u].now if form in ("provider", "aprovider") and self.keys[v].state != "absent"]

    def reach(self, starts: list[int], weak: bool = True) -> set[int]:
        seen: set[int] = set()
        todo = list(starts)
        while todo:
            u = todo.pop()
            if u in seen or self.keys[u].state == "absent":
                continue
            seen.add(u)
            todo += self.strong(u) + (self.weak(u) if weak else [])
        return seen

    def lacks(self, u: int) -> list[int]:
        return [v for form, v in self.keys[u].now if form in ("key", "meta", "provider", "aprovider") and self.keys[v].state == "absent"]

    def cyclic(self, among: set[int]) -> list[int]:
        """Keys on a cycle of strong dependencies."""
        return [u for u in among if any(u in self.reach([v], False) for v in self.strong(u))]

    def faults(self, starts: list[int]) -> tuple[list[int], list[int]]:
        seen = self.reach(starts)
        return sorted({v for u in seen for v in self.lacks(u)}), sorted(self.cyclic(seen))

    # ------------------------------------------------------------------ the container
    def start(self) -> None:
        r = self.r
        ctx = ResolverContext()
        self.use_ctx = r.random() < 0.7
        self.c = Container(
            missing_policy=MissingPolicy.REGISTER_RECURSIVE if self.auto else MissingPolicy.ERROR,
            dependency_registration_policy=IGN,
            default_lifetime=Lifetime.SCOPED if self.auto and r.random() < 0.5 else Lifetime.TRANSIENT,
            resolver_context=ctx,
            use_resolver_context=self.use_ctx,
        )
        self.ctx = ctx

    def register(self, pid: int, state: str) -> None:
        k, c, r = self.keys[pid], self.c, self.r
        key = self.key(pid, arg="T")
        kw: dict[str, Any] = {"provides": key, "lifetime": k.lifetime, "scope": LEVEL[k.level]}
        self.history.append(f"register {pid} {state} {k.form if state == 'full' else ''}")
        if state == "leaf":
            c.add_factory(self.ns[f"L{pid}"], **kw)
        elif k.kind == "auto":
            c.add(self.ns[f"K{pid}"], **kw)
        elif k.form == "class":
            c.add(self.ns[f"P{pid}"], **kw)
        elif k.form in ("gen", "agen"):
            c.add_generator(self.ns[f"P{pid}"], **kw)
        elif k.form == "cm":
            c.add_context_manager(self.ns[f"P{pid}"], **kw)
        else:
            c.add_factory(self.ns[f"P{pid}"], **kw)
        k.state = state

    def decorate(self, pid: int) -> None:
        k = self.keys[pid]
        self.history.append(f"decorate {pid}")
        self.c.decorate(provides=self.key(pid), decorator=self.ns[f"D{pid}"], inner_parameter="inner")
        k.decorated = True

    # ------------------------------------------------------------------ requests
    def auto_close(self, pid: int) -> None:
        k = self.keys[pid]
        if k.state != "absent" or k.kind != "auto":
            return
        k.state = "full"
        k.level, k.lifetime = 1, self.c._default_lifetime  # noqa: SLF001
        for form, v in k.edges:
            if form in ("key", "meta", "provider", "aprovider"):
                self.auto_close(v)

    def request(self, pid: int) -> None:
        r, case = self.r, self.case
        k = self.keys[pid]
        form = r.choice(("key", "key", "key", "meta", "provider", "all", "maybe", "inject", "compile", "scope", "scope"))
        if form == "meta" and (k.comp or k.kind == "open"):
            form = "key"
        if k.kind == "open" and form in ("provider", "all", "inject"):
            form = "key"
        if form in ("maybe", "inject") and k.state == "absent":
            form = "key"
        before = [q.state for q in self.keys]
        levels = [q.level for q in self.keys], [q.lifetime for q in self.keys]
        starts = [pid]
        alone = self.faults([q.pid for q in self.keys if q.state != "absent"])
        if self.auto and not any(alone):
            # what is missing is registered only once everything before compiles
            if form in ("key", "meta", "provider", "maybe", "scope"):
                self.auto_close(pid)
        if form == "all":
            starts = self.members(pid)
        lost = [pid] if k.state == "absent" and form not in ("all", "compile", "provider") else []
        missing, cyclic = self.faults(starts) if form != "compile" else alone
        missing = sorted(set(missing) | set(lost))
        whole = self.faults([q.pid for q in self.keys if q.state != "absent"])
        if form == "maybe" and missing:
            form = "key"  # optional requests swallow it: a listed finding
        must: list[type] = ([MISSING] if missing else []) + ([CYCLE] if cyclic else [])
        if form == "compile":
            must = []
        may: list[type] = ([MISSING] if whole[0] else []) + ([CYCLE] if whole[1] else [])
        hit = self.reach(starts)
        mixed = any(self.keys[v].level > self.keys[u].level for u in hit for v in self.strong(u)) or any(self.keys[u].level > 1 for u in hit)
        needs_async = any(self.keys[u].is_async for u in self.reach(starts, False))
        sync = r.random() < 0.6 or form == "inject"
        if mixed:
            may.append(DIWireScopeMismatchError)
        if sync and needs_async:
            may.append(DIWireAsyncDependencyInSyncContextError)
        open_hit = any(self.keys[u].kind == "open" for u in hit | {pid})
        where = f"request {form}:{pid} sync={sync} missing={missing} cycle={cyclic} elsewhere={whole}"
        self.history.append(where)
        mark = len(self.log)
        value: Any = None
        raised: BaseException | None = None
        try:
            value = self.ask(form, pid, sync)
        except Exception as e:  # noqa: BLE001
            raised = e
        ran = self.log[mark:]
        if raised is not None and not isinstance(raised, tuple(must + may)):
            import traceback

            case.fail(f"{where}: raised {type(raised).__name__}({str(raised)[:300]}), expected {[t.__name__ for t in must + may] or 'a value'}\n{''.join(traceback.format_exception(raised)[-4:])}")
        if raised is None and must:
            case.fail(f"{where}: returned {value!r} although the graph is broken")
        if isinstance(raised, (MISSING, CYCLE)) and ran and not (open_hit and isinstance(raised, MISSING)):
            case.fail(f"{where}: providers {ran} ran before {type(raised).__name__}")
        case.count("requests")
        case.state(form, sync, len(missing), tuple(cyclic), sorted(f for u in cyclic for f, _ in self.keys[u].now), raised is None, len(hit))
        if missing:
            case.count("missing_requests")
        if cyclic:
            case.count("cycle_requests")
            case.count("cycle_length", len(cyclic))
        if raised is None:
            case.count("succeeded")
            if form in ("key", "meta", "maybe", "inject", "scope"):
                self.check_value(value, pid, where)
            elif form == "all":
                if sorted(v.pid for v in value) != sorted(starts):
                    case.fail(f"{where}: got {[v.pid for v in value]}")
            elif form == "provider":
                if not callable(value):
                    case.fail(f"{where}: got {value!r}")
                if k.state == "absent":
                    self.check_dead(value, where)
                elif not needs_async and not mixed:
                    self.check_value(value(), pid, where)
            for u in hit:
                self.seen_ok.add(u)
            if any(pid in s for s in self.broken):
                case.count("recovered")
        if must:
            self.broken.append({pid})
        if raised is not None and any(alone):
            # nothing was registered: the compilation of what was there failed
            for q, st, lv, lt in zip(self.keys, before, *levels):
                q.state, q.level, q.lifetime = st, lv, lt

    def ask(self, form: str, pid: int, sync: bool) -> Any:
        r, c = self.r, self.c
        key = self.key(pid)
        if form == "compile":
            c.compile()
            return None
        if form == "scope":
            target = LEVEL[r.choice((3, 4))]
            if not sync:

                async def within() -> Any:
                    async with c.enter_scope(target) as s:
                        return await (c if self.auto and self.keys[pid].kind == "auto" else s).aresolve(key)

                return drive(within())
            if self.use_ctx and r.random() < 0.5:
                with c.enter_scope(target):
                    return self.get(c, key, sync, pid)
            with c.enter_scope(target) as s:
                return self.get(s, key, sync, pid)
        if form == "inject":
            def f(x: Any) -> Any:
                return x

            f.__annotations__ = {"x": Injected[key]}
            ctx = self.ctx
            if not self.use_ctx:
                return self.get(c, key, sync, pid)
            ctx.set_fallback_container(c)
            return ctx.inject(dependency_registration_policy=IGN)(f)()
        arg = {"key": lambda: key, "meta": lambda: self.key(pid, "meta"), "provider": lambda: Provider[key], "all": lambda: self.key(pid, "all"), "maybe": lambda: Maybe[key]}[form]()
        return self.get(c, arg, sync, pid)

    def get(self, where: Any, key: Any, sync: bool, pid: int) -> Any:
        if self.auto and self.keys[pid].kind == "auto" and where is not self.c:
            where = self.c  # only the container registers classes by itself
        return where.resolve(key) if sync else drive(where.aresolve(key))

    def check_dead(self, handle: Any, where: str) -> None:
        mark = len(self.log)
        try:
            v = handle()
        except MISSING:
            v = None
        else:
            self.case.fail(f"{where}: the handle of an unregistered key gave {v!r}")
        if self.log[mark:]:
            self.case.fail(f"{where}: calling the handle of an unregistered key ran {self.log[mark:]}")

    def check_value(self, v: Any, pid: int, where: str, depth: int = 0) -> None:
        k = self.keys[pid]
        if getattr(v, "pid", None) != pid:
            self.case.fail(f"{where}: expected a value of p{pid}, got {v!r} {getattr(v, 'pid', None)}")
        if depth > 6:
            return
        edges = k.edges if k.state == "full" else []
        args = v.args
        if k.decorated:
            if not hasattr(v, "inner"):
                self.case.fail(f"{where}: p{pid} is not decorated")
            self.check_args(v.args, k.deco, where, depth)
            v = v.inner
            args = v.args
            if v.pid != pid:
                self.case.fail(f"{where}: the decorator of p{pid} got p{v.pid}")
        if (args is None) != (k.state == "leaf"):
            self.case.fail(f"{where}: p{pid} was built by the superseded provider")
        if args is not None:
            self.check_args(args, edges, where, depth)

    def check_args(self, args: tuple, edges: Any, where: str, depth: int) -> None:
        for (form, v), a in zip(edges, args, strict=True):
            t = self.keys[v]
            if form in ("key", "meta"):
                self.check_value(a, v, where, depth + 1)
            elif form == "maybe":
                if t.state == "absent":
                    if a is not None:
                        self.case.fail(f"{where}: optional p{v} is not registered, got {a!r}")
                else:
                    self.check_value(a, v, where, depth + 1)
            elif form == "all":
                if sorted(x.pid for x in a) != sorted(self.members(v)):
                    self.case.fail(f"{where}: All of p{v} gave {a!r}")
            elif not callable(a):
                self.case.fail(f"{where}: handle of p{v} is {a!r}")

    # ------------------------------------------------------------------ histories
    def run(self) -> None:
        r, case = self.r, self.case
        self.broken: list[set[int]] = []
        self.seen_ok: set[int] = set()
        try:
            self.start()
            pids = [k.pid for k in self.keys]
            r.shuffle(pids)
            hole = r.choice((0.0, 0.0, 0.1, 0.3))
            for p in pids:
                k = self.keys[p]
                if k.kind == "auto" and r.random() < 0.8:
                    continue
                if r.random() >= hole:
                    self.register(p, "leaf" if r.random() < 0.1 else "full")
            for _ in range(r.randint(2, 6)):
                for _ in range(r.randint(1, 4)):
                    self.request(r.choice(pids))
                self.change()
            # in the end, repair everything: all requests succeed
            self.repair()
            for _ in range(6):
                self.request(r.choice(pids))
        finally:
            sys.modules.pop(self.mod.__name__, None)

    def change(self) -> None:
        r = self.r
        for _ in range(r.randint(1, 2)):
            k = r.choice(self.keys)
            x = r.random()
            if x < 0.2 and k.deco is not None and not k.decorated and k.state != "absent":
                self.decorate(k.pid)
            elif x < 0.5:
                self.repair(1)
            elif k.state == "absent":
                self.register(k.pid, r.choice(("full", "full", "leaf")))
            else:
                self.register(k.pid, "leaf" if k.state == "full" else "full")

    def repair(self, steps: int = 10**6) -> None:
        r = self.r
        for _ in range(steps):
            missing, cyclic = self.faults([q.pid for q in self.keys if q.state != "absent"])
            if not missing and not cyclic:
                return
            if missing and (not cyclic or r.random() < 0.5):
                self.register(r.choice(missing), "full" if r.random() < 0.6 else "leaf")
                continue
            full = [u for u in cyclic if self.keys[u].state == "full"]
            deco = [u for u in cyclic if self.keys[u].decorated]
            if full:
                self.register(r.choice(full), "leaf")
            elif deco:
                # only the decorators keep the cycle: nothing registered here can break it
                raise self.case_skip()
            else:
                self.case.fail("model: a cycle of leaves")

    def case_skip(self) -> Exception:
        from .harness import Skip

        return Skip("a cycle made of decorators only")


def net_case(case: Any, **kw: Any) -> None:
    net = Net(case, **kw)
    net.run()
    case.signature = f"{hash((net.source, tuple(net.history))) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["missing_requests"] + case.counts["cycle_requests"] > 0 and case.counts["succeeded"] > 0
    if case.index < 2:
        case.sample = {"source": net.source[-1500:], "history": net.history[:30]}
