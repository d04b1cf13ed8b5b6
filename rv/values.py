"""Providers of plain values: None, falsy, shared, unhashable, awaitable ... anything a factory may return.

Such values carry no identity of their own, so the monitor counts provider runs instead: how often
each provider ran for a request, what each run received, and what was handed out.
"""
from __future__ import annotations


from collections import Counter, defaultdict
from typing import Any

from diwire import All, AsyncProvider, Container, Lifetime, LockMode, Maybe, MissingPolicy, Provider, ResolverContext, Scope

from .harness import Case
from .monitor import drive


async def _coro_fn() -> None: ...


class Odd:
    """Equal to everything and false."""

    def __eq__(self, other: object) -> bool:
        return True

    def __bool__(self) -> bool:
        return False

    __hash__ = None  # type: ignore[assignment]


class NoTruth:
    def __bool__(self) -> bool:
        raise AssertionError("truth of a value was asked for")

    def __eq__(self, other: object) -> bool:
        raise AssertionError("a value was compared")

    __hash__ = None  # type: ignore[assignment]


class Awaitable:
    def __await__(self) -> Any:
        raise AssertionError("a value was awaited")
        yield


def _generator() -> Any:
    yield 1


MAKERS: dict[str, Any] = {
    "None": lambda: None,
    "False": lambda: False,
    "zero": lambda: 0,
    "empty str": lambda: "",
    "empty tuple": lambda: (),
    "empty list": lambda: [],
    "empty dict": lambda: {},
    "nan": lambda: float("nan"),
    "NotImplemented": lambda: NotImplemented,
    "Ellipsis": lambda: ...,
    "object": object,
    "exception": lambda: ValueError("a value"),
    "exception class": lambda: KeyError,
    "cancelled": lambda: __import__("asyncio").CancelledError(),
    "stop": lambda: StopIteration("a value"),
    "class": lambda: int,
    "function": lambda: (lambda: 1 / 0),
    "coroutine function": lambda: _coro_fn,
    "generator": _generator,
    "odd": Odd,
    "no truth": NoTruth,
    "awaitable": Awaitable,
    "provider marker": lambda: Provider[int],
    "missing": lambda: __import__("inspect").Parameter.empty,
}
FORMS = ("factory", "factory", "afactory", "gen", "agen", "fcm", "afcm")


class Run:
    def __init__(self, pid: Any, args: tuple, value: Any) -> None:
        self.pid, self.args, self.value, self.released = pid, args, value, 0


class Values:
    def __init__(self, case: Case) -> None:
        self.case, self.r = case, case.rng
        self.runs: list[Run] = []
        self.nodes: dict[Any, dict[str, Any]] = {}
        self.log: list[str] = []
        case.describe = lambda: self.source + "\n" + "\n".join(self.log)
        self.build()

    # ------------------------------------------------------------------ the graph
    def body(self, pid: Any, form: str, sig: str, names: list[str], maker: str) -> str:
        made = f"RUN({pid}, ({''.join(n + ', ' for n in names)}))"
        a = "async " if form in ("afactory", "agen", "afcm") else ""
        if form in ("factory", "afactory"):
            return f"{a}def f{maker}({sig}):\n    return {made}.value\n"
        deco = {"fcm": "@contextlib.contextmanager\n", "afcm": "@contextlib.asynccontextmanager\n"}.get(form, "")
        return f"{deco}{a}def f{maker}({sig}):\n    run = {made}\n    try:\n        yield run.value\n    finally:\n        run.released += 1\n"

    def build(self) -> None:
        r = self.r
        src = ["import contextlib\nfrom typing import Generic, TypeVar\nfrom diwire import *\nT = TypeVar('T')\n"]
        n = r.randint(2, 5)
        has_async = r.random() < 0.5
        self.patterns: list[int] = []
        order: list[tuple] = []
        for i in range(n):
            is_open = r.random() < 0.2
            level = r.choice((1, 1, 3))
            node = {
                "life": r.choice("SST"),
                "level": level,
                "form": r.choice([f for f in FORMS if has_async or f not in ("afactory", "agen", "afcm")]),
                "maker": r.choice(list(MAKERS)),
                "deps": [],
                "open": is_open,
            }
            below = [j for j in range(i) if self.nodes[j]["level"] <= level and not self.nodes[j]["open"]]
            for d in range(r.randint(0, 2)):
                if below:
                    node["deps"].append((f"d{d}", r.choice(("key", "key", "maybe", "maybe", "all")), r.choice(below)))
            self.nodes[i] = node
            src.append(f"class K{i}{'(Generic[T])' if is_open else ''}: pass\n")
            sig, names = self.sig(node)
            which = f"({i}, t)" if is_open else str(i)
            src.append(self.body(which, node["form"], ("t: type[T]" + (", " + sig if sig else "")) if is_open else sig, names, str(i)))
            order.append(("register", i))
            if is_open:
                self.patterns.append(i)
            elif r.random() < 0.25:
                # a decorator over it: the provider moves to an inner node
                inner = {**node}
                self.nodes[("in", i)] = inner
                layer = {**node, "form": r.choice(("factory", "afactory") if has_async else ("factory",)), "maker": r.choice(list(MAKERS)), "deps": [("inner", "key", ("in", i))]}
                self.nodes[i] = layer
                src[-1] = self.body(f'("in", {i})', inner["form"], sig, names, str(i))
                src.append(self.body(str(i), layer["form"], f"inner: K{i}", ["inner"], f"d{i}"))
                order.append(("decorate", i))
        self.source = "\n".join(src)
        ns: dict[str, Any] = {"RUN": self.run, "__name__": "rv_values"}
        exec(compile(self.source, "<values>", "exec", dont_inherit=True), ns)  # noqa: S102
        self.ns = ns
        kw: dict[str, Any] = {}
        if r.random() < 0.5:
            kw["missing_policy"] = MissingPolicy.ERROR
        kw["lock_mode"] = r.choice(["auto", LockMode.NONE, LockMode.ASYNC, LockMode.THREAD])
        c = self.c = Container(use_resolver_context=r.random() < 0.5, resolver_context=ResolverContext(), **kw)
        r.shuffle(order)
        done: set[int] = set()
        for what, i in order:
            node = self.nodes[i]
            if what == "decorate":
                c.decorate(provides=ns[f"K{i}"], decorator=ns[f"fd{i}"])
                continue
            if i in done:
                continue
            base = self.nodes.get(("in", i), node)
            key = ns[f"K{i}"][ns["T"]] if node["open"] else ns[f"K{i}"]
            add = {"factory": c.add_factory, "afactory": c.add_factory, "gen": c.add_generator, "agen": c.add_generator, "fcm": c.add_context_manager, "afcm": c.add_context_manager}[base["form"]]
            add(ns[f"f{i}"], provides=key, lifetime=Lifetime.SCOPED if node["life"] == "S" else Lifetime.TRANSIENT, scope=Scope.APP if node["level"] == 1 else Scope.REQUEST)
            done.add(i)
        self.log.append(f"{kw} {[(i, x['life'], x['level'], x['form'], x['maker']) for i, x in self.nodes.items()]}")
        self.cache: dict[tuple, Any] = {}
        self.owned: dict[Any, list[Run]] = defaultdict(list)

    def sig(self, node: dict[str, Any]) -> tuple[str, list[str]]:
        parts, names = [], []
        for name, kind, j in node["deps"]:
            names.append(name)
            parts.append({"key": f"{name}: K{j}", "maybe": f"{name}: Maybe[K{j}] = 'the default'", "all": f"{name}: All[K{j}]"}[kind])
        parts.sort(key=lambda p: "=" in p)
        return ", ".join(parts), names

    def node(self, pid: Any) -> dict[str, Any]:
        return self.nodes[pid[0]] if isinstance(pid, tuple) and pid[0] != "in" else self.nodes[pid]

    def run(self, pid: Any, args: tuple) -> Run:
        run = Run(pid, args, MAKERS[self.node(pid)["maker"]]())
        self.runs.append(run)
        return run

    def needs_async(self, pid: Any) -> bool:
        node = self.node(pid)
        return node["form"] in ("afactory", "agen", "afcm") or any(self.needs_async(j) for _, _, j in node["deps"])

    # ------------------------------------------------------------------ the model
    def expect(self, pid: Any, scope: tuple, out: Counter, got: dict[Any, list[Run]]) -> None:
        node = self.node(pid)
        slot = (pid, scope[: 1 if node["level"] == 1 else 2])
        if node["life"] == "S":
            if slot in self.cache:
                return
            if len(got[pid]) != 1:
                self.case.fail(f"{self.log[-1]}: provider {pid} (scoped) ran {len(got[pid])} times, expected once")
            self.cache[slot] = got[pid][0].value
        out[pid] += 1
        for _, _, j in node["deps"]:
            self.expect(j, scope, out, got)

    def served(self, pid: Any, scope: tuple, x: Any, got: dict[Any, list[Run]], where: str) -> None:
        node = self.node(pid)
        if node["life"] == "S":
            want = self.cache.get((pid, scope[: 1 if node["level"] == 1 else 2]), self)
            if x is not want:
                self.case.fail(f"{self.log[-1]}: {where} got {x!r:.80}, expected the value of provider {pid}: {want!r:.80}")
        elif not any(x is q.value for q in got[pid]):
            self.case.fail(f"{self.log[-1]}: {where} got {x!r:.80}, which no run of provider {pid} returned")
        self.case.count("values_matched")

    def request(self, scope: tuple, obj: Any) -> None:
        r, ns = self.r, self.ns
        level = 1 if len(scope) == 1 else 3
        pool = [i for i in self.nodes if not (isinstance(i, tuple) and i[0] == "in") and self.nodes[i]["level"] <= level]
        if not pool:
            return
        i = r.choice(pool)
        pid: Any = i
        key = ns[f"K{i}"]
        if self.nodes[i]["open"]:
            arg = r.choice((int, str))
            pid, key = (i, arg), key[arg]
        is_async = self.needs_async(pid) or r.random() < 0.3
        form = r.choice(("key", "key", "maybe", "all", "handle")) if not self.nodes[i]["open"] else r.choice(("key", "maybe"))
        self.log.append(f"{form} {pid} {'a' if is_async else ''}resolve at {scope}")
        start = len(self.runs)
        asked = {"key": key, "maybe": Maybe[key], "all": All[key], "handle": AsyncProvider[key] if is_async else Provider[key]}[form]
        if form == "handle":
            handle = obj.resolve(asked)
            value = drive(handle()) if is_async else handle()
        else:
            value = drive(obj.aresolve(asked)) if is_async else obj.resolve(asked)
        new = self.runs[start:]
        got: dict[Any, list[Run]] = defaultdict(list)
        for q in new:
            got[q.pid].append(q)
        want: Counter = Counter()
        self.expect(pid, scope, want, got)
        have = Counter(q.pid for q in new)
        if have != want:
            self.case.fail(f"{self.log[-1]}: providers ran {dict(have)}, expected {dict(want)}")
        for q in new:
            node = self.node(q.pid)
            for (name, kind, j), x in zip(node["deps"], q.args, strict=True):
                if kind == "all":
                    if type(x) is not tuple or len(x) != 1:
                        self.case.fail(f"{self.log[-1]}: {name} of provider {q.pid} got {x!r:.80}, expected one value of provider {j}")
                    x = x[0]
                self.served(j, scope, x, got, f"{name} of provider {q.pid}")
            if node["form"] in ("gen", "agen", "fcm", "afcm"):
                # a transient without deeper needs is owned by the scope its registration names
                self.owned[scope[: 1 if node["level"] == 1 else 2]].append(q)
        if form == "all":
            if type(value) is not tuple or len(value) != 1:
                self.case.fail(f"{self.log[-1]}: All gave {value!r:.80}")
            value = value[0]
        self.served(pid, scope, value, got, "the caller")
        self.case.count("value_requests")
        self.case.count("value_runs", len(new))
        self.case.state(form, is_async, len(scope), *(self.node(q.pid)["maker"] for q in new))

    def close(self, scope: tuple, obj: Any) -> None:
        self.log.append(f"close {scope}")
        if scope == (0,):
            obj.compile()  # closing a container that never resolved anything needs it
        drive(obj.aclose())
        for q in self.owned.pop(scope, []):
            if q.released != 1:
                self.case.fail(f"{self.log[-1]}: the resource of provider {q.pid} was released {q.released} times")
            self.case.count("value_releases")
        for slot in [s for s in self.cache if s[1] == scope]:
            del self.cache[slot]
        for own in self.owned.values():
            for q in own:
                if q.released:
                    self.case.fail(f"{self.log[-1]}: the resource of provider {q.pid} was released with another scope")

    def go(self) -> None:
        r = self.r
        scopes: list[tuple[tuple, Any]] = [((0,), self.c)]
        serial = 0
        for _ in range(r.randint(6, 24)):
            x = r.random()
            if x < 0.15 and len(scopes) < 4:
                serial += 1
                scopes.append(((0, serial), self.c.enter_scope(Scope.REQUEST)))
                self.log.append(f"enter {scopes[-1][0]}")
            elif x < 0.25 and len(scopes) > 1:
                self.close(*scopes.pop(r.randrange(1, len(scopes))))
            else:
                self.request(*r.choice(scopes))
        while scopes:
            self.close(*scopes.pop())


def values_case(case: Case) -> None:
    v = Values(case)
    v.go()
    case.nontrivial = case.counts["value_runs"] >= 2
    case.signature = f"{hash((v.source, tuple(v.log))) & 0xFFFFFFFFFFFF:x}"
    if case.index < 2:
        case.sample = {"source": v.source, "log": v.log}



