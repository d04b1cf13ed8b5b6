"""Random dependency graphs as real Python source, and the runtime that records what they do.

A World is a registration graph (nodes, dependencies, forms, lifetimes, levels), the source text
of its providers, and the means to register it in a container.  Nothing here looks inside diwire.
"""
from __future__ import annotations

import abc
import asyncio
import contextlib
import dataclasses
import functools
import inspect
import itertools
import random
import re
import sys
import textwrap
import types
import typing
from dataclasses import dataclass, field
from typing import Any

import diwire
from diwire import (
    All,
    AsyncProvider,
    BaseScope,
    Component,
    Container,
    DependencyRegistrationPolicy,
    FromContext,
    Lifetime,
    LockMode,
    Maybe,
    MissingPolicy,
    Provider,
    ResolverContext,
    Scope,
)

BaseScopes = type(Scope).__mro__[1]

LEVELS = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}
SKIPPABLE = {2}
NEVER = object()
SCOPE_NAMES = ("request", "resolver", "self", "X", "context", "cleanup", "class_", "app", "Task", "step2", "level", "parent", "ß", "active", "cache")


def ladder(r: random.Random) -> tuple[dict[int, BaseScope], set[int], list[BaseScope]]:
    """A user-defined scope ladder: position -> scope from the root on, skippable positions, scopes above the root."""
    if r.random() < 0.35:  # the built-in one, rooted further in
        root = r.choice((1, 2, 3, 4, 5))
        return {i + 1: LEVELS[x] for i, x in enumerate(range(root, 6))}, {i + 1 for i, x in enumerate(range(root, 6)) if x in SKIPPABLE}, [LEVELS[x] for x in range(1, root)]
    above, n = r.choice((0, 0, 0, 1, 2)), r.choice((2, 3, 4, 5, 6, 7))
    level = r.choice((1, 0, 3, 10))
    names = r.sample(SCOPE_NAMES, above + n)
    members: list[tuple[str, int, bool]] = []
    for name in names:
        members.append((name, level, bool(members[above:]) and r.random() < 0.3))
        level += r.choice((1, 1, 1, 2, 7))
    declared = list(members)
    if r.random() < 0.5:
        r.shuffle(declared)
    src = "@dataclass(frozen=True)\nclass Rungs(BaseScopes):\n" + "".join(
        f"    {name}: BaseScope = field(default=BaseScope({lvl}{', skippable=True' if skip else ''}))\n" for name, lvl, skip in declared
    )
    ns: dict[str, Any] = {"dataclass": dataclass, "field": field, "BaseScopes": BaseScopes, "BaseScope": BaseScope, "__name__": "rungs"}
    exec(compile(src, "<ladder>", "exec", dont_inherit=True), ns)  # noqa: S102
    rungs = ns["Rungs"]()
    own = [getattr(rungs, name) for name, _, _ in members]
    return {i + 1: x for i, x in enumerate(own[above:])}, {i + 1 for i, x in enumerate(members[above:]) if x[2]}, own[:above]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class LookupBoom(KeyError):
    pass


FAULT_TYPES = (Boom, Boom, BaseBoom, LookupBoom, ValueError, TypeError, AttributeError, asyncio.CancelledError, KeyboardInterrupt)


@dataclass
class Param:
    name: str
    kind: str  # PO PK KO VP VK
    dep: tuple  # see World._ann
    ann: str | None = dataclasses.field(default=None, kw_only=True)  # source text instead of the one dep implies
    default: str | None = None  # source text
    default_value: Any = None


@dataclass
class Node:
    pid: int
    base: int  # key class index
    comp: str | None
    form: str
    lifetime: str  # S / T / I
    level: int
    params: list[Param]
    concrete_key: bool = False
    explicit: bool = False
    swallow: bool = False
    selfret: bool = False
    eager: list[tuple[str, bool]] = field(default_factory=list)
    lock: Any = None
    infer: bool = False
    frozen: bool = False
    alt: bool = False  # the parameterless second provider is registered instead
    style: str = "plain"  # how the provider function is written
    absent: bool = False  # not registered (yet)
    late: bool = False  # armed faults strike after the provider has begun, not as it begins
    prov: int = -1  # which provider source serves this node (its own, unless decorators were applied)
    hidden: bool = False  # the undecorated inside of another node
    orig: Any = None  # form and parameters of the first provider, while the alternative is registered
    target: int = -1  # decorators: the node decorated
    inner: str = ""  # decorators: the parameter receiving the inner value
    pass_inner: bool = False
    open: bool = False  # served by an open-generic registration: always runs in its owner scope
    error: Any = None  # requesting it must raise this
    poison: bool = False  # which registration serves it is not specified
    # derived
    need: int = 0
    req_async: bool = False

    def __post_init__(self) -> None:
        if self.prov < 0:
            self.prov = self.pid

    @property
    def cached(self) -> bool:
        return self.lifetime == "S"

    @property
    def is_async(self) -> bool:
        return self.form in ("afactory", "awfactory", "agen", "acm", "afcm")

    @property
    def resource(self) -> str | None:
        return {"gen": "sync", "cm": "sync", "fcm": "sync", "agen": "async", "acm": "async", "afcm": "async"}.get(self.form)


class Rec:
    """What one construction recorded: provider, unique number, arguments as received."""

    __slots__ = ("pid", "uid", "args", "value", "consumed", "extra", "__weakref__")

    def __init__(self, pid: int, uid: int, args: tuple, value: Any) -> None:
        self.pid, self.uid, self.args, self.value, self.consumed, self.extra = pid, uid, args, value, False, None

    def __repr__(self) -> str:
        return f"#{self.uid}:p{self.pid}"


class Runtime:
    """The providers' side of the event log.  Append-only; one list append per event."""

    def __init__(self, world: "World") -> None:
        self.world = world
        self.log: list[tuple] = []
        self.uids = itertools.count(1)
        self.current: Any = None  # concurrent workloads: returns the operation this event belongs to
        self.faults: dict[int, list[BaseException]] = {}
        self.rel_faults: dict[int, list[BaseException]] = {}
        self.rng = random.Random(world.rng.random())
        self.pauses = True
        self.pause_hook: Any = None
        self.sync_hook: Any = None
        self.recs: dict[int, Rec] = {}

    def begin(self, pid: int) -> None:
        pid = self.world.slot.get(pid, pid)
        self.log.append(("begin", pid, self.current and self.current()))
        if self.sync_hook is not None:
            self.sync_hook(pid)
        if not self.world.nodes[pid].late or self.world.nodes[pid].alt:
            self.strike(pid)

    def late(self, pid: int) -> None:
        """A second fault point: entering a context manager, or after a suspension."""
        pid = self.world.slot.get(pid, pid)
        if self.world.nodes[pid].late:
            self.strike(pid)

    def strike(self, pid: int) -> None:
        f = self.faults.get(pid)
        if f:
            e = f.pop(0)
            if not f:
                self.faults.pop(pid, None)
            self.log.append(("fault", pid, e, self.current and self.current()))
            raise e

    def _record(self, pid: int, args: tuple, value: Any) -> None:
        pid = self.world.slot.get(pid, pid)
        rec = Rec(pid, next(self.uids), args, value)
        if self.current is not None:
            rec.extra = self.current()
        self.recs[rec.uid] = rec
        try:
            object.__setattr__(value, "_rv", rec)
        except TypeError:  # a struct
            value.__dict__["_rv"] = rec
        self.log.append(("made", rec))

    def make(self, pid: int, cls: type, args: tuple) -> Any:
        value = cls()
        self._record(pid, args, value)
        return value

    def init(self, value: Any, pid: int, args: tuple) -> None:
        self._record(pid, args, value)

    @staticmethod
    def blank(cls: type) -> Any:
        return tuple.__new__(cls) if issubclass(cls, tuple) else object.__new__(cls)

    def acq(self, value: Any) -> None:
        self.log.append(("acq", value._rv))

    def rel(self, value: Any, exc: BaseException | None, pid: int = -1) -> None:
        if value is None:
            self.log.append(("stray", self.world.slot.get(pid, pid)))
            return
        rec = value._rv
        self.log.append(("rel", rec, exc, self.current and self.current()))
        f = self.rel_faults.get(rec.pid)
        if f:
            e = f.pop(0)
            if not f:
                self.rel_faults.pop(rec.pid, None)
            self.log.append(("relfault", rec, e))
            raise e

    def leak(self, value: Any) -> None:
        self.log.append(("leak", value._rv))

    @types.coroutine
    def pause(self, pid: int):  # noqa: ANN201
        """A suspension point: bare yields drive by hand and under asyncio alike."""
        if self.pause_hook is not None:
            yield from self.pause_hook(self.world.slot.get(pid, pid))
            return
        if self.pauses:
            for _ in range(self.rng.choice((0, 0, 1, 1, 2, 3))):
                yield None

    def awaitable(self, pid: int, cls: type, args: tuple) -> Any:
        async def run() -> Any:
            self.begin(pid)
            await self.pause(pid)
            return self.make(pid, cls, args)

        return run()


def _touched(name: str) -> Any:
    def method(self: Any, *args: Any) -> Any:
        raise AssertionError(f"{name} of {getattr(self, '_rv', type(self))} was used")

    return method


ODD_KEYS = (
    'typing.NewType("K#", object)', "list[X#]", "dict[str, list[X#]]", "tuple[X#, ...]", "type[X#]", "typing.Callable[[X#], X#]", "X# | int", "typing.Union[int, X#, str]",
    'typing.Literal["X#"]', "typing.Sequence[X#]", "typing.Mapping[str, X#]", 'enum.Enum("X#", "one")["one"]', "typing.Type[X#]", "typing.Iterator[X#]",
)

QUIRKS: dict[str, dict[str, Any]] = {
    "falsy": {"__bool__": lambda self: False},
    "empty": {"__len__": lambda self: 0},
    "boolless": {"__bool__": _touched("truth")},
    "equal": {"__eq__": lambda self, other: True, "__hash__": lambda self: 1},
    "incomparable": {"__eq__": _touched("equality"), "__hash__": object.__hash__},
    "unhashable": {"__hash__": None},
    "callable": {"__call__": _touched("call")},
    "awaitable": {"__await__": _touched("await")},
    "iterable": {"__iter__": _touched("iteration"), "__getitem__": _touched("item")},
    "manager": {n: _touched(n) for n in ("__enter__", "__exit__", "__aenter__", "__aexit__")},
    "closable": {n: _touched(n) for n in ("close", "aclose", "dispose")},
}

PROLOGUE = """
import abc, asyncio, contextlib, dataclasses, enum, functools, typing
import attrs, msgspec, pydantic
from typing import Annotated, Any, AsyncGenerator, Awaitable, Generator, Protocol
from diwire import All, AsyncProvider, Component, FromContext, Injected, Maybe, Provider
class Holder: pass
class Decoy:
    def __init__(self): raise AssertionError("a decoy was built")
"""


def styled(i: int, style: str, sig: Any, deco: str, a: str, ann: str, body: str, decoys: str = "") -> str:
    """Source of a provider p<i>: a function, a method of some kind, a callable object or a partial."""
    if style in ("plain", "inject", "partial"):
        tail = f"p{i} = functools.partial(p{i}, 0)\n" if style == "partial" else ""
        return f"{deco}{a}def p{i}({sig('_fixed' if tail else '')}){ann}:\n{body}{tail}"
    name = "__call__" if style == "callobj" else "build"
    first = {"static": "", "class": "cls"}.get(style, "self")
    kind = {"static": "@staticmethod\n", "class": "@classmethod\n"}.get(style, "")
    function = textwrap.indent(f"{kind}{deco}{a}def {name}({sig(first)}){ann}:\n{body}", "    ")
    value = {"method": f"F{i}().build", "callobj": f"F{i}()"}.get(style, f"F{i}.build")
    return f"class F{i}:\n{decoys}{function}p{i} = {value}\n"


class World:
    """A random acyclic graph.  `knobs` bias it towards what a property is about."""

    serial = 0
    extra_kw: dict[str, Any] = {}  # further registration arguments

    def __init__(self, rng: random.Random, **knobs: Any) -> None:
        self.rng = rng
        self.emitting = 0  # keys below this one are defined already
        self.opaque: set[int] = set()
        self.odd: dict[int, str] = {}  # keys that are not classes, and the expression that makes an equal one
        self.k = {
            "nodes": (3, 11),
            "async": 0.35,
            "async_p": 0.5,
            "resources": 0.3,
            "handles": 0.12,
            "ctx": 0.12,
            "all": 0.1,
            "maybe": 0.15,
            "models": 0.3,
            "odd_keys": 0.12,
            "bad_level": 0.06,
            "transient": 0.4,
            "comp": 0.3,
            "unbound": 0.3,
            "levels": None,
            "eager": 0.15,
            "wrappers": 0.12,
            "open_wrapper": 0.25,
            "strict": 0.7,
            "locks": 0.08,
            "agen": True,
            "deco": 0.0,
            "ladder": 0.0,
            "concrete": 0.4,
            "optional_handle": 0.15,
            "quirks": 0.4,
        }
        self.k.update(knobs)
        World.serial += 1
        self.modname = f"rvworld_{World.serial}"
        self.missing = 2  # unregistered key classes M0, M1
        self.ctx_keys = ["C0", "C1", "C2", "C3"]
        self.nodes: list[Node] = []
        self.decos: list[Node] = []  # decorators, in the order they are applied
        self.applied: list[Node] = []
        self.chain: dict[int, list[int]] = {}  # decorated node -> its inner nodes, the base first
        self.slot: dict[int, int] = {}  # provider -> node, where decorators moved it
        self.ladder, self.skippable, self.above = LEVELS, SKIPPABLE, []
        self.own_ladder = rng.random() < self.k["ladder"]
        if self.own_ladder:
            self.ladder, self.skippable, self.above = ladder(rng)
        self.rungs = sorted(self.ladder)
        self._gen()
        self._derive()
        self._gen_decos()
        self.rt = Runtime(self)
        self.open_wrapper = False
        self._build()

    # ------------------------------------------------------------------ generation
    def _gen(self) -> None:
        r, k = self.rng, self.k
        levels = k["levels"] or r.choice(([1], [1, 3], [1, 3], [1, 3, 4], [1, 2, 3], [1, 2, 3, 4, 5], [3], [1, 5], [1, 3, 5], [2, 4], [1, 4, 5]))
        if self.own_ladder:
            levels = sorted(r.sample(self.rungs, r.randint(1, len(self.rungs))))
        self.levels = levels
        self.has_async = r.random() < k["async"]
        self.default_level = r.choice([1, 1, 1, max(levels)])
        self.default_lifetime = r.choice("SST")
        n = r.randint(*k["nodes"])
        for pid in range(n):
            base = pid
            comp = None
            if pid and r.random() < k["comp"]:
                # share the key class of an earlier node under another component
                other = r.choice(self.nodes)
                if not other.concrete_key:
                    base = other.base
                    used = {m.comp for m in self.nodes if m.base == base}
                    comp = next(c for c in map("c{}".format, range(1, 99)) if c not in used)
            elif r.random() < 0.1:
                comp = "solo"
            form = self._form()
            lifetime = "I" if form == "instance" else ("T" if r.random() < k["transient"] else "S")
            level = 1 if form == "instance" else r.choice(levels)
            node = Node(pid, base, comp, form, lifetime, level, [])
            if form in ("cls", "dataclass", "newcls") and comp is None and r.random() < k["concrete"]:
                node.concrete_key = True
            if form == "instance":
                self.nodes.append(node)
                node.need = 1
                continue
            self._params(node)
            node.swallow = r.random() < 0.15
            node.selfret = form in ("cm", "acm") and r.random() < 0.3
            node.infer = r.random() < 0.5
            node.frozen = r.random() < 0.2
            node.late = form in ("cm", "acm", "afactory", "agen", "afcm") and r.random() < 0.5
            node.style = self._style(form)
            if r.random() < k["locks"]:
                node.lock = r.choice([LockMode.THREAD, LockMode.NONE])
            self.nodes.append(node)
            node.need = max([node.level] + [self.nodes[d].need for d in self.graph_deps(node)])
        # handles may point anywhere, also forward: patch them in now
        for node in self.nodes:
            for p in node.params:
                if p.dep[0] in ("provider", "aprovider") and p.dep[1] is None:
                    plain = node.form in ("partial", "callobj")
                    targets = [m for m in self.nodes if m.level <= node.level and not (plain and m.concrete_key and m.pid > node.pid)]
                    p.dep = (p.dep[0], r.choice(targets).pid) if targets else ("maybe", None)
                if p.dep[0] in ("provider", "aprovider") and r.random() < k["optional_handle"]:
                    p.dep = (*p.dep[:2], "maybe")
        for node in self.nodes:
            node.explicit = node.form in ("factory", "gen", "cls") and r.random() < 0.08 and self._unique_annotations(node)
        # eager calls: only backwards, only targets that cannot reach the caller again
        for node in self.nodes:
            for p in node.params:
                if p.dep[0] in ("provider", "aprovider") and p.dep[1] < node.pid and r.random() < k["eager"]:
                    node.eager.append((p.name, p.dep[0] == "aprovider"))
        # injected functions as providers: what they ask for is resolved as by a handle called at once
        for node in self.nodes:
            if node.form not in ("factory", "afactory") or node.style != "plain" or node.explicit or r.random() >= k["wrappers"] or any(p.kind not in ("PK", "KO") or (p.dep[0] == "mctx" and p.default) for p in node.params):
                continue
            for p in node.params:
                own = p.dep[0] in ("provider", "aprovider") and any(name == p.name for name, _ in node.eager)
                if own or (p.dep[0] == "key" and self.nodes[p.dep[1]].level <= node.level and r.random() < 0.7):
                    p.dep = ("aprovider" if node.form == "afactory" else "provider", p.dep[1])
                    node.eager = [e for e in node.eager if e[0] != p.name] + [(p.name, node.form == "afactory")]
            if node.eager:
                node.style = "inject"
        self.order = list(range(n))
        r.shuffle(self.order)

    def _gen_decos(self) -> None:
        r, k = self.rng, self.k
        serial = 100
        keep = self.nodes
        for node in list(keep):
            if r.random() >= k["deco"]:
                continue
            for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
                forms = ["cls", "dataclass", "newcls", "factory", "method", "callobj", "partial", "static"]
                if self.has_async and r.random() < k["async_p"]:
                    forms = ["afactory", "afactory", "awfactory"]
                d = Node(serial, node.base, node.comp, r.choice(forms), self.default_lifetime if node.lifetime == "I" else node.lifetime, node.level, [])
                d.target = node.pid
                serial += 1
                if self._key_concrete(node.base) and d.form in ("dataclass", "newcls"):
                    d.form = "factory"
                d.infer, d.frozen, d.late = r.random() < 0.5, r.random() < 0.2, d.form == "afactory" and r.random() < 0.5
                d.style = self._style(d.form)
                self.nodes = keep[: node.pid]
                self._params(d)
                self.nodes = keep
                for p in d.params:
                    if p.dep[0] in ("provider", "aprovider") and p.dep[1] is None:
                        targets = [m.pid for m in keep if m.level <= node.level]
                        p.dep = (p.dep[0], r.choice(targets)) if targets else ("maybe", None)
                    if p.dep[0] == "all" and any(m.base == p.dep[1] and m.pid >= node.pid for m in keep):
                        p.dep = ("all", -1)
                self._insert_inner(d)
                self.decos.append(d)
        r.shuffle(self.decos)

    def _insert_inner(self, d: Node) -> None:
        """The parameter that receives the decorated value, somewhere legal in the signature."""
        r = self.rng
        kinds = sorted({p.kind for p in d.params if p.kind in ("PO", "PK", "KO")}) or ["PK"]
        kind = r.choice(kinds + ["PK"]) if d.form != "dataclass" else ("KO" if any(p.kind == "KO" for p in d.params) else "PK")
        same = [i for i, p in enumerate(d.params) if p.kind == kind]
        order = ("PO", "PK", "VP", "KO", "VK")
        first = next((i for i, p in enumerate(d.params) if order.index(p.kind) >= order.index(kind)), len(d.params))
        at = r.choice([first, *[i + 1 for i in same]])
        if kind == "PO":
            at = first  # after an omitted positional-only one it would be skipped too: a listed finding
        q = Param("inner", kind, ("key", d.target))
        if kind in ("PO", "PK") and any(p.default is not None and p.kind in ("PO", "PK") for p in d.params[:at]):
            q.default, q.default_value = f'("dflt", {d.pid}, "inner")', ("dflt", d.pid, "inner")
        d.params.insert(at, q)
        d.inner = "inner"
        key = self.key_src(d.target)
        clash = sum(1 for p in d.params if p.dep[0] != "none" and self._ann(p.dep) == key) > 1
        d.pass_inner = clash or r.random() < 0.5
        if d.pass_inner and r.random() < 0.6:
            q.ann = r.choice(("Any", "object", "int", f"Maybe[{key}]", f"Provider[{key}]", f"All[K{self.nodes[d.target].base}]", "MD", "FromContext[C0]"))

    def _key_concrete(self, base: int) -> bool:
        return any(m.base == base and m.concrete_key for m in self.nodes)

    def async_patterns(self) -> bool:
        return False

    @property
    def public(self) -> list[Node]:
        return [n for n in self.nodes if not n.hidden]

    def base_node(self, pid: int) -> Node:
        """The node holding what is registered for a key, below its decorators."""
        return self.nodes[self.chain[pid][0]] if pid in self.chain else self.nodes[pid]

    def sync(self, pid: int) -> None:
        """Decorators share the lifetime, level and lock of what they decorate."""
        b = self.base_node(pid)
        for q in [*self.chain.get(pid, ())[1:], pid]:
            if q != b.pid:
                n = self.nodes[q]
                n.lifetime, n.level, n.lock = (self.default_lifetime if b.lifetime == "I" else b.lifetime), b.level, b.lock
        for q in self.chain.get(pid, ()):
            self.nodes[q].absent = self.nodes[pid].absent

    def decoratable(self, d: Node) -> bool:
        """Whether applying the decorator keeps the graph acyclic and its handles usable."""
        t = self.nodes[d.target]
        for p in d.params:
            k = p.dep[0]
            if p.name == d.inner:
                continue
            if k in ("provider", "aprovider") and (self.nodes[p.dep[1]].level > t.level or self.nodes[p.dep[1]].absent):
                return False
            if k in ("key", "meta", "maybe") and p.dep[1] is not None and (self._reaches_eager(p.dep[1], t.pid, set()) or (k != "maybe" and self.nodes[p.dep[1]].absent)):
                return False
            if k == "all" and any(m.base == p.dep[1] and self._reaches_eager(m.pid, t.pid, set()) for m in self.public):
                return False
        return True

    def apply(self, d: Node) -> None:
        """The node's provider becomes the inner value of the decorator."""
        n = self.nodes[d.target]
        h = dataclasses.replace(n, pid=len(self.nodes), hidden=True)
        self.nodes.append(h)
        self.chain.setdefault(n.pid, []).append(h.pid)
        self.slot[h.prov] = h.pid
        if n.form == "instance":
            self.instances[h.pid] = self.instances[n.pid]
        self.slot[d.prov] = n.pid
        n.form, n.prov, n.infer, n.frozen, n.late, n.style = d.form, d.prov, d.infer, d.frozen, d.late, d.style
        n.params = [dataclasses.replace(p, dep=("key", h.pid) if p.name == d.inner else p.dep) for p in d.params]
        n.concrete_key = n.explicit = n.alt = n.swallow = n.selfret = False
        n.eager = []
        n.orig = None
        self.applied.append(d)
        self.sync(n.pid)
        self.settle()

    def settle(self) -> None:
        order = self._toposort()
        if order is None:
            raise AssertionError("harness: cyclic world")
        for pid in order:
            n = self.nodes[pid]
            deps = [self.nodes[d] for d in self.graph_deps(n)]
            n.need = max([n.level] + [d.need for d in deps])
            n.req_async = n.is_async or any(d.req_async for d in deps)

    def decorate(self, c: Container, d: Node) -> None:
        r = self.rng
        node = self.nodes[d.target]
        kw: dict[str, Any] = {"provides": self.key(d.target)}
        if node.comp and r.random() < 0.4:
            kw["provides"] = self.ns[f"K{node.base}"]
            kw["component"] = Component(node.comp) if r.random() < 0.5 else node.comp
        if d.pass_inner:
            kw["inner_parameter"] = d.inner
        p = self.ns[f"V{d.prov}" if d.form in ("cls", "dataclass", "newcls") else f"p{d.prov}"]
        c.decorate(decorator=functools.partial(p, 0) if d.form == "partial" else p, **kw)

    def _form(self) -> str:
        r, k = self.rng, self.k
        if r.random() < k["resources"]:
            forms = ["gen", "gen", "cm", "fcm"]
            if self.has_async and r.random() < k["async_p"]:
                forms = ["agen", "agen", "acm", "afcm"] if k["agen"] else ["acm"]
            return r.choice(forms)
        if self.has_async and r.random() < k["async_p"]:
            return r.choice(["afactory", "afactory", "afactory", "awfactory"])
        return r.choice(["instance", "cls", "cls", "cls", "dataclass", "dataclass", "factory", "factory", "method", "callobj", "partial", "newcls", "static"])

    def _style(self, form: str) -> str:
        """How a provider function is written; the plain sync factory has forms of its own."""
        r = self.rng
        if form not in ("afactory", "awfactory", "gen", "agen", "fcm", "afcm") or r.random() >= 0.35:
            return "plain"
        return r.choice(("method", "static", "class", "callobj", "partial"))

    def _params(self, node: Node) -> None:
        r, k = self.rng, self.k
        earlier = self.nodes
        count = r.choice((0, 1, 1, 2, 2, 3, 4)) if earlier else r.choice((0, 0, 1))
        kinds: list[str] = []
        dc = node.form == "dataclass"
        style = r.choice(("pk", "pk", "mixed", "mixed", "ko", "po"))
        for _ in range(count):
            if dc:
                kinds.append("PK" if style != "ko" else "KO")
            elif style == "mixed":
                kinds.append(r.choice(("PO", "PK", "KO")))
            else:
                kinds.append(style.upper())
        kinds.sort(key=("PO", "PK", "KO").index)
        params: list[Param] = []
        used_ctx_star = False
        for i, kind in enumerate(kinds):
            params.append(Param("abcdefgh"[i], kind, self._dep(node)))
        # stars
        if not dc and r.random() < 0.1:
            dep = self._star_dep(node)
            if dep is not None:
                params.append(Param("va", "VP", dep))
        if not dc and r.random() < 0.07:
            params.append(Param("vk", "VK", r.choice([("ctxmap",), ("mctxmap",)]) if r.random() < 0.5 else ("mctxmap",)))
        params.sort(key=lambda p: ("PO", "PK", "VP", "KO", "VK").index(p.kind))
        # defaults: legal placement, and meaningful ones
        has_vp = any(p.kind == "VP" for p in params)
        seen_default = False
        for p in params:
            if p.kind in ("VP", "VK"):
                continue
            want = r.random() < (0.5 if p.dep[0] in ("maybe", "mctx") else 0.12)
            if p.dep[0] in ("none", "dfac"):
                want = True
            if p.kind in ("PO", "PK") and seen_default:
                want = True
            if p.kind in ("PO", "PK") and want and has_vp:
                # a skipped positional before *args is a listed finding: keep it out
                if p.dep[0] in ("none", "maybe", "mctx"):
                    p.dep = ("key", r.choice(earlier).pid) if earlier else ("mctxmap0",)
                want = seen_default or r.random() < 0.2
            if p.kind == "PO" and p.dep[0] in ("none", "maybe") and want and any(q.kind == "PO" and q is not p and params.index(q) > params.index(p) for q in params):
                p.dep = ("key", r.choice(earlier).pid) if earlier else ("ctx", "C0")
            if p.dep[0] == "mctxmap0":
                p.dep = ("ctx", "C0")
            if want:
                if p.kind in ("PO", "PK"):
                    seen_default = True
                p.default = f'("dflt", {node.pid}, "{p.name}")'
                p.default_value = ("dflt", node.pid, p.name)
        if dc:
            for p in params:
                if p.dep[0] == "dfac" or (p.default is not None and p.dep[0] == "maybe" and r.random() < 0.4):
                    p.default = f'dataclasses.field(default_factory=lambda: ("fac", {node.pid}, "{p.name}"){", kw_only=True" if p.kind == "KO" else ""})'
                    p.default_value = ("fac", node.pid, p.name)
        node.params = params

    def _unique_annotations(self, node: Node) -> bool:
        anns = [self._ann(p.dep) for p in node.params if p.dep[0] != "none"]
        return len(set(anns)) == len(anns) and bool(anns) and not any(p.dep[0] == "none" for p in node.params)

    def _star_dep(self, node: Node) -> tuple | None:
        r = self.rng
        if self.nodes and r.random() < 0.7:
            return ("all", r.choice(self.nodes).base)
        return ("mctxtup",)

    def _dep(self, node: Node) -> tuple:
        r, k = self.rng, self.k
        x = r.random()
        if x < k["handles"]:
            return ("aprovider" if r.random() < 0.4 else "provider", None if r.random() < 0.3 or not self.nodes else self._pick(node, handle=True))
        x -= k["handles"]
        if x < k["ctx"]:
            return (r.choice(("ctx", "mctx")), r.choice(self.ctx_keys))
        x -= k["ctx"]
        if x < k["all"]:
            return ("all", r.choice(self.nodes).base if self.nodes and r.random() < 0.9 else -1)
        x -= k["all"]
        if x < k["maybe"]:
            if r.random() < 0.4 or not self.nodes:
                return ("maybe", None)
            return ("maybe", self._pick(node))
        x -= k["maybe"]
        if x < 0.05:
            return ("none",)
        if node.form == "dataclass" and x < 0.1:
            return ("dfac",)
        if not self.nodes:
            return ("maybe", None)
        if x < 0.13:
            return ("meta", self._pick(node))
        return ("key", self._pick(node))

    def _pick(self, node: Node, *, handle: bool = False) -> int | None:
        r = self.rng
        pool = self.nodes
        if handle:
            pool = [m for m in pool if m.level <= node.level]
            if not pool:
                return None
        elif r.random() > self.k["bad_level"]:
            cap = node.level if node.lifetime == "S" else 9
            good = [m for m in pool if m.need <= cap]
            pool = good or pool
        if r.random() < 0.5:
            pool = pool[-3:]
        return r.choice(pool).pid

    def graph_deps(self, node: Node) -> list[int]:
        out: list[int] = []
        for p in node.params:
            t = p.dep[0]
            if t in ("key", "meta") or (t == "maybe" and p.dep[1] is not None and not self.nodes[p.dep[1]].absent):
                out.append(p.dep[1])
            elif t == "all":
                out.extend(m.pid for m in self.nodes if m.base == p.dep[1] and not m.absent and not m.hidden)
        return out

    def _derive(self) -> None:
        # All[...] may also collect nodes generated later: break such cycles by dropping them
        changed = True
        while changed:
            changed = False
            order = self._toposort()
            if order is None:
                for node in self.nodes:
                    for p in list(node.params):
                        if p.dep[0] == "all" and p.dep[1] >= 0 and self._reaches_all(node, p.dep[1]):
                            p.dep = ("all", -1)
                            changed = True
                            break
                    if changed:
                        break
        for pid in self._toposort() or []:
            node = self.nodes[pid]
            deps = [self.nodes[d] for d in self.graph_deps(node)]
            node.need = max([node.level] + [d.need for d in deps])
            node.req_async = node.is_async or any(d.req_async for d in deps)
        for node in self.nodes:
            # an eagerly called sync handle must not target something asynchronous or re-enter its caller
            keep = []
            for name, is_a in node.eager:
                target = next(p.dep[1] for p in node.params if p.name == name)
                if self._reaches_eager(target, node.pid, set()):
                    continue
                if is_a and not node.is_async:
                    continue
                if node.form == "awfactory":
                    continue
                keep.append((name, is_a))
            node.eager = keep
            node.explicit = node.explicit and self._unique_annotations(node)
        self.reg_order: list[int] = []

    def _reaches_eager(self, a: int, b: int, seen: set[int]) -> bool:
        if a == b:
            return True
        if a in seen:
            return False
        seen.add(a)
        node = self.nodes[a]
        nxt = list(self.graph_deps(node))
        for name, _ in node.eager:
            nxt.append(next(p.dep[1] for p in node.params if p.name == name))
        return any(self._reaches_eager(x, b, seen) for x in nxt)

    def _reaches_all(self, node: Node, base: int) -> bool:
        return any(m.base == base and not m.hidden and self._reach(m.pid, node.pid, set()) for m in self.nodes)

    def _reach(self, a: int, b: int, seen: set[int]) -> bool:
        if a == b:
            return True
        if a in seen:
            return False
        seen.add(a)
        return any(self._reach(x, b, seen) for x in self.graph_deps(self.nodes[a]))

    def _toposort(self) -> list[int] | None:
        mark: dict[int, int] = {}
        out: list[int] = []

        def visit(pid: int) -> bool:
            m = mark.get(pid)
            if m == 1:
                return False
            if m == 2:
                return True
            mark[pid] = 1
            for d in self.graph_deps(self.nodes[pid]):
                if not visit(d):
                    return False
            mark[pid] = 2
            out.append(pid)
            return True

        for node in self.nodes:
            if not visit(node.pid):
                return None
        return out

    # ------------------------------------------------------------------ source
    def key_src(self, pid: int) -> str:
        node = self.nodes[pid]
        k = self.odd.get(node.base)
        k = f"K{node.base}" if not k or "(" in k or self.rng.random() < 0.5 else k  # an equal key, made anew
        return f'Annotated[{k}, Component("{node.comp}")]' if node.comp else k

    def missing_src(self) -> str:
        """A key nothing is registered for: an unknown class or an unknown component of a known one."""
        known = [n.base for n in self.nodes if 0 <= n.base < self.emitting and n.base not in self.opaque]
        if known and self.rng.random() < 0.4:
            k = self.rng.choice(known)
            k = self.odd.get(k) or f"K{k}"
            return f'Annotated[{k}, Component("zz")]'
        return "M0"

    def decorated(self, pid: int) -> bool:
        return pid in self.chain

    def _ann(self, dep: tuple) -> str:
        t = dep[0]
        if t == "key":
            return self.key_src(dep[1])
        if t == "meta":
            k = self.key_src(dep[1])
            return k if k.startswith("Annotated") else f'Annotated[{k}, "meta"]'
        if t == "maybe":
            return f"Maybe[{self.missing_src() if dep[1] is None else self.key_src(dep[1])}]"
        if t == "all":
            return f"All[{'M1' if dep[1] < 0 else 'K%d' % dep[1]}]"
        if t in ("provider", "aprovider"):
            handle = f"{'Provider' if t == 'provider' else 'AsyncProvider'}[{self.key_src(dep[1])}]"
            return f"Maybe[{handle}]" if dep[2:] else handle
        if t == "ctx":
            return f"FromContext[{dep[1]}]"
        if t == "mctx":
            return f"Maybe[FromContext[{dep[1]}]]"
        if t == "mctxtup":
            return "Maybe[FromContext[CT]]"
        if t == "ctxmap":
            return "FromContext[CD]"
        if t == "mctxmap":
            return "Maybe[FromContext[CD]]"
        if t == "dfac":
            return "MD"
        raise AssertionError(dep)

    def _sig(self, node: Node, *, first: str = "") -> str:
        parts: list[str] = [first] if first else []
        emitted_star = False
        pos_only = [p for p in node.params if p.kind == "PO"]
        for p in node.params:
            if p.kind == "KO" and not emitted_star and not any(q.kind == "VP" for q in node.params):
                parts.append("*")
                emitted_star = True
            star = {"VP": "*", "VK": "**"}.get(p.kind, "")
            ann = "" if p.dep[0] == "none" or node.explicit else f": {p.ann or self._ann(p.dep)}"
            if self.wrapped(node, p):
                ann = f": Injected[{self._ann(('key', p.dep[1]))}]"
            if self.string_ann and ann:
                ann = f": {ann[2:]!r}"
            dflt = f" = {p.default}" if p.default is not None else ""
            parts.append(f"{star}{p.name}{ann}{dflt}")
            if pos_only and p is pos_only[-1]:
                parts.append("/")
        return ", ".join(parts)

    def _decoys(self, node: Node) -> str:
        """Annotations of the same names that are not the provider's parameters."""
        r = self.rng
        names = [p.name for p in node.params if p.dep[0] != "none"]
        if not names or r.random() >= 0.2:
            return ""
        out = "".join(f"    {n}: Decoy\n" for n in names if r.random() < 0.7)
        if node.form in ("cls", "newcls", "cm") and r.random() < 0.6:
            out += "    def __call__(self, " + ", ".join(f"{p.name}: Decoy" for p in node.params) + "): ...\n"
        return out

    @staticmethod
    def wrapped(node: Node, p: Param) -> bool:
        """Whether the parameter of an injected function used as a provider is an injected one."""
        return node.style == "inject" and any(name == p.name for name, _ in node.eager)

    def _args(self, node: Node, owner: str = "") -> str:
        items = []
        for p in node.params:
            items.append(f'("{"!" if self.wrapped(node, p) else ""}{p.name}", {owner}{p.name}), ')
        for name, is_a in node.eager if node.style != "inject" else ():
            call = f"{owner}{name}()"
            items.append(f'("!{name}", {"await " + call if is_a else call}), ')
        return "(" + "".join(items) + ")"

    def _build(self) -> None:
        r = self.rng
        self.string_ann = r.random() < 0.15
        self.opaque: set[int] = set()  # keys pydantic cannot make a schema for
        out = [PROLOGUE]
        for m in range(self.missing):
            out.append(f"class M{m}(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...\n")
        out.append("class MD(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...\n")
        for c in ("C0", "C1", "C2", "CT", "CD"):
            out.append(f"class {c}: pass\n")
        done: set[int] = set()
        for node in self.nodes:
            if node.base == node.pid and not node.concrete_key:
                out.append(self._key_class_src(node))
        # sometimes a context key is one that has a provider, too: the two never mix
        dual = [node.base for node in self.nodes if node.base == node.pid and not node.concrete_key]
        out.append(f"C3 = K{r.choice(dual)}\n" if dual and r.random() < 0.5 else "class C3: pass\n")
        for node in [*self.nodes, *self.decos]:
            self.emitting = node.pid if node.pid < len(self.nodes) else len(self.nodes)
            out.append(self._provider_src(node))
            if self.k.get("alts") and node.form != "instance" and node.target < 0:
                cls = f"K{node.pid}" if node.concrete_key else f"P{node.pid}" if node.form in ("cm", "acm") and node.selfret else f"V{node.pid}"
                out.append(f"def q{node.pid}():\n    RT.begin({node.pid})\n    v = RT.blank({cls})\n    RT._record({node.pid}, ((\"alt\", True),), v)\n    return v\n")
        self.emitting = len(self.nodes)
        self.source = "\n".join(out)
        mod = types.ModuleType(self.modname)
        sys.modules[self.modname] = mod
        ns = mod.__dict__
        ns["RT"] = self.rt
        # concrete keys may be referenced by earlier providers: define those classes first (dependency order is by index)
        exec(compile(self.source, f"<{self.modname}>", "exec", dont_inherit=True), ns)  # noqa: S102
        self.ns = ns
        self.quirks()
        self.instances: dict[int, Any] = {}
        for node in self.nodes:
            if node.form == "instance":
                v = ns[f"V{node.pid}"]()
                object.__setattr__(v, "_rv", Rec(node.pid, -node.pid - 1, (), v))
                self.instances[node.pid] = v

    def quirks(self) -> None:
        """Values the library must only pass around: falsy, equal to everything, unhashable, callable, awaitable, managers of their own."""
        r = self.rng
        if r.random() >= self.k["quirks"]:
            return
        seen = self.quirky = getattr(self, "quirky", {})
        for name, cls in list(self.ns.items()):
            if name in seen or not re.fullmatch(r"[VK]\d+", name) or not isinstance(cls, type) or cls.__module__ != self.modname or getattr(cls, "__abstractmethods__", None) or getattr(cls, "_is_protocol", False):
                continue
            seen[name] = picked = r.sample(sorted(QUIRKS), r.choice((0, 0, 1, 1, 2)))
            for q in picked:
                for attr, f in QUIRKS[q].items():
                    if attr not in cls.__dict__ or attr in ("__eq__", "__hash__"):
                        setattr(cls, attr, f)
            if picked:
                self.source += f"# {name}: {', '.join(picked)}\n"

    def close(self) -> None:
        sys.modules.pop(self.modname, None)

    def _key_class_src(self, node: Node) -> str:
        b = node.base
        if self.rng.random() < self.k["odd_keys"]:
            self.opaque.add(b)
            self.odd[b] = k = self.rng.choice(ODD_KEYS).replace("#", str(b))
            return f"class X{b}: pass\nK{b} = {k}\n"
        if self.rng.random() < 0.2:
            self.opaque.add(node.base)
            return f"class K{node.base}(Protocol):\n    def rv(self): ...\n"
        return f"class K{node.base}(abc.ABC):\n    @abc.abstractmethod\n    def rv(self): ...\n"

    def _value_base(self, node: Node) -> str:
        if node.base in self.odd:
            return "object"
        return f"K{node.base}" if node.target < 0 or not self._key_concrete(node.base) else "object"

    def _concrete_head(self, node: Node) -> str:
        return f"class K{node.pid}:"

    def _provider_src(self, node: Node) -> str:
        i, f = node.pid, node.form
        fwd = any(p.dep[0] in ("provider", "aprovider") and p.dep[1] >= i and self.nodes[p.dep[1]].concrete_key for p in node.params)
        base = self._value_base(node)
        src = []
        cls = f"V{i}"
        if f in ("cls", "dataclass", "newcls"):
            if node.concrete_key:
                cls, head = f"K{i}", self._concrete_head(node)
            else:
                head = f"class V{i}({base}):"
            if fwd and not self.string_ann:
                # forward reference to a concrete key class: quote this provider's annotations
                self.string_ann = True
                try:
                    return self._class_src(node, head, cls)
                finally:
                    self.string_ann = False
            return self._class_src(node, head, cls)
        if not (f in ("cm", "acm") and node.selfret):
            src.append(f"class V{i}({base}):\n    def rv(self): ...\n")
        restore = self.string_ann
        if fwd:
            self.string_ann = True
        try:
            src.append(self._function_src(node))
        finally:
            self.string_ann = restore
        return "\n".join(src)

    def _unfit(self, base: int) -> bool:
        """Whether pydantic cannot make a schema for a key: it looks into the fields of dataclasses, too."""
        return base in self.opaque or (0 <= base < len(self.nodes) and self.nodes[base].concrete_key)

    def _model(self, node: Node, head: str, cls: str) -> str | None:
        """The field-declaring class as an attrs class, a named tuple, a pydantic model or a msgspec struct, now and then."""
        r, i = self.rng, node.pid
        if r.random() >= self.k["models"] or self.string_ann or any(p.dep[0] == "dfac" for p in node.params) or head not in (f"class {cls}:", f"class {cls}(object):", f"class {cls}(K{node.base}):"):
            return None
        bare = "(K" not in head
        kinds = {p.kind for p in node.params}
        kind = r.choice(("attrs", "attrs", "tuple", "pydantic", "struct") if bare and len(kinds) < 2 else ("attrs",))
        if kind == "tuple" and ("KO" in kinds or any(p.default and "field(" in p.default for p in node.params)):
            kind = "attrs"
        if kind == "pydantic" and self.opaque and any(
            p.dep[-1] == "C3" or p.ann or p.dep[0] in ("provider", "aprovider") or (isinstance(p.dep[-1], int) and self._unfit(p.dep[1] if p.dep[0] == "all" else self.nodes[p.dep[1]].base)) for p in node.params
        ):
            kind = "attrs"
        if kind == "struct" and self.k.get("alts"):
            kind = "attrs"
        ko = "KO" in kinds
        base = "" if bare else f"(K{node.base})"
        frozen = "frozen=True" if node.frozen else ""
        fields = []
        for p in node.params:
            ann = p.ann or ("Maybe[M0]" if p.dep[0] == "none" else self._ann(p.dep))
            d = p.default
            factory = d is not None and "field(" in d
            if factory:
                d = f'lambda: ("fac", {i}, "{p.name}")'
            if kind == "attrs":
                d = "" if d is None and not (p.kind == "KO") else " = attrs.field(" + ", ".join([*([f"{'factory' if factory else 'default'}={d}"] if d is not None else []), *(["kw_only=True"] if p.kind == "KO" else [])]) + ")"
            elif kind == "struct":
                d = "" if d is None else f" = msgspec.field(default_factory={d})" if factory else f" = {d}"
            elif kind == "pydantic":
                d = "" if d is None else f" = pydantic.Field(default_factory={d})" if factory else f" = {d}"
            else:
                d = "" if d is None else f" = {d}"
            fields.append(f"    {p.name}: {ann}{d}\n")
        args = self._args(node, "self.")
        made = f"    RT.begin({i})\n    RT.init(self, {i}, {args})\n"
        inner = made.replace("    RT", "        RT")
        body = "".join(fields)
        if kind == "attrs":
            slots = r.random() < 0.5
            head = f"class {cls}{base or ('(Holder)' if slots else '')}:"
            return f"@attrs.define(eq=False, slots={slots}, {frozen or 'frozen=False'})\n{head}\n{body}    def __attrs_post_init__(self):\n{inner}    def rv(self): ...\n"
        if kind == "struct":
            return f"class {cls}(msgspec.Struct, dict=True, weakref=True, eq={r.random() < 0.5}, kw_only={ko}, {frozen or 'frozen=False'}):\n{body}    def __post_init__(self):\n{inner}    def rv(self): ...\n"
        if kind == "pydantic":  # what the fields accept is pydantic's affair
            return (
                f"class {cls}(pydantic.BaseModel):\n    model_config = pydantic.ConfigDict(arbitrary_types_allowed=True, {frozen or 'frozen=False'})\n{body}    def rv(self): ...\n"
                f"def _init(self, **data):\n    like = {cls}.model_construct(**data)\n"
                '    for n in ("__dict__", "__pydantic_fields_set__", "__pydantic_extra__", "__pydantic_private__"):\n        object.__setattr__(self, n, getattr(like, n))\n'
                f"{made}{cls}.__init__ = _init\n"
            )
        return (
            f"class T{i}(typing.NamedTuple):\n{body or '    pass' + chr(10)}"
            f"def _new(new):\n    @functools.wraps(new)\n    def run(*args, **kwargs):\n        self = new(*args, **kwargs)\n{inner}        return self\n    return run\n"
            f"T{i}.__new__ = _new(T{i}.__new__)\n"
            f"class {cls}(T{i}):\n    def rv(self): ...\n"
        )

    def _class_src(self, node: Node, head: str, cls: str) -> str:
        i, f = node.pid, node.form
        if f == "dataclass":
            text = self._model(node, head, cls)
            if text is not None:
                return text
            flags = []
            if node.frozen:
                flags.append("frozen=True")
            flags.append("eq=False")
            lines = [f"@dataclasses.dataclass({', '.join(flags)})", head]
            for p in node.params:
                ann = "Any" if p.dep[0] == "none" else p.ann or self._ann(p.dep)
                if p.dep[0] == "none":
                    ann = "Maybe[M0]"
                if self.string_ann:
                    ann = repr(ann)
                d = ""
                if p.default is not None:
                    d = f" = {p.default}" if "field(" in p.default else (f" = dataclasses.field(default={p.default}, kw_only=True)" if p.kind == "KO" else f" = {p.default}")
                elif p.kind == "KO":
                    d = " = dataclasses.field(kw_only=True)"
                lines.append(f"    {p.name}: {ann}{d}")
            lines.append("    def __post_init__(self):")
            lines.append(f"        RT.begin({i})")
            lines.append(f"        RT.init(self, {i}, {self._args(node, 'self.')})")
            lines.append("    def rv(self): ...")
            return "\n".join(lines) + "\n"
        if f == "newcls":
            return (
                f"{head}\n{self._decoys(node)}    def __new__({self._sig(node, first='cls')}):\n        RT.begin({i})\n        self = object.__new__(cls)\n"
                f"        RT.init(self, {i}, {self._args(node)})\n        return self\n    def rv(self): ...\n"
            )
        return (
            f"{head}\n{self._decoys(node)}    def __init__({self._sig(node, first='self')}):\n        RT.begin({i})\n        RT.init(self, {i}, {self._args(node)})\n"
            f"    def rv(self): ...\n"
        )

    def _function_src(self, node: Node) -> str:
        i, f = node.pid, node.form
        ret = self.key_src(i if node.target < 0 else node.target)
        infer = node.infer and not node.explicit
        if f == "instance":
            return ""
        if f in ("factory", "partial"):
            first = "_fixed" if f == "partial" else ""
            sig = self._sig(node, first=first)
            ann = f" -> {ret}" if infer and f == "factory" else ""
            return f"def p{i}({sig}){ann}:\n    RT.begin({i})\n    return RT.make({i}, V{i}, {self._args(node)})\n"
        if f == "static":
            kind = "classmethod" if node.frozen else "staticmethod"
            sig = self._sig(node, first="cls" if node.frozen else "")
            return f"class S{i}:\n    @{kind}\n    def build({sig}):\n        RT.begin({i})\n        return RT.make({i}, V{i}, {self._args(node)})\np{i} = S{i}.build\n"
        if f in ("method", "callobj"):
            name = "build" if f == "method" else "__call__"
            sig = self._sig(node, first="self")
            tail = f"p{i} = F{i}().build" if f == "method" else f"p{i} = F{i}()"
            return f"class F{i}:\n{self._decoys(node)}    def {name}({sig}):\n        RT.begin({i})\n        return RT.make({i}, V{i}, {self._args(node)})\n{tail}\n"
        if f == "afactory":
            ann = f" -> {ret}" if infer else ""
            return self._styled(node, "", "async ", ann, f"    RT.begin({i})\n    await RT.pause({i})\n    _args = {self._args(node)}\n    await RT.pause({i})\n    RT.late({i})\n    return RT.make({i}, V{i}, _args)\n")
        if f == "awfactory":
            return self._styled(node, "", "", f" -> Awaitable[{ret}]", f"    return RT.awaitable({i}, V{i}, {self._args(node)})\n")
        fin = "return" if node.swallow else "raise"
        if f in ("gen", "fcm"):
            ann = f" -> Generator[{ret}, None, None]" if infer and f == "gen" else ""
            return self._styled(
                node, "@contextlib.contextmanager\n" if f == "fcm" else "", "", ann,
                f"    RT.begin({i})\n    v = RT.make({i}, V{i}, {self._args(node)})\n    RT.acq(v)\n"
                f"    try:\n        yield v\n    except GeneratorExit:\n        RT.leak(v)\n        raise\n    except BaseException as e:\n        RT.rel(v, e)\n        {fin}\n    else:\n        RT.rel(v, None)\n",
            )
        if f in ("agen", "afcm"):
            ann = f" -> AsyncGenerator[{ret}, None]" if infer and f == "agen" else ""
            return self._styled(
                node, "@contextlib.asynccontextmanager\n" if f == "afcm" else "", "async ", ann,
                f"    RT.begin({i})\n    await RT.pause({i})\n    RT.late({i})\n    v = RT.make({i}, V{i}, {self._args(node)})\n    RT.acq(v)\n"
                f"    try:\n        yield v\n    except GeneratorExit:\n        RT.leak(v)\n        raise\n    except BaseException as e:\n        RT.rel(v, e)\n        await RT.pause({i})\n        {fin}\n    else:\n        RT.rel(v, None)\n        await RT.pause({i})\n",
            )
        if f == "cm":
            val = f"RT.init(self, {i}, self._a)\n        v = self" if node.selfret else f"v = RT.make({i}, V{i}, self._a)"
            base = f"(K{node.base})" if node.selfret and node.base not in self.odd else ""
            return (
                f"class P{i}{base}:\n{self._decoys(node)}    def __init__({self._sig(node, first='self')}):\n        RT.begin({i})\n        self._a = {self._args(node)}\n"
                f"    _v = None\n    def __enter__(self):\n        RT.late({i})\n        {val}\n        self._v = v\n        RT.acq(v)\n        return v\n"
                f"    def __exit__(self, t, e, tb):\n        RT.rel(self._v, e, {i})\n        return {node.swallow}\n    def rv(self): ...\n"
                f"p{i} = P{i}\n"
            )
        if f == "acm":
            val = f"RT.init(self, {i}, self._a)\n        v = self" if node.selfret else f"v = RT.make({i}, V{i}, self._a)"
            base = f"(K{node.base})" if node.selfret and node.base not in self.odd else ""
            plain = "(" + "".join(f'("{p.name}", {p.name}), ' for p in node.params) + ")"
            extra = "".join(f'        self._a += (("!{n}", {"await " if a else ""}dict(self._a)["{n}"]()),)\n' for n, a in node.eager)
            return (
                f"class P{i}{base}:\n{self._decoys(node)}    def __init__({self._sig(node, first='self')}):\n        RT.begin({i})\n        self._a = {plain}\n"
                f"    _v = None\n    async def __aenter__(self):\n        await RT.pause({i})\n        RT.late({i})\n{extra}        {val}\n        self._v = v\n        RT.acq(v)\n        return v\n"
                f"    async def __aexit__(self, t, e, tb):\n        RT.rel(self._v, e, {i})\n        await RT.pause({i})\n        return {node.swallow}\n    def rv(self): ...\n"
                f"p{i} = P{i}\n"
            )
        raise AssertionError(f)

    def _styled(self, node: Node, deco: str, a: str, ann: str, body: str) -> str:
        """A provider function as a function, a method of some kind, a callable object or a partial."""
        return styled(node.pid, node.style, lambda first: self._sig(node, first=first), deco, a, ann, body, self._decoys(node))

    # ------------------------------------------------------------------ registration
    def key(self, pid: int) -> Any:
        node = self.nodes[pid]
        k = self.ns[f"K{node.base}"]
        return typing.Annotated[k, Component(node.comp)] if node.comp else k

    def base_key(self, base: int) -> Any:
        return self.ns["M1"] if base < 0 else self.ns[f"K{base}"]

    def new_container(self, **over: Any) -> Container:
        r, k = self.rng, self.k
        kw: dict[str, Any] = {}
        if r.random() < k["strict"]:
            kw["missing_policy"] = MissingPolicy.ERROR
            kw["dependency_registration_policy"] = DependencyRegistrationPolicy.IGNORE
        kw["default_lifetime"] = Lifetime.SCOPED if self.default_lifetime == "S" else Lifetime.TRANSIENT
        kw["use_resolver_context"] = r.random() >= k["unbound"]
        kw["lock_mode"] = r.choice(["auto", "auto", "auto", LockMode.THREAD, LockMode.ASYNC, LockMode.NONE])
        kw["resolver_context"] = ResolverContext()
        if self.own_ladder:
            kw["root_scope"] = self.ladder[1]
        kw.update(over)
        self.config = {a: (b if not isinstance(b, ResolverContext) else "own") for a, b in kw.items()}
        self.ctx_obj = kw["resolver_context"]
        return Container(**kw)

    def register(self, c: Container, pid: int) -> None:
        """Register the provider of a node: with decorators applied, the innermost one."""
        r = self.rng
        node = self.base_node(pid)
        ns = self.ns
        kw: dict[str, Any] = {}
        if node.lifetime != "I":
            lt = Lifetime.SCOPED if node.lifetime == "S" else Lifetime.TRANSIENT
            if not (node.lifetime == self.default_lifetime and r.random() < 0.3):
                kw["lifetime"] = lt
            if not (node.level == 1 and r.random() < 0.3):
                kw["scope"] = self.ladder[node.level]
            if node.lock is not None:
                kw["lock_mode"] = node.lock
        key = self.key(pid)
        base = ns[f"K{node.base}"]
        if node.comp and r.random() < 0.4:
            kw["provides"] = base
            kw["component"] = Component(node.comp) if r.random() < 0.5 else node.comp
        else:
            kw["provides"] = key
        f = node.form
        if f == "instance":
            c.add_instance(self.instances[node.pid], **kw)
            return
        kw.update(self.extra_kw)
        if node.alt:
            c.add_factory(ns[f"q{node.prov}"], **kw)
            return
        if node.explicit:
            kw["dependencies"] = self._explicit(node)
        if f in ("cls", "dataclass", "newcls"):
            cls = ns[f"K{node.base}"] if node.concrete_key else ns[f"V{node.prov}"]
            if node.concrete_key and r.random() < 0.5:
                kw.pop("provides")
            c.add(cls, **kw)
            return
        p = ns[f"p{node.prov}"]
        if node.style == "inject":
            p = self.ctx_obj.inject(auto_open_scope=False, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)(p)
        if f == "partial":
            p = functools.partial(p, 0)
        infers = node.infer and not node.explicit and f in ("factory", "afactory", "gen", "agen") and node.style not in ("callobj", "partial")
        if infers and kw.get("component") is None and r.random() < 0.6:
            kw.pop("provides")
        if f in ("factory", "afactory", "awfactory", "method", "callobj", "partial", "static"):
            c.add_factory(p, **kw)
        elif f in ("gen", "agen"):
            c.add_generator(p, **kw)
        else:
            c.add_context_manager(p, **kw)

    def _explicit(self, node: Node) -> dict[Any, inspect.Parameter]:
        target: Any
        if node.form == "cls":
            cls = self.ns[f"K{node.base}"] if node.concrete_key else self.ns[f"V{node.prov}"]
            params = list(inspect.signature(cls).parameters.values())
        else:
            params = list(inspect.signature(self.ns[f"p{node.prov}"]).parameters.values())
        by = {p.name: p for p in params}
        out: dict[Any, inspect.Parameter] = {}
        items = list(node.params)
        if self.rng.random() < 0.3:
            self.rng.shuffle(items)
        for p in items:
            out[eval(p.ann or self._ann(p.dep), self.ns)] = by[p.name]  # noqa: S307
        return out

    def junk(self, c: Container, pid: int) -> None:
        """Register something else under the node's key; the real registration must replace it."""
        node = self.base_node(pid)
        if node.concrete_key:
            return

        def junk() -> Any:
            raise AssertionError(f"overridden provider of node {pid} ran")

        if self.rng.random() < 0.5:
            c.add_factory(junk, provides=self.key(pid), scope=self.ladder[self.rng.choice(self.rungs)])
        else:
            v = self.ns.get(f"V{node.prov}")
            if v is None or node.form in ("cls", "dataclass", "newcls"):
                c.add_factory(junk, provides=self.key(pid))
            else:
                c.add_instance(self.rt.blank(v), provides=self.key(pid))

    def try_decorate(self, c: Container, d: Node) -> bool:
        if not self.decoratable(d):
            return False
        self.apply(d)
        self.decorate(c, d)
        return True

    def populate(self, c: Container) -> None:
        r = self.rng
        self.reg_order = []
        todo = list(self.decos)
        for pid in self.order:
            while todo and r.random() < 0.15:
                self.try_decorate(c, todo.pop(0))
            if r.random() < 0.1:
                self.junk(c, r.choice([pid]))
            self.register(c, pid)
            self.reg_order.append(pid)
        for d in todo:
            self.try_decorate(c, d)
        for pid in list(self.order):
            if r.random() < 0.05:  # registering the same again replaces it and moves it last
                self.register(c, pid)
                self.reg_order.remove(pid)
                self.reg_order.append(pid)
        if r.random() < self.k["open_wrapper"]:
            T = typing.TypeVar("T")
            ns = {"typing": typing, "T": T}
            exec(compile("class UnrelatedBox(typing.Generic[T]):\n    pass\n", "<box>", "exec", dont_inherit=True), ns)  # noqa: S102
            c.add(ns["UnrelatedBox"], provides=ns["UnrelatedBox"][T])
            self.open_wrapper = True
        else:
            self.open_wrapper = False

    def all_slots(self, base: int) -> list[int]:
        return [pid for pid in self.reg_order if self.nodes[pid].base == base]

    def shape(self) -> str:
        return ";".join(
            f"{n.base}{'/' + n.comp if n.comp else ''}:{n.form}:{n.lifetime}{n.level}({','.join(p.kind + ':' + ':'.join(map(str, p.dep)) + ('=' if p.default else '') for p in n.params)})"
            for n in self.nodes
        )
