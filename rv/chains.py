"""Long histories of decorations and registrations of a few keys, accepted and rejected ones mixed.

The model of a key is its latest accepted provider and the decorators accepted so far; whatever was
rejected leaves no trace in it.  Rejections come early (malformed calls) and late (calls that would
break the pinned scope of an injected function, after the container has begun to apply them)."""
from __future__ import annotations

import asyncio
import inspect
from typing import Annotated, Any, Generic, TypeVar

from diwire import Component, Container, Injected, Lifetime, LockMode, Provider, ResolverContext, Scope
from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireError

from .harness import Case, Violation

T = TypeVar("T")
PLACES = ((Scope.APP, Lifetime.TRANSIENT), (Scope.SESSION, Lifetime.TRANSIENT), (Scope.SESSION, Lifetime.SCOPED), (Scope.APP, Lifetime.SCOPED))

ROOT = (Scope.APP, Lifetime.SCOPED)


class Value:
    def __init__(self, base: int, layers: tuple[int, ...] = (), inner: Any = None) -> None:
        self.base, self.layers, self.inner = base, layers, inner


class Key:
    def __init__(self, name: str, key: Any, requests: list[Any], is_open: bool) -> None:
        self.name, self.key, self.requests, self.open = name, key, requests, is_open
        self.base: int | None = None
        self.layers: list[int] = []
        self.place = PLACES[0]
        self.form = ""
        self.asyncs: set[int] = set()  # the numbers of asynchronous providers and decorators
        self.pinned: list[tuple[Any, bool, Any]] = []


class Chains:
    def __init__(self, case: Case) -> None:
        self.case, self.r = case, case.rng
        self.history: list[str] = []
        self.ran: list[int] = []
        self.count = 0
        self.loose: set[Any] = set()
        self.rc = ResolverContext()
        self.c = Container(resolver_context=self.rc, use_resolver_context=True, lock_mode=self.r.choice(("auto", LockMode.THREAD, LockMode.NONE)))
        case.describe = lambda: "\n".join(self.history)
        self.deep = type("Deep", (), {})
        self.extra = type("Extra", (), {})
        self.c.add(self.deep, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
        self.c.add(self.extra, lifetime=Lifetime.TRANSIENT)
        k = type("K", (), {})
        box = new_box()
        pool = [
            Key("K", k, [k], False),
            Key("K/x", Annotated[k, Component("x")], [Annotated[k, Component("x")]], False),
            Key("Box[T]", box[T], [box[int], box[str], box[list[int]]], True),
            Key("Box[T]/y", Annotated[box[T], Component("y")], [Annotated[box[int], Component("y")], Annotated[box[str], Component("y")]], True),
        ]
        self.keys = self.r.sample(pool, self.r.randint(1, 3))

    def log(self, text: str) -> None:
        self.history.append(text)

    # ------------------------------------------------------------------ providers
    def number(self) -> int:
        self.count += 1
        return self.count

    def function(self, key: Key, n: int, params: dict[str, Any], form: str, *, returns: bool = True) -> Any:
        """A provider (no 'inner') or decorator that records its run."""
        ran = self.ran

        def value(kw: dict[str, Any]) -> Value:
            ran.append(n)
            inner = kw.get("inner")
            if "inner" in kw and not isinstance(inner, Value):
                raise AssertionError(f"decorator {n} got {inner!r}")
            return Value(n) if inner is None else Value(inner.base, (*inner.layers, n), inner)

        if form == "class":
            def init(self: Any, **kw: Any) -> None:
                self.__dict__.update(value(kw).__dict__)

            init.__signature__ = signature(params, own=True)  # type: ignore[attr-defined]
            init.__annotations__ = {**params, "return": None}
            bases = (Value,)
            if key.open:
                return new_impl(init)
            return type(f"P{n}", bases, {"__init__": init})
        f: Any
        if form == "async":
            async def f(**kw: Any) -> Any:
                await asyncio.sleep(0)
                return value(kw)
        elif form == "gen":
            def f(**kw: Any) -> Any:
                v = value(kw)
                yield v
        else:
            def f(**kw: Any) -> Any:
                return value(kw)
        f.__signature__ = signature(params)
        f.__annotations__ = dict(params) if not returns else {**params, "return": key.key}
        f.__name__ = f.__qualname__ = f"p{n}"
        return f

    # ------------------------------------------------------------------ accepted calls
    def register(self, key: Key) -> None:
        r, n = self.r, self.number()
        form = r.choice(("class", "function", "function", "async", "gen"))
        params = {"extra": self.extra} if r.random() < 0.25 else {}
        place = r.choice(PLACES)
        p = self.function(key, n, params, form, returns=False)
        self.log(f"register {key.name}: {n} {form} {params and 'extra' or ''} {level(place[0])} {place[1].name}")
        kw: dict[str, Any] = {"provides": key.key, "scope": place[0], "lifetime": place[1]}
        if form == "class":
            self.c.add(p, **kw)
        elif form == "gen":
            self.c.add_generator(p, **kw)
        else:
            self.c.add_factory(p, **kw)
        key.base, key.place, key.form = n, place, form
        if form == "async":
            key.asyncs.add(n)

    def decorate(self, key: Key) -> None:
        r, n = self.r, self.number()
        form = r.choice(("class", "function", "function", "async"))
        params: dict[str, Any] = {"inner": key.key}
        if r.random() < 0.2:
            params = {"extra": Provider[self.extra], **params} if r.random() < 0.5 else {**params, "extra": Provider[self.extra]}
        named = r.random() < 0.3
        d = self.function(key, n, params, form)
        self.log(f"decorate {key.name}: {n} {form} {sorted(params)}{' named' if named else ''}")
        self.c.decorate(provides=key.key, decorator=d, **({"inner_parameter": "inner"} if named else {}))
        key.layers.append(n)
        if form == "async":
            key.asyncs.add(n)

    def pin(self, key: Key) -> None:
        """An injected function whose scope later calls must not outgrow."""
        if key.base is None:
            return
        request = self.r.choice(key.requests)
        async_needed = bool(key.asyncs & {key.base, *key.layers})

        if async_needed or self.r.random() < 0.3:
            async def run(a: Any) -> Any:
                return a
        else:
            def run(a: Any) -> Any:
                return a
        run.__annotations__ = {"a": Injected[request]}
        key.pinned.append((self.rc.inject(scope=Scope.SESSION)(run), inspect.iscoroutinefunction(run), request))
        self.log(f"pin {key.name} through {request}")

    # ------------------------------------------------------------------ rejected calls
    def rejected(self, key: Key) -> None:
        r, n = self.r, self.number()
        c = self.c
        kinds = ["gen", "none", "two", "name", "other"]
        if key.pinned and key.base is not None:
            kinds += ["deep_register"] * 6 + (["deep_decorate"] * 6 if not key.open else [])
        kind = r.choice(kinds)
        call: Any
        if kind == "gen":
            call = lambda: c.decorate(provides=key.key, decorator=self.function(key, n, {"inner": key.key}, "gen"))
        elif kind == "none":
            call = lambda: c.decorate(provides=key.key, decorator=self.function(key, n, {"a": self.extra, "b": self.deep}, "function"))
        elif kind == "two":
            call = lambda: c.decorate(provides=key.key, decorator=self.function(key, n, {"a": key.key, "b": key.key}, "function"))
        elif kind == "name":
            call = lambda: c.decorate(provides=key.key, decorator=self.function(key, n, {"inner": key.key}, "function"), inner_parameter="inward")
        elif kind == "other":
            call = lambda: c.decorate(provides=key.key, decorator=r.choice((3, "x", None)))
        elif kind == "deep_register":
            place = (Scope.REQUEST, r.choice((Lifetime.SCOPED, Lifetime.TRANSIENT))) if key.open or r.random() < 0.5 else key.place
            params = {} if place[0] is Scope.REQUEST and r.random() < 0.5 else {"deep": self.deep}
            form = r.choice(("class", "function", "async", "gen"))
            p = self.function(key, n, params, form, returns=False)
            how = c.add if form == "class" else c.add_generator if form == "gen" else c.add_factory
            call = lambda: how(p, provides=key.key, scope=place[0], lifetime=place[1])
        else:
            params = {"inner": key.key, "deep": self.deep}
            p = self.function(key, n, params, r.choice(("class", "function", "async")))
            call = lambda: c.decorate(provides=key.key, decorator=p)
        try:
            call()
        except DIWireError as e:
            self.log(f"rejected {kind} on {key.name}: {n}: {type(e).__name__}")
            self.case.count("rejected")
            self.case.count(f"rejected_{kind}")
        else:
            raise self.violation(f"{kind} on {key.name}: the invalid call returned normally")
        if self.ran:
            raise self.violation(f"{kind} on {key.name}: providers {self.ran} ran during a registration call")

    def violation(self, text: str) -> Exception:
        return Violation(text)

    # ------------------------------------------------------------------ requests
    def judge(self, key: Key, v: Any, fresh: bool, where: str) -> None:
        if not isinstance(v, Value):
            raise self.violation(f"{where}: {v!r} came out")
        expect = (key.base, tuple(key.layers))
        if (v.base, v.layers) != expect:
            raise self.violation(f"{where}: provider {v.base} under decorators {v.layers}, expected {expect[0]} under {expect[1]}")
        want = [key.base, *key.layers] if fresh else []
        if self.ran != want:
            raise self.violation(f"{where}: {self.ran} ran, expected {want}")
        self.ran.clear()
        self.case.count("matched")
        self.case.count("layers", len(v.layers))
        self.case.state(key.name, len(v.layers), key.place, fresh, key.form)

    async def get(self, s: Any, request: Any, is_async: bool) -> Any:
        return await s.aresolve(request) if is_async else s.resolve(request)

    async def request(self, key: Key, seen: dict[Any, Any]) -> None:
        r = self.r
        request = r.choice(key.requests)
        where = f"request {request}"
        is_async = bool(key.asyncs & {key.base, *key.layers}) or r.random() < 0.4
        self.log(f"{where}{' async' if is_async else ''}")
        if key.pinned and r.random() < 0.4 and key.base is not None:
            wrapped, co, request = r.choice(key.pinned)
            if co or not key.asyncs & {key.base, *key.layers}:
                v = await wrapped() if co else wrapped()
                fresh = key.place != ROOT or request not in seen or (request in self.loose and bool(self.ran))
                self.loose.discard(request)
                if not fresh and v is not seen[request]:
                    raise self.violation(f"injected call for {request}: another value although the root scope has one")
                seen[request] = v
                self.judge(key, v, fresh, f"injected call for {request}")
                return
        async with self.c.enter_scope(Scope.SESSION) as s:
            got: list[Any] = []
            for _ in range(r.randint(1, 3)):
                try:
                    v = await self.get(s, request, is_async)
                except DIWireDependencyNotRegisteredError:
                    if key.base is not None:
                        raise self.violation(f"{where}: reported as not registered") from None
                    self.case.count("missing")
                    if self.ran:
                        raise self.violation(f"{where}: {self.ran} ran for a key without provider") from None
                    return
                if key.base is None:
                    raise self.violation(f"{where}: a key without provider gave {v!r}")
                fresh = key.place[1] is Lifetime.TRANSIENT or (not got if key.place != ROOT else request not in seen or (request in self.loose and bool(self.ran)))
                self.loose.discard(request)
                known = [*got, *([seen[request]] if request in seen and key.place == ROOT else [])]
                if fresh == any(v is x for x in known):
                    raise self.violation(f"{where}: {'a value handed out before' if fresh else 'another value than before'}")
                seen[request] = v
                got.append(v)
                self.judge(key, v, fresh, where)

    def changed(self, key: Key, roots: dict[str, dict[Any, Any]]) -> None:
        """Root values of the key are gone; whether those of other keys are is not said."""
        roots[key.name].clear()
        for name, seen in roots.items():
            if name != key.name:
                self.loose.update(seen)
            else:
                self.loose.difference_update(key.requests)

    async def run(self) -> None:
        r = self.r
        roots: dict[str, dict[Any, Any]] = {k.name: {} for k in self.keys}
        for _ in range(r.randint(8, 30)):
            key = r.choice(self.keys)
            x = r.random()
            if x < 0.2:
                self.register(key)
                self.changed(key, roots)
            elif x < 0.38 and len(key.layers) < 5:
                self.decorate(key)
                self.changed(key, roots)
            elif x < 0.46:
                self.pin(key)
            elif x < 0.68:
                self.rejected(key)
            else:
                await self.request(key, roots[key.name])
        for key in self.keys:
            await self.request(key, roots[key.name])


def level(scope: Any) -> int:
    return scope.level


def signature(params: dict[str, Any], own: bool = False) -> inspect.Signature:
    P = inspect.Parameter
    head = [P("self", P.POSITIONAL_OR_KEYWORD)] if own else []
    return inspect.Signature([*head, *(P(n, P.KEYWORD_ONLY, annotation=a) for n, a in params.items())])


def new_box() -> Any:
    class Box(Generic[T]):
        pass

    return Box


def new_impl(init: Any) -> Any:
    class Impl(Value, Generic[T]):
        __init__ = init

    return Impl


def chain_case(case: Case) -> None:
    d = Chains(case)
    asyncio.run(d.run())
    case.signature = f"{hash(tuple(d.history)) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["matched"] >= 2 and case.counts["layers"] >= 1 and case.counts["rejected"] >= 1
    if case.index < 2:
        case.sample = {"history": d.history}
