"""Registration calls that must be rejected, of every kind the public API documents.

Each call targets keys of a running world; its own providers fail the run if they are ever used.
"""
from __future__ import annotations

import abc
import inspect
import typing
from typing import Any

from diwire import (
    All,
    Component,
    Container,
    DependencyRegistrationPolicy,
    Injected,
    Lifetime,
    LockMode,
    Maybe,
    MissingPolicy,
    Provider,
    Scope,
)
from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireError

from .harness import Violation
from .world import World

BASE = ("add", "factory", "generator", "cm", "instance", "decorate")


class Rejector:
    """Makes rejected calls against a world's container and remembers what they tried to add."""

    def __init__(self, case: Any, world: World, container: Container, log: Any) -> None:
        self.case, self.w, self.c, self.log, self.r = case, world, container, log, case.rng
        self.news: list[type] = []
        self.contracts: list[tuple[set[int], int]] = []
        self.serial = 0
        self.settled = True  # whether the model's registrations are all in effect

    # ------------------------------------------------------------------ ingredients
    def new_class(self, **annotations: Any) -> type:
        """An ordinary class, eligible for automatic registration, which nobody may ever build."""
        self.serial += 1
        name = f"N{self.serial}"
        ns: dict[str, Any] = {}
        params = "".join(f", {p}" for p in annotations)
        exec(f"class {name}:\n    def __init__(self{params}):\n        raise AssertionError('a class of a rejected call was constructed')\n", ns)  # noqa: S102
        cls = ns[name]
        cls.__init__.__annotations__ = dict(annotations)
        cls.__module__ = "rv_rejected"
        self.news.append(cls)
        return cls

    def function(self, ret: Any = None, kind: str = "def", is_async: bool = False, **annotations: Any) -> Any:
        ns: dict[str, Any] = {}
        body = "    raise AssertionError('the provider of a rejected call ran')\n"
        if kind == "gen":
            body += "    yield\n"
        exec(f"{'async ' if is_async else ''}def rejected({', '.join(annotations)}):\n{body}", ns)  # noqa: S102
        f = ns["rejected"]
        f.__annotations__ = {k: v for k, v in annotations.items() if v is not inspect.Parameter.empty}
        if ret is not None:
            f.__annotations__["return"] = ret
        return f

    def pool(self) -> list[Any]:
        return [n for n in self.w.nodes if not n.hidden and n.error is None]

    @staticmethod
    def need(n: Any) -> int:
        return n.level if n.open else n.need

    def some_key(self) -> Any:
        """Usually a registered key (which must survive), sometimes one nobody registered."""
        r, w = self.r, self.w
        if r.random() < 0.75:
            return w.key(r.choice(self.pool()).pid)
        return self.new_class()

    def call(self, base: str, key: Any, provider: Any = None, **kw: Any) -> Any:
        c = self.c
        if base == "add":
            return lambda: c.add(provider or self.new_class(), provides=key, **kw)
        if base == "factory":
            return lambda: c.add_factory(provider or self.function(), provides=key, **kw)
        if base == "generator":
            return lambda: c.add_generator(provider or self.function(kind="gen"), provides=key, **kw)
        if base == "cm":
            return lambda: c.add_context_manager(provider or self.new_cm(), provides=key, **kw)
        if base == "instance":
            return lambda: c.add_instance(object(), provides=key, **kw)
        return lambda: c.decorate(provides=key, decorator=provider or self.function(inner=key), **kw)

    def new_cm(self) -> type:
        cls = self.new_class()
        cls.__enter__ = lambda self: self  # type: ignore[attr-defined]
        cls.__exit__ = lambda self, *a: None  # type: ignore[attr-defined]
        return cls

    # ------------------------------------------------------------------ kinds of rejected calls
    def k_scope(self) -> Any:
        return self.call(self.r.choice(("add", "factory", "generator", "cm")), self.some_key(), scope=self.r.choice(("x", 3, None, Lifetime.SCOPED)))

    def k_lifetime(self) -> Any:
        return self.call(self.r.choice(("add", "factory", "generator", "cm")), self.some_key(), lifetime=self.r.choice(("scoped", 1, None, Scope.APP)))

    def k_policy(self) -> Any:
        return self.call(self.r.choice(("add", "factory", "generator", "cm")), self.some_key(), dependency_registration_policy=self.r.choice(("x", 1, None, MissingPolicy.ERROR)))

    def k_component(self) -> Any:
        return self.call(self.r.choice(BASE), self.w.base_key(self.r.choice(self.pool()).base), component=self.r.choice(([], {}, {1})))

    def k_component_twice(self) -> Any:
        base = self.w.base_key(self.r.choice(self.pool()).base)
        return self.call(self.r.choice(BASE), typing.Annotated[base, Component("c1")], component=self.r.choice(("c1", "other", Component("c2"))))

    def k_none(self) -> Any:
        return self.call(self.r.choice(BASE), None, provider=self.function(inner=int) if self.r.random() < 0.3 else None)

    def k_dependencies(self) -> Any:
        key = self.some_key()
        p = inspect.Parameter("a", inspect.Parameter.POSITIONAL_OR_KEYWORD)
        bad = self.r.choice((3, "x", {self.new_class(): "a"}, {self.new_class(): p, int: 4}))
        return self.call(self.r.choice(("add", "factory", "generator", "cm")), key, dependencies=bad)

    def k_unknown_parameter(self) -> Any:
        p = inspect.Parameter("nowhere", inspect.Parameter.POSITIONAL_OR_KEYWORD)
        return self.call(self.r.choice(("factory", "generator")), self.some_key(), dependencies={self.new_class(): p})

    def k_uninferable(self) -> Any:
        """A required parameter without annotation, after one that could be registered automatically."""
        key = self.some_key()
        new = self.new_class()
        empty = inspect.Parameter.empty
        base = self.r.choice(("add", "factory", "generator"))
        if base == "add":
            cls = self.new_class(a=new, b=int)
            del cls.__init__.__annotations__["b"]
            return self.call("add", key, cls)
        return self.call(base, key, self.function(kind="gen" if base == "generator" else "def", a=new, b=empty))

    def k_no_return(self) -> Any:
        base = self.r.choice(("factory", "generator"))
        return self.call(base, "infer", self.function(kind="gen" if base == "generator" else "def", a=self.new_class()))

    def k_abstract(self) -> Any:
        class Abstract(abc.ABC):
            def __init__(self, a: Any) -> None: ...

            @abc.abstractmethod
            def f(self) -> None: ...

        Abstract.__init__.__annotations__ = {"a": self.new_class()}
        return self.call("add", self.r.choice((self.some_key(), "infer")), self.r.choice((Abstract, self.function(), 3)))

    def k_not_callable_decorator(self) -> Any:
        return self.call("decorate", self.some_key(), self.r.choice((3, "x", object())))

    def k_generator_decorator(self) -> Any:
        key = self.some_key()
        return self.call("decorate", key, self.function(kind="gen", is_async=self.r.random() < 0.4, inner=key, other=self.new_class()))

    def k_no_inner(self) -> Any:
        return self.call("decorate", self.some_key(), self.function(a=self.new_class(), b=Maybe[self.new_class()]))

    def k_two_inner(self) -> Any:
        key = self.some_key()
        return self.call("decorate", key, self.function(a=key, b=key, other=self.new_class()))

    def k_wrong_inner(self) -> Any:
        key = self.some_key()
        return self.call("decorate", key, self.function(a=key, other=self.new_class()), inner_parameter=self.r.choice(("b", "", "self", "aa")))

    def k_uninferable_decorator(self) -> Any:
        key = self.some_key()
        return self.call("decorate", key, self.function(a=key, b=inspect.Parameter.empty, other=self.new_class()))

    def k_inject_reserved(self) -> Any:
        name = self.r.choice(("diwire_resolver", "diwire_context"))
        f = self.function(a=Injected[self.new_class()], **{name: int})
        return lambda: self.w.ctx_obj.inject(f)

    def k_inject_arguments(self) -> Any:
        f = self.function(a=Injected[self.new_class()])
        x = self.r.random()
        if x < 0.4:
            return lambda: self.w.ctx_obj.inject(scope=self.r.choice(("x", 1, None)))(f)
        if x < 0.7:
            return lambda: self.w.ctx_obj.inject(dependency_registration_policy=self.r.choice(("x", 1, None)))(f)
        return lambda: self.w.ctx_obj.inject(self.r.choice((3, "other", None)))

    def k_inject_shallow(self) -> Any:
        """A wrapper pinned to a scope its dependencies cannot live in, after one that could be registered."""
        w, r = self.w, self.r
        deep = [n for n in self.pool() if not n.absent and self.need(n) > 1]
        if not deep or not self.settled:
            return None
        n = r.choice(deep)
        form = r.choice((lambda k: k, lambda k: Provider[k], lambda k: Maybe[k]))
        new = self.new_class(a=self.new_class())
        ann = {"a": Injected[new], "b": Injected[form(w.key(n.pid))]}
        if r.random() < 0.5:
            ann = dict(reversed(ann.items()))
        if r.random() < 0.4:
            # the deep need is reached only through the class to be registered
            ann = {"a": Injected[self.new_class(b=w.key(n.pid), a=new)]}
        f = self.function(is_async=r.random() < 0.3, **ann)
        level = r.choice([x for x in w.ladder if x < self.need(n)])
        kw: dict[str, Any] = {"scope": w.ladder[level]}
        if r.random() < 0.7 or list(ann) == ["a"]:
            kw["dependency_registration_policy"] = DependencyRegistrationPolicy.REGISTER_RECURSIVE
        return lambda: w.ctx_obj.inject(**kw)(f)

    def k_contract(self) -> Any:
        """Deepen a key below a wrapper that was pinned to a shallower scope earlier."""
        w, r = self.w, self.r
        if not self.contracts:
            return None
        pids, level = r.choice(self.contracts)
        deeper = [x for x in w.ladder if x > level]
        n = w.nodes[r.choice(sorted(pids))]
        if not deeper:
            return None
        kw: dict[str, Any] = {"scope": w.ladder[r.choice(deeper)], "lifetime": r.choice((Lifetime.SCOPED, Lifetime.TRANSIENT))}
        if r.random() < 0.6:
            kw["dependency_registration_policy"] = r.choice(list(DependencyRegistrationPolicy))
        base = r.choice(("add", "factory", "generator", "cm"))
        new = self.new_class(x=self.new_class())
        prov = self.new_class(a=new) if base == "add" else self.function(a=new) if base == "factory" else self.function(kind="gen", a=new) if base == "generator" else None
        return self.call(base, w.key(n.pid), prov, **kw)

    def k_contract_decorator(self) -> Any:
        """The same through a decorator that needs something deeper."""
        w, r = self.w, self.r
        if not self.contracts:
            return None
        pids, level = r.choice(self.contracts)
        deep = [n for n in self.pool() if not n.absent and n.level > level]
        if not deep:
            return None
        own = sorted(i for i in pids if not w.nodes[i].open)
        if not own:
            return None
        key = w.key(r.choice(own))
        return self.call("decorate", key, self.function(inner=key, new=self.new_class(), deep=w.key(r.choice(deep).pid)))

    def sign_contract(self) -> None:
        """Pin a wrapper to a scope its dependencies fit in; its later violation must be rejected."""
        w, r = self.w, self.r
        n = r.choice(self.pool())
        if n.absent or n.lifetime == "I":
            return
        need = self.reach(n.pid)[1]
        levels = [x for x in w.ladder if need <= x < max(w.rungs)]
        if not levels:
            return
        level = r.choice(levels)
        form = r.choice((lambda k: k, lambda k: Provider[k], lambda k: Maybe[k]))
        f = self.function(a=Injected[form(w.key(n.pid))])
        w.ctx_obj.inject(scope=w.ladder[level])(f)
        self.contracts.append((self.reach(n.pid)[0], level))
        self.log(f"  contract on {n.pid} at {level}")

    def reach(self, pid: int) -> tuple[set[int], int]:
        """Every registration a consumer of pid can touch, lazily or not, and the deepest level among them."""
        w = self.w
        seen: set[int] = set()
        todo = [pid]
        while todo:
            i = todo.pop()
            n = w.nodes[i]
            if i in seen or n.absent:
                continue
            seen.add(i)
            for p in n.params if not (n.alt or n.open) else ():
                t = p.dep[0]
                if w.wrapped(n, p):
                    continue  # the provider's own injection opens the scopes it needs
                if t in ("key", "meta", "provider", "aprovider") or (t == "maybe" and p.dep[1] is not None):
                    todo.append(p.dep[1])
                elif t == "all":
                    todo += w.all_slots(p.dep[1])
        return {i for i in seen if w.nodes[i].lifetime != "I" and not w.nodes[i].hidden}, max(w.nodes[i].level for i in seen)

    # ------------------------------------------------------------------ the operation
    def attempt(self) -> None:
        kinds = [k for k in dir(self) if k.startswith("k_")]
        name = self.r.choice(kinds)
        fn = getattr(self, name)()
        if fn is None:
            return
        mark = len(self.w.rt.log)
        try:
            fn()
        except DIWireError as e:
            self.log(f"  rejected {name}: {type(e).__name__}: {str(e)[:90]}")
        else:
            raise Violation(f"{name}: the invalid registration call returned normally")
        ran = [e for e in self.w.rt.log[mark:] if e[0] != "leak"]  # the collector may run at any time
        if ran:
            raise Violation(f"{name}: providers ran during a registration call: {ran}")
        self.case.count("rejected")
        self.case.count("rejected_" + name[2:])

    def probe(self) -> None:
        """Nothing a rejected call mentioned has become resolvable."""
        r, c = self.r, self.c
        if not self.news:
            return
        cls = r.choice(self.news[-8:])
        strict = self.w.config.get("missing_policy") is MissingPolicy.ERROR
        kw = {} if strict else {"on_missing": MissingPolicy.ERROR}
        request, expect = r.choice(((cls, None), (cls, None), (Maybe[cls], (None,)), (All[cls], ((),))))
        try:
            got = c.resolve(request, **kw)
        except DIWireDependencyNotRegisteredError:
            if expect is not None:
                raise Violation(f"{request} of a class only rejected calls mentioned raised") from None
        except AssertionError as e:
            raise Violation(f"{request}: {e}") from None
        else:
            if expect is None or got != expect[0]:
                raise Violation(f"{request} gave {got!r} although only rejected calls mentioned it")
        self.case.count("probes")


class OpenRejector(Rejector):
    """Invalid calls about open-generic keys as well."""

    def some_key(self) -> Any:
        if self.w.active and self.r.random() < 0.4:
            p = self.r.choice(self.w.active)
            return self.w.term_key(p.tmpl, p.comp)
        return super().some_key()

    def k_open_contract(self) -> Any:
        """Deepen the open registration behind a closed key that a wrapper takes in a shallower scope."""
        w, r = self.w, self.r
        found = [(pid, level) for pids, level in self.contracts for pid in pids if w.nodes[pid].open and pid in w.key_of]
        if not found:
            return None
        pid, level = r.choice(found)
        p, _ = w.serve(*w.key_of[pid])
        deeper = [x for x in w.ladder if x > level]
        kw: dict[str, Any] = {"scope": w.ladder[r.choice(deeper)], "lifetime": r.choice((Lifetime.SCOPED, Lifetime.TRANSIENT))}
        base = r.choice(("add", "factory", "generator", "cm"))
        self.case.count("open_contracts_tried")
        return self.call(base, w.term_key(p.tmpl, p.comp), **kw)
