"""Probes of recorded defects: each returns what fails, or None when the property holds."""
from __future__ import annotations

import abc
from typing import Any, Generic, TypeVar

from diwire import All, Container, FromContext, Lifetime, Maybe, MissingPolicy, Scope
from diwire.exceptions import DIWireDependencyNotRegisteredError, DIWireScopeMismatchError

T = TypeVar("T")


class Port(abc.ABC):
    @abc.abstractmethod
    def rv(self) -> None: ...


class Other(abc.ABC):
    @abc.abstractmethod
    def rv(self) -> None: ...


class Plain:
    pass


class Late:
    pass


class Later:
    pass


class NeedsPort:
    def __init__(self, port: Port) -> None:
        self.port = port


class Box(Generic[T]):
    pass


class Foo(Generic[T]):
    pass


def star_after_omitted() -> str | None:
    """A variadic parameter after an optional one whose key is missing."""
    c = Container(missing_policy=MissingPolicy.ERROR)
    x = object()
    c.add_factory(lambda: x, provides=Plain)

    def make(first: Maybe[Port] = "default", *rest: All[Plain]) -> Any:  # type: ignore[assignment,valid-type]
        return first, rest

    make.__annotations__ = {"first": Maybe[Port], "rest": All[Plain]}
    c.add_factory(make, provides=Other)
    got = c.resolve(Other)
    if got == ("default", (x,)):
        return None
    return "an omitted optional positional parameter makes the values of a following variadic parameter shift into its place"


def failed_request_poisons() -> str | None:
    c = Container()
    c.add_factory(Plain, provides=Plain)
    c.resolve(Plain)
    try:
        c.resolve(NeedsPort)
    except DIWireDependencyNotRegisteredError:
        pass
    else:
        raise AssertionError("an abstract dependency was served")
    try:
        c.resolve(Plain)
    except DIWireDependencyNotRegisteredError:
        return "a failed auto-registered request stays registered and makes requests for other keys fail"
    return None


def second_in_bound_scope() -> str | None:
    c = Container()
    with c.enter_scope(Scope.REQUEST):
        c.resolve(Late)
        try:
            c.resolve(Late)
        except DIWireDependencyNotRegisteredError:
            return "inside a bound scope an unregistered class resolves once and is reported missing the second time"
    return None


def registration_replaces_root_values() -> str | None:
    c = Container()
    c.add(Plain, lifetime=Lifetime.SCOPED)
    a = c.resolve(Plain)
    c.resolve(Later)  # registers by itself
    return None if c.resolve(Plain) is a else "auto-registering a class while resolving drops the container-wide instances built so far"


def registration_drops_root_cleanup() -> str | None:
    c = Container()
    log = []

    def make() -> Any:
        yield 1
        log.append("released")

    c.add_generator(make, provides=Port, lifetime=Lifetime.SCOPED)
    c.resolve(Port)
    c.resolve(Later)
    c.close()
    return None if log else "resources owned by the container are never released once a later request auto-registered a class"


def optional_swallows_missing() -> str | None:
    c = Container()

    def make() -> Any:
        raise DIWireDependencyNotRegisteredError("raised by the provider itself")

    c.add_factory(make, provides=Port)
    try:
        v = c.resolve(Maybe[Port])
    except DIWireDependencyNotRegisteredError:
        return None
    return f"an optional request for a registered key returns {v!r} when its provider raises the not-registered error"


def strict_compiled_on_missing() -> str | None:
    c = Container(missing_policy=MissingPolicy.ERROR, use_resolver_context=False)
    c.add(Plain)
    c.resolve(Plain, on_missing=MissingPolicy.ERROR)
    c.compile()
    try:
        c.resolve(Plain, on_missing=MissingPolicy.ERROR)
    except TypeError:
        return "after compile() a strict container without resolver contexts rejects the on_missing argument"
    return None


def open_missing_late() -> str | None:
    c = Container(missing_policy=MissingPolicy.ERROR)
    log = []

    def plain() -> Any:
        log.append(1)
        return Plain()

    def make(a: Plain, b: Foo[T]) -> Any:  # type: ignore[valid-type]
        return a, b

    make.__annotations__ = {"a": Plain, "b": Foo[T], "return": Box[T]}
    c.add_factory(plain, provides=Plain)
    c.add_factory(make, provides=Box[T])
    try:
        c.resolve(Box[int])
    except DIWireDependencyNotRegisteredError:
        pass
    else:
        raise AssertionError("a missing dependency of an open registration was served")
    return "the missing dependency of an open-generic registration is reported after its other dependencies were built" if log else None


def context_default_factory() -> str | None:
    """An optional context field whose default is made by a msgspec (or pydantic) factory."""
    import msgspec

    class Settings(msgspec.Struct):
        value: Maybe[FromContext[Plain]] = msgspec.field(default_factory=dict)

    c = Container()
    c.add(Settings)
    got = c.resolve(Settings).value
    return None if got == {} else f"an optional context field of a msgspec struct gets the library's own marker {got!r} instead of what its default factory makes"


def transient_open_deeper() -> str | None:
    """A transient open registration of the root whose dependency lives in an open deeper scope."""

    class Repo(Generic[T]):
        def __init__(self, session: Plain) -> None:
            self.session = session

    class Service:
        def __init__(self, session: Plain) -> None:
            self.session = session

    c = Container(missing_policy=MissingPolicy.ERROR)
    c.add(Plain, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    c.add(Service, lifetime=Lifetime.TRANSIENT)
    c.add(Repo, provides=Repo, lifetime=Lifetime.TRANSIENT)
    with c.enter_scope(Scope.REQUEST) as scope:
        session = scope.resolve(Plain)
        if scope.resolve(Service).session is not session:
            raise AssertionError("a transient of the root did not get the session of the open request")
        try:
            repo = scope.resolve(Repo[int])
        except DIWireScopeMismatchError:
            return "a transient open-generic registration of the root cannot depend on a value of the open request scope, an ordinary one can"
        if repo.session is not session:
            raise AssertionError("an open-generic transient of the root did not get the session of the open request")
    return None
