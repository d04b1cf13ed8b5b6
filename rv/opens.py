"""Worlds with open-generic registrations, and an independent oracle of which one serves a closed key.

Closed keys are terms (atoms, builtin and user generics applied to terms).  Every closed key met is
a virtual node of the graph; the oracle decides from the registrations made so far which provider
serves it, with which type arguments and substituted dependencies.  Providers receive their type
arguments and use them to name the node they are building, so a wrong match, wrong arguments or a
wrong substitution shows up as a value of another node.
"""
from __future__ import annotations

import dataclasses
import re
import typing
from dataclasses import dataclass, field
from typing import Any

from diwire import Component, Container, Lifetime, LockMode
from diwire.exceptions import DIWireInvalidGenericTypeArgumentError

from .harness import Case
from .monitor import Driver, Expect
from .phases import PhaseDriver
from .world import Node, Param, World, styled

INVALID = DIWireInvalidGenericTypeArgumentError

PROLOGUE = """
from typing import Annotated, Generic, Literal, NewType, TypeVar, Callable
class A0: pass
NoneT = type(None)
class A1(A0): pass
class A2: pass
class H(Generic[TypeVar("_H")]): pass
T = TypeVar("T")
U = TypeVar("U")
B = TypeVar("B", bound=A0)
C = TypeVar("C", int, A0)
L = TypeVar("L", bound=list)
D = TypeVar("D", bound="A0")
E = TypeVar("E", bound=A2 | int)
F = TypeVar("F", A0, list)
N0 = NewType("N0", A1)
"""
ATOMS = ("int", "str", "bool", "A0", "A1", "A2", "NoneT", "A0", "int")
SPECIAL = {
    "int | str": ("int", "str"), "A0 | None": ("A0", "NoneT"), "A1 | A0": ("A1", "A0"), "A2 | bool": ("A2", "bool"),
    "Literal[1]": ("int",), "Annotated[A1, 'm']": ("A1",), "N0": ("A1",), "Callable[[int], str]": ("NoneT",), "Any": (),
}  # what each stands for when held against a bound
LIMITS = {"$B": ("A0",), "$C": ("int", "A0"), "$L": ("list",), "$D": ("A0",), "$E": ("A2", "int"), "$F": ("A0", "list")}
HEADS = {"int": int, "str": str, "bool": bool, "NoneT": type(None), "list": list, "dict": dict, "tuple": tuple}
UNSURE = object()
ORDER = ("PO", "PK", "VP", "KO", "VK")


def render(t: Any) -> str:
    if isinstance(t, str):
        return t.lstrip("$")
    return f"{t[0]}[{', '.join(map(render, t[1:]))}]"


def subst(t: Any, m: dict[str, Any]) -> Any:
    if isinstance(t, str):
        return m.get(t, t)
    return (t[0], *(subst(x, m) for x in t[1:]))


def tvars(t: Any) -> list[str]:
    if isinstance(t, str):
        return [t] if t[0] == "$" else []
    out: list[str] = []
    for x in t[1:]:
        out += [v for v in tvars(x) if v not in out]
    return out


def unify(pat: Any, term: Any, m: dict[str, Any]) -> bool:
    """One-way matching: the pattern's variables against the term, whose own variables are constants."""
    if isinstance(pat, str):
        if pat[0] == "$":
            if pat in m:
                return m[pat] == term
            m[pat] = term
            return True
        return pat == term
    if isinstance(term, str) or term[0] != pat[0] or len(term) != len(pat):
        return False
    return all(unify(p, x, m) for p, x in zip(pat[1:], term[1:]))


def linear(t: Any, n: list[int] | None = None) -> Any:
    """The term with every variable occurrence its own variable: repetition does not make it narrower."""
    n = n if n is not None else [0]
    if isinstance(t, str):
        if t[0] == "$":
            n[0] += 1
            return f"${n[0]}"
        return t
    return (t[0], *(linear(x, n) for x in t[1:]))


@dataclass
class Pattern:
    prov: int
    tmpl: Any
    comp: str | None
    form: str
    lifetime: str
    level: int
    targs: list[Param] = field(default_factory=list)  # dep = ("targ", "$T")
    params: list[Param] = field(default_factory=list)  # dep may be ("open", kind, term, comp)
    lock: Any = None
    infer: bool = False
    late: bool = False
    swallow: bool = False
    inner: str = ""
    pass_inner: bool = False
    inner_ann: str = ""
    closed: dict[str, Any] = field(default_factory=dict)  # an exact class that takes its type arguments

    style: str = "plain"
    strings: bool = False
    @property
    def exact(self) -> bool:
        return not tvars(self.tmpl)

    @property
    def slot(self) -> tuple:
        return (self.tmpl, self.comp)


class OpenWorld(World):
    def __init__(self, rng: Any, **knobs: Any) -> None:
        k = {"nodes": (1, 5), "strict": 1.0, "open_wrapper": 0.0, "patterns": (2, 7), "wanted": (4, 10), "exacts": 0.25, "layers": 0.2, "handles_open": 0.1, **knobs}
        self.patterns: list[Pattern] = []
        self.layers: dict[tuple, list[Pattern]] = {}
        self.active: list[Pattern] = []
        self.keys: dict[tuple, int] = {}  # (term, comp) -> pid
        self.virtual: set[int] = set()
        self.inner_nodes: dict[tuple, int] = {}
        self.index: dict[tuple, int] = {}
        self.key_of: dict[int, tuple] = {}
        self.terms: dict[Any, int] = {}
        self.ordinary_only = False
        super().__init__(rng, **k)
        self.rt.which = self.which  # type: ignore[attr-defined]
        self._gen_open()

    # ------------------------------------------------------------------ generation
    def _gen_open(self) -> None:
        r, k = self.rng, self.k
        self.origins: list[tuple[str, int]] = [(f"G{i}", r.choice((1, 1, 1, 2))) for i in range(r.randint(1, 3))]
        self.serial = 200_000
        src = [PROLOGUE]
        for name, ar in self.origins:
            src.append(f"class {name}(Generic[{', '.join(['T', 'U'][:ar])}]): pass\n")
        o, ar = r.choice(self.origins)
        src.append(f"OC = {o}[{', '.join(['int', 'str'][:ar])}]")
        self._run("\n".join(src))
        self.ctx_keys = [*self.ctx_keys, "OC"]  # a context key that open registrations match
        for _ in range(r.randint(*k["patterns"])):
            self.patterns.append(self.new_pattern())
        self.wanted: list[tuple] = []
        for _ in range(r.randint(*k["wanted"])):
            self.wanted.append(self.closed_key())
        # exact registrations of keys that are also matched by patterns
        for w in list(self.wanted):
            if r.random() < k["exacts"]:
                self.patterns.append(self.new_pattern(w))
        self.deco_todo: list[Pattern] = []
        for p in list(self.patterns):
            while r.random() < k["layers"]:
                self.deco_todo.append(self.new_layer(p))
        r.shuffle(self.deco_todo)

    def _run(self, text: str) -> None:
        self.source += "\n" + text
        exec(compile(text, f"<{self.modname}>", "exec", dont_inherit=True), self.ns)  # noqa: S102
        self.quirks()

    def closed_term(self, depth: int = 2) -> Any:
        r = self.rng
        x = r.random()
        if depth and x < 0.2:
            return ("list", self.closed_term(depth - 1))
        if depth and x < 0.26:
            return ("dict", self.closed_term(depth - 1), self.closed_term(depth - 1))
        if depth and x < 0.3:
            return ("tuple", self.closed_term(depth - 1), self.closed_term(depth - 1))
        if depth and x < 0.36:
            return ("H", self.closed_term(depth - 1))
        if depth and x < 0.44:
            name, ar = r.choice(self.origins)
            return (name, *(self.closed_term(depth - 1) for _ in range(ar)))
        if x < 0.49:
            return r.choice(list(SPECIAL))
        return r.choice(ATOMS)

    def closed_key(self) -> tuple:
        r = self.rng
        comp = None
        if self.patterns and r.random() < 0.75:
            p = r.choice(self.patterns)
            pool = [*ATOMS, *ATOMS, ("list", "int"), ("list", "A0"), ("H", "str")]
            term = subst(p.tmpl, {v: r.choice(pool) if r.random() < 0.8 else self.closed_term() for v in tvars(p.tmpl)})
            comp = p.comp
            if r.random() < 0.1:
                comp = r.choice((None, "k1", "k2"))
        else:
            name, ar = r.choice(self.origins)
            term = (name, *(self.closed_term() for _ in range(ar)))
            if r.random() < 0.15:
                comp = r.choice(("k1", "k2"))
        return term, comp

    def new_pattern(self, exact: tuple | None = None, like: Pattern | None = None) -> Pattern:
        r = self.rng
        self.serial += 1
        comp: str | None = None
        if like is not None:
            tmpl, comp = like.tmpl, like.comp
        elif exact is not None:
            tmpl, comp = exact
        else:
            name, ar = r.choice(self.origins)
            vs = ["$T", "$T", "$T", "$U", "$U", *LIMITS]

            def arg(depth: int) -> Any:
                x = r.random()
                if x < 0.6:
                    return r.choice(vs)
                if depth and x < 0.75:
                    return ("list", arg(depth - 1))
                if depth and x < 0.8:
                    return ("dict", arg(0), arg(0))
                if depth and x < 0.85:
                    return ("H", arg(depth - 1))
                if depth and x < 0.9:
                    n2, a2 = r.choice(self.origins)
                    return (n2, *(arg(depth - 1) for _ in range(a2)))
                return r.choice(ATOMS)

            while True:
                tmpl = (name, *(arg(1) for _ in range(ar)))
                if tvars(tmpl):
                    break
            if r.random() < 0.15:
                comp = r.choice(("k1", "k2"))
        forms = ["cls", "dataclass", "factory", "factory", "factory", "factory"]
        if r.random() < self.k["resources"]:
            forms = ["gen", "gen", "cm", "fcm"]
            if self.has_async and r.random() < self.k["async_p"]:
                forms = ["agen", "agen", "acm", "afcm"] if self.k["agen"] else ["acm"]
        elif self.has_async and r.random() < self.k["async_p"]:
            forms = ["afactory", "afactory", "awfactory"]
        p = Pattern(self.serial, tmpl, comp, r.choice(forms), "T" if r.random() < self.k["transient"] else "S", r.choice(self.levels))
        self._styles(p)
        self._signature(p)
        p.infer = p.form in ("factory", "afactory", "gen", "agen") and p.style not in ("callobj", "partial") and r.random() < 0.3
        p.late = p.form in ("cm", "acm", "afactory", "agen", "afcm") and r.random() < 0.5
        p.swallow = r.random() < 0.15
        if r.random() < self.k["locks"]:
            p.lock = r.choice([LockMode.THREAD, LockMode.NONE])
        self._run(self.pattern_src(p))
        return p

    def new_layer(self, p: Pattern) -> Pattern:
        r = self.rng
        self.serial += 1
        forms = ["cls", "factory", "factory", "dataclass"]
        if self.has_async and r.random() < self.k["async_p"]:
            forms = ["afactory"]
        d = Pattern(self.serial, p.tmpl, p.comp, r.choice(forms), p.lifetime, p.level)
        self._styles(d)
        self._signature(d, layer=True)
        d.inner = "inner"
        d.pass_inner = r.random() < 0.5
        d.inner_ann = r.choice(("Any", "object")) if d.pass_inner and r.random() < 0.5 else self.text(p.tmpl, p.comp)
        if not d.pass_inner and any(self.ann_of(q) == d.inner_ann for q in d.params):
            d.pass_inner = True
        kind = "KO" if any(q.kind == "KO" for q in d.targs + d.params) else "PK"
        q = Param("inner", kind, ("inner",))
        if kind == "PK" and any(x.default is not None for x in d.params if x.kind in ("PO", "PK")):
            q.default, q.default_value = '("dflt", 0, "inner")', None
        d.params.append(q)
        d.late = d.form == "afactory" and r.random() < 0.5
        self._run(self.pattern_src(d))
        return d

    def _styles(self, p: Pattern) -> None:
        r = self.rng
        if p.form not in ("cls", "dataclass", "cm", "acm") and r.random() < 0.4:
            p.style = r.choice(("method", "static", "class", "callobj", "partial"))
        p.strings = p.form != "dataclass" and r.random() < 0.15

    def rank(self, tmpl: Any) -> int:
        return int(tmpl[0][1:])

    def _signature(self, p: Pattern, layer: bool = False) -> None:
        r = self.rng
        style = r.choice(("pk", "mixed", "ko", "po", "pk")) if p.form not in ("dataclass",) else r.choice(("pk", "ko"))
        kinds = {"pk": ("PK",), "mixed": ("PO", "PK", "KO"), "ko": ("KO",), "po": ("PO",)}[style]
        for i, v in enumerate(tvars(p.tmpl)):
            p.targs.append(Param(f"t{i}", r.choice(kinds), ("targ", v), ann=r.choice((f"type[{v[1:]}]", f"type[{v[1:]}]", v[1:]))))
        if p.exact and not layer and p.form in ("cls", "dataclass") and r.random() < 0.7:
            for i, v in enumerate(("$T", "$U")[: len(p.tmpl) - 1]):
                if r.random() < 0.8:
                    p.closed[v] = p.tmpl[i + 1]
                    p.targs.append(Param(f"t{i}", r.choice(kinds), ("targ", v), ann=r.choice((f"type[{v[1:]}]", f"type[{v[1:]}]", v[1:]))))
        lower = [o for o in self.origins if int(o[0][1:]) < self.rank(p.tmpl)]
        ordinary = [n for n in self.nodes if not n.hidden and n.pid not in self.virtual and not (p.exact and n.absent)]
        for i in range(r.choice((0, 0, 1, 1, 2, 3))):
            x = r.random()
            dep: tuple
            if lower and x < 0.5 and not p.exact:
                name, ar = r.choice(lower)
                vs = tvars(p.tmpl)

                def arg() -> Any:
                    y = r.random()
                    if y < 0.7:
                        return r.choice(vs)
                    if y < 0.85:
                        return ("list", r.choice(vs))
                    return r.choice(ATOMS)

                kind = "provider" if r.random() < self.k["handles_open"] else "maybe" if r.random() < 0.15 else "key"
                if kind == "provider" and self.has_async and r.random() < 0.4:
                    kind = "aprovider"
                comp = r.choice(("k1", "k2")) if r.random() < 0.12 else None
                if self.patterns and r.random() < 0.7:
                    # something a registered pattern provides
                    cands = [q for q in self.patterns if self.rank(q.tmpl) < self.rank(p.tmpl)]
                    if cands:
                        q = r.choice(cands)
                        comp = q.comp
                        term = subst(q.tmpl, {v: arg() for v in tvars(q.tmpl)})
                    else:
                        term = (name, *(arg() for _ in range(ar)))
                else:
                    term = (name, *(arg() for _ in range(ar)))
                dep = ("open", kind, term, comp)
            elif x < 0.6:
                dep = (r.choice(("ctx", "mctx")), r.choice(self.ctx_keys))
            elif x < 0.64:
                dep = ("maybe", None)
            elif x < 0.67:
                dep = ("none",)
            elif ordinary:
                pool = [m for m in ordinary if m.need <= p.level] or ordinary
                if r.random() < self.k["bad_level"]:
                    pool = ordinary
                t = r.choice(pool).pid
                kind = r.choice(("key", "key", "key", "key", "maybe", "meta", "provider", "all"))
                if kind == "provider" and p.exact:
                    kind = "key"
                dep = ("all", self.nodes[t].base) if kind == "all" else (kind, t)
            else:
                continue
            p.params.append(Param("abcdefgh"[i], r.choice(kinds), dep))
        for q in p.params:
            if q.kind == "PO" and (q.dep[0] in ("none", "maybe", "mctx") or q.dep[:2] == ("open", "maybe")):
                q.kind = "KO" if p.form != "dataclass" else q.kind  # skipping a positional-only one is a listed finding
        star = p.form != "dataclass" and r.random() < 0.12
        if star:
            p.params.append(Param("va", "VP", ("all", r.choice(ordinary).base) if ordinary and r.random() < 0.7 else ("mctxtup",)))
        if p.form != "dataclass" and r.random() < 0.07:
            p.params.append(Param("vk", "VK", r.choice([("ctxmap",), ("mctxmap",), ("mctxmap",)])))
        for q in p.params:
            if star and p.exact and q.kind in ("PO", "PK") and (q.dep[0] in ("none", "maybe", "mctx") or q.dep[:2] == ("open", "maybe")):
                q.dep = ("ctx", "C0")  # an omitted positional before *args: a listed finding for ordinary registrations
        p.params.sort(key=lambda q: ORDER.index(q.kind))
        p.targs.sort(key=lambda q: ORDER.index(q.kind))
        seen = False
        for q in p.params:
            if q.kind in ("VP", "VK"):
                continue
            want = r.random() < (0.5 if q.dep[0] in ("maybe", "mctx") or q.dep[:2] == ("open", "maybe") else 0.1)
            if q.dep[0] == "none" or (seen and q.kind != "KO"):
                want = True
            if want:
                if q.kind != "KO":
                    seen = True
                q.default, q.default_value = f'("dflt", {p.prov}, "{q.name}")', ("dflt", p.prov, q.name)

    # ------------------------------------------------------------------ source
    def text(self, term: Any, comp: str | None) -> str:
        return f'Annotated[{render(term)}, Component("{comp}")]' if comp else render(term)

    def _ann(self, dep: tuple) -> str:
        if dep[0] == "all" and dep[1] >= 1000:
            return f"All[{render(next(t for t, i in self.terms.items() if 1000 + i == dep[1]))}]"
        return super()._ann(dep)

    def ann_of(self, p: Param) -> str:
        if p.dep[0] == "targ":
            return str(p.ann)
        if p.dep[0] == "open":
            inner = self.text(p.dep[2], p.dep[3])
            return {"key": inner, "maybe": f"Maybe[{inner}]", "provider": f"Provider[{inner}]", "aprovider": f"AsyncProvider[{inner}]"}[p.dep[1]]
        if p.dep[0] == "none":
            return ""
        return self._ann(p.dep)

    def pattern_src(self, p: Pattern) -> str:
        i = p.prov
        ts = list(p.targs)
        everything = sorted([*ts, *p.params], key=lambda q: ORDER.index(q.kind))
        # type arguments have no default: keep them before defaulted ones of their kind
        everything.sort(key=lambda q: (ORDER.index(q.kind), q.default is not None))
        pos_default = False
        for q in everything:
            if q.kind in ("PO", "PK"):
                if pos_default and q.default is None:
                    q.kind = "KO"
                pos_default = pos_default or q.default is not None
        everything.sort(key=lambda q: ORDER.index(q.kind))
        p.params = [q for q in everything if q.dep[0] != "targ"]
        names = ", ".join(q.name for q in ts)

        def sig(first: str = "") -> str:
            parts = [first] if first else []
            pos = [q for q in everything if q.kind == "PO"]
            star = False
            for q in everything:
                star = star or q.kind == "VP"
                if q.kind == "KO" and not star:
                    parts.append("*")
                    star = True
                a = p.inner_ann if q.dep[0] == "inner" else self.ann_of(q)
                a = repr(a) if a and p.strings else a
                parts.append(f"{ {'VP': '*', 'VK': '**'}.get(q.kind, '')}{q.name}{': ' + a if a else ''}{' = ' + q.default if q.default is not None else ''}")
                if pos and q is pos[-1]:
                    parts.append("/")
            return ", ".join(parts)

        def args(owner: str = "") -> str:
            return "(" + "".join(f'("{q.name}", {owner}{q.name}), ' for q in p.params) + ")"

        decoys = ""
        if self.rng.random() < 0.2:
            decoys = "".join(f"    {q.name}: Decoy\n" for q in everything if q.dep[0] != "none" and self.rng.random() < 0.7)
            if p.form in ("cls", "cm", "acm") and everything:
                decoys += "    def __call__(self, " + ", ".join(f"{q.name}: Decoy" for q in everything) + "): ...\n"
        vs = ", ".join(v[1:] for v in tvars(p.tmpl))
        base = render(p.tmpl) if self.rng.random() < 0.7 else (f"Generic[{vs}]" if vs else "object")
        which = f"_p = RT.which({i}, ({names}{',' if ts else ''}))"
        ret = self.text(p.tmpl, p.comp)
        if p.form == "cls":
            return f"class V{i}({base}):\n{decoys}    def __init__({sig('self')}):\n        {which}\n        RT.begin(_p)\n        RT.init(self, _p, {args()})\n"
        if p.form == "dataclass":
            lines = ["@dataclasses.dataclass(eq=False)", f"class V{i}({base}):"]
            for q in everything:
                a = p.inner_ann if q.dep[0] == "inner" else self.ann_of(q) or "Maybe[M0]"
                d = f" = {q.default}" if q.default is not None else ""
                if q.kind == "KO":
                    d = f" = dataclasses.field({'default=' + q.default + ', ' if q.default is not None else ''}kw_only=True)"
                lines.append(f"    {q.name}: {a}{d}")
            names = ", ".join(f"self.{q.name}" for q in ts)
            lines += ["    def __post_init__(self):", f"        _p = RT.which({i}, ({names}{',' if ts else ''}))", "        RT.begin(_p)", f"        RT.init(self, _p, {args('self.')})"]
            return "\n".join(lines) + "\n"
        head = f"class V{i}: pass\n"
        ann = f" -> {ret}" if p.infer else ""
        body = f"    {which}\n    RT.begin(_p)\n"
        if p.form == "factory":
            return head + styled(i, p.style, sig, "", "", ann, f"{body}    return RT.make(_p, V{i}, {args()})\n", decoys)
        if p.form == "afactory":
            return head + styled(i, p.style, sig, "", "async ", ann, f"{body}    await RT.pause(_p)\n    RT.late(_p)\n    return RT.make(_p, V{i}, {args()})\n", decoys)
        if p.form == "awfactory":
            return head + styled(i, p.style, sig, "", "", f" -> Awaitable[{ret}]", f"    {which}\n    return RT.awaitable(_p, V{i}, {args()})\n", decoys)
        fin = "return" if p.swallow else "raise"
        if p.form in ("gen", "fcm"):
            ann = f" -> Generator[{ret}, None, None]" if p.infer else ""
            return head + styled(
                i, p.style, sig, "@contextlib.contextmanager\n" if p.form == "fcm" else "", "", ann,
                f"{body}    v = RT.make(_p, V{i}, {args()})\n    RT.acq(v)\n    try:\n        yield v\n    except GeneratorExit:\n        RT.leak(v)\n        raise\n"
                f"    except BaseException as e:\n        RT.rel(v, e)\n        {fin}\n    else:\n        RT.rel(v, None)\n",
                decoys,
            )
        if p.form in ("agen", "afcm"):
            ann = f" -> AsyncGenerator[{ret}, None]" if p.infer else ""
            return head + styled(
                i, p.style, sig, "@contextlib.asynccontextmanager\n" if p.form == "afcm" else "", "async ", ann,
                f"{body}    await RT.pause(_p)\n    RT.late(_p)\n    v = RT.make(_p, V{i}, {args()})\n    RT.acq(v)\n    try:\n        yield v\n"
                f"    except GeneratorExit:\n        RT.leak(v)\n        raise\n    except BaseException as e:\n        RT.rel(v, e)\n        await RT.pause(_p)\n        {fin}\n    else:\n        RT.rel(v, None)\n        await RT.pause(_p)\n",
                decoys,
            )
        a = "async " if p.form == "acm" else ""
        d = "a" if a else ""
        pause = "        await RT.pause(self._p)\n" if a else ""
        return head + (
            f"class p{i}:\n{decoys}    _v = None\n    def __init__({sig('self')}):\n        {which}\n        self._p = _p\n        RT.begin(_p)\n        self._a = {args()}\n"
            f"    {a}def __{d}enter__(self):\n{pause}        RT.late(self._p)\n        v = RT.make(self._p, V{i}, self._a)\n        self._v = v\n        RT.acq(v)\n        return v\n"
            f"    {a}def __{d}exit__(self, t, e, tb):\n        RT.rel(self._v, e, self._p)\n{pause}        return {p.swallow}\n"
        )

    # ------------------------------------------------------------------ the oracle
    def valid(self, var: str, term: Any) -> Any:
        limits = [HEADS.get(x) or self.ns[x] for x in LIMITS.get(var, ())]
        if not limits:
            return True
        head = term if isinstance(term, str) else term[0]
        parts = [HEADS.get(x) or self.ns[x] for x in SPECIAL.get(head, (head,))]
        if not parts:
            return UNSURE
        ok = all(any(issubclass(c, x) for x in limits) for c in parts)
        if var in ("$C", "$F"):
            if len(parts) > 1 and not any(all(issubclass(c, x) for c in parts) for x in limits):
                return False
            return UNSURE if ok and (head in SPECIAL or parts[0] not in limits) else ok
        return ok

    def serve(self, term: Any, comp: str | None) -> tuple[Any, dict[str, Any]]:
        """The pattern serving a closed key: (pattern | None | INVALID | UNSURE, its type arguments)."""
        found: list[tuple[Pattern, dict[str, Any]]] = []
        bad = unsure = False
        for p in self.active:
            m: dict[str, Any] = {}
            if p.comp != comp or not unify(p.tmpl, term, m):
                continue
            if p.exact:
                return p, {}
            ok = [self.valid(v, x) for v, x in m.items()]
            if False in ok:
                bad = True
            elif UNSURE in ok:
                unsure = True
            else:
                found.append((p, m))
        if unsure:
            return UNSURE, {}
        if not found:
            return (INVALID if bad else None), {}
        top = [(p, m) for p, m in found if not any(self.narrower(q, p) for q, _ in found)]
        p, m = top[-1]
        if any(not self.same_shape(p, q) for q, _ in top) or (len(top) > 1 and any(self.layers.get(q.slot) for q, _ in top)):
            return UNSURE, {}
        return p, m

    @staticmethod
    def narrower(q: Pattern, p: Pattern) -> bool:
        a, b = linear(p.tmpl), linear(q.tmpl)
        return unify(a, b, {}) and not unify(b, a, {})

    @staticmethod
    def same_shape(p: Pattern, q: Pattern) -> bool:
        m: dict[str, Any] = {}
        limited = set(LIMITS)
        return unify(p.tmpl, q.tmpl, m) and unify(q.tmpl, p.tmpl, {}) and all((a in limited or b in limited) <= (a == b) for a, b in m.items())

    def intern(self, term: Any, comp: str | None) -> int:
        key = (term, comp)
        if key not in self.keys:
            base = 1000 + self.terms.setdefault(term, len(self.terms))
            n = Node(len(self.nodes), base, comp, "factory", "T", 1, [], absent=True)
            n.open = True
            self.nodes.append(n)
            self.keys[key] = n.pid
            self.key_of[n.pid] = key
            self.virtual.add(n.pid)
        return self.keys[key]

    def which(self, prov: int, args: tuple) -> int:
        pid = self.index.get((prov, args))
        if pid is None:
            raise AssertionError(f"provider {prov} was called with type arguments {args}, which no requested key implies")
        return pid

    def rebind(self) -> None:
        """Recompute every virtual node from the registrations made so far."""
        self.index = {}
        for n in self.nodes:
            if n.pid in self.virtual and n.pid not in self.key_of:
                n.absent = True
        for term, comp in self.wanted:
            self.intern(term, comp)
        done: set[int] = set()
        todo = list(self.keys.values())
        while todo:
            pid = todo.pop()
            if pid in done:
                continue
            done.add(pid)
            term, comp = self.key_of[pid]
            n = self.nodes[pid]
            p, m = self.serve(term, comp)
            n.absent, n.error, n.poison, n.params, n.form, n.hidden, n.open = p is None, None, p is UNSURE, [], "factory", False, True
            if p is INVALID:
                n.error = INVALID
            if not isinstance(p, Pattern):
                n.lifetime, n.level, n.late = "T", 1, False
                continue
            chain = [p, *self.layers.get(p.slot, ())]
            below = -1
            for j, layer in enumerate(chain):
                if j == len(chain) - 1:
                    node = n
                else:
                    ik = (term, comp, j)
                    if ik not in self.inner_nodes:
                        self.inner_nodes[ik] = len(self.nodes)
                        self.nodes.append(Node(len(self.nodes), -2, None, "factory", "T", 1, [], hidden=True))
                        self.virtual.add(self.inner_nodes[ik])
                    node = self.nodes[self.inner_nodes[ik]]
                    node.absent = False
                node.form, node.lifetime, node.level, node.late, node.swallow, node.lock = layer.form, p.lifetime, p.level, layer.late, layer.swallow, p.lock
                node.open = not p.exact
                node.params = []
                for q in layer.params:
                    dep = q.dep
                    if dep[0] == "inner":
                        dep = ("key", below)
                    elif dep[0] == "open":
                        t = self.intern(subst(dep[2], m), dep[3])
                        todo.append(t)
                        dep = (dep[1], t)
                    node.params.append(dataclasses.replace(q, dep=dep))
                below = node.pid
                self.index[(layer.prov, tuple(eval(render({**m, **layer.closed}[q.dep[1]]), self.ns) for q in layer.targs))] = node.pid  # noqa: S307
        # whatever depends on something unspecified is not asked for
        changed = True
        while changed:
            changed = False
            for pid in self.virtual:
                n = self.nodes[pid]
                if n.poison or n.absent:
                    continue
                for q in n.params:
                    if q.dep[0] in ("key", "maybe", "provider", "aprovider") and q.dep[1] is not None:
                        t = self.nodes[q.dep[1]]
                        if t.poison or (t.error and q.dep[0] == "maybe"):
                            n.poison = changed = True
        for pid in self.virtual:
            n = self.nodes[pid]
            if pid in self.key_of:
                n.hidden = n.poison
        self.settle()

    # ------------------------------------------------------------------ World's view of virtual nodes
    @property
    def public(self) -> list[Node]:
        return [n for n in self.nodes if not n.hidden and not (self.ordinary_only and n.pid in self.virtual)]

    def key(self, pid: int) -> Any:
        if pid in self.key_of:
            return self.term_key(*self.key_of[pid])
        return super().key(pid)

    def term_key(self, term: Any, comp: str | None) -> Any:
        k = eval(render(term), self.ns)  # noqa: S307
        return typing.Annotated[k, Component(comp)] if comp else k

    def base_key(self, base: int) -> Any:
        if base >= 1000:
            return eval(render(next(t for t, i in self.terms.items() if 1000 + i == base)), self.ns)  # noqa: S307
        return super().base_key(base)

    def key_src(self, pid: int) -> str:
        if pid in self.virtual and pid not in self.key_of:
            return f"<inner {pid}>"
        return self.text(*self.key_of[pid]) if pid in self.key_of else super().key_src(pid)

    def all_slots(self, base: int) -> list[int]:
        if base >= 1000:
            term = next(t for t, i in self.terms.items() if 1000 + i == base)
            return [self.intern(p.tmpl, p.comp) for p in self.active if p.exact and p.tmpl == term]
        return super().all_slots(base)

    def decorated(self, pid: int) -> bool:
        return super().decorated(pid) or bool(self.layers.get(self.key_of.get(pid, ())))

    # ------------------------------------------------------------------ registration
    def add_pattern(self, c: Container, p: Pattern) -> None:
        r = self.rng
        kw: dict[str, Any] = {"lifetime": Lifetime.SCOPED if p.lifetime == "S" else Lifetime.TRANSIENT, "scope": self.ladder[p.level]}
        if p.lock is not None:
            kw["lock_mode"] = p.lock
        if not (p.infer and r.random() < 0.7):
            if p.comp and r.random() < 0.5:
                kw["provides"], kw["component"] = self.term_key(p.tmpl, None), p.comp if r.random() < 0.5 else Component(p.comp)
            else:
                kw["provides"] = self.term_key(p.tmpl, p.comp)
        if p.form in ("cls", "dataclass"):
            c.add(self.ns[f"V{p.prov}"], **kw)
        else:
            f = self.ns[f"p{p.prov}"]
            {"gen": c.add_generator, "agen": c.add_generator, "cm": c.add_context_manager, "acm": c.add_context_manager, "fcm": c.add_context_manager, "afcm": c.add_context_manager}.get(p.form, c.add_factory)(f, **kw)
        self.active = [q for q in self.active if q.slot != p.slot] + [p]
        if p not in self.patterns:
            self.patterns.append(p)

    def add_layer(self, c: Container, d: Pattern) -> None:
        kw: dict[str, Any] = {"provides": self.term_key(d.tmpl, d.comp)}
        if d.pass_inner:
            kw["inner_parameter"] = d.inner
        c.decorate(decorator=self.ns[f"{'V' if d.form in ('cls', 'dataclass') else 'p'}{d.prov}"], **kw)
        self.layers.setdefault(d.slot, []).append(d)

    def stray(self, c: Container) -> None:
        """A decorator for a closed key that has no registration of its own: pending, so of no effect."""
        free = [(t, k) for t, k in self.wanted if not any(p.slot == (t, k) for p in self.patterns)]
        if free:
            t, k = self.rng.choice(free)
            self.pending = getattr(self, "pending", set()) | {(t, k)}
            key = self.term_key(t, k)

            def never(inner: Any) -> Any:
                raise AssertionError("a pending decorator ran")

            c.decorate(provides=key, decorator=never, inner_parameter="inner")

    def async_patterns(self) -> bool:
        """Whether some open or exact registration is certainly asynchronous in the end."""
        slots = [p.slot for p in self.patterns]
        return any(p.form in ("agen", "acm", "afcm", "afactory", "awfactory") and slots.count(p.slot) == 1 for p in self.patterns)

    def populate(self, c: Container) -> None:
        r = self.rng
        todo = list(self.patterns)
        r.shuffle(todo)
        super_first = r.random() < 0.5
        if super_first:
            super().populate(c)
        decos = list(self.deco_todo)
        for p in todo:
            if r.random() < 0.12:
                self.add_pattern(c, self.new_pattern(like=p))
            self.add_pattern(c, p)
            while decos and r.random() < 0.3:
                self.add_layer(c, decos.pop(0))
            if r.random() < 0.05:
                self.stray(c)
        for d in decos:
            self.add_layer(c, d)
        if not super_first:
            super().populate(c)
        self.rebind()

    def describe_open(self) -> str:
        rows = [f"  {'exact' if p.exact else 'open'} {p.prov}: {self.text(p.tmpl, p.comp)} {p.form} {p.lifetime}{p.level} layers={[d.prov for d in self.layers.get(p.slot, ())]}" for p in self.active]
        rows += [f"  key {n.pid}: {self.text(*self.key_of[n.pid])} {'absent' if n.absent else n.error.__name__ if n.error else 'unspecified' if n.poison else f'{n.form} {n.lifetime}{n.level} params={[(q.name, q.kind, q.dep) for q in n.params]}'}" for n in self.nodes if n.pid in self.key_of]
        return "open registrations, in order:\n" + "\n".join(rows)

    def shape(self) -> str:
        return super().shape() + "|" + ";".join(f"{self.text(p.tmpl, p.comp)}:{p.form}{p.lifetime}{p.level}" for p in self.active)


class OpenDriver(Driver):
    def describe(self) -> str:
        return super().describe() + "\n" + self.w.describe_open()


class OpenPhases(PhaseDriver):
    """Registration histories that add, replace and decorate open and exact generic registrations."""

    def describe(self) -> str:
        return super().describe() + "\n" + self.w.describe_open()

    def referenced(self) -> set[int]:
        out = super().referenced()
        for p in [*self.w.patterns, *self.w.deco_todo]:
            if p.exact:
                out.update(q.dep[1] for q in p.params if q.dep[0] in ("key", "meta", "provider", "aprovider"))
        return out

    def mutate(self, first: bool) -> list[int]:
        w = self.w
        w.ordinary_only = True
        try:
            return super().mutate(first)
        finally:
            w.ordinary_only = False

    def register_phase(self, dirty: list[int], first: bool) -> None:
        r, w = self.r, self.w
        if first:
            self.fresh = list(w.patterns)
            r.shuffle(self.fresh)
            self.deco_left = list(w.deco_todo)
        early = r.random() < 0.5
        if early:
            self.open_phase(first)
        w.ordinary_only = True
        super().register_phase(dirty, first)
        w.ordinary_only = False
        if not early:
            self.open_phase(first)
        w.rebind()

    def open_phase(self, first: bool) -> None:
        r, w, c = self.r, self.w, self.c
        n = max(1, len(self.fresh) // 2) if first else r.randint(1, 3)
        for _ in range(n):
            x = r.random()
            if self.fresh and (first or x < 0.5):
                p = self.fresh.pop()
            elif x < 0.75 or not w.active:
                p = w.new_pattern(like=r.choice(w.patterns))
            else:
                p = r.choice(w.active)
            if p.slot in getattr(w, "pending", ()):
                continue
            if r.random() < 0.2:
                w.rebind()
                self.between()
            w.add_pattern(c, p)
            self.log(f"  register {p.prov} for {w.text(p.tmpl, p.comp)}")
            self.case.count("open_registrations")
            for d in list(self.deco_left):
                if r.random() < 0.4 and any(q.slot == d.slot for q in w.active):
                    self.deco_left.remove(d)
                    w.add_layer(c, d)
                    self.log(f"  decorate {w.text(d.tmpl, d.comp)} with {d.prov}")


def expect_of(d: Any, pid: int, s: Any, sync: bool) -> Expect:
    e = Expect()
    d.m.predict(pid, s, sync, e, set())
    return e


def note(case: Case, w: OpenWorld) -> None:
    used = {e[1].pid for e in w.rt.log if e[0] == "made"}
    case.count("closed_keys_built", len(used & w.virtual))
    for n in w.nodes:
        if n.pid in w.key_of:
            case.count("keys_" + ("unspecified" if n.poison else "unmatched" if n.absent else "invalid" if n.error else "exact" if not n.open else "open"))


def finish(case: Case, w: OpenWorld, d: Any) -> None:
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    note(case, w)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["closed_keys_built"] > 0
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:40]}


def open_case(case: Case, world: dict, driver: dict, make: Any = None) -> Any:
    """One graph with open registrations and a history over it."""
    w = OpenWorld(case.rng, **{"ladder": 0.15, **world})
    d = (make or OpenDriver)(case, w, **{"feasible": 0.6, **driver})
    d.run()
    finish(case, w, d)
    return d


def open_history(case: Case, world: dict, driver: dict) -> Any:
    w = OpenWorld(case.rng, **{"alts": True, "nodes": (1, 4), "eager": 0.05, "unbound": 0.2, "ladder": 0.1, **world})
    d = OpenPhases(case, w, **{"ops": (4, 16), "cancel": 0.02, "fault": 0.04, "relfault": 0.0, "phases": (2, 4), **driver})
    d.run()
    finish(case, w, d)
    return d
