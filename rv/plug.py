"""Generated pytest sessions using the plugin, run in forked children and judged from their logs.

The child records what every test body received, which container its item had, and the outcome of
every item.  The model knows what each generated test asks for and which container fixture applies.
"""
from __future__ import annotations

import itertools
import json
import os
import shutil
import signal
import sys
import tempfile
from collections import defaultdict
from typing import Any

SERVICES = """
import abc
from diwire import Scope

class Port(abc.ABC):
    @abc.abstractmethod
    def rv(self): ...

class Deep:  # registered for request scopes where a container registers anything
    pass

class Tag:
    def __init__(self, text): self.text = text

class Svc:
    made = 0
    def __init__(self):
        Svc.made += 1
        self.uid = Svc.made

class S0(Svc): pass
class S1(Svc):
    def __init__(self, a: S0):
        super().__init__()
        self.a = a
class S2(Svc):
    def __init__(self, b: S1, *, a: S0):
        super().__init__()
        self.a, self.b = a, b
class T0(Svc): pass
class Impl(Svc): pass
class Bad(Svc):
    def __init__(self):
        raise LookupError("bad service")
class BadBase(Svc):
    def __init__(self, bad: Bad): pass
class A0(Svc): pass
class A1(Svc):
    def __init__(self, a: A0):
        super().__init__()
        self.a = a
class Res(Svc):
    open = False
class DeepRes(Svc):  # a resource of the request scope opened for the test
    open = False
class ADeepRes(DeepRes): pass

async def make_a0():
    return A0()

def make_res():
    r = Res()
    r.open = True
    yield r
    r.open = False

def make_deep():
    r = DeepRes()
    r.open = True
    try:
        yield r
    finally:
        r.open = False

async def make_adeep():
    r = ADeepRes()
    r.open = True
    try:
        yield r
    finally:
        r.open = False

def fill(c, text):
    from diwire import Component, Lifetime
    from typing import Annotated
    c.add_instance(Tag(text), provides=Tag)
    c.add(Impl, provides=Annotated[Svc, Component("x")], lifetime=Lifetime.SCOPED)
    for cls in (S0, S1, S2, Bad, BadBase, A1):
        c.add(cls, lifetime=Lifetime.SCOPED)
    c.add(T0, lifetime=Lifetime.TRANSIENT)
    c.add_factory(make_a0, provides=A0, lifetime=Lifetime.SCOPED)
    c.add_generator(make_res, provides=Res, lifetime=Lifetime.SCOPED)
    c.add_generator(make_deep, provides=DeepRes, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    c.add_generator(make_adeep, provides=ADeepRes, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    c.add(Deep, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    return c
"""

# annotation, what a sync test sees, what an async test sees, needs a filled container, shared within it
INJ: dict[str, tuple[str, str, str, bool]] = {
    "s0": ("Injected[S0]", "ok", "ok", False),
    "s1": ("Injected[S1]", "ok", "ok", False),
    "s2": ("Injected[S2]", "ok", "ok", False),
    "quoted": ("'Injected[S1]'", "ok", "ok", False),
    "meta": ("Injected[Annotated[S0, 'm']]", "ok", "ok", False),
    "handle": ("Injected[Provider[S0]]", "ok", "ok", False),
    "absent": ("Injected[Maybe[Port]]", "ok", "ok", False),
    "none": ("Injected[All[Port]]", "ok", "ok", False),
    "tag": ("Injected[Tag]", "ok", "ok", True),
    "comp": ("Injected[Annotated[Svc, Component('x')]]", "ok", "ok", True),
    "res": ("Injected[Res]", "ok", "ok", True),
    "t0": ("Injected[T0]", "ok", "ok", True),
    "a1": ("Injected[A1]", "DIWireAsyncDependencyInSyncContextError", "ok", True),
    "deepres": ("Injected[DeepRes]", "ok", "ok", True),
    "adeepres": ("Injected[ADeepRes]", "DIWireAsyncDependencyInSyncContextError", "ok", True),
    "port": ("Injected[Port]", "DIWireDependencyNotRegisteredError", "DIWireDependencyNotRegisteredError", False),
    "bad": ("Injected[Bad]", "LookupError", "LookupError", False),
    "badbase": ("Injected[BadBase]", "LookupError", "LookupError", False),
    "deep": ("Injected[Deep]", "ok", "ok", True),
}
GOOD = [k for k, v in INJ.items() if v[1] == "ok"]
SHARED = {"s0": "S0", "s1": "S1", "s2": "S2", "quoted": "S1", "meta": "S0", "handle": "S0", "tag": "Tag", "res": "Res", "comp": "Impl"}

IMPORTS = """import functools, unittest
from typing import Annotated
import pytest, pytest_asyncio
import rvhit
from diwire import All, Component, Container, Injected, Maybe, Provider, Lifetime, MissingPolicy
from {svc} import *
"""


class T:
    """One generated test function."""

    def __init__(self, no: int) -> None:
        self.no = no
        self.name = f"test_{no}"
        self.inj: list[str] = []
        self.fix: list[str] = []
        self.par: dict[str, list[int]] = {}
        self.is_async = False
        self.kind = "function"
        self.filled = False  # where any copy runs has a filled container
        self.outcome = "ok"
        self.raises = False
        self.mark = ""


class Session:
    serial = 0

    def __init__(self, case: Any) -> None:
        self.case, self.r = case, case.rng
        Session.serial += 1
        self.tag = f"{os.getpid()}_{Session.serial}"
        self.files: dict[str, str] = {}
        self.expected: dict[str, list[Any]] = {}  # "file::Class::name" -> [T, container key, count]
        self.n = itertools.count()
        self.gen()
        case.describe = lambda: "\n".join(f"--- {k}\n{v}" for k, v in self.files.items() if k != f"svc_{self.tag}.py")

    # ------------------------------------------------------------------ generation
    def fixture(self, scope: str, label: str, method: bool = False, params: list[int] | None = None) -> str:
        """An override of the container fixture."""
        r = self.r
        args = ["self"] if method else []
        args += ["request"] if params else []
        if r.random() < 0.3 and scope == "function":
            args.append("fx_f")
        opts = ([] if scope == "function" else [f'scope="{scope}"']) + ([f"params={params}"] if params else [])
        text = f'"{label}"' + (' + f"/{request.param}"' if params else "")
        kw = "missing_policy=MissingPolicy.ERROR" if r.random() < 0.3 else ""
        body = f"return fill(Container({kw}), {text})" if r.random() < 0.6 else f"c = fill(Container({kw}), {text})\n    yield c"
        out = f"@pytest.fixture({', '.join(opts)})\ndef diwire_container({', '.join(args)}):\n    {body}\n"
        return "\n".join("    " + x for x in out.splitlines()) + "\n" if method else out

    def gen(self) -> None:
        r = self.r
        svc = f"svc_{self.tag}"
        self.files[f"{svc}.py"] = SERVICES
        head = IMPORTS.format(svc=svc)
        self.top = r.choice((None, None, "function", "function", "class", "module", "session"))
        plugin_in_conftest = r.random() < 0.8
        conf = head + ('pytest_plugins = ["diwire.integrations.pytest_plugin"]\n' if plugin_in_conftest else "")
        if self.top:
            conf += self.fixture(self.top, "top")
        conf += (
            '@pytest.fixture\ndef fx_f():\n    return ("fx_f", rvhit.serial())\n'
            '@pytest.fixture(scope="module")\ndef fx_m():\n    return ("fx_m", rvhit.serial())\n'
            '@pytest.fixture(params=[7, 8])\ndef fx_p(request):\n    return ("fx_p", request.param)\n'
            '@pytest_asyncio.fixture\nasync def fx_a():\n    return ("fx_a", rvhit.serial())\n'
            '@pytest.fixture\ndef fx_c(diwire_container):\n    return ("fx_c", id(diwire_container))\n'
        )
        self.files["conftest.py"] = conf
        mods = r.randint(1, 3)
        earlier: list[tuple[str, T]] = []
        for m in range(mods):
            name = f"test_m{m}_{self.tag}"
            text = head + (f'pytest_plugins = ["diwire.integrations.pytest_plugin"]\n' if not plugin_in_conftest else "")
            scope = r.choice((None, None, None, "function", "class", "module"))
            params = [1, 2] if scope == "function" and r.random() < 0.25 else None
            if scope:
                text += self.fixture(scope, f"m{m}", params=params)
            here = (scope or self.top, f"m{m}" if scope else ("top" if self.top else ""), params)
            # tests of an earlier module, collected here once more
            for mod, t in earlier:
                if r.random() < 0.3 and (here[0] is not None or not t.filled):
                    text += f"from {mod} import {t.name}\n"
                    self.expect(name, "", t, here)
            for _ in range(r.randint(1, 5)):
                t = self.test(here[0] is not None)
                text += self.source(t, "")
                self.expect(name, "", t, here)
                earlier.append((name, t))
            for k in range(r.randint(0, 2)):
                cname = f"TestC{m}{k}"
                cscope = r.choice((None, None, "function", "class"))
                ctext = f"class {cname}:\n"
                if r.random() < 0.2:
                    ctext = "@pytest.mark.parametrize('cp', [1, 2])\n" + ctext
                    cpar = {"cp": [1, 2]}
                else:
                    cpar = {}
                inside = (cscope, f"c{m}{k}", None) if cscope else here
                if cscope:
                    ctext += self.fixture(cscope, f"c{m}{k}", method=True)
                tests = []
                for _ in range(r.randint(1, 4)):
                    t = self.test(inside[0] is not None, method=True)
                    t.par.update(cpar)
                    ctext += self.source(t, "    ", cpar)
                    tests.append(t)
                    self.expect(name, cname, t, inside)
                text += ctext
                if r.random() < 0.35:
                    text += f"class {cname}Sub({cname}):\n    pass\n"
                    for t in tests:
                        self.expect(name, cname + "Sub", t, inside)
            if not params and r.random() < 0.3:
                text += f"class TestU{m}(unittest.TestCase):\n    def test_u{m}(self):\n        rvhit.hit(-1, {{}})\n"
            self.files[f"{name}.py"] = text

    def test(self, filled: bool, method: bool = False) -> T:
        r = self.r
        t = T(next(self.n))
        pool = [k for k in INJ if filled or not INJ[k][3]]
        good = [k for k in GOOD if k in pool]
        t.is_async = r.random() < 0.3
        t.inj = r.sample(good, r.choice((0, 1, 1, 2, 3)))
        if r.random() < 0.2:
            t.inj.append(r.choice([k for k in pool if k not in t.inj]))
        t.fix = r.sample(["fx_f", "fx_m", "fx_p", "fx_c", "diwire_container"] + (["fx_a"] if t.is_async else []), r.choice((0, 0, 1, 2)))
        if r.random() < 0.4:
            t.par["p"] = [1, 2] if r.random() < 0.7 else [3]
        if r.random() < 0.15:
            t.par["q"] = [10, 20]
        t.kind = r.choice(("method", "method", "static", "class")) if method else r.choice(("function", "function", "function", "wrapped"))
        if t.is_async and t.kind in ("wrapped", "static", "class"):
            t.kind = "method" if method else "function"
        t.filled = any(INJ[k][3] for k in t.inj)
        for k in t.inj:
            res = INJ[k][2 if t.is_async else 1]
            if res != "ok" and t.outcome == "ok":
                t.outcome = res
        t.errors = {INJ[k][2 if t.is_async else 1] for k in t.inj} - {"ok"}  # type: ignore[attr-defined]
        t.raises = r.random() < 0.08
        return t

    def source(self, t: T, ind: str, cpar: dict | None = None) -> str:
        r = self.r
        params = [(f"i_{k}", INJ[k][0]) for k in t.inj] + [(f, "") for f in t.fix] + [(p, "") for p in t.par]
        r.shuffle(params)
        params = [f"{n}: {a}" if a else n for n, a in params]
        if params and r.random() < 0.2:
            params.insert(r.randrange(len(params)), "*")
        names = [p.split(":")[0] for p in params if p != "*"]
        first = {"method": ["self"], "class": ["cls"]}.get(t.kind, [])
        lines = []
        for p, v in t.par.items():
            if p not in (cpar or {}):
                lines.append(f"@pytest.mark.parametrize('{p}', {v})")
        if t.is_async:
            lines.append("@pytest.mark.asyncio")
        if t.kind == "static":
            lines.append("@staticmethod")
        elif t.kind == "class":
            lines.append("@classmethod")
        elif t.kind == "wrapped":
            lines.append("@rvhit.wrapped")
        r.shuffle(lines) if t.kind not in ("static", "class") else None
        lines.append(f"{'async ' if t.is_async else ''}def {t.name}({', '.join(first + params)}):")
        lines.append(f"    rvhit.hit({t.no}, dict({', '.join(f'{n}={n}' for n in names)}))")
        if t.raises:
            lines.append("    assert False, 'on purpose'")
        return "\n".join(ind + x for x in lines) + "\n"

    def expect(self, mod: str, cls: str, t: T, here: tuple) -> None:
        count = 1
        for v in t.par.values():
            count *= len(v)
        if "fx_p" in t.fix:
            count *= 2
        if here[2]:
            count *= len(here[2])
        key = f"{mod}.py" + (f"::{cls}" if cls else "") + f"::{t.name}"
        self.expected[key] = [t, here, count, mod, cls]

    # ------------------------------------------------------------------ running
    def run(self) -> None:
        root = tempfile.mkdtemp(prefix="rvplug-")
        try:
            for name, text in self.files.items():
                with open(os.path.join(root, name), "w") as f:
                    f.write(text)
            out = os.path.join(root, "out.json")
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    child(root, out, self.tag)
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if not os.path.exists(out):
                tail = ""
                if os.path.exists(os.path.join(root, "stdio")):
                    tail = open(os.path.join(root, "stdio")).read()[-1500:]
                self.case.fail(f"the pytest session died with status {status}\n{tail}")
            data = json.load(open(out))
            self.stdio = open(os.path.join(root, "stdio")).read()
        finally:
            shutil.rmtree(root, ignore_errors=True)
        self.judge(data)

    def judge(self, d: dict) -> None:
        case = self.case
        fail = lambda text: case.fail(f"{text}\n{self.stdio[-3500:]}")  # noqa: E731
        if d["exit"] not in (0, 1):
            fail(f"pytest ended with exit status {d['exit']}")
        items: dict[str, list[dict]] = defaultdict(list)
        built: set[int] = set()  # containers in which an async test has made the shared A1
        for it in d["items"]:
            it["a1"] = it["container"] in built
            if any("i_a1" in h["values"] for h in it["hits"]):
                built.add(it["container"])
            items[it["node"].split("[")[0]].append(it)
        shared: dict[tuple, set[int]] = defaultdict(set)
        owner: dict[int, int] = {}
        groups: dict[tuple, set[int]] = defaultdict(set)
        for key, (t, here, count, mod, cls) in self.expected.items():
            got = items.pop(key, [])
            if len(got) != count:
                fail(f"{key}: ran {len(got)} times, expected {count}")
            combos = set()
            for it in got:
                case.count("items")
                outcome = "ok" if it["a1"] and "a1" in t.inj and not t.is_async else t.outcome
                want_fail = t.raises or outcome != "ok"
                if it["outcome"] != ("failed" if want_fail else "passed"):
                    fail(f"{it['node']}: {it['outcome']} ({it['exc']}), expected {'a failure: ' + str(outcome) if want_fail else 'a pass'}")
                if outcome != "ok":
                    case.count("expected_errors")
                    if it["hits"]:
                        fail(f"{it['node']}: its body ran although {outcome} was due")
                    if it["exc"] not in t.errors:
                        fail(f"{it['node']}: failed with {it['exc']}, expected one of {t.errors}")
                    continue
                if t.raises and it["exc"] != "AssertionError":
                    fail(f"{it['node']}: failed with {it['exc']}, expected its own assertion")
                if len(it["hits"]) != 1:
                    fail(f"{it['node']}: its body ran {len(it['hits'])} times")
                hit = it["hits"][0]
                if hit["no"] != t.no or sorted(hit["values"]) != sorted([f"i_{k}" for k in t.inj] + t.fix + list(t.par)):
                    fail(f"{it['node']}: got {hit}")
                scope, label, params = here
                where: tuple = {
                    None: ("fn", it["node"]), "function": ("fn", it["node"]), "module": ("mod", mod), "session": ("ses",),
                    "class": ("cls", mod, cls) if cls else ("fn", it["node"]),
                }[scope]
                if label == "top" and scope == "session":
                    where = ("ses",)
                groups[(label, *where)].add(it["container"])
                combo = [hit["values"][p][1] for p in sorted(t.par)]
                for p, vals in t.par.items():
                    if hit["values"][p][1] not in vals:
                        fail(f"{it['node']}: parameter {p} was {hit['values'][p]}")
                for f in t.fix:
                    v = hit["values"][f]
                    if f == "diwire_container":
                        if v != ["container", it["container"]]:
                            fail(f"{it['node']}: the container fixture gave another container: {v}")
                    elif f == "fx_c":
                        if v != ["tuple", "fx_c", it["container"]]:
                            fail(f"{it['node']}: fixture fx_c saw another container: {v}")
                    elif v[0] != "tuple" or v[1] != f:
                        fail(f"{it['node']}: fixture {f} gave {v}")
                    if f == "fx_p":
                        combo.append(v[2])
                combos.add((*combo, it["container"]) if params else tuple(combo))
                for k in t.inj:
                    v = hit["values"][f"i_{k}"]
                    case.count("injected_values")
                    if k == "absent":
                        ok = v == ["none"]
                    elif k == "none":
                        ok = v == ["tuple"]
                    elif k == "tag":
                        ok = v[0] == "Tag" and v[2].split("/")[0] == label
                    elif k in SHARED:
                        ok = v[0] == SHARED[k] and (k != "res" or v[2] is True)
                    elif k in ("deepres", "adeepres"):
                        ok = v[0].upper() == k.upper() and v[2] is True and v[-1]
                        if v[1] in it["left_open"]:
                            fail(f"{it['node']}: {k} of the test's scope was still open after the test")
                    else:
                        ok = v[0].upper() == k.upper()
                    if not ok:
                        fail(f"{it['node']}: {k} got {v} (container {label})")
                    if k in SHARED:
                        if label and not v[-1]:
                            fail(f"{it['node']}: {k} is not what the item's container resolves to")
                        if label:  # what registers by itself replaces the root: a listed finding
                            shared[(it["container"], SHARED[k])].add(v[1])
                        if owner.setdefault(v[1], it["container"]) != it["container"]:
                            fail(f"{it['node']}: {k} belongs to another test's container")
                        case.state(k, t.kind, t.is_async, scope, bool(t.par), bool(t.fix))
            if all(it["hits"] for it in got) and len(combos) != count:
                fail(f"{key}: parameter combinations {combos}, expected {count} different ones")
        extra = [k for k in items if "::TestU" not in k]
        if extra:
            fail(f"unexpected tests ran: {extra}")
        for k, v in items.items():
            if any(it["outcome"] != "passed" for it in v):
                fail(f"{k}: {v}")
        for k, v in groups.items():
            if len(v) != 1:
                fail(f"{k}: {len(v)} containers where one was due")
        seen: dict[int, tuple] = {}
        for k, v in groups.items():
            (one,) = v
            if seen.setdefault(one, k) != k:
                fail(f"{k} and {seen[one]} share a container")
        for k, v in shared.items():
            if len(v) != 1:
                fail(f"one container gave {len(v)} objects for {k[1]}")
        case.count("containers", len(groups))
        case.count("sessions")


def child(root: str, out: str, tag: str) -> None:
    """Run pytest in this (forked) process and write what was seen."""
    import functools
    import types
    import warnings

    os.environ["PYTEST_DISABLE_PLUGIN_AUTOLOAD"] = "1"
    os.environ.pop("PYTEST_ADDOPTS", None)
    os.environ.pop("PYTEST_PLUGINS", None)
    os.environ["PY_COLORS"] = "0"
    os.chdir(root)
    fd = os.open(os.path.join(root, "stdio"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = os.fdopen(os.dup(fd), "w")
    sys.stderr = sys.stdout
    sys.dont_write_bytecode = True
    warnings.resetwarnings()
    signal.alarm(0)
    import pytest

    keep: list[Any] = []
    current: list[Any] = [None]
    items: list[dict] = []
    counter = itertools.count(1)
    mod = types.ModuleType("rvhit")

    def describe(name: str, v: Any) -> list:
        from diwire import Container

        key = None
        if v is None:
            return ["none"]
        if isinstance(v, Container):
            return ["container", id(v)]
        if isinstance(v, tuple):
            return ["tuple", *v]
        if isinstance(v, (int, str)):
            return ["plain", v]
        if name == "i_handle":
            v = v()
        svc = sys.modules[f"svc_{tag}"]
        if hasattr(v, "uid") or type(v).__name__ in ("Tag", "Deep"):
            keep.append(v)
            typ = type(v)
            key = typ
            if typ.__name__ == "Impl":
                from typing import Annotated

                from diwire import Component

                key = Annotated[svc.Svc, Component("x")]
            same = typ.__name__ == "ADeepRes"
            if typ.__name__ in ("DeepRes", "ADeepRes"):
                current[0]["deep"].append(v)
            if typ.__name__ not in ("A1", "A0", "ADeepRes"):
                same = current[0]["obj"].resolve(key) is v
            extra = [v.text] if typ.__name__ == "Tag" else [v.open] if hasattr(v, "open") else []
            return [typ.__name__, v.uid if hasattr(v, "uid") else id(v), *extra, same]
        return ["other", repr(v)]

    def hit(no: int, values: dict) -> None:
        if no >= 0:
            current[0]["hits"].append({"no": no, "values": {k: describe(k, v) for k, v in values.items()}})

    def wrapped(f: Any) -> Any:
        @functools.wraps(f)
        def g(*a: Any, **k: Any) -> Any:
            return f(*a, **k)

        return g

    mod.hit, mod.wrapped, mod.serial = hit, wrapped, lambda: next(counter)  # type: ignore[attr-defined]
    sys.modules["rvhit"] = mod

    class Obs:
        @pytest.hookimpl(hookwrapper=True, tryfirst=True)
        def pytest_runtest_protocol(self, item: Any) -> Any:
            current[0] = {"node": item.nodeid, "container": None, "hits": [], "outcome": "passed", "exc": None, "obj": None, "deep": [], "left_open": []}
            items.append(current[0])
            yield

        @pytest.hookimpl(hookwrapper=True, tryfirst=True)
        def pytest_runtest_call(self, item: Any) -> Any:
            c = getattr(item, "funcargs", {}).get("diwire_container")
            keep.append(c)
            current[0]["container"] = id(c)
            current[0]["obj"] = c
            yield
            current[0]["left_open"] = [v.uid for v in current[0]["deep"] if v.open]

        @pytest.hookimpl(hookwrapper=True)
        def pytest_runtest_makereport(self, item: Any, call: Any) -> Any:
            rep = (yield).get_result()
            if rep.outcome != "passed" and current[0]["outcome"] == "passed":
                current[0]["outcome"] = rep.outcome
                current[0]["exc"] = call.excinfo.typename if call.excinfo else None

    code = pytest.main(
        ["-q", "-p", "no:cacheprovider", "-p", "no:faulthandler", "-p", "pytest_asyncio.plugin", "-c", os.devnull, "--rootdir", root, "-o", "asyncio_mode=strict", "--import-mode=prepend", root],
        plugins=[Obs()],
    )
    sys.stdout.flush()
    for it in items:
        it.pop("obj")
        it.pop("deep")
    with open(out + ".tmp", "w") as f:
        json.dump({"exit": int(code), "items": items}, f)
    os.rename(out + ".tmp", out)
