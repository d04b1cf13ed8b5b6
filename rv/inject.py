"""Injected calls: a driver that also calls injection-wrapped functions and judges each call."""
from __future__ import annotations

import functools
import inspect
from dataclasses import dataclass, field
from typing import Any

from diwire import DependencyRegistrationPolicy, Injected  # noqa: F401
from diwire.exceptions import DIWireInvalidRegistrationError, DIWireResolverNotSetError

from .harness import Violation
from .monitor import ASYNC, MISMATCH, MISSING, Driver, Expect, MScope, drive, transition, w_bound
from .phases import PhaseDriver
from .world import FAULT_TYPES


@dataclass
class FParam:
    name: str
    kind: str
    dep: tuple  # ("plain",) or as in world nodes
    default: Any = None
    has_default: bool = False


@dataclass
class Fn:
    no: int
    params: list[FParam]
    is_async: bool
    owner: str  # "" / "method" / "static" / "class" / "bound" / "callobj" / "partial"
    scope: int | None
    auto: bool
    when: str
    wrapped: Any = None
    target: Any = None  # the object methods are called on
    raw: Any = None  # the callable as it was before it was injected, where that was a step of its own
    body: int = -1  # the number its body reports

    @property
    def hidden(self) -> list[FParam]:
        return [p for p in self.params if p.dep[0] != "plain"]


@dataclass
class Frame:
    fn: Fn
    scope: MScope
    exp: Expect
    supplied: dict[str, Any]
    body_exc: BaseException | None
    token: Any
    entered: bool = False
    depth: int = 0
    opened: list[MScope] = field(default_factory=list)
    where: str = ""
    extra: tuple = ()


class InjectDriver(Driver):
    pins = True  # whether functions are pinned to scopes a later registration could violate

    def __init__(self, case: Any, world: Any, **knobs: Any) -> None:
        super().__init__(case, world, **{"call": 0.4, **knobs})
        self.frames: list[Frame] = []
        self.fns: list[Fn] = []
        self.broken: Violation | None = None
        self.fsources: list[str] = []

    def describe(self) -> str:
        return super().describe() + "\nfunctions:\n" + "\n".join(self.fsources) + "\n" + "\n".join(f"f{f.no} scope={f.scope} auto={f.auto} when={f.when}" for f in self.fns)

    # ------------------------------------------------------------------ functions
    def infer(self, pid: int, seen: dict[int, int] | None = None) -> int:
        """The deepest level anything behind this key is registered at, handles included."""
        seen = {} if seen is None else seen
        if pid in seen:
            return seen[pid]
        n = self.w.nodes[pid]
        if n.absent:
            seen[pid] = 1
            return 1
        seen[pid] = n.level
        best = n.level
        for p in n.params if not n.open else ():
            t = p.dep[0]
            if t in ("key", "meta", "provider", "aprovider") or (t == "maybe" and p.dep[1] is not None):
                best = max(best, self.infer(p.dep[1], seen))
            elif t == "all":
                for q in self.members(p.dep[1]):
                    best = max(best, self.infer(q, seen))
        seen[pid] = best
        return best

    def members(self, base: int) -> list[int]:
        return self.w.all_slots(base) if base >= 1000 else [m.pid for m in self.w.public if m.base == base]

    def need_of(self, dep: tuple, deep: bool) -> int:
        t = dep[0]
        if t in ("plain", "ctx", "mctx") or dep[1] is None:
            return 1
        if t == "all":
            pids = self.members(dep[1])
        else:
            pids = [dep[1]]
        if deep:
            return max([1] + [self.infer(p) for p in pids])
        if t in ("provider", "aprovider"):
            return max([1] + [self.w.nodes[p].level for p in pids])
        return max([1] + [self.w.nodes[p].need for p in pids])

    def make_fn(self, when: str) -> Fn:
        r, w = self.r, self.w
        no = len(self.fns)
        is_async = w.has_async and r.random() < 0.6 or r.random() < 0.15
        kinds = sorted((r.choice(("PO", "PK", "PK", "KO")) for _ in range(r.randint(0, 5))), key=("PO", "PK", "KO").index)
        params: list[FParam] = []
        seen_default = False
        for i, kind in enumerate(kinds):
            dep = self._fdep()
            p = FParam("abcdefg"[i], kind, dep)
            want = r.random() < (0.4 if dep[0] in ("plain", "maybe") else 0.15)
            if kind in ("PO", "PK") and seen_default:
                want = True
            if want:
                p.has_default = True
                p.default = ("fd", no, p.name)
                if kind in ("PO", "PK"):
                    seen_default = True
            params.append(p)
        if r.random() < 0.2 and not any(p.dep[0] != "plain" and p.kind == "PO" for p in params):
            params.append(FParam("va", "VP", ("plain",)))
        if r.random() < 0.2:
            params.append(FParam("vk", "VK", ("plain",)))
        # an omitted optional positional-only parameter before a filled one cannot be expressed
        pos = [p for p in params if p.kind in ("PO", "PK")]
        for i, p in enumerate(pos):
            if p.kind == "PO" and p.has_default and p.dep[0] == "maybe" and i + 1 < len(pos):
                p.dep = ("plain",)
        params.sort(key=lambda p: ("PO", "PK", "VP", "KO", "VK").index(p.kind))
        owner = r.choice(("", "", "", "method", "static", "class", "bound", "callobj", "partial"))
        shallow = max([1] + [self.need_of(p.dep, False) for p in params])
        deep = max([1] + [self.need_of(p.dep, True) for p in params])
        scope: int | None = None
        if shallow != deep or r.random() < 0.35:
            scope = r.choice([x for x in w.ladder if x >= deep]) if self.pins else max(w.rungs)
        if when != "late":
            scope = None if shallow == deep else max(w.rungs)
        fn = Fn(no, params, is_async, owner, scope, r.random() < 0.85, when)
        fn.level = scope if scope is not None else deep  # type: ignore[attr-defined]
        self._define(fn)
        self.fns.append(fn)
        if fn.raw is not None and r.random() < 0.5:
            self._again(fn, deep if self.pins else None)
        return fn

    def _again(self, fn: Fn, deep: int | None) -> None:
        """The very same callable, injected once more under other options: each wrapper keeps to its own."""
        r, w = self.r, self.w
        scope = fn.scope
        if fn.when == "late" and deep is not None and r.random() < 0.5:
            scope = r.choice([x for x in w.ladder if x >= deep])
        twin = Fn(len(self.fns), fn.params, fn.is_async, fn.owner, scope, r.random() < 0.5 if fn.auto else True, fn.when)
        twin.body, twin.target = fn.body, fn.target
        twin.level = scope if scope is not None else fn.level  # type: ignore[attr-defined]
        opts = ([f"scope=LEVELS[{scope}]"] if scope is not None else []) + ([] if twin.auto else ["auto_open_scope=False"])
        deco = f"RC.inject({', '.join(opts)})"
        twin.wrapped = eval(deco, w.ns)(fn.raw)  # noqa: S307
        self.fsources.append(f"# f{twin.no}: the callable of f{fn.no} under {deco}")
        self.fns.append(twin)
        self.case.count("functions_injected_twice")

    def given(self) -> Any:
        """What a caller passes: anything counts as given."""
        r = self.r
        return object() if r.random() < 0.6 else r.choice((None, None, 0, False, "", (), [], {}, NotImplemented, Ellipsis))

    def _fdep(self) -> tuple:
        r, w = self.r, self.w
        t = r.choice(self.k.get("fdeps") or ("plain", "plain", "key", "key", "key", "key", "maybe", "all", "provider", "aprovider", "ctx", "mctx", "meta"))
        if t == "plain":
            return ("plain",)
        if t in ("ctx", "mctx"):
            return (t, r.choice(w.ctx_keys))
        pid = r.choice([n.pid for n in w.public if n.error is None])
        if w.nodes[pid].absent and t != "all":
            return ("key", pid)
        if t == "maybe" and r.random() < 0.4:
            return ("maybe", None)
        if t == "all":
            return ("all", w.nodes[pid].base if r.random() < 0.9 else -1)
        return (t, pid, "maybe") if t in ("provider", "aprovider") and r.random() < 0.2 else (t, pid)

    def _define(self, fn: Fn) -> None:
        r, w = self.r, self.w
        quote = r.random() < 0.2
        late = fn.owner in ("bound", "callobj", "partial") or (not fn.owner and r.random() < 0.35)  # injected after they were made, not as they are written
        parts: list[str] = {"": [], "static": [], "class": ["cls"], "partial": ["_fixed"]}.get(fn.owner, ["self"])[:]
        fn.body = fn.no
        pos_only = [p for p in fn.params if p.kind == "PO"]
        star = any(p.kind == "VP" for p in fn.params)
        for p in fn.params:
            if p.kind == "KO" and not star:
                parts.append("*")
                star = True
            if p.dep[0] == "plain":
                ann = r.choice(("", ": int", f": {w.key_src(0)}")) if w.nodes else ""
            elif p.dep[0] == "ctx":
                ann = ": " + w._ann(p.dep)
            elif p.dep[0] == "mctx":
                ann = f": Injected[{w._ann(p.dep)}]"
            else:
                ann = f": Injected[{w._ann(p.dep)}]"
            if quote and ann:
                ann = f": {ann[2:]!r}"
            pre = {"VP": "*", "VK": "**"}.get(p.kind, "")
            parts.append(f"{pre}{p.name}{ann}" + (f" = {p.default!r}" if p.has_default else ""))
            if pos_only and p is pos_only[-1]:
                parts.append("/")
        args = "(" + "".join(f'("{p.name}", {p.name}), ' for p in fn.params) + ")"
        d, a = ("async def", "await FD.acalled") if fn.is_async else ("def", "FD.called")
        me = {"": "None", "partial": "None", "static": "None", "class": "cls"}.get(fn.owner, "self")
        name = "__call__" if fn.owner == "callobj" else f"f{fn.no}"
        body = f"{d} {name}({', '.join(parts)}):\n    return {a}({fn.no}, {me}, {args})\n"
        how = r.choice(("call", "deco", "bare"))
        opts = []
        if fn.scope is not None:
            opts.append(f"scope=LEVELS[{fn.scope}]")
        if not fn.auto:
            opts.append("auto_open_scope=False")
        if r.random() < 0.15:
            opts.append("dependency_registration_policy=IGNORE")
        deco = f"@RC.inject({', '.join(opts)})" if opts or how != "bare" else "@RC.inject"
        if fn.owner == "partial":
            src = f"{body}"
        elif fn.owner:
            extra = {"static": "    @staticmethod\n", "class": "    @classmethod\n"}.get(fn.owner, "")
            if r.random() < 0.3:
                extra = "".join(f"    {p.name}: Injected[Decoy]\n" for p in fn.params) + extra
            extra += "" if late else f"    {deco}\n"
            src = f"class H{fn.no}:\n{extra}" + "".join("    " + line + "\n" for line in body.splitlines())
        else:
            src = body if late else f"{deco}\n{body}"
        self.fsources.append(f"# {deco}\n{src}" if late else src)
        ns = w.ns
        ns.update(RC=self.rc, FD=self, LEVELS=w.ladder, IGNORE=DependencyRegistrationPolicy.IGNORE, Injected=Injected)
        exec(compile(src, f"<f{fn.no}>", "exec", dont_inherit=True), ns)  # noqa: S102
        if late:
            made = ns[name] if not fn.owner else functools.partial(ns[name], 0) if fn.owner == "partial" else ns[f"H{fn.no}"]()
            fn.target = made
            fn.raw = getattr(made, name) if fn.owner == "bound" else made
            fn.wrapped = eval(deco[1:], ns)(fn.raw)  # noqa: S307
        elif fn.owner:
            h = ns[f"H{fn.no}"]
            fn.target = h() if fn.owner == "method" else h
            fn.wrapped = getattr(fn.target, name)
        else:
            fn.wrapped = ns[name]
        shown = [q for q in inspect.signature(fn.wrapped).parameters]
        expect = [p.name for p in fn.params if p.dep[0] == "plain"]
        if shown != expect:
            raise Violation(f"f{fn.no}: visible parameters {shown}, expected {expect}")

    # ------------------------------------------------------------------ set-up
    def run(self) -> None:
        import asyncio

        from diwire import ResolverContext

        w, r = self.w, self.r
        try:
            self.rc = ResolverContext()
            stages = {"pre": r.randint(0, 2) if r.random() < 0.3 else 0, "early": r.randint(0, 2) if r.random() < 0.3 else 0, "late": r.randint(2, 5)}
            for _ in range(stages["pre"]):
                self.make_fn("pre")
            self.c = w.new_container(resolver_context=self.rc)
            for _ in range(stages["early"]):
                self.make_fn("early")
            w.populate(self.c)
            for _ in range(stages["late"]):
                self.make_fn("late")
            self.with_mode = w.config["use_resolver_context"] and r.random() < 0.75
            use_loop = w.has_async and r.random() < self.k["loop"]
            if use_loop:
                asyncio.run(self._amain())
            else:
                drive(self._amain())
            del self.m.handles[:]
        finally:
            w.close()

    async def step(self) -> None:
        if self.r.random() < self.k["call"]:
            await self.op_call(None)
            return
        await super().step()

    # ------------------------------------------------------------------ calls
    async def op_call(self, sync_only: bool | None, depth: int = 0) -> None:
        r, w, m = self.r, self.w, self.m
        cands = [f for f in self.fns if not (sync_only and f.is_async) and f.level]  # type: ignore[attr-defined]
        if not cands:
            return
        fn = r.choice(cands)
        usable = self._usable([s for s in self.scopes if s.open])
        inner = self.innermost()
        explicit = r.random() < 0.3 or not w_bound(w)
        kwargs: dict[str, Any] = {}
        if explicit:
            pool = [s for s in usable if s is m.root or s.obj is not None]
            base = r.choice(pool)
            kwargs["diwire_resolver"] = self.c.compile() if base is m.root and base.obj is None else (base.obj if base.obj is not None else self.c.compile())
            if not w_bound(w) and inner is None and r.random() < 0.08:
                # nothing to resolve from: the call must say so
                try:
                    res = fn.wrapped(*[object() for p in fn.params if p.dep[0] == "plain" and p.kind in ("PO", "PK")])
                    if fn.is_async:
                        await res
                except DIWireResolverNotSetError:
                    self.case.count("not_set")
                    return
                m.fail(f"f{fn.no} ran without any resolver")
        else:
            base = inner or m.root
            if not self._chain_open(base):
                return
        # arguments
        supplied: dict[str, Any] = {}
        args: list[Any] = []
        positional_ok = True
        bad = r.random() < 0.05
        must_type = False
        for p in fn.params:
            if p.kind not in ("PO", "PK"):
                continue
            if p.dep[0] == "plain":
                give = not p.has_default or r.random() < 0.6
            else:
                give = r.random() < 0.2
            if give and bad and not p.has_default and p.dep[0] == "plain" and r.random() < 0.5:
                give = False
                must_type = True
            if give:
                v = self.given()
                if p.kind == "PO" and not positional_ok:
                    if p.dep[0] == "plain" and not p.has_default:
                        must_type = True
                    continue
                supplied[p.name] = v
                if positional_ok and (p.kind == "PO" or r.random() < 0.7):
                    args.append(v)
                else:
                    positional_ok = False
                    kwargs[p.name] = v
            else:
                positional_ok = False
        # a positional-only default that is skipped before a later positional is inexpressible for the wrapper
        pos = [p for p in fn.params if p.kind in ("PO", "PK")]
        skipped = False
        for p in pos:
            filled = p.name in supplied or p.dep[0] not in ("plain", "maybe") or (p.dep[0] == "maybe" and p.dep[1] is not None)
            if not filled and p.has_default:
                skipped = skipped or p.kind == "PO"
            elif skipped and p.kind == "PO":
                return
            elif not filled and not p.has_default and p.dep[0] == "plain":
                must_type = True
        gap = False
        for p in pos:
            # BoundArguments stops filling positionals at the first missing one
            filled = p.name in supplied or p.dep[0] not in ("plain", "maybe") or (p.dep[0] == "maybe" and (p.dep[1] is not None or not p.has_default))
            if not filled:
                gap = True
            elif gap and p.kind == "PO":
                return
        extra: tuple = ()
        vk: dict[str, Any] = {}
        for p in fn.params:
            if p.kind == "VP" and len(args) == len(pos) and r.random() < 0.7:
                extra = tuple(object() for _ in range(r.randint(0, 2)))
                args += extra
                supplied[p.name] = extra
            if p.kind == "VK" and r.random() < 0.7:
                vk = {f"zz{i}": object() for i in range(r.randint(0, 2))}
                kwargs.update(vk)
            if p.kind == "KO":
                if p.dep[0] == "plain":
                    give = not p.has_default or r.random() < 0.5
                    if give and bad and r.random() < 0.5 and not p.has_default:
                        give, must_type = False, True
                else:
                    give = r.random() < 0.2
                if give:
                    supplied[p.name] = kwargs[p.name] = self.given()
        if bad and not must_type and not any(p.kind == "VK" for p in fn.params) and r.random() < 0.5:
            kwargs["no_such"] = object()
            must_type = True
        # scope
        target = None if not fn.auto else fn.level  # type: ignore[attr-defined]
        opened: list[MScope] = []
        scope = base
        if target is not None and target != 1 and base.level < target:
            plan = transition(base.level, target, w.rungs, w.skippable)
            assert isinstance(plan, list)
            prev = base
            for lvl in plan:
                s = MScope(lvl, prev, None)
                opened.append(s)
                prev = s
            scope = opened[-1]
            scope.implicit = opened[:-1]
            scope.bound = w_bound(w)
        ctx: dict | None = None
        if r.random() < (0.45 if opened else 0.06):
            ctx = {w.ns[n]: object() for n in w.ctx_keys if r.random() < 0.6}
            ctx.setdefault(w.ns[r.choice(w.ctx_keys)], object())
            kwargs["diwire_context"] = ctx
            if opened:
                scope.ctx = ctx
        elif r.random() < 0.1:
            kwargs["diwire_context"] = None
        exp = Expect()
        seen: set = set()
        for p in fn.params:
            if p.dep[0] == "plain" or p.name in supplied:
                continue
            self.predict_dep(p, scope, not fn.is_async, exp, seen)
        must_reject = ctx is not None and not opened
        if must_reject:
            exp = Expect(must=[DIWireInvalidRegistrationError])
        elif must_type:
            exp.must.append(TypeError)
        body = r.choice(FAULT_TYPES)(f"body of f{fn.no}") if r.random() < 0.2 else None
        where = f"{'  ' * depth}call f{fn.no} from {base}{' explicit' if explicit else ''} -> {scope} given {sorted(supplied)} ctx={ctx is not None} body={body!r}"
        self.log(where)
        frame = Frame(fn, scope, exp, supplied, body, object(), depth=depth, opened=opened, where=where)
        frame.vk = vk  # type: ignore[attr-defined]
        self.frames.append(frame)
        m.begin_slice()
        start = m.mark
        raised: BaseException | None = None
        value: Any = None
        if opened:
            self.scopes.append(scope)
        try:
            value = fn.wrapped(*args, **kwargs)
            if fn.is_async:
                if not inspect.isawaitable(value):
                    m.fail(f"{where}: returned {value!r}, not an awaitable")
                value = await value
        except BaseException as e:  # noqa: BLE001
            raised = e
        self.frames.pop()
        if opened:
            self.scopes.remove(scope)
        if self.broken is not None:
            raise self.broken
        if isinstance(raised, Violation):
            raise raised
        self.case.count("calls")
        self.case.state("call", fn.no, base.level, scope.level, bool(opened), explicit, frame.entered, raised is not None, depth)
        if frame.entered:
            if opened:
                self.case.count("calls_opened")
                # events since the body ended belong to the exit of the opened scope
                err = raised if raised is not body else None
                m.check_exit(scope, not fn.is_async, body, err if body is None else raised, None)
                for s in opened:
                    s.open = False
                if body is None and raised is None and value is not frame.token:
                    m.fail(f"{where}: returned {value!r} instead of the function's value")
            else:
                if m.open_slice():
                    m.fail(f"{where}: events after the function returned: {self.w.rt.log[m.mark:]}")
                if body is None and raised is not None:
                    m.fail(f"{where}: raised {raised!r} although the function returned")
                if body is None and value is not frame.token:
                    m.fail(f"{where}: returned {value!r} instead of the function's value")
            if body is not None and raised is not body:
                m.fail(f"{where}: the function raised {body!r}, the call {'raised %r' % (raised,) if raised is not None else 'returned'}")
        else:
            if raised is None:
                m.fail(f"{where}: returned {value!r} without running the function")
            m.mark = start
            ev = m.read_slice()
            cut = next((i for i, e in enumerate(ev) if e[0] == "rel"), len(ev))
            m.settle_resources(ev[:cut], scope, where)
            if not exp.allows(raised):
                import traceback

                m.fail(f"{where}: raised {raised!r} but expected {exp.must + exp.may or 'the function to run'}\n" + "".join(traceback.format_exception(raised)[-8:]))
            m.after_failure(ev[:cut], scope, where)
            if opened and not must_reject:
                m.mark = start + cut
                m.check_exit(scope, not fn.is_async, raised, raised, None)
            elif cut != len(ev):
                m.fail(f"{where}: released {ev[cut:]} although no scope was opened")
            for s in opened:
                s.open = False
            self.case.count("calls_failed_" + type(raised).__name__)
            if must_reject and [e for e in ev if e[0] != "leak"]:
                m.fail(f"{where}: providers ran in a rejected call: {ev}")
        raised = None

    def predict_dep(self, p: FParam, scope: MScope, sync: bool, exp: Expect, seen: set) -> None:
        m, w = self.m, self.w
        t = p.dep[0]
        if t in ("key", "meta") or (t == "maybe" and p.dep[1] is not None):
            m.predict(p.dep[1], scope, sync, exp, seen)
        elif t == "all":
            for q in w.all_slots(p.dep[1]):
                m.predict(q, scope, sync, exp, seen)
        elif t == "ctx" and not scope.lookup(w.ns[p.dep[1]])[0]:
            exp.must.append(MISSING)

    def _check_body(self, no: int, me: Any, args: tuple) -> Frame:
        m = self.m
        if not self.frames:
            raise Violation(f"f{no} ran outside every call")
        f = self.frames[-1]
        where = f.where
        if f.fn.body != no:
            raise Violation(f"{where}: f{no} ran")
        if f.entered:
            raise Violation(f"{where}: the function ran twice")
        f.entered = True
        ev = m.read_slice()
        m.settle_resources(ev, f.scope, where)
        if f.exp.must:
            raise Violation(f"{where}: the function ran although one of {f.exp.must} was due")
        if f.fn.owner in ("method", "class", "bound", "callobj") and me is not f.fn.target:
            raise Violation(f"{where}: bound to {me!r}")
        got = dict(args)
        for p in f.fn.params:
            v = got[p.name]
            w = f"{where} {p.name}"
            if p.kind == "VP":
                if v != tuple(f.supplied.get(p.name, ())):
                    raise Violation(f"{w}: extra positionals {v!r}")
            elif p.kind == "VK":
                if v != f.vk:  # type: ignore[attr-defined]
                    raise Violation(f"{w}: extra keywords {v!r}")
            elif p.name in f.supplied:
                if v is not f.supplied[p.name]:
                    raise Violation(f"{w}: the caller's argument was replaced by {v!r}")
            elif p.dep[0] == "plain":
                if v != p.default or not p.has_default:
                    raise Violation(f"{w}: expected its default, got {v!r}")
            else:
                self._check_injected(p, f.scope, v, w)
        m.after_success(ev, where)
        self.case.count("bodies")
        return f

    def _check_injected(self, p: FParam, s: MScope, v: Any, w: str) -> None:
        m, world = self.m, self.w
        t = p.dep[0]
        self.case.count("injected_" + t)
        if t in ("key", "meta") or (t == "maybe" and p.dep[1] is not None):
            m.match(p.dep[1], s, v, w)
        elif t == "maybe":
            if v != (p.default if p.has_default else None):
                m.fail(f"{w}: optional and not registered, got {v!r}")
        elif t == "all":
            slots = world.all_slots(p.dep[1])
            if type(v) is not tuple or len(v) != len(slots):
                m.fail(f"{w}: All expected {len(slots)} values, got {v!r}")
            for q, x in m.pair(slots, v):
                m.match(q, s, x, f"{w}[{q}]")
        elif t in ("provider", "aprovider"):
            if not callable(v) or hasattr(v, "_rv"):
                m.fail(f"{w}: expected a handle, got {v!r}")
            m.handles.append((v, p.dep[1], t == "aprovider", s, w))
        else:
            found, expect = s.lookup(world.ns[p.dep[1]])
            if v is not (expect if found else None):
                m.fail(f"{w}: context value from {s} expected {expect!r}, got {v!r}")

    async def _nested(self, f: Frame, sync_only: bool) -> None:
        r = self.r
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            if f.depth < 2 and r.random() < 0.5:
                await self.op_call(sync_only, f.depth + 1)
                continue
            inner = self.innermost() or self.m.root
            if not w_bound(self.w):
                continue
            pid = r.choice(self.w.public).pid
            sync = True if sync_only else r.random() < 0.5
            await self.do_resolve(inner, sync, "key", pid)

    def resolver_for(self, s: MScope, sync: bool) -> Any:
        if s.obj is None and s is not self.m.root:
            if s is not self.innermost():
                raise Violation("harness: unreachable scope")
            return getattr(self.c if self.r.random() < 0.5 else self.rc, "resolve" if sync else "aresolve")
        return super().resolver_for(s, sync)

    def called(self, no: int, me: Any, args: tuple) -> Any:
        try:
            f = self._check_body(no, me, args)
            drive(self._nested(f, True))
        except Violation as e:
            self.broken = self.broken or e
            raise
        self.m.begin_slice()
        if f.body_exc is not None:
            raise f.body_exc
        return f.token

    async def acalled(self, no: int, me: Any, args: tuple) -> Any:
        try:
            f = self._check_body(no, me, args)
            await self.w.rt.pause(-1)
            await self._nested(f, False)
        except Violation as e:
            self.broken = self.broken or e
            raise
        self.m.begin_slice()
        if f.body_exc is not None:
            raise f.body_exc
        return f.token


class InjectPhases(InjectDriver, PhaseDriver):
    """Functions that outlive registrations: each call must follow the registrations in force."""

    pins = False

    def prepare(self) -> None:
        from diwire import ResolverContext

        self.rc = ResolverContext()
        self.c = self.w.new_container(resolver_context=self.rc)

    def registered(self) -> None:
        for _ in range(self.r.randint(0, 2) if self.fns else 3):
            self.make_fn("late")
        for f in self.fns:
            if f.scope is None:
                shallow = max([1] + [self.need_of(p.dep, False) for p in f.params])
                deep = max([1] + [self.need_of(p.dep, True) for p in f.params])
                # whether lazily needed scopes count is not judged
                f.level = deep if shallow == deep else 0  # type: ignore[attr-defined]

    def run(self) -> None:
        PhaseDriver.run(self)
