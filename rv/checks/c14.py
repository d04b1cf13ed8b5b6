"""Resolver binding: a stack per task, probed through every context-based entry point."""
from __future__ import annotations

import asyncio
import contextvars
import random
import sys
import threading
import time

from diwire import Container, DependencyRegistrationPolicy, FromContext, Injected, Lifetime, LockMode, Maybe, MissingPolicy, ResolverContext, Scope
from diwire.exceptions import DIWireResolverNotSetError

from ..harness import Part, Violation
from ..monitor import drive

ID = "C14"
RULE = (
    "A case is one or two resolver contexts, several containers on them, and a tree of actors (threads, tasks, copied contexts) that enter and leave resolvers by "
    "every route and probe what is bound after each step; it counts when a binding nested two deep was observed. Distinct = sequence of entered resolvers per actor."
)
ASSUMPTIONS = ["bindings are entered and left in properly nested order within a task, as with statements do", "a task that inherits a binding does not outlive the scope it inherited"]

LV = {2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}
NEXT = {1: 3, 2: 3, 3: 4, 4: 5}


class CTag:
    pass


class STag:
    pass


class Tok3:
    pass


class Tok4:
    pass


class Sync:
    pass


class Async:
    pass


class Oops(Exception):
    pass


# what the scope that is being left in this task had bound: cleanups still see it
LEAVING: contextvars.ContextVar = contextvars.ContextVar("rv_leaving", default=None)


class Box:
    """One container of the world."""

    def __init__(self, w: "W", no: int, rc: ResolverContext, bound: bool) -> None:
        r = w.r
        self.no, self.rc, self.bound = no, rc, bound
        kw = {}
        if r.random() < 0.7:
            kw = {"missing_policy": MissingPolicy.ERROR, "dependency_registration_policy": DependencyRegistrationPolicy.IGNORE}
        self.strict = bool(kw)
        self.c = Container(resolver_context=rc, use_resolver_context=bound, lock_mode=LockMode.THREAD, **kw)
        self.tag = object()
        self.c.add_instance(self.tag, provides=CTag)
        self.c.add(Tok3, provides=Tok3, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
        self.c.add(Tok4, provides=Tok4, scope=Scope.ACTION, lifetime=Lifetime.SCOPED)

        def gen():
            try:
                yield Sync()
            finally:
                w.cleaning("cleanup")
                if w.fail.pop(threading.get_ident(), None):
                    raise Oops("cleanup")

        async def agen():
            try:
                yield Async()
            finally:
                w.cleaning("async cleanup")
                await asyncio.sleep(0)
                w.cleaning("async cleanup, resumed")
                if w.fail.pop(threading.get_ident(), None):
                    raise Oops("async cleanup")

        self.c.add_generator(gen, provides=Sync, scope=Scope.REQUEST, lifetime=Lifetime.TRANSIENT)
        self.c.add_generator(agen, provides=Async, scope=Scope.REQUEST, lifetime=Lifetime.TRANSIENT, lock_mode=LockMode.NONE)
        self.root = Sc(self, 1, None, None)


class Sc:
    def __init__(self, box: Box, level: int, parent: "Sc | None", stag, binds: bool | None = None) -> None:
        self.box, self.level, self.parent = box, level, parent
        # what is obtained through a resolver context binds when entered, whatever its container does
        self.binds = box.bound if binds is None else binds
        self.stag = stag if stag is not None else (parent.stag if parent else None)
        self.obj = None
        self.toks: dict = {}

    def at(self, level: int) -> "Sc | None":
        s = self
        while s is not None and s.level > level:
            s = s.parent
        return s if s is not None and s.level == level else None


class W:
    def __init__(self, case) -> None:
        self.case, self.r = case, case.rng
        r = self.r
        self.fail: dict = {}
        self.broken: list = []  # what cleanups observed
        self.rcs = [ResolverContext() for _ in range(r.choice((1, 1, 2)))]
        self.boxes: list[Box] = []
        self.fallback: dict[int, Box | None] = {i: None for i in range(len(self.rcs))}
        self.fns = {}
        for i, rc in enumerate(self.rcs):
            for late in (False, True):
                if late:
                    for _ in range(r.choice((1, 1, 2))):
                        b = Box(self, len(self.boxes), rc, r.random() < 0.85)
                        self.boxes.append(b)
                        self.fallback[i] = b
                self.fns[i, late] = self.functions(rc)
            if r.random() < 0.3:
                b = r.choice([b for b in self.boxes if b.rc is rc])
                rc.set_fallback_container(b.c)
                self.fallback[i] = b
        self.deep = 0
        self.left = r.choice((20, 60, 60, 150))
        self.script: list = []
        self.stop = False

    def functions(self, rc):
        @rc.inject
        def shallow(cb, tag: Injected[CTag], st: Injected[Maybe[FromContext[STag]]]):
            return cb(tag, st, None)

        @rc.inject
        def deep(cb, tag: Injected[CTag], tok: Injected[Tok3], st: Injected[Maybe[FromContext[STag]]]):
            return cb(tag, st, tok)

        @rc.inject(scope=Scope.REQUEST)
        async def adeep(cb, tag: Injected[CTag], tok: Injected[Tok3], st: Injected[Maybe[FromContext[STag]]]):
            return await cb(tag, st, tok)

        return shallow, deep, adeep

    # ------------------------------------------------------------------ oracle
    def expect(self, i: int, stack) -> Sc | None:
        for s in reversed(stack):
            if s.box.rc is self.rcs[i]:
                return s
        b = self.fallback[i]
        return b.root if b is not None else None

    def tok(self, s: Sc, got, level: int, where: str) -> None:
        a = s.at(level)
        if a is None:
            raise Violation(f"{where}: a value of level {level} from a scope of level {s.level}")
        known = a.toks.setdefault(level, got)
        if known is not got:
            raise Violation(f"{where}: two objects for one scope: not the bound scope")

    def probe(self, stack, r: random.Random, where: str) -> None:
        for i, rc in enumerate(self.rcs):
            s = self.expect(i, stack)
            self.case.count("probes")
            w = f"{where} context {i} (stack {[(q.box.no, q.level) for q in stack]})"
            if s is None:
                try:
                    got = rc.resolve(CTag)
                except DIWireResolverNotSetError:
                    continue
                raise Violation(f"{w}: nothing is bound, got {got!r}")
            self.same(rc.resolve(CTag), s.box.tag, f"{w}: resolver of the wrong container")
            self.same(rc.resolve(Maybe[FromContext[STag]]), s.stag, f"{w}: resolver of the wrong scope")
            if s.at(3) is not None and r.random() < 0.5:
                self.tok(s, rc.resolve(Tok3), 3, w)
            b = s.box
            if b.bound and r.random() < 0.5:
                self.same(b.c.resolve(CTag), b.tag, f"{w}: container.resolve")
                self.same(b.c.resolve(Maybe[FromContext[STag]]), s.stag, f"{w}: container.resolve uses another scope")
                self.case.count("container_probes")
            if r.random() < 0.3:
                self.call(i, stack, r, w)

    async def aprobe(self, stack, r, where: str) -> None:
        for i, rc in enumerate(self.rcs):
            s = self.expect(i, stack)
            if s is None:
                continue
            self.same(await rc.aresolve(CTag), s.box.tag, f"{where}: aresolve: resolver of the wrong container")
            self.same(await rc.aresolve(Maybe[FromContext[STag]]), s.stag, f"{where}: aresolve: resolver of the wrong scope")
            self.case.count("async_probes")

    def same(self, got, want, text) -> None:
        if got is not want:
            raise Violation(f"{text}: got {got!r}, expected {want!r}")

    def usable(self, i: int, stack) -> bool:
        bound = any(s.box.rc is self.rcs[i] for s in stack)
        return bound or (self.fallback[i] is not None and self.fallback[i].bound)

    def call(self, i: int, stack, r, where: str) -> None:
        """A synchronous injected call, sometimes with an explicit resolver."""
        s = self.expect(i, stack)
        if self.fallback[i] is None:
            return
        shallow, deep, _ = self.fns[i, r.random() < 0.5]
        fn = r.choice((shallow, deep))
        kw = {}
        if r.random() < 0.25:
            pool = [q for q in stack if q.box.rc is self.rcs[i] and q.obj is not None] + [b.root for b in self.boxes if b.rc is self.rcs[i]]
            s = r.choice(pool)
            kw["diwire_resolver"] = s.obj if s.obj is not None else s.box.c.compile()
            self.case.count("explicit_calls")
        elif not self.usable(i, stack):
            try:
                fn(lambda *a: None)
            except DIWireResolverNotSetError:
                return
            raise Violation(f"{where}: injected call ran with nothing bound and no usable fallback")
        opens = fn is deep and s.level < 3
        inner = Sc(s.box, 3, s, None, s.binds) if opens else s
        if opens and r.random() < 0.5:
            inner.stag = STag()
            kw["diwire_context"] = {STag: inner.stag}

        def cb(tag, st, tok):
            self.case.count("bodies")
            self.same(tag, s.box.tag, f"{where}: injected from the wrong container")
            self.same(st, inner.stag, f"{where}: injected from the wrong scope")
            if tok is not None:
                self.tok(inner, tok, 3, where)
            sub = stack
            if opens and s.binds:
                sub = [*stack, inner]
            if r.random() < 0.6:
                self.quick(sub, f"{where} inside the call")
            if r.random() < 0.2:
                raise Oops("body")
            return self

        try:
            self.same(fn(cb, **kw), self, f"{where}: result")
        except Oops:
            pass
        self.quick(stack, f"{where} after the call")

    async def acall(self, i: int, stack, r, where: str) -> None:
        s = self.expect(i, stack)
        if not self.usable(i, stack):
            return
        fn = self.fns[i, r.random() < 0.5][2]
        opens = s.level < 3
        inner = Sc(s.box, 3, s, None, s.binds) if opens else s
        kw = {}
        if opens:
            inner.stag = STag()
            kw["diwire_context"] = {STag: inner.stag}

        async def cb(tag, st, tok):
            self.case.count("bodies")
            self.same(tag, s.box.tag, f"{where}: injected from the wrong container")
            self.same(st, inner.stag, f"{where}: injected from the wrong scope")
            self.tok(inner, tok, 3, where)
            sub = [*stack, inner] if opens and s.binds else stack
            for _ in range(r.randint(0, 3)):
                await self.pause(r)
                self.quick(sub, f"{where} inside the async call")
            if r.random() < 0.3:
                await self.child(sub, r, 2)
            LEAVING.set(sub)
            if r.random() < 0.2:
                raise Oops("body")
            return self

        try:
            self.same(await fn(cb, **kw), self, f"{where}: result")
        except Oops:
            pass
        self.quick(stack, f"{where} after the async call")

    def quick(self, stack, where: str) -> None:
        for i, rc in enumerate(self.rcs):
            s = self.expect(i, stack)
            if s is not None:
                self.case.count("probes")
                w = f"{where} context {i} (stack {[(q.box.no, q.level) for q in stack]})"
                self.same(rc.resolve(CTag), s.box.tag, f"{w}: resolver of the wrong container")
                self.same(rc.resolve(Maybe[FromContext[STag]]), s.stag, f"{w}: resolver of the wrong scope")

    def cleaning(self, where: str) -> None:
        stack = LEAVING.get()
        if stack is None:
            return
        self.case.count("cleanup_probes")
        try:
            self.quick(stack, where)
        except Violation as e:
            self.broken.append(e)

    async def pause(self, r) -> None:
        await asyncio.sleep(0 if r.random() < 0.8 else 0.0003)

    # ------------------------------------------------------------------ actors
    def pick(self, stack, r):
        """A resolver to enter: (model scope, context manager)."""
        i = r.randrange(len(self.rcs))
        cur = self.expect(i, stack)
        x = r.random()
        mine = [b for b in self.boxes if b.rc is self.rcs[i]]
        if x < 0.25 or cur is None:
            b = r.choice(mine)
            return b.root, (b.c if r.random() < 0.6 and self.container_enter_ok(b) else b.c.compile()), True
        st = STag() if r.random() < 0.7 else None
        kw = {"context": {STag: st}} if st is not None else {}
        base, via, binds = cur, self.rcs[i], True
        if x < 0.5:
            if cur.box.bound:
                via = cur.box.c
        elif x < 0.75 and any(q.box.rc is self.rcs[i] and q.obj is not None for q in stack):
            base = r.choice([q for q in stack if q.box.rc is self.rcs[i] and q.obj is not None])
            via = base.obj
            binds = base.binds
        elif x < 0.85:
            b = r.choice(mine)
            base, via, binds = b.root, b.c.compile(), b.bound
        if base.level >= 4:
            return None
        level = r.choice([q for q in LV if q > base.level and q < 5])
        obj = via.enter_scope(LV[level], **kw) if r.random() < 0.8 or NEXT[base.level] != level else via.enter_scope(**kw)
        chain = base
        if level >= 3 and base.level < 3 and level != 3:
            chain = Sc(base.box, 3, base, None)
        return Sc(base.box, level, chain, st, binds), obj, False

    def container_enter_ok(self, b: Box) -> bool:
        return True

    async def block(self, stack, r, depth: int) -> None:
        case = self.case
        for _ in range(r.randint(1, 4)):
            self.left -= 1
            if self.stop or self.left < 0:
                return
            self.probe(stack, r, "step")
            x = r.random()
            if x < 0.5 and depth < 5:
                got = self.pick(stack, r)
                if got is None:
                    continue
                s, cm, is_root = got
                self.script.append((s.box.no, s.level, depth))
                err = r.choice((None, None, Oops, KeyboardInterrupt, asyncio.CancelledError))
                arm = r.random() < 0.3
                use_async = r.random() < 0.4
                before = list(stack)
                inner_stack = [*stack, s] if s.binds else stack
                case.count("entered")
                if len(inner_stack) >= 2:
                    self.deep += 1
                try:
                    if use_async:
                        async with cm as obj:
                            await self.inside(s, obj, is_root, inner_stack, r, depth, arm, err, True)
                    else:
                        with cm as obj:
                            await self.inside(s, obj, is_root, inner_stack, r, depth, arm, err, False)
                except Oops:
                    case.count("left_by_error")
                except (KeyboardInterrupt, asyncio.CancelledError) as e:
                    if err is None or type(e) is not err:
                        raise
                    case.count("left_by_error")
                self.fail.pop(threading.get_ident(), None)
                self.quick(before, "after leaving")
            elif x < 0.62:
                await self.aprobe(stack, r, "step")
            elif x < 0.75:
                await self.acall(r.randrange(len(self.rcs)), stack, r, "call")
            elif x < 0.9 and depth < 3:
                await self.child(stack, r, depth + 1)
            else:
                await self.pause(r)

    async def inside(self, s, obj, is_root, stack, r, depth, arm, err, use_async) -> None:
        if is_root:
            if s.obj is None:
                s = s  # the root's model is shared: keep using compile() to name it
        else:
            s.obj = obj
        await self.pause(r)
        self.quick(stack, "after entering")
        if arm and s.at(3) is not None and not is_root:
            if use_async and s.level == 3 and r.random() < 0.5:
                await obj.aresolve(Async)
            else:
                obj.resolve(Sync)
        await self.block(stack, r, depth + 1)
        self.quick(stack, "before leaving")
        if arm:
            self.fail[threading.get_ident()] = True
        LEAVING.set(stack)
        if err is not None:
            raise err("leave")

    async def child(self, stack, r, depth) -> None:
        how = r.choice(("task", "task", "gather", "thread", "to_thread", "copy"))
        self.case.count("child_" + how)
        seeds = [r.random() for _ in range(r.randint(1, 3))]
        base = list(stack)
        if how == "task" or how == "gather":
            ts = [asyncio.ensure_future(self.block(base, random.Random(x), depth)) for x in seeds]
            while not all(t.done() for t in ts):
                await self.pause(r)
                self.quick(stack, "parent while children run")
            for t in ts:
                t.result()
        elif how == "copy":
            ctx = contextvars.copy_context()
            ctx.run(drive_probe, self, base, random.Random(seeds[0]))
            self.quick(stack, "after a copied context ran")
        elif how == "to_thread":
            await asyncio.to_thread(drive_probe, self, base, random.Random(seeds[0]))
        else:
            errors: list = []

            def main(x) -> None:
                try:
                    asyncio.run(self.block([], random.Random(x), depth))
                except BaseException as e:  # noqa: BLE001
                    errors.append(e)

            ts2 = [threading.Thread(target=main, args=(x,)) for x in seeds]
            for t in ts2:
                t.start()
            while any(t.is_alive() for t in ts2):
                await asyncio.sleep(0.0005)
                self.quick(stack, "parent while threads run")
            for t in ts2:
                t.join()
            for e in errors:
                raise e


def drive_probe(w: W, stack, r) -> None:
    """In another context that starts from a copy of the creator's: enter something, leave it."""
    w.quick(stack, "in a copied context")
    got = w.pick(stack, r)
    if got is None:
        return
    s, cm, is_root = got
    with cm as obj:
        if not is_root:
            s.obj = obj
        w.probe([*stack, s] if s.binds else stack, r, "in a copied context, entered")
    w.quick(stack, "in a copied context, left")
    if r.random() < 0.3:
        got = w.pick(stack, r)
        if got is not None:
            got[1].__enter__()  # left open in this context only: must not show anywhere else
            w.quick([*stack, got[0]] if got[0].binds else stack, "in a copied context, entered again")


def tree(case) -> None:
    w = W(case)
    case.describe = lambda: f"containers {[(b.no, w.rcs.index(b.rc), b.bound, b.strict) for b in w.boxes]} fallback {[(i, b and b.no) for i, b in w.fallback.items()]} script {w.script[-60:]}"
    seeds = [case.rng.random() for _ in range(case.rng.choice((1, 1, 2, 3)))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(case.rng.choice((1e-6, 1e-4)))
    errors: list = []

    def main(x) -> None:
        try:
            asyncio.run(w.block([], random.Random(x), 0))
        except BaseException as e:  # noqa: BLE001
            w.stop = True
            errors.append(e)

    try:
        ts = [threading.Thread(target=main, args=(x,), daemon=True) for x in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    errors.sort(key=lambda e: not isinstance(e, Violation))
    for e in [*w.broken, *errors]:
        raise e
    w.quick([], "at the end")
    case.nontrivial = w.deep > 0
    case.state(w.script)
    case.signature = f"{hash(repr(w.script)) & 0xFFFFFFFFFFFF:x}"
    if case.index < 2:
        case.sample = {"script": w.script[:30]}


PARTS = [Part("tree", tree, 1200, 15000)]
MINIMUM = {"probes": 50000, "entered": 3000, "bodies": 1000, "cleanup_probes": 300}
