"""Registration histories: phases of registrations, compilations and requests on one container.

After each phase the container must behave exactly as the reference semantics of its latest
registrations says, whatever happened before.
"""
from __future__ import annotations

import asyncio
import copy
from typing import Any

from diwire.exceptions import DIWireError

from .harness import Violation
from .monitor import Driver, Monitor, MScope, drive
from .world import Node, World


class PhaseDriver(Driver):
    def __init__(self, case: Any, world: World, **knobs: Any) -> None:
        super().__init__(case, world, **{"phases": (2, 4), "between": (0, 6), "absent": 0.25, **knobs})
        for n in world.nodes:
            n.orig = copy.copy(n)
        self.todo = list(world.decos)

    # ------------------------------------------------------------------ changing the registrations
    def referenced(self) -> set[int]:
        """Nodes some registered provider cannot do without."""
        out: set[int] = set()
        for n in self.w.nodes:
            if n.absent:
                continue
            for p in n.params:
                if p.dep[0] in ("key", "meta", "provider", "aprovider"):
                    out.add(p.dep[1])
        return out

    def mutate(self, first: bool) -> list[int]:
        r, w = self.r, self.w
        dirty = set()
        if first:
            for n in reversed(w.nodes):
                if n.pid and not n.hidden and not n.concrete_key and r.random() < self.k["absent"] and n.pid not in self.referenced():
                    n.absent = True
            dirty = {n.pid for n in w.public if not n.absent}
        else:
            for n in w.public:
                if n.absent and r.random() < 0.5 and self.can_appear(n):
                    n.absent = False
                    w.sync(n.pid)
                    if w._toposort() is None:
                        n.absent = True
                        w.sync(n.pid)
                        continue
                    dirty.add(n.pid)
            for _ in range(r.randint(1, 4)):
                outer = r.choice(w.public)
                if outer.absent:
                    continue
                n = w.base_node(outer.pid)
                x = r.random()
                if x < 0.35 and n.lifetime != "I":
                    self.flip_alt(n)
                elif x < 0.6 and n.lifetime != "I":
                    n.lifetime = r.choice("ST")
                elif x < 0.85 and n.lifetime != "I":
                    self.relevel(n, outer)
                w.sync(outer.pid)
                dirty.add(outer.pid)
            if not dirty:
                dirty.add(r.choice([n.pid for n in w.public if not n.absent]))
        w.settle()
        return sorted(dirty)

    def can_appear(self, n: Node) -> bool:
        w = self.w
        layers = [n, *[w.nodes[q] for q in w.chain.get(n.pid, ())]]
        deps = [w.nodes[p.dep[1]] for m in layers for p in m.params if p.dep[0] in ("key", "meta", "provider", "aprovider")]
        return all(not d.absent for d in deps if not d.hidden)

    def flip_alt(self, n: Node) -> None:
        o = n.orig
        if n.alt:
            if not all(not self.w.nodes[p.dep[1]].absent for p in o.params if p.dep[0] in ("key", "meta", "provider", "aprovider")):
                return
            if not all(self.w.nodes[p.dep[1]].level <= n.level for p in o.params if p.dep[0] in ("provider", "aprovider")):
                return
            n.alt, n.form, n.params, n.eager, n.explicit = False, o.form, o.params, list(o.eager), o.explicit
            if self.w._toposort() is None or any(self.w._reaches_eager(p.dep[1], n.pid, set()) for p in n.params for e in n.eager if e[0] == p.name):
                n.alt, n.form, n.params, n.eager, n.explicit = True, "factory", [], [], False
        else:
            n.alt, n.form, n.params, n.eager, n.explicit = True, "factory", [], [], False

    def relevel(self, n: Node, outer: Node) -> None:
        w = self.w
        layers = [n, outer, *[w.nodes[q] for q in w.chain.get(outer.pid, ())]]
        low = max([1] + [w.nodes[p.dep[1]].level for m in layers for p in m.params if p.dep[0] in ("provider", "aprovider")])
        high = min([max(w.rungs)] + [m.level for m in w.nodes for p in m.params if p.dep[0] in ("provider", "aprovider") and p.dep[1] == outer.pid])
        pool = [x for x in w.levels if low <= x <= high]
        if pool:
            n.level = self.r.choice(pool)

    # ------------------------------------------------------------------ the registration history
    def between(self) -> None:
        """Something that must not matter: compile, resolve, open and leave a scope."""
        r, c = self.r, self.c
        x = r.random()
        try:
            if x < 0.4:
                self.log("  compile")
                c.compile()
            elif x < 0.75:
                pid = r.choice([n.pid for n in self.w.nodes if n.base >= 0])
                self.log(f"  resolve {pid}")
                c.resolve(self.w.key(pid))
            else:
                self.log("  scope")
                lvl = r.choice([x for x in self.w.ladder if x > 1] or [1])
                with c.enter_scope(self.w.ladder[lvl]) as s:
                    for _ in range(r.randint(0, 3)):
                        pid = r.choice([n.pid for n in self.w.nodes if n.base >= 0])
                        try:
                            s.resolve(self.w.key(pid))
                        except (DIWireError, AssertionError):
                            pass
        except (DIWireError, AssertionError) as e:
            self.log(f"    {type(e).__name__}")

    def decorate(self, chance: float) -> None:
        w = self.w
        while self.todo and self.r.random() < chance:
            d = self.todo.pop(0)
            if not w.decoratable(d):
                continue
            w.apply(d)
            self.log(f"  decorate {d.target} with {d.prov}")
            w.decorate(self.c, d)
            self.case.count("decorated")

    def register_phase(self, dirty: list[int], first: bool) -> None:
        r, w, c = self.r, self.w, self.c
        order = list(dirty)
        r.shuffle(order)
        if first:
            w.reg_order = []
        for pid in order:
            node = w.base_node(pid)
            for _ in range(r.choice((0, 0, 0, 1, 2))):
                x = r.random()
                if x < 0.4:
                    self.log(f"  junk {pid}")
                    w.junk(c, pid)
                elif x < 0.7 and node.lifetime != "I":
                    keep = (node.level, node.lifetime)
                    node.level, node.lifetime = r.choice(w.levels), r.choice("ST")
                    self.log(f"  register {pid} differently")
                    w.register(c, pid)
                    node.level, node.lifetime = keep
                elif node.lifetime != "I":
                    o, save = node.orig, (node.alt, node.form, node.params, node.eager, node.explicit)
                    if node.alt:
                        node.alt, node.form, node.params, node.eager, node.explicit = False, o.form, o.params, o.eager, o.explicit
                    else:
                        node.alt, node.form, node.params, node.eager, node.explicit = True, "factory", [], [], False
                    self.log(f"  register {pid} otherwise")
                    w.register(c, pid)
                    node.alt, node.form, node.params, node.eager, node.explicit = save
                if r.random() < 0.3:
                    self.between()
            self.decorate(0.2)
            w.register(c, pid)
            self.log(f"  register {pid} {node.lifetime}{node.level}{' alt' if node.alt else ''}")
            if pid in w.reg_order:
                w.reg_order.remove(pid)
            w.reg_order.append(pid)
            if r.random() < 0.25 and pid != order[-1]:
                self.between()
        self.decorate(0.4)
        if r.random() < 0.4:
            c.compile()
            self.log('  compile')
        self.case.count("registrations", len(order))

    def prepare(self) -> None:
        self.c = self.w.new_container()

    def registered(self) -> None:
        """Called when a phase's registrations are in force."""

    def run(self) -> None:
        w, r = self.w, self.r
        try:
            self.prepare()
            c = self.c
            w.open_wrapper = False
            use_loop = w.has_async and r.random() < self.k["loop"]
            for phase in range(r.randint(*self.k["phases"])):
                self.log(f"phase {phase}")
                self.c = c
                dirty = self.mutate(phase == 0)
                start = len(w.rt.log)
                w.rt.faults.clear()
                w.rt.rel_faults.clear()
                self.register_phase(dirty, phase == 0)
                self.registered()
                w.rt.pauses = True
                dropped = self.m.dropped
                self.m = Monitor(self.case, w)
                self.m.dropped |= dropped
                # values of superseded graphs: their resources belonged to resolvers that no longer serve
                self.m.dropped.update(e[1].uid for e in w.rt.log[start:] if e[0] == "acq")
                self.m.begin_slice()
                self.scopes = [self.m.root]
                self.with_mode = w.config["use_resolver_context"] and r.random() < self.k["with"]
                if use_loop:
                    asyncio.run(self._amain())
                else:
                    drive(self._amain())
                del self.m.handles[:]
                self.case.count("phases")
        finally:
            w.close()
