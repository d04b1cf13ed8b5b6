"""Decorators wrap the current provider in order, once each."""
from __future__ import annotations

import re
from typing import Any

from ..chains import chain_case
from ..harness import Part
from ..conc import task_case, thread_case
from ..monitor import Driver
from ..opens import open_history
from ..phases import PhaseDriver
from ..world import World

ID = "C17"
RULE = (
    "A case is a random graph in which about half the keys carry one to three decorators (classes, factories, coroutines, partials; inner parameter inferred or named), applied before, between "
    "and after registrations, re-registrations, compilations and requests; every value must be the registered provider's, wrapped by every decorator in order, each run once. It counts when "
    "decorated values were matched and two objects built."
)
ASSUMPTIONS = ["the position of a decorated key inside All[...] is not specified", "scopes opened before a registration are not used after it"]


def finish(case: Any, w: World, d: Driver) -> None:
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    layers = [e[1].pid for e in w.rt.log if e[0] == "made" and e[1].pid in w.chain]
    case.count("layers", len(layers))
    case.count("decorators", len(w.applied))
    case.nontrivial = case.counts["constructions"] >= 2 and bool(layers)
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:40]}


def graphs(case: Any) -> None:
    w = World(case.rng, nodes=(2, 7), deco=0.5)
    d = Driver(case, w, ops=(8, 34))
    d.run()
    finish(case, w, d)


def histories(case: Any) -> None:
    w = World(case.rng, alts=True, nodes=(2, 6), deco=0.6, open_wrapper=0.1, eager=0.05, unbound=0.2)
    d = PhaseDriver(case, w, ops=(4, 14), cancel=0.02, fault=0.04, relfault=0.0, phases=(2, 4))
    d.run()
    finish(case, w, d)


def concurrent(case: Any, d: Any) -> None:
    w = d.w
    case.signature = f"{hash((w.shape(), tuple(map(repr, d.ops)))) & 0xFFFFFFFFFFFF:x}"
    layers = [e[1].pid for e in w.rt.log if e[0] == "made" and e[1].pid in w.chain]
    case.count("concurrent_layers", len(layers))
    case.nontrivial = len(layers) > 0 and case.counts["constructions"] >= 2


def threads(case: Any) -> None:
    concurrent(case, thread_case(case, {"deco": 0.6, "nodes": (1, 5), "resources": 0.15, "transient": 0.2, "bad_level": 0.0}, {"warm": 0.0, "hot": 0.8, "ops": (2, 6)}))


def tasks(case: Any) -> None:
    concurrent(case, task_case(case, {"deco": 0.6, "nodes": (1, 5), "resources": 0.15, "transient": 0.2, "bad_level": 0.0}, {"hot": 0.8, "ops": (2, 6)}))


def opens(case: Any) -> None:
    """Decorated open-generic registrations, replaced and decorated further."""
    open_history(case, {"layers": 0.6}, {})


PARTS = [Part("graphs", graphs, 1500, 40000), Part("histories", histories, 1200, 30000), Part("threads", threads, 500, 10000), Part("tasks", tasks, 500, 10000), Part("opens", opens, 800, 12000), Part("chains", chain_case, 700, 16000)]
MINIMUM = {"layers": 2500, "resolved": 5000, "concurrent_layers": 800}
