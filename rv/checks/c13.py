"""Injected functions."""
from __future__ import annotations

from ..harness import Part
from ..inject import InjectDriver, InjectPhases
from ..opens import open_case
from ..world import World
import re

ID = "C13"
RULE = (
    "A case is a random graph, random injection-wrapped functions (plain, methods, async; decorated before or after the registrations) and a history of scope "
    "changes and calls, nested up to three deep; it counts when a function body ran and two objects were constructed. Distinct = graph, functions and history."
)
ASSUMPTIONS = ["a skipped positional-only default before a later positional argument is outside the domain (BoundArguments cannot express it)"]


def _run(case, world, driver):
    w = World(case.rng, **{"ladder": 0.1, **world})
    d = InjectDriver(case, w, **driver)
    d.run()
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps, tuple(d.fsources))) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["bodies"] >= 1
    if case.index < 2:
        case.sample = {"graph": w.shape(), "functions": d.fsources[:3], "history": d.history[:20]}


def calls(case):
    _run(case, {"nodes": (2, 8), "unbound": 0.25, "eager": 0.05, "handles": 0.08}, {"call": 0.45, "fault": 0.05, "relfault": 0.03, "cancel": 0.0})


def deep(case):
    """Everything lives in deeper scopes and owns resources: calls must open and close them."""
    _run(
        case,
        {"nodes": (2, 7), "unbound": 0.15, "resources": 0.5, "levels": case.rng.choice([[3], [1, 3], [2, 4], [3, 5], [1, 2, 3, 4, 5]]), "handles": 0.05, "eager": 0.05},
        {"call": 0.6, "enter": 0.3, "fault": 0.08, "relfault": 0.1, "cancel": 0.0},
    )


class OpenInject(InjectDriver):
    def describe(self) -> str:
        return super().describe() + "\n" + self.w.describe_open()


def opens(case):
    """Functions that take closed keys of open-generic registrations."""
    open_case(case, {"unbound": 0.2, "eager": 0.05, "handles": 0.08}, {"call": 0.5, "fault": 0.05, "relfault": 0.03, "cancel": 0.0, "feasible": 0.3}, OpenInject)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["bodies"] >= 1


def changing(case):
    """Functions wrapped before later registrations move what they need to other scopes, or replace it."""
    w = World(case.rng, alts=True, nodes=(2, 6), open_wrapper=0.0, eager=0.05, unbound=0.15, ladder=0.1)
    d = InjectPhases(case, w, ops=(4, 14), call=0.6, cancel=0.0, fault=0.03, relfault=0.0, phases=(2, 4))
    d.run()
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps, tuple(d.fsources))) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["phases"] >= 2 and case.counts["bodies"] >= 2
    if case.index < 2:
        case.sample = {"graph": w.shape(), "functions": d.fsources[:3], "history": d.history[:20]}


PARTS = [Part("calls", calls, 1800, 30000), Part("deep", deep, 1500, 30000), Part("opens", opens, 800, 12000), Part("changing", changing, 800, 14000)]
MINIMUM = {"bodies": 3000, "calls_opened": 800}
