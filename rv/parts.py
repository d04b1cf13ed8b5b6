"""Cases shared by several checks: injected calls and changing registrations, biased by knobs."""
from __future__ import annotations

import re
from typing import Any

from .harness import Case
from .inject import InjectDriver
from .monitor import Driver
from .phases import PhaseDriver
from .world import World


def sign(case: Case, w: World, d: Driver, *more: Any) -> None:
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps, *more)) & 0xFFFFFFFFFFFF:x}"
    if case.index < 2:
        case.sample = {"graph": w.shape(), "functions": getattr(d, "fsources", [])[:3], "history": d.history[:20]}


def inject_case(case: Case, world: dict[str, Any], driver: dict[str, Any]) -> None:
    """Random injected functions over a random graph: calls, nested calls, scopes around them."""
    w = World(case.rng, **{"nodes": (2, 7), "ladder": 0.1, "unbound": 0.2, "eager": 0.05, "handles": 0.08, **world})
    d = InjectDriver(case, w, **{"call": 0.5, "fault": 0.05, "relfault": 0.03, "cancel": 0.0, **driver})
    d.run()
    sign(case, w, d, tuple(d.fsources))
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["bodies"] >= 1


def phase_case(case: Case, world: dict[str, Any], driver: dict[str, Any]) -> None:
    """One container whose registrations change between stretches of requests."""
    w = World(case.rng, alts=True, **{"nodes": (3, 8), "open_wrapper": 0.0, "eager": 0.05, **world})
    d = PhaseDriver(case, w, **{"ops": (5, 18), "cancel": 0.0, "fault": 0.04, "relfault": 0.0, **driver})
    d.run()
    sign(case, w, d)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["phases"] >= 2
