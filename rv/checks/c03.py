"""Scope safety and scope transitions."""
from __future__ import annotations

from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C03"
RULE = (
    "A case is a random graph, deliberately placed on wrong levels, plus a history of scope entries (valid and invalid) and requests; it counts when two objects were constructed."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def levels(case):
    world_case(
        case,
        {"nodes": (3, 9), "bad_level": 0.45, "resources": 0.15, "levels": case.rng.choice([None, [1, 2, 3, 4, 5], [2, 3], [1, 2, 4], [3, 5]])},
        {"enter": 0.3, "bad_enter": 0.25, "exit": 0.12, "fault": 0.04, "relfault": 0.0, "ops": (20, 60), "max_open": 8},
    )


def ladders(case):
    world_case(
        case,
        {"nodes": (2, 8), "bad_level": 0.25, "resources": 0.25, "ladder": 1.0},
        {"enter": 0.35, "bad_enter": 0.15, "exit": 0.15, "fault": 0.04, "relfault": 0.0, "ops": (20, 50), "max_open": 9},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "bad_level": 0.4, "resources": 0.15, "ladder": 0.5, "levels": case.rng.choice([None, [1, 2, 3, 4, 5], [2, 3], [3, 5]])},
        {"enter": 0.3, "bad_enter": 0.2, "exit": 0.12, "fault": 0.04, "relfault": 0.0, "ops": (15, 45), "max_open": 8},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"bad_level": 0.2, "ladder": 0.4}, {"enter": 0.3, "exit": 0.15})


PARTS = [Part("ladders", ladders, 1500, 16000), Part("levels", levels, 3600, 40000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"failed_DIWireScopeMismatchError": 2000, "enter_rejected": 500, "scopes_opened": 3000}
