"""Cleanup: every acquisition is released once, by its owner's exit, in reverse order."""
from __future__ import annotations

from ..known import registration_drops_root_cleanup
from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C04"
RULE = (
    "A case is a random resource-heavy graph plus a random history; it counts when two objects were constructed and one request succeeded. "
    "Every acquire/release event is matched against the owning scope's expected LIFO list."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def cleanup(case):
    world_case(
        case,
        {"nodes": (3, 10), "resources": 0.75, "async": 0.45, "async_p": 0.5},
        {"fault": 0.03, "relfault": 0.0, "cancel": 0.02, "ops": (12, 45), "body_exc": 0.15},
    )


def deep(case):
    """Resources on every level, scopes opened by jumps, so implicit levels own some."""
    world_case(
        case,
        {"nodes": (5, 12), "resources": 0.8, "levels": case.rng.choice([[1, 2, 3, 4, 5], [2, 4], [1, 3, 5], [3, 4, 5]]), "transient": 0.3},
        {"fault": 0.02, "relfault": 0.0, "ops": (12, 40), "body_exc": 0.1, "enter": 0.3},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "resources": 0.7, "async": 0.45, "async_p": 0.5, "levels": case.rng.choice([None, [1, 3], [1, 2, 3, 4, 5]])},
        {"fault": 0.03, "relfault": 0.0, "cancel": 0.02, "ops": (12, 40), "body_exc": 0.15, "enter": 0.2},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"resources": 0.6, "levels": case.rng.choice([None, [3], [1, 3], [2, 4], [3, 5]])}, {"call": 0.6, "enter": 0.25, "exit": 0.15})


PARTS = [Part("cleanup", cleanup, 2800, 34000), Part("deep", deep, 2000, 28000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"acquisitions": 4000, "releases": 4000, "scopes_closed": 2500}
KNOWN = {"registration_drops_root_cleanup": registration_drops_root_cleanup}
