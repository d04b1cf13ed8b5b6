"""Scope exit under failing cleanups, failing bodies and cancellation."""
from __future__ import annotations

from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C05"
RULE = (
    "A case is a random resource-heavy graph plus a history with armed cleanup failures and body exceptions; it counts when two objects were constructed. "
    "Each exit is judged on the release events, the exception each release saw and the exception that came out."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def failing_cleanup(case):
    world_case(
        case,
        {"nodes": (3, 10), "resources": 0.8, "async": 0.5},
        {"fault": 0.02, "relfault": 0.25, "cancel": 0.02, "ops": (12, 45), "body_exc": 0.3, "enter": 0.25, "exit": 0.17},
    )


def jumps(case):
    world_case(
        case,
        {"nodes": (4, 10), "resources": 0.85, "levels": case.rng.choice([[1, 2, 3, 4, 5], [2, 4], [3, 4], [1, 3, 4]]), "async": 0.35, "open_wrapper": 0.4},
        {"fault": 0.0, "relfault": 0.3, "ops": (12, 36), "body_exc": 0.3, "enter": 0.28, "exit": 0.2, "bad_enter": 0.0},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "resources": 0.8, "async": 0.45, "levels": case.rng.choice([None, [1, 2, 3, 4, 5], [2, 4], [3, 4]]), "open_wrapper": 0.3},
        {"fault": 0.0, "relfault": 0.14, "cancel": 0.02, "ops": (15, 45), "body_exc": 0.3, "enter": 0.2, "exit": 0.15},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"resources": 0.7, "levels": case.rng.choice([None, [3], [1, 3], [2, 4], [3, 5]])}, {"call": 0.6, "relfault": 0.4, "enter": 0.25, "exit": 0.15})


PARTS = [Part("failing_cleanup", failing_cleanup, 3200, 36000), Part("jumps", jumps, 2400, 28000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"releases": 4000, "exit_errors": 300, "scopes_closed": 3000}
