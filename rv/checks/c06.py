"""Failed or cancelled constructions leave nothing behind."""
from __future__ import annotations

from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C06"
RULE = (
    "A case is a random graph plus a history with providers armed to fail and cancellations injected; it counts when two objects were constructed. "
    "After each failure the log is reconciled: completed scoped values stay, the failed one is built again by the next request."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def failing(case):
    world_case(
        case,
        {"nodes": (3, 10), "resources": 0.3, "async": 0.45},
        {"fault": 0.28, "relfault": 0.02, "cancel": 0.12, "ops": (20, 55), "enter": 0.15, "exit": 0.08},
    )


def cancelled(case):
    world_case(
        case,
        {"nodes": (3, 9), "resources": 0.4, "async": 1.0, "async_p": 0.8},
        {"fault": 0.1, "relfault": 0.02, "cancel": 0.4, "sync": 0.15, "ops": (20, 50), "enter": 0.15, "exit": 0.08},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "resources": 0.6, "async": 0.6, "async_p": 0.7, "ladder": 0.0},
        {"fault": 0.3, "relfault": 0.02, "cancel": 0.2, "ops": (20, 50), "enter": 0.15, "exit": 0.08},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"resources": 0.4}, {"fault": 0.3, "enter": 0.2, "exit": 0.1})


PARTS = [Part("failing", failing, 3200, 36000), Part("cancelled", cancelled, 2000, 24000), Part("opens", opens, 2600, 20000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"failed_fault": 1500, "constructions": 4000, "faults_armed": 1500}
