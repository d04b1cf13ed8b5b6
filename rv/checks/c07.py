"""Synchronous and asynchronous resolution agree; nothing asynchronous leaks into synchronous requests."""
from __future__ import annotations

from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C07"
RULE = (
    "A case is a random graph resolved through both interfaces in one history; it counts when two objects were constructed."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def mixed(case):
    world_case(
        case,
        {"nodes": (3, 10), "async": case.rng.choice([0.0, 1.0, 1.0]), "async_p": case.rng.choice([0.15, 0.4, 0.8])},
        {"sync": 0.5, "fault": 0.04, "relfault": 0.01, "cancel": 0.05, "ops": (20, 50), "loop": 0.4},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "async": case.rng.choice([0.0, 1.0, 1.0]), "async_p": case.rng.choice([0.15, 0.4, 0.8])},
        {"sync": 0.5, "fault": 0.04, "relfault": 0.01, "cancel": 0.05, "ops": (20, 45), "loop": 0.4},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"async": 0.7, "async_p": 0.4}, {"fault": 0.02})


PARTS = [Part("mixed", mixed, 4000, 44000), Part("opens", opens, 800, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"resolved": 3000, "failed_DIWireAsyncDependencyInSyncContextError": 1500}
