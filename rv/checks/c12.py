"""Provider handles: nothing runs before the call, and every call resolves where the holder was built."""
from __future__ import annotations

from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C12"
RULE = (
    "A case is a random graph with many handles plus a history that calls them later, elsewhere and repeatedly; it counts when two objects were constructed. "
    "Every handle call is matched against the scope its holder was built in."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def handles(case):
    world_case(
        case,
        {"nodes": (3, 9), "handles": 0.5, "eager": 0.3, "transient": 0.45, "levels": case.rng.choice([None, [1, 3], [1, 3, 4], [1, 2, 3, 4, 5]])},
        {"handle": 0.4, "fault": 0.05, "relfault": 0.01, "ops": (20, 60), "enter": 0.2, "exit": 0.1, "max_open": 8},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "handles": 0.4, "handles_open": 0.4, "transient": 0.45, "levels": case.rng.choice([None, [1, 3], [1, 3, 4], [1, 2, 3, 4, 5]])},
        {"handle": 0.4, "fault": 0.05, "relfault": 0.01, "ops": (15, 45), "enter": 0.2, "exit": 0.1, "max_open": 8},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"handles": 0.4}, {"handle": 0.3, "enter": 0.25, "exit": 0.12, "fdeps": ("key", "provider", "provider", "aprovider", "plain")})


PARTS = [Part("handles", handles, 3600, 44000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"handle_calls": 5000}
