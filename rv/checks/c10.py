"""Keys, components, All and Maybe."""
from __future__ import annotations

from ..known import optional_swallows_missing
from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case, phase_case

ID = "C10"
RULE = (
    "A case is a random graph in which many registrations share a base type under components, plus a history; it counts when two objects were constructed."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def keys(case):
    world_case(
        case,
        {"nodes": (4, 12), "comp": 0.65, "all": 0.3, "maybe": 0.25, "resources": 0.15, "handles": 0.06, "ctx": 0.05},
        {"fault": 0.05, "relfault": 0.0, "ops": (15, 45)},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 6), "comp": 0.5, "exacts": 0.5, "patterns": (3, 8), "resources": 0.1},
        {"fault": 0.03, "relfault": 0.0, "ops": (12, 40)},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"comp": 0.65, "all": 0.3, "maybe": 0.25}, {"fdeps": ("key", "key", "maybe", "maybe", "all", "meta", "plain")})


def changing(case):
    """The same while registrations are replaced, moved and added."""
    phase_case(case, {"comp": 0.65, "all": 0.35, "maybe": 0.25, "handles": 0.05, "ctx": 0.05}, {})


PARTS = [Part("keys", keys, 3600, 40000), Part("opens", opens, 600, 8000), Part("injected", injected, 1000, 14000), Part("changing", changing, 700, 12000)]
MINIMUM = {"constructions": 3000}
KNOWN = {"optional_swallows_missing": optional_swallows_missing}
