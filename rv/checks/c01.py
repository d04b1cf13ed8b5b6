"""Wiring: every constructed value's arguments are re-derived from the registrations."""
from __future__ import annotations

from ..known import star_after_omitted
from ..harness import Part
from ..monitor import world_case
from ..opens import open_case

ID = "C01"
RULE = (
    "A case is a random graph of providers plus a random history; it counts when at least two objects were constructed and one request succeeded. "
    "Distinct = graph shape and history (operations, answers) both hashed."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def mixed(case):
    world_case(case)


def wide(case):
    """Bigger graphs, signatures of every kind, no failures: breadth of wiring."""
    world_case(
        case,
        {"nodes": (8, 20), "bad_level": 0.01, "maybe": 0.2, "ctx": 0.15, "handles": 0.15, "comp": 0.35},
        {"fault": 0.0, "relfault": 0.0, "cancel": 0.0, "ops": (10, 30), "ctx": 0.9, "body_exc": 0.05},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "patterns": (3, 8), "bad_level": 0.01, "resources": 0.15, "ctx": 0.15},
        {"fault": 0.0, "relfault": 0.0, "cancel": 0.0, "ops": (10, 30), "ctx": 0.8},
    )


PARTS = [Part("mixed", mixed, 3600, 52000), Part("wide", wide, 2000, 24000), Part("opens", opens, 700, 10000)]
MINIMUM = {"constructions": 5000, "param_PO": 200, "param_VP": 100, "param_VK": 60, "param_KO": 400, "resolved": 3000}
KNOWN = {"star_after_omitted": star_after_omitted}
