"""Lifetimes: identity of scoped, transient and instance values over scope histories."""
from __future__ import annotations

from ..known import registration_replaces_root_values
from ..harness import Part
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case
from ..values import values_case

ID = "C02"
RULE = (
    "A case is a random graph plus a random history of opening, resolving in and closing scopes; it counts when two objects were constructed and one request succeeded. "
    "Every value handed out is matched against the cache of the scope that owns it."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def histories(case):
    world_case(
        case,
        {"nodes": (3, 9), "resources": 0.1, "transient": 0.4, "levels": case.rng.choice([None, [1, 3], [1, 2, 3, 4, 5], [3, 4], [2, 3]])},
        {"fault": 0.0, "relfault": 0.0, "cancel": 0.0, "ops": (25, 70), "enter": 0.2, "exit": 0.15, "max_open": 9, "body_exc": 0.1},
    )


def failures(case):
    world_case(case, {"resources": 0.2, "handles": 0.15}, {"fault": 0.15, "ops": (20, 50)})


def bare(case):
    """Graphs without resources or context: the shapes for which scope objects could be shared or recycled."""
    world_case(
        case,
        {"nodes": (2, 6), "resources": 0.0, "ctx": 0.0, "async": case.rng.choice([0.0, 0.0, 0.6]), "transient": case.rng.choice([0.2, 0.6, 1.0]), "handles": 0.25, "open_wrapper": 0.1},
        {"fault": 0.03, "relfault": 0.0, "ops": (20, 60), "ctx": 0.1, "enter": 0.25, "exit": 0.2, "max_open": 9, "handle": 0.2},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "resources": 0.1, "transient": 0.4, "levels": case.rng.choice([None, [1, 3], [1, 2, 3, 4, 5], [3, 4]])},
        {"fault": 0.04, "relfault": 0.0, "cancel": 0.0, "ops": (20, 50), "enter": 0.2, "exit": 0.15, "max_open": 9},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"transient": 0.35}, {"enter": 0.2, "exit": 0.1})


PARTS = [Part("histories", histories, 2800, 32000), Part("failures", failures, 1000, 14000), Part("bare", bare, 2000, 24000), Part("values", values_case, 1500, 20000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000)]
MINIMUM = {"constructions": 5000, "cache_hits": 1500, "scopes_opened": 3000}
KNOWN = {"registration_replaces_root_values": registration_replaces_root_values}
