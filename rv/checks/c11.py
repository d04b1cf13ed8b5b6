"""Context values come from the nearest enclosing scope of the place where the consumer is built."""
from __future__ import annotations

from ..harness import Part
from ..known import context_default_factory
from ..monitor import world_case
from ..opens import open_case
from ..parts import inject_case

ID = "C11"
RULE = (
    "A case is a random graph with many context parameters plus a history whose scopes carry random context maps; it counts when two objects were constructed. "
    "Every context value received is compared with the nearest enclosing scope's, by identity."
)
ASSUMPTIONS = [
    "providers, keys and histories are drawn from rv/world.py and rv/monitor.py; combinations listed as out of domain in DESIGN.md are not generated",
]


def nearest(case):
    world_case(
        case,
        {"nodes": (3, 9), "ctx": 0.5, "handles": 0.1, "transient": 0.5, "maybe": 0.05},
        {"ctx": 0.8, "enter": 0.28, "exit": 0.15, "fault": 0.03, "relfault": 0.0, "ops": (20, 60), "max_open": 8},
    )


def opens(case):
    """The same over open-generic registrations."""
    open_case(
        case,
        {"nodes": (1, 5), "ctx": 0.5, "handles": 0.1, "transient": 0.5},
        {"ctx": 0.8, "enter": 0.28, "exit": 0.15, "fault": 0.03, "relfault": 0.0, "ops": (15, 45), "max_open": 8},
    )


def injected(case):
    """The same for the scopes and requests of injected calls."""
    inject_case(case, {"ctx": 0.5, "transient": 0.5}, {"ctx": 0.8, "enter": 0.25, "exit": 0.15, "fdeps": ("key", "key", "ctx", "mctx", "plain", "provider")})


def bare(case):
    """Graphs without resources: the shapes for which scope objects could be shared or recycled."""
    world_case(
        case,
        {"nodes": (1, 4), "resources": 0.0, "ctx": case.rng.choice([0.0, 0.3]), "async": 0.0, "transient": case.rng.choice([0.5, 1.0]), "handles": 0.0, "open_wrapper": 0.1},
        {"ctx": 0.5, "enter": 0.3, "exit": 0.2, "fault": 0.0, "relfault": 0.0, "ops": (15, 40), "max_open": 8, "ask_ctx": 0.5},
    )


PARTS = [Part("nearest", nearest, 3600, 44000), Part("opens", opens, 700, 10000), Part("injected", injected, 1000, 14000), Part("bare", bare, 1500, 20000)]
MINIMUM = {"constructions": 3000, "scopes_opened": 3000}
KNOWN = {"context_default_factory": context_default_factory}
