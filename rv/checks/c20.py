"""Broken graphs fail cleanly, repaired ones work."""
from __future__ import annotations

from typing import Any

from ..known import open_missing_late
from ..cycles import net_case
from ..harness import Part

ID = "C20"
RULE = (
    "A case is a random dependency graph of 2-60 keys with random back edges and holes (through plain, annotated, optional, collected and handle dependencies, decorators, components, all provider "
    "forms and scopes), and a history of registrations, re-registrations, decorations and requests of every kind; a reachability model says whether each request must fail with which error, in which "
    "case the execution log must be empty, or must give the right value. It counts when a request met a hole or a cycle and a request succeeded."
)
ASSUMPTIONS = [
    "requests whose own graph is intact may fail with the same two errors while another registered provider is broken",
    "closed providers do not depend on closed keys that only an open registration serves",
]


def graphs(case: Any) -> None:
    net_case(case)


def automatic(case: Any) -> None:
    net_case(case, auto=True)


def opens(case: Any) -> None:
    net_case(case, opens=True)


PARTS = [Part("graphs", graphs, 1500, 30000, cpu_s=30), Part("automatic", automatic, 800, 16000, cpu_s=30), Part("opens", opens, 800, 16000, cpu_s=30)]
MINIMUM = {"cycle_requests": 1000, "missing_requests": 1000, "succeeded": 2000, "recovered": 150}
KNOWN = {"open_missing_late": open_missing_late}
