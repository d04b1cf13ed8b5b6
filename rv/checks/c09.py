"""Asyncio: one shared object per scope across tasks, hand-over on failure and cancellation, several loops."""
from __future__ import annotations

from ..conc import task_case
from ..harness import Part
from ..opens import OpenWorld, note

ID = "C09"
RULE = (
    "A case is a random mostly asynchronous graph and 2-6 tasks running random scripts against shared and private scopes with random suspensions, "
    "failures and cancellations, in one or several event loops; it counts when two objects were constructed and two requests succeeded. "
    "Distinct = graph, order of completed operations and order of provider runs."
)
ASSUMPTIONS = ["bounded progress: a request must finish within 20000 turns of the event loop once every other task has stopped"]


def shared(case):
    task_case(case, {"nodes": (2, 7), "resources": 0.25, "ctx": 0.05, "transient": 0.25, "bad_level": 0.02})


def isolated(case):
    task_case(case, {"nodes": (2, 7), "ctx": 0.35, "resources": 0.3, "transient": 0.35}, {"enter": 0.4, "exit": 0.2, "own": 0.9, "ops": (6, 16), "ctx": 0.9, "handle": 0.15})


def failing(case):
    task_case(case, {"nodes": (2, 6), "resources": 0.25, "transient": 0.2, "bad_level": 0.02}, {"faults": 0.4, "relfaults": 0.1, "actors": (2, 6)})


def cancelled(case):
    task_case(case, {"nodes": (2, 6), "resources": 0.25, "transient": 0.2, "bad_level": 0.02}, {"cancel": case.rng.choice((0.05, 0.15, 0.4)), "faults": 0.1, "actors": (3, 7)})


def loops(case):
    # a loop closes the async generators it started when it stops, so cross-loop resources are context managers
    task_case(case, {"agen": False, "nodes": (2, 6), "resources": 0.2, "transient": 0.25, "bad_level": 0.02}, {"faults": 0.1, "cancel": case.rng.choice((0.0, 0.1)), "shared": (0, 1)}, loops=(2, 4))


def generics(case):
    """Open registrations: one object per closed key and scope; failures and cancellations hand over."""
    knobs = {"actors": (2, 5), "ops": (2, 5), "hot": 0.8, "own": 0.3}
    if case.rng.random() < 0.5:
        knobs["cancel"] = case.rng.choice((0.05, 0.2))
    if case.rng.random() < 0.5:
        knobs["faults"] = 0.3
    d = task_case(case, {"nodes": (1, 3), "resources": 0.2, "transient": 0.2, "ctx": 0.05, "bad_level": 0.02, "patterns": (1, 3), "wanted": (2, 4)}, knobs, make=OpenWorld)
    note(case, d.w)


PARTS = [
    Part("generics", generics, 700, 14000),
    Part("shared", shared, 1000, 20000),
    Part("isolated", isolated, 700, 14000),
    Part("failing", failing, 700, 14000),
    Part("cancelled", cancelled, 1000, 20000),
    Part("loops", loops, 600, 12000),
]
MINIMUM = {"resolved": 4000, "constructions": 4000, "cancellations": 500}
