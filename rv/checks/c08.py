"""Threads: one shared object per scope, nothing of another thread's scope, no deadlock, nothing lost."""
from __future__ import annotations

from ..conc import thread_case
from ..harness import Part
from ..opens import OpenWorld, note

ID = "C08"
RULE = (
    "A case is a random synchronous graph and 2-6 threads running random scripts against shared and private scopes, started together, "
    "with preemption injected at random lines or instructions of the library; it counts when two objects were constructed and two requests succeeded. "
    "Distinct = graph, order of completed operations and order of provider runs."
)
ASSUMPTIONS = ["schedules are produced by CPython's scheduler plus injected sleeps; coverage of schedules is statistical"]


def shared(case):
    thread_case(case, {"nodes": (2, 7), "resources": 0.2, "ctx": 0.05, "transient": 0.25, "bad_level": 0.02})


def first(case):
    """Everyone asks for the same thing first, on a container nobody has used."""
    thread_case(case, {"nodes": (1, 4), "resources": 0.15, "transient": 0.15, "ctx": 0.0, "handles": 0.1, "bad_level": 0.0, "levels": [1]}, {"ops": (1, 3), "warm": 0.0, "hot": 0.9, "own": 0.2, "enter": 0.1, "actors": (2, 4), "shared": (0, 0)})


def isolated(case):
    """Private scopes only: nothing may cross."""
    thread_case(case, {"nodes": (2, 7), "ctx": 0.35, "resources": 0.3, "transient": 0.35}, {"enter": 0.4, "exit": 0.2, "own": 0.9, "ops": (6, 16), "ctx": 0.9, "handle": 0.15})


def failing(case):
    thread_case(case, {"nodes": (2, 6), "resources": 0.25, "transient": 0.2, "bad_level": 0.02}, {"faults": 0.35, "relfaults": 0.1, "actors": (2, 5)})


def generics(case):
    """Open registrations: one object per closed key and scope, whoever asks first."""
    d = thread_case(case, {"nodes": (1, 3), "resources": 0.2, "transient": 0.2, "ctx": 0.05, "bad_level": 0.02, "patterns": (1, 3), "wanted": (2, 4)}, {"actors": (2, 4), "ops": (2, 5), "warm": 0.0, "hot": 0.8, "own": 0.3}, make=OpenWorld)
    note(case, d.w)


def meet(case):
    """Threads that meet at random lines of the library while they ask a fresh container for the same closed key."""
    d = thread_case(
        case,
        {"nodes": (1, 2), "resources": 0.15, "transient": 0.05, "ctx": 0.0, "bad_level": 0.0, "levels": [1], "patterns": (2, 3), "wanted": (3, 4), "exacts": 0.1},
        {"actors": (2, 3), "ops": (1, 2), "warm": 0.0, "hot": 1.0, "hot_open": True, "own": 0.1, "enter": 0.05, "shared": (0, 0), "modes": ("meet", "whole", "whole", "whole", "op")},
        make=OpenWorld,
    )
    note(case, d.w)


PARTS = [Part("meet", meet, 1300, 28000), Part("generics", generics, 600, 10000), Part("shared", shared, 600, 12000), Part("first", first, 900, 20000), Part("isolated", isolated, 500, 10000), Part("failing", failing, 400, 8000)]
MINIMUM = {"resolved": 3000, "constructions": 3000, "preemptions": 500}
