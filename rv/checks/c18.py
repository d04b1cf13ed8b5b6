"""Open generics resolve to the best match with exact arguments."""
from __future__ import annotations

from typing import Any

from ..conc import task_case, thread_case
from ..harness import Part
from ..known import transient_open_deeper
from ..opens import OpenWorld, note, open_case, open_history

ID = "C18"
RULE = (
    "A case is a random set of open registrations (nested patterns, repeated, bounded and constrained type variables, components), exact closed registrations over the same keys and decorators of "
    "both, on top of an ordinary graph; closed keys are requested from every scope, directly and through dependencies, handles and optional parameters, and each value must come from the provider "
    "the match oracle names, with its type arguments, substituted dependencies, lifetime and cleanup. It counts when open registrations built at least one value and two objects were built."
)
ASSUMPTIONS = [
    "keys matched by incomparable patterns, or by equally shaped ones with different bounds, are not requested",
    "Any for bounded variables, and special forms and proper subclasses for constrained ones, are not requested",
    "transient open registrations are built in the scope they are registered for (a recorded finding where they need a deeper one)",
]


def graphs(case: Any) -> None:
    open_case(case, {}, {"ops": (10, 40)})


def histories(case: Any) -> None:
    open_history(case, {}, {})


def threads(case: Any) -> None:
    """One object per closed key and scope, whoever asks first."""
    d = thread_case(case, {"nodes": (1, 4), "resources": 0.2, "transient": 0.25, "ctx": 0.1, "bad_level": 0.02, "patterns": (1, 4), "wanted": (2, 5)}, {"actors": (2, 4), "ops": (2, 6)}, make=OpenWorld)
    note(case, d.w)


def tasks(case: Any) -> None:
    d = task_case(case, {"nodes": (1, 4), "resources": 0.2, "transient": 0.25, "ctx": 0.1, "bad_level": 0.02, "patterns": (1, 4), "wanted": (2, 5)}, {"actors": (2, 4), "ops": (2, 6)}, make=OpenWorld)
    note(case, d.w)


PARTS = [Part("graphs", graphs, 1500, 40000), Part("histories", histories, 1000, 30000), Part("threads", threads, 400, 10000), Part("tasks", tasks, 400, 10000)]
MINIMUM = {"closed_keys_built": 2000, "resolved": 5000}
KNOWN = {"transient_open_deeper": transient_open_deeper}
