"""Auto-registration registers exactly what the policies say."""
from __future__ import annotations

import re
from typing import Any

from ..known import failed_request_poisons, second_in_bound_scope
from ..auto import AutoConc, AutoDriver, AutoWorld
from ..conc import task_case, thread_case
from ..harness import Part

ID = "C19"
RULE = (
    "A case is a random set of classes over keys that may and may not be registered automatically, and a history of registrations, injected-callable declarations and requests on a container with "
    "random policies; a registry model says what is registered afterwards, at which scope and lifetime, and ordinary requests from every scope must agree with it, while refused requests raise and "
    "run nothing; concurrent cases let several threads or tasks ask for the same unregistered class first. It counts when something was registered automatically and two objects were built."
)
ASSUMPTIONS = [
    "a plain dependency with a declared default whose key is not registered is not generated",
    "handles and scopes obtained before a registration are not used after it (listed findings)",
]


def finish(case: Any, w: Any, d: Any) -> None:
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["auto_registered"] > 0
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:40]}


def histories(case: Any) -> None:
    w = AutoWorld(case.rng)
    d = AutoDriver(case, w)
    d.run()
    finish(case, w, d)


def threads(case: Any) -> None:
    thread_case(case, {"transient": 0.2, "ctx": 0.1}, {"actors": (2, 5), "ops": (0, 3)}, make=AutoWorld, conc=AutoConc)


def tasks(case: Any) -> None:
    task_case(case, {"transient": 0.2, "ctx": 0.1}, {"actors": (2, 5), "ops": (0, 3)}, make=AutoWorld, conc=AutoConc)


PARTS = [Part("histories", histories, 2500, 60000), Part("threads", threads, 400, 10000), Part("tasks", tasks, 400, 10000)]
MINIMUM = {"auto_registered": 1000, "resolved": 3000}
KNOWN = {"failed_request_poisons": failed_request_poisons, "second_in_bound_scope": second_in_bound_scope}
