"""Only the latest registrations matter."""
from __future__ import annotations

import re

from ..known import strict_compiled_on_missing
from ..harness import Part
from ..opens import open_history
from ..phases import PhaseDriver
from ..world import World

ID = "C15"
RULE = (
    "A case is one container taken through 2-4 phases; each phase re-registers, overrides, re-levels or adds keys, interleaved with compilations, requests and scopes, "
    "and is then exercised against the reference semantics of its latest registrations alone. It counts when two phases constructed objects."
)
ASSUMPTIONS = ["scopes, handles and resolvers obtained before a registration are not used after it"]


def phases(case):
    r = case.rng
    w = World(r, alts=True, nodes=(3, 8), open_wrapper=0.0, eager=0.05, strict=0.6)
    d = PhaseDriver(case, w, ops=(5, 18), cancel=0.0, fault=0.04, relfault=0.0)
    d.run()
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["phases"] >= 2
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:40]}


def opens(case):
    """The same with open-generic and exact closed registrations added and replaced."""
    open_history(case, {"layers": 0.05}, {})


PARTS = [Part("phases", phases, 1500, 30000), Part("opens", opens, 700, 12000)]
MINIMUM = {"phases": 3000, "resolved": 5000}
KNOWN = {"strict_compiled_on_missing": strict_compiled_on_missing}
