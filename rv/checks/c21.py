"""Generated pytest sessions with injected parameters."""
from __future__ import annotations

from typing import Any

import pytest  # noqa: F401  (imported before the workers fork)
import pytest_asyncio  # noqa: F401

from ..harness import Part
from ..plug import Session

ID = "C21"
RULE = (
    "A case is a generated pytest session of 1-3 modules: sync and async functions, methods, static and class methods, wrapped and inherited tests mixing injected parameters of every form with "
    "fixtures and parametrisation, under default and overridden container fixtures of every scope; the session runs in a child process that logs what each body received, each item's container and "
    "outcome, and a model of the generated tests says what must be there. It counts when at least three items ran and one value was injected."
)
ASSUMPTIONS = ["no xdist; pytest-asyncio in strict mode", "Injected parameters of fixtures and unittest methods are not generated"]


def sessions(case: Any) -> None:
    s = Session(case)
    s.run()
    case.signature = f"{hash(tuple(v.replace(s.tag, '') for v in s.files.values())) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["items"] >= 3 and case.counts["injected_values"] > 0
    if case.index < 2:
        case.sample = {"module": list(s.files.values())[-1][-1200:]}


PARTS = [Part("sessions", sessions, 260, 8000)]
MINIMUM = {"items": 2000, "injected_values": 2000, "expected_errors": 120}
