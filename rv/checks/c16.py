"""Rejected registration calls change nothing."""
from __future__ import annotations

import re
from typing import Any

from diwire.exceptions import DIWireError

from ..chains import chain_case
from ..harness import Part
from ..monitor import Driver
from ..phases import PhaseDriver
from ..opens import open_case
from ..reject import OpenRejector, Rejector
from ..world import World

ID = "C16"
RULE = (
    "A case is one container whose registrations are interleaved with invalid registration, decoration and injection calls of about twenty kinds; every call must be rejected and "
    "everything after it is judged against the reference semantics of the accepted registrations alone. It counts when at least two calls were rejected and two objects were built."
)
ASSUMPTIONS = ["scopes opened before a rejected call stay valid; after an accepted one they are not used"]


def finish(case, w, d):
    steps = re.sub(r"S\d+@", "@", "\n".join(d.history))
    case.signature = f"{hash((w.shape(), steps)) & 0xFFFFFFFFFFFF:x}"
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["rejected"] >= 2
    if case.index < 2:
        case.sample = {"graph": w.shape(), "config": repr(w.config), "history": d.history[:40]}


class Steps(Driver):
    """Rejected calls between, and during, the requests and scopes of one graph."""

    rej: Rejector | None = None
    make = Rejector

    def started(self) -> Rejector:
        if self.rej is None:
            self.rej = self.make(self.case, self.w, self.c, self.log)
            if self.w.config["use_resolver_context"]:
                self.w.ctx_obj.set_fallback_container(self.c)
                for _ in range(self.r.randint(0, 2)):
                    self.rej.sign_contract()
        return self.rej

    async def step(self) -> None:
        rej = self.started()
        if self.r.random() < 0.35:
            rej.attempt()
        elif self.r.random() < 0.12:
            rej.probe()
        else:
            await super().step()


class History(PhaseDriver):
    """Rejected calls between the registrations of a changing graph."""

    rej: Rejector

    def between(self) -> None:
        for _ in range(self.r.randint(1, 3)):
            self.rej.attempt()
        if self.r.random() < 0.4:
            super().between()

    def register_phase(self, dirty: list[int], first: bool) -> None:
        if first:
            self.rej = Rejector(self.case, self.w, self.c, self.log)
            self.w.ctx_obj.set_fallback_container(self.c)
        self.rej.settled = False
        super().register_phase(dirty, first)
        self.rej.settled = True
        for _ in range(self.r.randint(0, 2)):
            self.rej.attempt()

    async def step(self) -> None:
        if self.r.random() < 0.15:
            self.rej.attempt()
        elif self.r.random() < 0.1:
            self.rej.probe()
        else:
            await super().step()


def steps(case):
    w = World(case.rng, nodes=(2, 8), open_wrapper=0.25)
    d = Steps(case, w, ops=(10, 40), cancel=0.0, fault=0.04)
    d.run()
    finish(case, w, d)


def history(case):
    w = World(case.rng, alts=True, nodes=(3, 7), open_wrapper=0.0, eager=0.05, unbound=0.0)
    d = History(case, w, ops=(4, 14), cancel=0.0, fault=0.03, relfault=0.0, phases=(2, 3))
    d.run()
    finish(case, w, d)


class OpenSteps(Steps):
    make = OpenRejector

    def describe(self) -> str:
        return super().describe() + "\n" + self.w.describe_open()


def opens(case):
    """Rejected calls about open registrations, and around them."""
    open_case(case, {"nodes": (1, 5), "open_wrapper": 0.0, "layers": 0.15, "patterns": (2, 5), "wanted": (3, 6)}, {"ops": (10, 36), "cancel": 0.0, "fault": 0.03}, OpenSteps)
    case.nontrivial = case.counts["constructions"] >= 2 and case.counts["rejected"] >= 2


PARTS = [Part("steps", steps, 1800, 40000), Part("history", history, 700, 16000), Part("opens", opens, 900, 16000), Part("chains", chain_case, 1800, 40000)]
MINIMUM = {"rejected": 4000, "probes": 500, "resolved": 3000}
