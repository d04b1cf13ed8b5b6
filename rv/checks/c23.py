"""Independence: containers sharing classes and provider objects do not influence each other."""
from __future__ import annotations

from ..harness import Part
from ..opens import OpenWorld
from ..twins import build_case, race_case, twin_case

ID = "C23"
RULE = (
    "A case is two or three containers registering the same keys and provider objects differently, each taken through registrations, scopes, requests, failures and exits, "
    "in turns chosen at random; each is judged by its own reference semantics. It counts when two objects were built and four steps ran while another container was in use."
)
ASSUMPTIONS = ["scopes, handles and resolvers obtained before a registration are not used after a registration on the same container"]


def plain(case):
    twin_case(case)


def decorated(case):
    twin_case(case, {"deco": 0.4})


def deep(case):
    twin_case(case, {"levels": case.rng.choice(([1, 3], [1, 3, 4], [2, 4], [1, 2, 3, 4, 5])), "resources": 0.5, "handles": 0.2}, {"feasible": 0.6, "with": 0.6, "enter": 0.28})


def threads(case):
    """Each container in a thread of its own, from its construction on."""
    race_case(case)


def opens(case):
    """The same with open-generic and exact closed registrations; in turns or in threads."""
    world = {"nodes": (1, 4), "unbound": 0.2, "strict": 1.0}
    if case.rng.random() < 0.25:
        race_case(case, world, {}, OpenWorld)
    else:
        twin_case(case, world, {}, OpenWorld)


PARTS = [Part("threads", threads, 350, 14000), Part("builds", build_case, 250, 9000), Part("plain", plain, 600, 18000), Part("decorated", decorated, 400, 12000), Part("deep", deep, 400, 14000), Part("opens", opens, 400, 12000)]
MINIMUM = {"turns": 8000, "constructions": 4000}
