"""Release: what a closed scope held can be collected, and repeated work does not accumulate."""
from __future__ import annotations

from ..harness import Part
from ..release import inject_release, open_release, repeat_case, world_release

ID = "C22"
RULE = (
    "A case is a random graph plus a random history of scopes, requests, failures and cancellations, or one session repeated in fresh scopes, loops and threads; "
    "it counts when two objects were constructed and one scope was closed. Afterwards every recorded value is looked for through weak references."
)
ASSUMPTIONS = [
    "what the root scope owns (its scoped values and its resources) and what those refer to may stay alive; everything else must be collectable by one full garbage collection",
]

PARTS = [Part("scopes", world_release, 2000, 28000), Part("opens", open_release, 1000, 14000), Part("injected", inject_release, 1000, 14000), Part("repeat", repeat_case, 800, 11000)]
MINIMUM = {"values_released": 5000, "release_checks": 3000}
