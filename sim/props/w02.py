"""Collapsing and expanding against the model (js/props/w02.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 300, "thorough": 8000}
RULE = "a run counts when two or more handrails were closed at once; distinct by event history"
REQUIRED_PROBES = ["icon", "item", "all", "disabled", "key-toggle", "key-toggle-all", "enter", "nested-closed"]
REQUIRED_FAULTS = []
