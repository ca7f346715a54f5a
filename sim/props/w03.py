"""Keyboard navigation against the model (js/props/w03.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 300, "thorough": 8000}
RULE = "a run counts when a key moved the focus; distinct by event history"
REQUIRED_PROBES = ["j", "k", "h", "l", "H", "z", "collapse", "any-key", "burst"]
REQUIRED_FAULTS = []
