"""Long visits (js/props/w08.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 200, "thorough": 4000}
RULE = "a run counts when every round of use was undone and at least one act was possible in it; distinct by event history"
REQUIRED_PROBES = ["tooltip", "copy", "all", "menu"]
REQUIRED_FAULTS = []
