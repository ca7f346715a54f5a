"""Copy link and notifications (js/props/w04.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 500, "thorough": 12000}
RULE = "a run counts when a link was copied or refused; distinct by event history"
REQUIRED_PROBES = ["copied", "refused", "enter", "disabled", "dismiss", "fragment"]
REQUIRED_FAULTS = ["clipboard-absent", "clipboard-reject", "clipboard-throw"]
