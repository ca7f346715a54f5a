"""Tooltips (js/props/w07.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 350, "thorough": 8000}
RULE = "a run counts when a tooltip with content was opened; distinct by event history"
REQUIRED_PROBES = ["kind-section", "kind-span", "kind-a", "kind-li", "kind-table", "kind-figure", "kind-span.math", "kind-div.step", "kind-div.hr-labeled", "kind-div.bibitem", "kind-div.mathblock", "kind-div.abstract", "error", "key", "passed-by", "odd-label", "touch", "tap", "swipe", "dismiss-key-elsewhere", "dismiss-key-origin", "dismiss-pointer-origin", "dismiss-inside"]
REQUIRED_FAULTS = ["typeset-throws"]
