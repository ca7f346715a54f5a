"""Page start-up under load failures and delays (js/props/w01.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 900, "thorough": 20000}
RULE = "a run counts when at least one file of the page failed or was delayed; distinct by event history"
REQUIRED_PROBES = ["icons-down", "handrails-down", "keyboard-down", "minimap-down", "tooltips-down", "math-down", "pseudo-down", "toggled", "j", "minimap", "algorithms", "refs"]
REQUIRED_FAULTS = ["load-failure", "load-delay", "typeset-throws", "bad-algorithm"]
