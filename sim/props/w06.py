"""Handrail menus against the model (js/props/w06.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 300, "thorough": 8000}
RULE = "a run counts when keys or pointer worked inside an open menu; distinct by event history"
REQUIRED_PROBES = ["dot", "dots", "arrow", "enter", "point", "click", "leave"]
REQUIRED_FAULTS = []
