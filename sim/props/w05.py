"""Minimaps (js/props/w05.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare, shrink)

RUNS = {"quick": 600, "thorough": 16000}
RULE = "a run counts when a minimap followed the reader or the pointer; distinct by event history"
REQUIRED_PROBES = ["with-contents", "without-contents", "pointed", "focused", "followed-link", "toc-in-view", "floating", "followed"]
REQUIRED_FAULTS = []
