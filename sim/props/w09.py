"""Several manuscripts in one page, each against the same manuscript on a page of its own (js/props/w09.mjs)."""
from sim.web import (ASSUMPTIONS, BACKEND, COMPONENTS as PAGE, HANG_IS_VIOLATION, LEVEL, SHRINK_BUDGET_S,  # noqa: F401
                     SHRINK_FIELDS, STATE_MEASURE, prepare)
from sim import web

RUNS = {"quick": 150, "thorough": 5000}
RULE = "a run counts when at least one act reached a manuscript; distinct by event history"
REQUIRED_PROBES = ["docs", "own", "icon", "item", "keys", "tooltip", "edit", "several-changed"]
REQUIRED_FAULTS = ["load-failure", "load-delay"]
COMPONENTS = dict(PAGE, real=PAGE["real"] + ["docs/source/rsm_directive.py (RSMDirective.run, the visitors, add_rsm_static_files)", "docs/source/_static/openlive.js"],
                  stub=PAGE["stub"] + ["docutils, the Sphinx application and theme (they call the directive and put what it returns into a page with jQuery)"])


def shrink(plan):
    """Fewer and smaller manuscripts, then simpler environments."""
    page = plan.get("page", {})
    docs = page.get("docs")
    if docs:
        for i in range(len(docs)):
            if len(docs) > 1:
                yield dict(plan, page=dict(page, docs=docs[:i] + docs[i + 1:]))
        for i, d in enumerate(docs):
            for j in range(len(d["blocks"])):
                yield dict(plan, page=dict(page, docs=docs[:i] + [dict(d, blocks=d["blocks"][:j] + d["blocks"][j + 1:])] + docs[i + 1:]))
    for p in web.shrink(plan):
        yield p
    for i, a in enumerate(plan.get("acts") or []):
        if docs and a.get("w", 0) >= len(docs):
            yield dict(plan, acts=plan["acts"][:i] + [dict(a, w=a["w"] % len(docs))] + plan["acts"][i + 1:])
