"""Shared parts of the page simulations, whose runs execute in js/worker.mjs under node."""
import sys

BACKEND = "node"
LEVEL = "exploration"
PY = "/opt/venv/bin/python"
HANG_IS_VIOLATION = True
SHRINK_FIELDS = ["acts", "net"]
SHRINK_BUDGET_S = 60
STATE_MEASURE = "distinct (page, page state) digests reached: see js/props for what each property puts in the digest"
COMPONENTS = {
    "real": ["rsm pipeline producing the page (parser, transformer, HandrailsTranslator, builder)", "rsm/static/onload.js, libraries.js, icons.js, handrails.js, keyboard.js, minimap.js, tooltips.js",
             "rsm/static/jquery-3.6.0.js, tooltipster.bundle.js", "rsm/static/rsm.css (display, visibility, position and flex-direction rules)"],
    "simulated": ["browser: DOM, selectors, events, focus, event loop, timers, module loader (js/dom.mjs, js/selector.mjs, js/page.mjs)", "layout: deterministic block model", "network, clipboard, pointer, keyboard, window size, clock"],
    "stub": ["MathJax and pseudocode.js, which the page loads from a CDN"],
}
ASSUMPTIONS = [
    "the simulated browser follows the HTML, DOM, UI Events and CSSOM View standards for what the scripts use",
    "layout is a simple deterministic block model, so pixel positions are consistent but not those of a real browser",
    "MathJax and pseudocode.js are stand-ins with the documented interface",
]


def prepare():
    return PY


def shrink(plan):
    """Smaller pages and simpler environments."""
    page = plan.get("page", {})
    doc = page.get("doc")
    if doc:
        blocks = doc["blocks"]
        n = len(blocks)
        for size in sorted({max(1, n // 2), max(1, n // 4), 1}, reverse=True):
            for i in range(0, n, size):
                if n - size >= 1 or size == n:
                    yield dict(plan, page={"doc": dict(doc, blocks=blocks[:i] + blocks[i + size:])})
        if doc.get("bib"):
            yield dict(plan, page={"doc": dict(doc, bib=[])})
    for k, simple in (("viewport", [1000, 600]), ("mathThrows", False), ("root", None), ("base", "/static/"), ("keys", True)):
        if k in plan and plan[k] != simple:
            yield dict(plan, **{k: simple})
    for i, f in enumerate(plan.get("net") or []):
        if f.get("delay"):
            yield dict(plan, net=plan["net"][:i] + [dict(f, delay=0)] + plan["net"][i + 1:])
    for i, a in enumerate(plan.get("acts") or []):
        for k in ("inner", "n"):
            if a.get(k):
                yield dict(plan, acts=plan["acts"][:i] + [dict(a, **{k: 0})] + plan["acts"][i + 1:])
        if a.get("m", 0) > 1:
            yield dict(plan, acts=plan["acts"][:i] + [dict(a, m=1)] + plan["acts"][i + 1:])


if __name__ == "__main__":
    sys.exit("library")
