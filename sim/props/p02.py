"""A build never harms the user's files, whatever fails and wherever it is interrupted."""
from sim import site
from sim.prng import Rng
from sim.site import COMPONENTS, ASSUMPTIONS, STATE_MEASURE, shrink_world as shrink, warm  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 14000}
RULE = "a run counts when a fault, crash or torn write fired during at least one build; distinct by event history"
REQUIRED_FAULTS = ["crash", "torn_write_crash", "ENOSPC@write", "EIO@close_w"]
REQUIRED_PROBES = ["bystander_in_static", "asset_in_static", "crash_while_publishing"]
SHRINK_FIELDS = ["ops"]


def gen(seed, index, tier):
    r = Rng("P02", seed, index)

    def build(r, i, world):
        faults = []
        if r.chance(0.75):
            faults.append(site.gen_crash(r) if r.chance(0.6) else site.gen_fault(r, True, True))
            if r.chance(0.15):
                faults.append(site.gen_fault(r, True, True))
        return site.gen_build(r, faults)

    plan = dict(site.gen_history(r, tier, r.randint(2, 4), build, own=0.25), prop="P02")
    plan["world"]["bystanders"] = sorted(set(plan["world"]["bystanders"]) | set(r.some([b for b in sorted(site.BYSTANDERS) if b.startswith("static/")], 0, 3)))
    return plan


def execute(plan):
    w = site.World(plan)
    v, fired = None, 0
    for op in plan["ops"]:
        if op["op"] != "build":
            w.apply(op)
            continue
        own = {w.src} | {w.canon(a) for a in w.assets} | set(w.w["bystanders"])
        before = w.snap()
        o, disk = w.build(op)
        after = w.snap()
        fired += bool(disk.fired)
        if o.crashed and any(f[3] == "index.html" or str(f[3]).startswith("static") for f in disk.fired):
            w.count("probe:crash_while_publishing")
        w.count("probe:bystander_in_static", any(b.startswith("static/") for b in w.w["bystanders"]))
        w.count("probe:asset_in_static", w.doc is not None and any(w.canon(a).startswith("static/") for a in w.refs()))
        how = ("; ".join(f"{f[1]} at operation {f[0]} ({f[2]} {f[3]})" for f in disk.fired)) or "no fault"
        if disk.escapes:
            v = site.viol("write-outside", f"the build tried to change something outside the output directory: {disk.escapes[0]} [{how}]")
            break
        may = site.published(w)
        for p, data in before.items():
            if p in own or p not in may:
                if p not in after:
                    v = site.viol("user-file-removed", f"{p} is gone after the build [{how}]")
                elif after[p] != data:
                    v = site.viol("user-file-changed", f"{p} was changed by the build: {len(data or b'')} -> {len(after[p] or b'')} bytes [{how}]")
        for p in after:
            if p not in before and p not in may and not o.crashed:
                v = site.viol("stray-file", f"the build left a file that is not part of the site: {p} [{how}]")
        if v:
            break
    return site.result(w, v, fired, {"builds": [e[1:] for e in w.events if e[0] == "build"]})
