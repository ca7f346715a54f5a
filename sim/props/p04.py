"""Whatever interrupted earlier builds, one clean rebuild restores exactly the site a fresh build gives."""
from sim import site
from sim.prng import Rng
from sim.site import COMPONENTS, ASSUMPTIONS, STATE_MEASURE, shrink_world as shrink, warm  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 12000}
RULE = "a run counts when at least one build crashed or failed part way through publishing before the recovery build; distinct by event history"
REQUIRED_FAULTS = ["crash", "torn_write_crash", "powerloss", "ENOSPC@write"]
REQUIRED_PROBES = ["recovered_from_partial_site", "recovered_from_powerloss", "restart_after_crash"]
SHRINK_FIELDS = ["ops"]


def gen(seed, index, tier):
    r = Rng("P04", seed, index)

    def build(r, i, world):
        faults = []
        if r.chance(0.85):
            faults.append(site.gen_crash(r) if r.chance(0.75) else site.gen_fault(r, False, True))
        b = site.gen_build(r, faults)
        if r.chance(0.5):
            b["powerloss"] = r.randrange(1, 1 << 30)
        return b

    plan = dict(site.gen_history(r, tier, r.randint(1, 4), build), prop="P04")
    pool = sorted(plan["world"]["assets"])
    plan["ops"].append({"op": "edit", "doc": site.gen_doc(r, pool)} if r.chance(0.5) else {"op": "refix"})
    plan["ops"] += [{"op": "restore", "path": p} for p in pool]
    plan["ops"].append({"op": "build", "entry": r.pick(site.ENTRIES), "handrails": True, "faults": [], "final": True,
                        "order": r.randrange(1, 1 << 30) if r.chance(0.5) else 0})
    return plan


def execute(plan):
    w = site.World(plan)
    v, hit, ploss = None, 0, 0
    for op in plan["ops"]:
        if op["op"] == "refix":
            if w.doc is not None:
                w.apply({"op": "edit", "doc": w.doc})
            continue
        if op["op"] != "build":
            w.apply(op)
            continue
        if w.doc is None:
            continue
        if not op.get("final"):
            before = w.site()
            o, disk = w.build(op)
            if disk.frozen and op.get("powerloss"):
                w.power_loss(disk, op["powerloss"])
                ploss += 1
            # the user's inputs are their own concern (judged elsewhere): put them back
            w.rewrite_inputs()
            if disk.fired and before != w.site():
                hit += 1
            w.count("probe:restart_after_crash", o.crashed)
            continue
        if not w.buildable():
            continue
        o, disk = w.build(op)
        w.count("probe:recovered_from_partial_site", bool(hit))
        w.count("probe:recovered_from_powerloss", bool(ploss))
        if not o.ok:
            v = site.viol("rebuild-failed", f"the rebuild after {hit} interrupted builds failed: {o.raised or o.stderr[-300:]}")
            break
        msg = w.check_complete(op["entry"], w.snap())
        if msg:
            v = site.viol("rebuild-differs", f"after {hit} interrupted builds ({ploss} with power loss) a clean rebuild left a wrong site: {msg}")
            break
    return site.result(w, v, hit, {"builds": [e[1:] for e in w.events if e[0] == "build"]})
