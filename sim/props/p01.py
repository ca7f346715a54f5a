"""A build that reports success has published the complete, exact site; no storage failure is swallowed."""
from sim import site
from sim.prng import Rng
from sim.site import COMPONENTS, ASSUMPTIONS, STATE_MEASURE, shrink_world as shrink, warm  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 12000}
RULE = "a run counts when at least one injected storage fault fired during a build of a well-formed manuscript; distinct by event history"
REQUIRED_FAULTS = ["ENOSPC@write", "EIO@read", "EACCES@open_w", "EIO@close_w", "short_read", "short_write"]
REQUIRED_PROBES = ["success_after_failure", "fault_reported", "site_with_assets"]
SHRINK_FIELDS = ["ops"]


def gen(seed, index, tier):
    r = Rng("P01", seed, index)

    def build(r, i, world):
        faults = []
        if r.chance(0.7):
            for _ in range(r.pick([1, 1, 1, 2])):
                k = r.randrange(5)
                if k == 0:
                    faults.append({"at": r.randrange(150), "kind": r.pick(["EIO", "ENOSPC", "EACCES", "EMFILE"])})
                elif k == 1:
                    faults += [{"on": "write", "role": r.pick(["index", "static", "any"]), "nth": r.randrange(6), "kind": "SHORT", "frac": r.pick([0.1, 0.5, 0.99])} for _ in range(2)]
                else:
                    faults.append(site.gen_fault(r, True, True))
        return site.gen_build(r, faults)

    plan = dict(site.gen_history(r, tier, r.randint(2, 5), build), prop="P01")
    if r.chance(0.03):   # two assets of one name in different directories
        pair = ["one/graph.svg", "two/graph.svg"]
        plan["world"]["assets"].update({p: [r.pick([40, 700]), k] for k, p in enumerate(pair)})
        for _ in range(20):
            doc = site.gen_doc(r, pair, size=14)
            if all(p in "\n".join(doc["blocks"]) for p in pair):
                plan["ops"] += [{"op": "edit", "doc": doc}, site.gen_build(r, [])]
                break
    return plan


def execute(plan):
    w = site.World(plan)
    v, failed_before, fired_any = None, False, 0
    for op in plan["ops"]:
        if op["op"] != "build":
            w.apply(op)
            continue
        if w.doc is None:
            continue
        o, disk = w.build(op)
        hard = [f for f in disk.fired if f[1] not in ("SHORT",)]
        good = w.buildable()
        fired_any += bool(disk.fired) and good
        if o.ok:
            if good:
                msg = w.check_complete(op["entry"], w.snap(), op.get("handrails", True))
                if not msg and w.collided:
                    v = site.viol("asset-name-collision", f"the build reported success, but of {' and '.join(w.collided)} only one has a copy in the site: they share a file name")
                    break
                if msg:
                    how = f"after {hard[0][1]} on {hard[0][2]} of {hard[0][3]}" if hard else "with no fault injected"
                    v = site.viol("incomplete-success", f"the build reported success but {msg} ({how})")
                    break
                w.count("probe:success_after_failure", failed_before)
                w.count("probe:site_with_assets", bool(w.refs()))
            elif w.src_state == "ok" and not w.buildable():
                v = site.viol("missing-asset-success", "the build reported success although a referenced asset does not exist")
                break
            elif w.src_state == "broken" and not w.src_exists():
                v = site.viol("missing-source-success", "the build reported success although the source file does not exist")
                break
        else:
            failed_before = True
            w.count("probe:fault_reported", bool(hard))
            if good and not hard:
                v = site.viol("spurious-failure", f"the build of a well-formed manuscript failed with no fault injected: {o.raised or o.stderr[-200:]}")
                break
    return site.result(w, v, fired_any, {"builds": [e[1:] for e in w.events if e[0] == "build"]})
