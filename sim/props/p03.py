"""A build that fails before it publishes leaves the last good site untouched."""
from sim import site
from sim.prng import Rng
from sim.site import COMPONENTS, ASSUMPTIONS, STATE_MEASURE, shrink_world as shrink, warm  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}
RULE = "a run counts when a build failed while an earlier site was in place; distinct by event history"
REQUIRED_FAULTS = ["EIO@read", "EACCES@open_r", "EMFILE@open_r", "EIO@list"]
REQUIRED_PROBES = ["failed_over_site", "broken_source_over_site", "missing_asset_over_site", "input_fault_over_site"]
SHRINK_FIELDS = ["ops"]
INPUT = [("open_r", "EIO"), ("open_r", "EACCES"), ("open_r", "EMFILE"), ("open_r", "ENOENT"), ("read", "EIO"), ("read", "ESTALE")]


def gen(seed, index, tier):
    r = Rng("P03", seed, index)

    def build(r, i, world):
        faults = []
        if i and r.chance(0.6):
            on, kind = r.pick(INPUT)
            role = r.pick(["src", "asset", "asset", "pkg", "pkg"])
            faults.append({"on": on, "kind": kind, "role": role, "nth": 0 if role == "src" else r.randrange(8)})
            if r.chance(0.15):
                faults[-1] = {"on": "list", "kind": r.pick(["EIO", "EACCES"]), "role": "pkg", "nth": r.randrange(4)}
        return site.gen_build(r, faults)

    return dict(site.gen_history(r, tier, r.randint(2, 5), build), prop="P03")


def execute(plan):
    w = site.World(plan)
    v, have, hit = None, False, 0
    for op in plan["ops"]:
        if op["op"] != "build":
            w.apply(op)
            continue
        before = w.site()
        broken, missing = w.src_state == "broken", w.src_state == "ok" and not w.buildable()
        o, disk = w.build(op)
        after = w.site()
        if o.ok:
            have = True
            continue
        if have:
            hit += 1
            w.count("probe:failed_over_site")
            w.count("probe:broken_source_over_site", broken)
            w.count("probe:missing_asset_over_site", missing)
            w.count("probe:input_fault_over_site", bool(disk.fired))
        if before != after:
            ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            k = ch[0]
            how = ("; ".join(f"{f[1]} on {f[2]} of {f[3]}" for f in disk.fired)) or ("malformed or missing source" if broken else "missing asset" if missing else "no fault")
            v = site.viol("site-damaged", f"the failed build changed the published site: {k} {len(before.get(k, b''))} -> {len(after.get(k, b''))} bytes"
                          f"{' (removed)' if k not in after else ''}, {len(ch)} files in all [{how}; {o.raised or 'error logged'}]")
            break
    return site.result(w, v, hit, {"builds": [e[1:] for e in w.events if e[0] == "build"]})
