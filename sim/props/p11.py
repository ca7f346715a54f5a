"""Builds of one manuscript that run at the same time do not spoil each other, the site or the user's files."""
from sim import crowd, site
from sim.prng import Rng
from sim.session import warm  # noqa: F401
from sim.site import shrink_world

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 8000}
RULE = "a run counts when at least two builds were preempted between two disk operations of each other; distinct by interleaving"
REQUIRED_FAULTS = ["preemption", "crash"]
REQUIRED_PROBES = ["over_old_site", "first_site", "three_builds", "one_killed", "different_entries", "both_writing", "threads"]
SHRINK_FIELDS = ["ops"]
COMPONENTS = dict(site.COMPONENTS, simulated=site.COMPONENTS["simulated"] + ["which of two or three building processes or threads performs its next disk operation (threads: also its next line)", "locks of the threads"])
ASSUMPTIONS = ["manuscripts come from the seeded generator in sim/corpus.py", "the builds have the same inputs and give the same page",
               "two referenced assets never share a basename with each other or with a shipped static file",
               "builds take turns between disk operations, not within one"]
STATE_MEASURE = "distinct interleavings (operation number, from, to, operation)"


def gen(seed, index, tier):
    r = Rng("P11", seed, index)
    world = site.gen_world(r)
    pool = sorted(world["assets"])
    world["src"] = r.pick([site.SRC_DEFAULT, "my paper.rsm", "sub/p.rsm"])
    ops = []
    if r.chance(0.5):
        ops += [{"op": "edit", "doc": site.gen_doc(r, pool)}, dict(site.gen_build(r, [site.gen_crash(r)] if r.chance(0.4) else []), handrails=True)]
    ops.append({"op": "edit", "doc": site.gen_doc(r, pool, size=r.pick([None, 2, 3, 12]))})
    n = r.pick([2, 2, 2, 3])
    builds = [dict(site.gen_build(r, [], p_short=0.15), handrails=True) for _ in range(n)]
    if r.chance(0.25):
        builds[r.randrange(n)]["faults"] = [site.gen_crash(r)]
    k = r.randrange(6)
    if k == 5:  # in step
        mode = {"p": 1.0}
        for b in builds:
            b.update(short=0, order=0)
    elif k == 4:  # where one build looks at what another one is changing
        mode = {"p": r.pick([0.4, 0.8]), "on": r.pick([["mkdir", "stat"], ["unlink", "rename", "stat"], ["open_w", "close_w"], ["mkdir", "rename", "unlink", "open_w"], ["list"]])}
    elif k == 0:
        mode = {"p": r.pick([0.5, 0.9])}
    elif k == 1:
        mode = {"p": r.pick([0.02, 0.05, 0.15])}
    else:
        mode = {"at": sorted([r.randrange(n * 110), r.randrange(3)] for _ in range(r.pick([1, 2, 3, 5])))}
    crowd_op = {"op": "crowd", "builds": builds, "seed": r.randrange(1 << 30), "mode": mode}
    if r.chance(0.35):
        for b in builds:
            b["entry"] = r.pick(["api", "app"])
        crowd_op["threads"] = sorted([r.randrange(1, 30000), r.randrange(3)] for _ in range(r.pick([0, 0, 2, 6, 20])))
    ops.append(crowd_op)
    return {"prop": "P11", "world": world, "ops": ops}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op["op"] != "crowd":
            continue

        def rep(new):
            return dict(plan, ops=plan["ops"][:i] + [new] + plan["ops"][i + 1:])
        for j in range(len(op.get("threads") or [])):
            yield rep(dict(op, threads=op["threads"][:j] + op["threads"][j + 1:]))
        if len(op["builds"]) > 2:
            for j in range(len(op["builds"])):
                yield rep(dict(op, builds=op["builds"][:j] + op["builds"][j + 1:]))
        for j, b in enumerate(op["builds"]):
            for k, v in (("faults", []), ("short", 0), ("order", 0), ("entry", "api")):
                if b.get(k) != v:
                    yield rep(dict(op, builds=op["builds"][:j] + [dict(b, **{k: v})] + op["builds"][j + 1:]))
        for j in range(len(op["mode"].get("at", []))):
            yield rep(dict(op, mode={"at": op["mode"]["at"][:j] + op["mode"]["at"][j + 1:]}))
    yield from shrink_world(plan)


def execute(plan):
    w = site.World(plan)
    v, hit, states = None, 0, set()
    for op in plan["ops"]:
        if op["op"] == "build":
            if w.doc is not None:
                w.build(op)
                w.rewrite_inputs()
            continue
        if op["op"] != "crowd":
            w.apply(op)
            continue
        if w.doc is None or not w.buildable():
            continue
        w.count("probe:over_old_site" if w.snap().get("index.html") else "probe:first_site")
        before = w.snap()

        def body(b):
            def go(gate):
                o, disk = w.build(b, on_op=gate)
                return {"ok": o.ok, "crashed": o.crashed, "raised": o.raised, "code": o.code, "err": o.stderr[-300:], "escapes": disk.escapes, "fired": [list(map(str, f)) for f in disk.fired], "stats": disk.stats}
            return go
        try:
            if "threads" in op:
                res, disk, g = w.build_threads(op["builds"], op["seed"], op["mode"], op["threads"])
                outs = [{"ok": o.ok, "crashed": o.crashed, "raised": o.raised, "err": "", "escapes": disk.escapes, "stats": {}} for o in res]
                order, steps = g.order, []
                w.count("probe:threads")
            else:
                outs, order, steps = crowd.run([body(b) for b in op["builds"]], op["seed"], op["mode"])
        except crowd.Livelock as e:
            v = site.viol("livelock", f"{len(op['builds'])} builds at the same time never end: {e}")
            break
        for o in outs:
            if "harness" in o:
                raise RuntimeError(o["harness"])
            for k, n in o["stats"].items():
                w.count(k, n)
        if steps:
            w.count("builds", len(outs))
            w.count("disk_ops", sum(steps))
        w.count("fault:preemption", len(order))
        hit += len(order) >= 2
        writing = {i for _, _, i, kind, _ in order if kind in ("write", "close_w", "open_w", "mkdir")}
        w.count("probe:both_writing", len(writing) > 1)
        w.count("probe:three_builds", len(outs) == 3)
        w.count("probe:different_entries", len({b["entry"] for b in op["builds"]}) > 1)
        killed = any(o["crashed"] for o in outs)
        w.count("probe:one_killed", killed)
        states.add(str(order))
        w.events.append(["crowd", [b["entry"] for b in op["builds"]], order[:40], [[o["ok"], o["crashed"]] for o in outs]])
        for o in outs:
            if o["escapes"]:
                v = site.viol("write-outside", f"a build tried to change something outside the output directory: {o['escapes'][0]}")
            elif not o["crashed"] and not o["ok"]:
                v = site.viol("spoiled-build", f"one of {len(outs)} builds of the same manuscript at the same time{' in threads' if 'threads' in op else ''} failed{' after another one was killed' if killed else ''}: {o['raised'] or o['err']}")
        if v:
            break
        after, may = w.snap(), site.published(w)
        own = {w.src} | {w.canon(a) for a in w.assets} | set(w.w["bystanders"])
        for p, data in before.items():
            if (p in own or p not in may) and after.get(p, 0) != data:
                v = site.viol("user-file-harmed", f"{p} was {'changed' if p in after else 'removed'} by builds at the same time")
        for p in after:
            if p not in before and p not in may and not killed:
                v = site.viol("stray-file", f"builds at the same time left a file that is not part of the site: {p}")
        if v:
            break
        if not killed:
            msg = w.check_complete("api", after, True)
            if msg:
                v = site.viol("spoiled-site", f"{len(outs)} builds of the same manuscript at the same time all reported success but {msg}")
                break
        else:
            o, _ = w.build({"op": "build", "entry": "api", "handrails": True, "faults": []})
            msg = None if not o.ok else w.check_complete("api", w.snap(), True)
            if not o.ok or msg:
                v = site.viol("rebuild", f"after {len(outs)} builds at the same time, one of them killed, a clean build {'failed: ' + str(o.raised or o.stderr[-300:]) if not o.ok else 'left a wrong site: ' + msg}")
                break
    return dict(site.result(w, v, hit, {"events": w.events[-2:]}), states=sorted(states))
