"""Driver: python -m sim.check PROP [--tier quick|thorough] [--runs N] [--workers W]
           python -m sim.check --replay FILE

Exit 0: the property held on every simulated run.  Exit 1: a VIOLATION line was printed.
Any other exit: the check itself failed (never a verdict).
"""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
HASH_CLASSES = 4


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, prop, tier, hclass):
        mod = load(prop)
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(hclass * 7919 + 1),
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONWARNINGS="ignore",
            PYTHONPATH=str(VERIF),
            LC_ALL="C.UTF-8",
            TZ="UTC",
            HOME="/nonexistent",
        )
        env.pop("PYTHONUTF8", None)
        if getattr(mod, "BACKEND", "python") == "node":
            argv = ["node", "--no-warnings", "--experimental-vm-modules",
                    str(VERIF / "js" / "worker.mjs"), prop, tier, str(mod.prepare())]
            env["NODE_OPTIONS"] = ""
        else:
            argv = [PY, "-W", "ignore", "-m", "sim.worker", prop, tier]
        self.hclass = hclass
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=str(VERIF),
                                  env=env, text=True, encoding="utf-8")
        self.hello = json.loads(self.p.stdout.readline() or '{"ready": false, "error": "worker died"}')

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            return {"died": self.p.poll(), "worker_gone": True, "index": req.get("index")}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()


def load(prop):
    return importlib.import_module(f"sim.props.{prop.lower()}")


def known_findings(prop):
    out = []
    f = VERIF / "known_findings.jsonl"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def classify(res, mod):
    """-> (violation or None). Raises HarnessError on anything that is not a verdict."""
    if res.get("hang"):
        return {"cls": "hang", "key": "hang", "msg": f"no progress: the run did not end within {res['limit']} s of wall time"}
    if res.get("harness_error"):
        raise HarnessError(res["harness_error"])
    if "died" in res:
        if res.get("worker_gone"):
            raise HarnessError(f"worker died, status {res['died']} (run {res.get('index')})")
        return {"cls": "process-died", "key": "process-died", "msg": f"the simulated process died (wait status {res['died']})"}
    return res.get("violation")


def lost(res):
    """The run gave no verdict of its own; that has to happen again before it counts."""
    return res.get("hang") or ("died" in res and not res.get("worker_gone"))


def split_known(res, viol, known):
    """Return (violation, known_key)."""
    if viol is None:
        return None, None
    for k in known:
        if viol.get("key") == k["key"]:
            return None, k["key"]
    return viol, None


def minimise(worker, mod, plan, viol, known, budget_s):
    """ddmin over plan['ops'], then over plan['faults'], then property-specific shrinks."""
    t_end = time.monotonic() + budget_s
    tries = 0

    def fails(p):
        nonlocal tries
        if time.monotonic() > t_end:
            return False
        tries += 1
        r = worker.ask(dict({"cmd": "plan", "plan": p}, **({"limit": 10} if viol["cls"] == "hang" else {})))
        try:
            v, _ = split_known(r, classify(r, mod), known)
        except HarnessError:
            return False
        return bool(v) and v["cls"] == viol["cls"]

    def ddmin(plan, field):
        items = plan.get(field)
        if not isinstance(items, list) or not items:
            return plan
        n = 2
        items = list(items)
        while items:
            size = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                p = dict(plan, **{field: cand})
                if fails(p):
                    items, plan, reduced = cand, p, True
                else:
                    i += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
            if time.monotonic() > t_end:
                break
        return plan

    fields = getattr(mod, "SHRINK_FIELDS", ["ops", "faults"])
    for _ in range(2):
        before = json.dumps(plan, sort_keys=True)
        for f in fields:
            plan = ddmin(plan, f)
        shrinks = getattr(mod, "shrink", None)
        progress = shrinks is not None
        while progress and time.monotonic() < t_end:
            progress = False
            for cand in shrinks(plan):
                if fails(cand):
                    plan, progress = cand, True
                    break
        if json.dumps(plan, sort_keys=True) == before:
            break
    return plan, tries


def _hclass(mod, index):
    return 0 if getattr(mod, "BACKEND", "python") == "node" else index % HASH_CLASSES


def run_batch(prop, tier, seed, n, nworkers, known, stop_early=True, want_hash=False):
    mod = load(prop)
    node = getattr(mod, "BACKEND", "python") == "node"
    classes = [0] * nworkers if node else [i % HASH_CLASSES for i in range(max(nworkers, HASH_CLASSES))]
    if node:
        mod.prepare()
    workers = [Worker(prop, tier, c) for c in classes]
    bad = [w for w in workers if not w.hello.get("ready")]
    if bad:
        for w in workers:
            w.close()
        return None, [], bad[0].hello.get("error", "?")
    queues = collections.defaultdict(collections.deque)
    for i in range(n):
        queues[_hclass(mod, i)].append(i)
    results, lock, stop = {}, threading.Lock(), threading.Event()
    errors, again = [], []

    def loop(w):
        q = queues[w.hclass]
        while not stop.is_set():
            with lock:
                if not q:
                    return
                i = q.popleft()
            res = w.ask({"cmd": "seed", "index": i, "seed": seed, "tier": tier})
            if lost(res):  # only what happens again, with more time, is a verdict
                with lock:
                    again.append(i)
                res = w.ask({"cmd": "seed", "index": i, "seed": seed, "tier": tier, "limit": 2 * getattr(mod, "RUN_LIMIT", 60)})
            with lock:
                results[i] = res
            try:
                v = classify(res, mod)
                if split_known(res, v, known)[0] and stop_early:
                    stop.set()
            except HarnessError as e:
                errors.append((i, str(e)))
                if res.get("worker_gone") or len(errors) > 3:
                    stop.set()

    ts = [threading.Thread(target=loop, args=(w,)) for w in workers]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return results, errors, workers


def merge_counts(acc, d):
    for k, v in (d or {}).items():
        if isinstance(v, (int, float)):
            acc[k] += v


def determinism(workers, results, seed, tier, mod):
    """Some runs once more, each in another process: the same plan has to give the same events."""
    some = [i for i in sorted(results) if "sig" in results[i]]
    some = some[:: max(1, len(some) // 8)][:8]
    bad, n = [], 0
    for i in some:
        ws = [w for w in workers if w.hclass == _hclass(mod, i) and w.p.poll() is None]
        if not ws:
            continue
        r = ws[-1].ask({"cmd": "seed", "index": i, "seed": seed, "tier": tier})
        n += 1
        if r.get("sig") != results[i].get("sig"):
            bad.append(i)
    return {"runs_repeated": n, "different": bad}


def check(prop, tier, runs=None, nworkers=None):
    t0 = time.perf_counter()
    mod = load(prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = runs or mod.RUNS[tier]
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    known = known_findings(prop)
    print(f"[{prop}] seed={seed} tier={tier} runs={n} workers={nworkers}", flush=True)
    results, errors, workers = run_batch(prop, tier, seed, n, nworkers, known)
    if results is None:
        # the code under test does not even import / the page does not even build
        vf = getattr(mod, "SETUP_FAILURE_IS_VIOLATION", False)
        if vf:
            path = write_replay(prop, seed, {"setup": True}, {"cls": "setup", "key": "setup", "msg": workers[-2000:]}, tier, 0)
            print(workers)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("check error: worker setup failed\n" + str(workers), file=sys.stderr)
        return 3
    try:
        stats, seen_known = collections.Counter(), collections.Counter()
        sigs, nontrivial, sim_ms, samples, viols = set(), set(), 0, [], []
        interleavings = set()
        for i in sorted(results):
            r = results[i]
            try:
                v = classify(r, mod)
            except HarnessError:
                continue
            v, kk = split_known(r, v, known)
            for k in ([kk] if kk else []) + list(r.get("known_hits", [])):
                seen_known[k] += 1
            merge_counts(stats, r.get("stats"))
            sim_ms += r.get("sim_ms", 0)
            sigs.add(r.get("sig"))
            interleavings.update(r.get("states", []))
            if r.get("nontrivial"):
                nontrivial.add(r.get("sig"))
                if len(samples) < 3:
                    samples.append({"run": i, "case": r.get("sample")})
            if v:
                viols.append((i, v, r.get("plan")))
        code = 0
        minim = None
        if viols:
            viols.sort(key=lambda t: t[0])
            i, v, plan = viols[0]
            w = next(w for w in workers if w.hclass == _hclass(mod, i) and w.p.poll() is None)
            if plan is None:  # it gave no plan back: generate it without executing it
                plan = w.ask({"cmd": "gen", "index": i, "seed": seed, "tier": tier}).get("plan") or {"seed_index": [seed, i, tier]}
            plan, tries = minimise(w, mod, plan, v, known, getattr(mod, "SHRINK_BUDGET_S", 60)) if "seed_index" not in plan else (plan, 0)
            path = write_replay(prop, seed, plan, v, tier, i)
            ok, v2 = replay_file(path, quiet=True)
            if not ok:  # keep the unminimised plan: it failed once, so report what does replay
                plan = viols[0][2] or plan
                path = write_replay(prop, seed, plan, v, tier, i)
                ok, v2 = replay_file(path, quiet=True)
            v = v2 or v
            minim = {"tries": tries, "replayed_in_fresh_process": ok}
            print(f"[{prop}] run {i}: {v['cls']}: {v['msg']}")
            print(f"[{prop}] seed={seed} index={i}; minimised in {tries} executions; replay reproduces: {ok}")
            print(f"VIOLATION property={prop} replay={path}")
            code = 1
        elif errors:
            print(f"check error: {len(errors)} harness errors; first (run {errors[0][0]}):\n{errors[0][1]}", file=sys.stderr)
            code = 3
        twice = determinism(workers, results, seed, tier, mod) if code == 0 else None
        if twice and twice["different"]:
            print(f"[{prop}] note: runs {twice['different']} did not repeat exactly in another process")
        wall = time.perf_counter() - t0
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k['what']} (seen in {seen_known.get(k['key'], 0)} of {len(results)} runs)")
        done = len([1 for r in results.values() if "stats" in r])
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
        probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
        other = {k: v for k, v in sorted(stats.items()) if ":" not in k}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
            "coverage": {
                "evaluations": done,
                "distinct_nontrivial": len(nontrivial),
                "rule": mod.RULE,
                "samples": samples or [{"note": "no non-trivial run"}],
                "simulated_runs": done,
                "seeds_per_hour": round(done / wall * 3600) if wall else 0,
                "simulated_time_s": round(sim_ms / 1000, 3),
                "faults_fired": faults,
                "probes_hit": probes,
                "work": other,
                "distinct_states": {"measure": getattr(mod, "STATE_MEASURE", "distinct run signatures"), "count": len(interleavings) or len(sigs)},
                "components": mod.COMPONENTS,
                "workers": nworkers,
                "hash_seed_classes": HASH_CLASSES,
                "known_findings_seen": dict(seen_known),
                "minimisation": minim,
                "determinism": twice,
            },
            "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viols),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        stuck = [p for p in getattr(mod, "REQUIRED_PROBES", []) if not stats.get("probe:" + p)]
        stuck += [f for f in getattr(mod, "REQUIRED_FAULTS", []) if not stats.get("fault:" + f)]
        print(f"[{prop}] {done} runs, {len(nontrivial)} distinct non-trivial, faults {sum(faults.values())}, {wall:.1f} s")
        if code == 0 and stuck and n >= mod.RUNS["quick"]:
            print(f"[{prop}] note: probes/faults never hit in this batch: {stuck}")
        return code
    finally:
        for w in workers:
            w.close()


def write_replay(prop, seed, plan, v, tier, index):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-seed{seed}-run{index}.json"
    path.write_text(json.dumps({"property": prop, "seed": seed, "index": index, "tier": tier, "violation": v, "plan": plan}, indent=1) + "\n")
    return path


def replay_file(path, quiet=False):
    rec = json.loads(Path(path).read_text())
    mod = load(rec["property"])
    w = Worker(rec["property"], rec["tier"], _hclass(mod, rec["index"]))
    try:
        if not w.hello.get("ready"):
            return rec["violation"]["cls"] == "setup", rec["violation"]
        if "seed_index" in rec["plan"]:
            s, i, t = rec["plan"]["seed_index"]
            r = w.ask({"cmd": "seed", "index": i, "seed": s, "tier": t})
        else:
            r = w.ask({"cmd": "plan", "plan": rec["plan"]})
    finally:
        w.close()
    v = classify(r, mod)
    if not quiet:
        print(json.dumps({k: r.get(k) for k in ("violation", "sample", "events")}, indent=1))
    return bool(v) and v["cls"] == rec["violation"]["cls"], v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        ok, v = replay_file(a.replay)
        rec = json.loads(Path(a.replay).read_text())
        if ok:
            print(f"VIOLATION property={rec['property']} replay={a.replay}")
        sys.exit(1 if ok else 0)
    sys.exit(check(a.prop, a.tier, a.runs, a.workers))


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF))
    main()
