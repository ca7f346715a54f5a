"""A worker process: a pristine zygote that forks one child per simulated run.

Protocol (JSON lines on the inherited stdin/stdout): the driver sends
{"cmd": "seed", "index": i} or {"cmd": "plan", "plan": {...}} and gets one line back.
Every run happens in its own forked child, so a run is a pure function of its plan and of
the code in /repo: nothing a run does can reach another one.
"""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback


SCRATCH = None  # per-worker directory; every run works in a fresh subdirectory


def _child(mod, req, wfd):
    """Executed in the forked child. Never returns."""
    out = {}
    try:
        if req["cmd"] in ("seed", "gen"):
            plan = mod.gen(req["seed"], req["index"], req["tier"])
        else:
            plan = req["plan"]
        t0 = time.perf_counter()
        out = {} if req["cmd"] == "gen" else mod.execute(plan)
        out["wall"] = time.perf_counter() - t0
        if out.get("violation") or req["cmd"] in ("plan", "gen") or req.get("want_plan"):
            out["plan"] = plan
    except BaseException as e:
        tb = traceback.format_exc()
        if '"/repo/rsm/' in tb and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            # the code under test failed where every call is legitimate
            where = [x.strip() for x in tb.splitlines() if '"/repo/rsm/' in x][-1]
            out = {"violation": {"cls": "unexpected-exception", "key": "unexpected-exception", "msg": f"{tb.strip().splitlines()[-1]} [{where}]"},
                   "plan": plan, "stats": {}, "sig": "exception", "nontrivial": True, "sample": {}, "events": []}
        else:  # a harness error, never a verdict on the code
            out = {"harness_error": tb}
    data = json.dumps(out).encode()
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def run_one(mod, req, limit):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        _child(mod, req, wfd)
    os.close(wfd)
    chunks, deadline, hung = [], time.monotonic() + limit, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            continue
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    _, status = os.waitpid(pid, 0)
    for name in os.listdir(SCRATCH):
        shutil.rmtree(os.path.join(SCRATCH, name), ignore_errors=True)
    if hung:
        return {"hang": True, "limit": limit}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"died": status}


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    rin = os.fdopen(os.dup(0), "r", encoding="utf-8")
    rout = os.fdopen(os.dup(1), "w", encoding="utf-8")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    global SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix="verif-", dir=base)
    os.environ["VERIF_SCRATCH"] = SCRATCH
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    try:
        mod.warm()  # import the code under test; must not run it
        hello = {"ready": True}
    except BaseException:
        hello = {"ready": False, "error": traceback.format_exc()}
    rout.write(json.dumps(hello) + "\n")
    rout.flush()
    for line in rin:
        req = json.loads(line)
        req.setdefault("tier", tier)
        res = run_one(mod, req, req.get("limit", getattr(mod, "RUN_LIMIT", 60)))
        res["index"] = req.get("index")
        rout.write(json.dumps(res) + "\n")
        rout.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    main()
