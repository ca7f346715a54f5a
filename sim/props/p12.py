"""A call leaves nothing behind but its result: the process, its files and its memory are as before, also after failures."""
import atexit
import decimal
import functools
import gc
import json
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import time
import warnings

from sim import session, site
from sim.disk import Disk, snapshot
from sim.prng import Rng
from sim.sched import Stopper
from sim.session import Err, Session, isolated, resolve, warm, shrink_session as shrink  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 750, "thorough": 10000}
RULE = "a run counts when the process was compared after a call that failed, met a storage fault, or was repeated; distinct by event history"
REQUIRED_PROBES = ["after_failure", "after_fault", "repeated", "render_or_lint", "usage_error", "built", "app_object", "interrupted"]
REQUIRED_FAULTS = ["EIO@read", "ENOSPC@write", "stderr_fails", "KeyboardInterrupt", "MemoryError"]
SHRINK_FIELDS = ["ops"]
COMPONENTS = {"real": ["rsm.render/lint/make, application classes, command-line entry points", "everything below them"],
              "simulated": ["storage errors and short transfers", "standard error (may fail)", "asynchronous interruptions and allocation failures at arbitrary lines", "wall clock"], "stubbed": ["none"]}
ASSUMPTIONS = ["calls are made one after the other", "the process has already imported rsm and configured its logger once (rsm's own logger configuration is judged by P06)"]
STATE_MEASURE = "distinct event histories"


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return sorted(v for v in out.values() if "/proc/" not in v)


def children():
    try:
        with open(f"/proc/self/task/{os.getpid()}/children") as f:
            return f.read().split()
    except OSError:
        return []


def state():
    um = os.umask(0)
    os.umask(um)
    root = logging.getLogger()
    others = {n: (x.level, len(x.handlers), x.propagate, x.disabled) for n, x in logging.Logger.manager.loggerDict.items() if isinstance(x, logging.Logger) and not n.startswith("RSM")}
    return {
        "the working directory": os.getcwd(), "the umask": um, "the environment": dict(os.environ), "open files": fds(), "child processes": children(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGHUP)],
        "pending alarms": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "sys.path": list(sys.path), "sys.argv": list(sys.argv), "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr), "sys.stdin": id(sys.stdin),
        "the recursion limit": sys.getrecursionlimit(), "the switch interval": sys.getswitchinterval(), "the locale": locale.setlocale(locale.LC_ALL),
        "warning filters": [repr(f) for f in warnings.filters], "exit functions": atexit._ncallbacks(), "sys.excepthook": repr(sys.excepthook),
        "the unraisable hook": repr(sys.unraisablehook), "the display hook": repr(sys.displayhook), "import hooks": len(sys.meta_path) + len(sys.path_hooks),
        "garbage collection": (gc.isenabled(), gc.get_threshold()), "the integer limit": sys.get_int_max_str_digits(),
        "the random state": hash(random.getstate()), "the decimal context": repr(decimal.getcontext()), "the temporary directory setting": tempfile.tempdir,
        "the root logger": (root.level, len(root.handlers), root.disabled), "other loggers": others, "logging settings": (logging.raiseExceptions, logging.root.manager.disable, repr(logging.lastResort), repr(logging.getLoggerClass())),
        "the time zone": (os.environ.get("TZ"), time.tzname), "priorities": os.nice(0),
    }


def changed(before, after, what):
    for k in before:
        if before[k] != after[k]:
            a, b = before[k], after[k]
            if isinstance(a, dict):
                a, b = {x: y for x, y in a.items() if b.get(x) != y}, {x: y for x, y in b.items() if a.get(x) != y}
            elif isinstance(a, list):
                a, b = [x for x in a if x not in b], [x for x in b if x not in a] or b
            return site.viol("process-changed", f"{what} changed {k}: {str(a)[:120]} -> {str(b)[:120]}")


def living():
    """objects of rsm's own classes, by class; what a bounded cache holds does not count"""
    for o in gc.get_objects():
        if type(o) is functools._lru_cache_wrapper and o.cache_parameters().get("maxsize") is not None:
            o.cache_clear()
    gc.collect()
    out = {}
    for o in gc.get_objects():
        c = type(o)
        if getattr(c, "__module__", "").startswith("rsm."):
            out[c.__name__] = out.get(c.__name__, 0) + 1
    return out


def growing(counts):
    return [cls for cls in sorted(counts[-1]) if all(b.get(cls, 0) > a.get(cls, 0) for a, b in zip(counts, counts[1:]))]


USAGE = [["--version"], ["--help"], ["--log-format=xml", "x.rsm"], [], ["a.rsm", "b.rsm"], ["--no-such"]]


def gen(seed, index, tier):
    r = Rng("P12", seed, index)
    n = r.randint(2, 4)
    sources = [session.gen_source(r, sick=0.3, size=r.pick([None, 2, 3])) for _ in range(n)]
    idx, names = list(range(n)), ["a.rsm", "dir/b c.rsm"]
    ops = [{"op": "write", "path": p, "src": r.pick(idx)} for p in names]
    for _ in range(r.randint(3, 6)):
        if r.chance(0.12):
            ops.append({"op": "usage", "fn": r.pick(["render", "lint", "make"]), "args": r.pick(USAGE)})
            continue
        c = session.gen_call(r, idx, names + ["missing.rsm"])
        if c["fn"] in ("render", "lint", "make") and r.chance(0.2):
            c = dict({k: x for k, x in c.items() if k in ("path", "src")}, op="call", fn="app_run", cls=r.pick(["processor", "linter", "full"]))
        k = r.randrange(10)
        if k < 4:
            c["faults"] = [site.gen_fault(r, True, c["fn"].endswith("make") or c.get("cls") == "full")]
        elif k == 4:
            c["stderr"] = {"from": r.pick([0, 1, 2]), "for": r.pick([1, 1 << 30])}
        elif k == 5:
            c["short"] = r.randrange(1, 1 << 30)
        elif k == 6:
            c["stop"] = {"at": r.random(), "exc": r.pick(["KeyboardInterrupt", "MemoryError"])}
        if r.chance(0.3):
            c["times"] = r.pick([3, 5])
            if r.chance(0.5):
                c["vary"] = True
        ops.append(c)
    return {"prop": "P12", "sources": sources, "ops": ops}


def execute(plan):
    s = Session(plan)
    hit = 0
    # the first call configures rsm's logger and fills lazy caches of the libraries below
    start = state()
    isolated({"fn": "make", "src": ":rsm:\n\n`x`\n\n$x$\n\n::\n", "kw": {}}, s.t)
    session.remove_site(s.dir)
    living()
    v = changed(start, state(), "the first rsm.make()")

    def role(rel):
        return "src" if rel in s.files else "index" if rel == "index.html" else "pkg" if rel.startswith("<pkg>") else "static" if rel.startswith("static/") else "asset" if rel in session.ASSETS else "other"

    def one(op, c):
        """-> how it ended"""
        err = Err(op["stderr"]["from"], op["stderr"]["for"]) if op.get("stderr") else None
        disk = Disk(s.dir, extra_read=[os.path.dirname(site.static_dir())], faults=op.get("faults", ()), short_reads=op.get("short", 0), tmp=s.tmp)
        disk.classify = role
        st = None
        if op.get("stop"):
            st = Stopper(1 + int(op["stop"]["at"] * s.reference(c, steps=True)["steps"]), {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["stop"]["exc"]])
        with disk:
            try:
                got, er, _, _ = isolated(c, s.t, err=err, stop=st)
            except KeyboardInterrupt:
                got, er = {"raised": "KeyboardInterrupt"}, err or Err()
        if st is not None and st.hit:
            s.count("fault:" + op["stop"]["exc"])
            s.count("probe:interrupted")
            return f"{'interrupted' if op['stop']['exc'] == 'KeyboardInterrupt' else 'out of memory'} at {st.hit}", True
        s.count("fault:stderr_fails", er.failed > 0)
        for k, n in disk.stats.items():
            s.count(k, n)
        s.count("probe:after_fault", bool(disk.fired))
        return "exit" if "exit" in got else "raised " + got["raised"] if "raised" in got else "failed" if got.get("value") in ("", None) else "fine", bool(disk.fired) or er.failed

    for op in plan["ops"] if not v else []:
        s.t += 3.1
        if op["op"] == "write":
            s.write(op["path"], plan["sources"][op["src"]])
            continue
        if op["op"] == "usage":
            c = {"fn": "cli_" + op["fn"], "path": "", "args": op["args"]}
            what, writes = f"rsm-{op['fn']} {' '.join(op['args'])}", op["fn"] == "make"
        else:
            c = resolve({k: x for k, x in op.items() if k not in ("faults", "stderr", "short", "times", "vary", "stop")}, plan)
            writes = op["fn"].endswith("make") or op.get("cls") == "full"
            what = f"{op['fn']}{' ' + op['cls'] if 'cls' in op else ''}"
            s.count("probe:app_object", "cls" in op)
        session.remove_site(s.dir)
        before, files = state(), snapshot(s.dir)
        counts, times = [], op.get("times", 1)
        while len(counts) < times:
            if op["op"] == "usage":
                av, so = sys.argv, sys.stdout
                try:
                    sys.argv, sys.stdout = ["rsm-" + op["fn"], *op["args"]], Err()
                    se, sys.stderr = sys.stderr, Err()
                    try:
                        getattr(site.rsm.cli, op["fn"])()
                        how = "fine"
                    except SystemExit:
                        how = "exit"
                    except Exception as e:
                        how = "raised " + type(e).__name__
                    finally:
                        sys.stderr = se
                finally:
                    sys.argv, sys.stdout = av, so
                s.count("probe:usage_error")
                faulted = False
            else:
                how, faulted = one(op, dict(c, src=c["src"].rstrip("\n") + "\n" * (len(counts) + 1)) if op.get("vary") and "src" in c else c)
            counts.append(living())
            if len(counts) == times == op.get("times", 1) >= 3 and growing(counts):
                times += 140
        s.count("calls", len(counts))
        s.count("probe:repeated", len(counts) > 1)
        s.count("probe:after_failure", how != "fine")
        s.count("probe:render_or_lint", not writes)
        s.count("probe:built", writes and how == "fine")
        hit += how != "fine" or faulted or len(counts) > 1
        s.log("call", what, how, bool(faulted), len(counts))
        v = changed(before, state(), f"{what} ({how})")
        now = snapshot(s.dir)
        if not v and not writes and now != files:
            ch = sorted(k for k in set(now) | set(files) if now.get(k, 0) != files.get(k, 0))
            v = site.viol("file-changed", f"{what} ({how}) changed files although it only reads: {ch[:3]}")
        left = snapshot(s.tmp)
        if not v and left:
            v = site.viol("temporary-file-left", f"{what} ({how}) left temporary files behind: {sorted(left)[:3]}")
        if not v and len(counts) >= 3 and growing(counts):
            cls = growing(counts)[0]
            v = site.viol("memory-grows", f"{len(counts)} calls of {what} ({how}) in a row keep more and more {cls} objects alive: {[x.get(cls, 0) for x in counts][:6]} ...")
        if v:
            break
    return s.finish(v, hit, {"history": s.events[:12]})
