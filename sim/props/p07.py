"""rsm-make --serve: whatever the editor does and whenever, the served page catches up with the source."""
import io
import json
import os
import re
import shutil
import sys
import time
import types

from sim import corpus, session, site
from sim.disk import Disk, REAL, SimCrash
from sim.prng import Rng
from sim.site import viol
from sim.stdio import Out

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 9000}
RULE = "a run counts when an edit landed during a build or an earlier rebuild failed before the last edit; distinct by event history"
REQUIRED_PROBES = ["edit_during_initial_build", "edit_during_rebuild", "failed_rebuild_before", "odd_path", "poll_saw_half_edit", "poll_saw_no_file", "reload_sent"]
REQUIRED_FAULTS = ["rebuild_killed", "rebuild_disk_error", "spawn_failed"]
SHRINK_FIELDS = ["ops"]
RUN_LIMIT = 120
COMPONENTS = {"real": ["rsm.cli.make with --serve", "livereload.Server.serve, its watcher and reload handler", "each rebuild: rsm.cli.make in a fresh process image", "kernel file system"],
              "simulated": ["time and the 800 ms poll timer", "process creation (may fail), the rebuild's death and disk errors", "the author's editor: single steps placed between polls or between two disk operations of a build",
                            "the browser (a registered listener)"],
              "stubbed": ["TCP listener and event loop (replaced by the simulated timer)"]}
ASSUMPTIONS = ["modification times have millisecond resolution and every save gets a new one"]
STATE_MEASURE = "distinct event histories (where each editor step fell relative to polls and disk operations of builds)"
PATHS = ["paper.rsm", "paper.rsm", "./paper.rsm", "sub/p.rsm", "my paper.rsm", "it's.rsm", 'a "b".rsm', "a;b & c.rsm", "$HOME.rsm", "папка/ä.rsm", "back\\slash.rsm", "#1.rsm", "p[1].rsm", "what?.rsm", "a*b.rsm", "[x]/q.rsm"]
OPTS = [[], [], ["-v"], ["--log-format=plain"], ["--log-format", "json"], ["-vv", "--log-no-lineno"], ["-r"], ["-s"], ["--log-no-timestamps", "--log-format=lint"],
        ["--verb", "--log-f", "plain"], ["-vr"]]
EDITS = ["inplace", "inplace", "twostep", "replace", "recreate", "backup"]
SICK = session.SICK
T0 = 1_700_000_000.0


def warm():
    site.warm()
    import livereload.handlers, livereload.server, tornado.log  # noqa: F401,E401
    import subprocess  # noqa: F401
    site.ANSWERS["serve_build"] = answer


def gen(seed, index, tier):
    r = Rng("P07", seed, index)
    n = r.randint(2, 6)
    sources = [session.gen_source(r, sick=0.25 if 0 < i < n - 1 else 0, size=r.pick([1, 2, 2, 3])) for i in range(n)]
    ops = []
    for i in range(1, n):
        where = r.pick(["quiet", "quiet", "poll", "build", "build"])
        ops.append({"op": "edit", "src": i, "how": r.pick(EDITS), "where": where, "at": [round(r.random(), 4) for _ in range(3)], "wait": r.pick([0, 0, 0, 1, 2, 3])})
        if i < n - 1 and r.chance(0.35):
            ops[-1]["fault"] = r.pick(["spawn", {"at": r.randrange(120), "kind": r.pick(["CRASH", "TORN", "EIO", "ENOSPC"])},
                                       {"on": "write", "role": "any", "kind": "ENOSPC", "nth": r.randrange(3)}, {"on": "open_r", "role": "any", "kind": "EIO", "nth": r.randrange(4)}])
    return {"prop": "P07", "sources": sources, "path": r.pick(PATHS), "abs": r.chance(0.15), "opts": r.pick(OPTS), "order": r.randrange(4), "flag": r.pick(["--serve"] * 8 + ["--serv", "--se"]), "ops": ops,
            "initial": r.chance(0.4)}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        for k, v in (("fault", None), ("where", "quiet"), ("how", "inplace"), ("wait", 0)):
            if op.get(k) and op[k] != v:
                yield dict(plan, ops=plan["ops"][:i] + [{a: b for a, b in dict(op, **{k: v}).items() if b is not None}] + plan["ops"][i + 1:])
    if plan["opts"]:
        yield dict(plan, opts=[])
    if plan.get("flag", "--serve") != "--serve":
        yield dict(plan, flag="--serve")
    if plan["path"] != "paper.rsm":
        yield dict(plan, path="paper.rsm")
    for i, s in enumerate(plan["sources"]):
        b = s.split("\n\n")
        if len(b) > 2:
            for j in range(1, len(b) - 1):
                yield dict(plan, sources=plan["sources"][:i] + ["\n\n".join(b[:j] + b[j + 1:])] + plan["sources"][i + 1:])


# -- the author's editor --------------------------------------------------------------------

def steps_of(how, full, text):
    """One save as the file operations real editors perform."""
    d, data = os.path.dirname(full), text.encode("utf-8")
    half = len(data) // 2
    tmp = os.path.join(d, ".tmp-save~")
    if how == "inplace":
        return [["write", full, data.hex()]]
    if how == "twostep":
        return [["write", full, data[:half].hex()], ["write", full, data.hex()]]
    if how == "replace":
        return [["write", tmp, data.hex()], ["rename", tmp, full]]
    if how == "recreate":
        return [["unlink", full], ["write", full, data.hex()]]
    return [["rename", full, full + "~"], ["write", full, data.hex()]]


def do_step(step, t):
    k, p = step[0], step[1]
    if k == "write":
        fd = REAL["open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        data = bytes.fromhex(step[2])
        while data:
            data = data[REAL["write"](fd, data):]
        REAL["close"](fd)
        REAL["utime"](p, (t, t))
    elif k == "rename":
        if os.path.lexists(p):
            REAL["rename"](p, step[2])
    elif os.path.lexists(p):
        REAL["unlink"](p)


class Author:
    """Performs the pending steps of a save, some of them while a build is running."""

    def __init__(self, clock, pending):
        self.clock, self.pending = clock, [list(x) for x in pending]   # [op index | None, step]
        self.n, self.done, self.saw = 0, [], []

    def on_op(self, kind, rel):
        self.clock.t += 0.004
        while self.pending and self.pending[0][0] is not None and self.pending[0][0] <= self.n:
            self.clock.t += 0.003
            do_step(self.pending[0][1], self.clock.t)
            self.done.append([self.n, kind, self.pending.pop(0)[1][0]])
        self.n += 1


def run_make(argv, root, clock, author, faults, tmp):
    """The real command, under the simulated disk, with the author's hands on the same files."""
    disk = Disk(root, extra_read=[os.path.dirname(site.static_dir())], faults=faults, on_op=author.on_op if author else None, tmp=tmp)
    out, err = Out(), io.StringIO()
    av, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = argv, out, err
    code, crashed = 0, False
    try:
        with clock, disk:
            code = site.rsm.cli.make() or 0
    except SimCrash:
        crashed = True
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        import traceback
        err.write(traceback.format_exc())
        code = 1
    finally:
        sys.argv, sys.stdout, sys.stderr = av, so, se
    return code, out.getvalue(), err.getvalue(), crashed or disk.frozen, disk


class VClock:
    def __init__(self, t):
        self.t = t

    def time(self):
        return self.t

    def __enter__(self):
        self.saved = time.time, time.time_ns
        time.time, time.time_ns = self.time, lambda: int(self.t * 1e9)
        return self

    def __exit__(self, *a):
        time.time, time.time_ns = self.saved
        return False


def answer(req):
    """A rebuild: what the spawned process does."""
    import tempfile
    tempfile.tempdir = req["tmp"]
    for p, hexdata in req.get("files", {}).items():
        full = os.path.join(req["cwd"], p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(bytes.fromhex(hexdata))
    os.chdir(req["cwd"])
    clock = VClock(req["t"])
    author = Author(clock, req.get("pending", []))
    import livereload.server as S
    nested = []

    def serve(self, *a, **kw):  # a rebuild that starts serving never comes back to the server that waits for it
        nested.append(1)
        raise SystemExit(0)
    S.Server.serve = serve
    code, out, err, crashed, disk = run_make(req["argv"], req["cwd"], clock, author, req.get("faults", []), req["tmp"])
    res = {"code": -9 if crashed else code, "out": out, "err": err, "t": clock.t, "pending": author.pending, "did": author.done, "ops": disk.n, "nested": bool(nested),
           "fired": [list(map(str, f)) for f in disk.fired]}
    if "files" in req:
        try:
            with open("index.html", "rb") as f:
                res["index"] = f.read().hex()
        except OSError:
            res["index"] = None
        os.chdir("/")
        shutil.rmtree(req["cwd"], ignore_errors=True)
    return res


def execute(plan):
    base = os.environ["VERIF_SCRATCH"]
    root, tmp = os.path.join(base, "w"), os.path.join(base, "tmp")
    os.makedirs(root)
    os.makedirs(tmp)
    session.prepare_dir(root, {})
    clean = site.Clean()
    stats, events = {}, []

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + int(n)

    def log(*e):
        events.append(list(e))

    rel = plan["path"]
    full = os.path.normpath(os.path.join(root, rel))
    os.makedirs(os.path.dirname(full), exist_ok=True)
    src = full if plan["abs"] else rel
    clock = VClock(T0)
    do_step(["write", full, plan["sources"][0].encode().hex()], T0 - 5000)
    opts = list(plan["opts"])
    flag = plan.get("flag", "--serve")
    tail = [[src, flag, *opts], [flag, *opts, src], [*opts, src, flag], [flag, *opts, "--", src]][plan["order"]]
    count("probe:odd_path", not re.fullmatch(r"[\w./]+", rel))

    ops = list(plan["ops"])
    st = types.SimpleNamespace(cur=0, fault=None, pending=[], builds=0, last=None, saved=None, polls=0, v=None, served=False, timers=[], failed=0, during=0, hits=0)

    def run_build(argv, cwd=None):
        """Popen's stand-in: the rebuild runs in a pristine process; the author may act meanwhile."""
        st.builds += 1
        f, st.fault = st.fault, None
        if f == "spawn":
            count("fault:spawn_failed")
            log("spawn failed")
            st.failed += 1
            raise OSError(11, "Resource temporarily unavailable")
        pend = st.pending
        res = clean.ask(what="serve_build", argv=argv, cwd=cwd or root, t=clock.t, pending=pend, faults=[f] if f else [], tmp=tmp)
        if "error" in res:
            raise RuntimeError(res["error"])
        clock.t = res["t"] + 0.05
        n = len(pend) - len(res["pending"])
        st.pending = res["pending"]
        if n:
            count("probe:edit_during_rebuild")
            st.during += 1
            if not st.pending:
                st.last = clock.t
                st.quiet = 0
        if res["fired"]:
            count("fault:rebuild_killed" if res["code"] == -9 else "fault:rebuild_disk_error")
        if res["nested"] and not st.v:
            st.v = viol("rebuild-serves", f"the rebuild ({argv}) starts another server instead of ending: the page is never rebuilt again")
        st.failed += res["code"] != 0 or bool(res["fired"]) or "ERROR" in res["err"]
        count("rebuilds")
        count("disk_ops", res["ops"])
        log("rebuild", res["code"], res["did"], res["fired"], len(res["err"]))
        return res

    class Popen:
        def __init__(self, args, *a, **kw):
            import shlex
            if isinstance(args, (str, bytes)):
                args = shlex.split(os.fsdecode(args)) if kw.get("shell") else [os.fsdecode(args)]
            self.args = args = [os.fsdecode(x) for x in args]
            k = next((i for i, x in enumerate(args) if os.path.basename(x).startswith("rsm-make") or x == "rsm.cli"), None)
            self.text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding"))
            if k is None:
                self.returncode, self.o, self.e = 127, "", "command not found"
                log("unknown command", len(args))
                return
            r = run_build(["rsm-make"] + args[k + 1:], kw.get("cwd"))
            self.returncode, self.o, self.e = r["code"], r["out"], r["err"]
            self.inherit = kw.get("stderr") is None
            if self.inherit:
                sys.stderr.write(self.e)

        def communicate(self, *a, **kw):
            return (self.o, self.e) if self.text else (self.o.encode(), self.e.encode())

        def wait(self, *a, **kw):
            return self.returncode

        poll = wait

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Browser:
        def write_message(self, msg):
            count("probe:reload_sent")

    import livereload.handlers as H
    import livereload.server as S
    from tornado import ioloop as I

    def start_save(op):
        """place the steps of a save: now, before the next poll, or inside the next build"""
        steps = steps_of(op["how"], full, plan["sources"][op["src"]])
        st.cur, st.fault = op["src"], op.get("fault")
        if op["where"] == "build":
            at = sorted(int(x * 110) for x in op["at"])[: len(steps)]
            st.pending = [[a, s] for a, s in zip(at, steps)]
        else:
            st.pending = [[None, s] for s in steps]

    def finish_steps(n=None):
        while st.pending and n != 0:
            clock.t += 0.011
            do_step(st.pending.pop(0)[1], clock.t)
            n = None if n is None else n - 1
        st.last = clock.t

    class Timer:
        def __init__(self, cb, ms, *a, **k):
            self.cb, self.ms = cb, ms if not hasattr(ms, "total_seconds") else ms.total_seconds() * 1000

        def start(self):
            st.timers.append(self)

        def stop(self):
            if self in st.timers:
                st.timers.remove(self)

    def poll():
        clock.t += 0.8
        before = st.builds
        if not os.path.exists(full):
            count("probe:poll_saw_no_file")
        for t in list(st.timers):
            t.cb()
        st.polls += 1
        return st.builds - before

    class Loop:
        def start(self):
            st.served = True
            H.LiveReloadHandler.waiters.add(Browser())
            if not st.timers:
                return
            for _ in range(2):
                poll()
            # an edit placed inside the first build may not have come to its turn yet
            finish_steps()
            while ops:
                op = ops.pop(0)
                for _ in range(op["wait"]):
                    poll()
                start_save(op)
                if op["where"] == "build":
                    # trigger a rebuild with a first save of the previous text, then edit while it runs
                    do_step(["write", full, plan["sources"][op["src"] - 1].encode().hex()], clock.t)
                    poll()
                    finish_steps()
                elif op["where"] == "poll" and len(st.pending) > 1:
                    finish_steps(1)
                    count("probe:poll_saw_half_edit")
                    poll()
                    finish_steps()
                else:
                    finish_steps()
                if st.failed:
                    st.hits += 1
                log("saved", op["how"], op["where"])
            st.fault = None
            # from here on nobody touches anything: two polls must be enough
            st.err_from = len(err.getvalue())
            st.builds_before = st.builds
            poll()
            poll()
            settled = st.builds
            for _ in range(4):
                poll()
            if st.builds != settled:
                st.v = viol("rebuild-storm", f"{st.builds - settled} further rebuilds although nothing changed any more")
            raise KeyboardInterrupt

        def stop(self):
            pass

        def close(self, **k):
            pass

        def call_later(self, d, cb, *a, **k):
            cb(*a)

        def add_callback(self, cb, *a, **k):
            cb(*a)

    loop = Loop()
    fake = types.SimpleNamespace(instance=lambda: loop, current=lambda *a, **k: loop)
    saved = (S.Popen, S.IOLoop, S.add_reload_hook, H.ioloop, S.Server.application)
    import subprocess
    sp = subprocess.Popen
    S.Popen = subprocess.Popen = Popen
    S.IOLoop = fake
    S.add_reload_hook = lambda f: None
    H.ioloop = types.SimpleNamespace(PeriodicCallback=Timer, IOLoop=fake)
    roots = []

    def application(self, *a, **k):
        roots.append(self.root)
        H.LiveReloadHandler.watcher, H.LiveReloadHandler.live_css = self.watcher, k.get("live_css", True)

    S.Server.application = application
    out, err = Out(), io.StringIO()
    av, so, se = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = ["rsm-make", *tail], out, err
    os.chdir(root)
    # the first build runs in this process; the author may already be typing
    author = None
    if plan["initial"] and ops:
        op = ops.pop(0)
        op = dict(op, where="build")
        start_save(op)
        st.fault = None
    author = Author(clock, st.pending)
    disk = Disk(root, extra_read=[os.path.dirname(site.static_dir())], on_op=author.on_op, tmp=tmp)
    real_start = loop.start

    def start():
        # the initial build is over
        disk.uninstall()
        st.pending = author.pending
        if author.done:
            count("probe:edit_during_initial_build")
            st.during += 1
        log("first build", author.done, disk.n)
        real_start()

    loop.start = start
    ended = None
    try:
        with clock:
            disk.install()
            try:
                ended = site.rsm.cli.make()
            finally:
                if not disk.done:
                    disk.uninstall()
    except SystemExit as e:
        ended = f"exit {e.code}"
    except Exception as e:
        import traceback
        ended = f"{type(e).__name__}: {e}"
        tb = traceback.format_exc()
    finally:
        sys.argv, sys.stdout, sys.stderr = av, so, se
        S.Popen, S.IOLoop, S.add_reload_hook, H.ioloop, S.Server.application = saved
        subprocess.Popen = sp
    v = st.v
    count("probe:failed_rebuild_before", bool(st.failed))
    final = plan["sources"][st.cur]
    if v is None and not st.served and not author.done:   # a first build that met a half-saved file may give up
        v = viol("not-serving", f"the command ended without serving a well-formed source: {ended}")
    elif v is None and st.served and ended not in (0, None):
        v = viol("watch-died", f"the watch ended on its own: {ended}")
    elif v is None and st.served:
        files = {os.path.relpath(full, root): final.encode().hex()}
        for p in session.ASSETS:
            files[p] = site.asset_bytes(p, 40, 0).hex()
        ref_root = os.path.join(base, "ref", "w")
        os.makedirs(ref_root)
        argv = ["rsm-make"] + [(os.path.join(ref_root, os.path.relpath(full, root)) if x == src and plan["abs"] else x) for x in tail if x != "--serve"]
        ref = clean.ask(what="serve_build", argv=argv, cwd=ref_root, t=clock.t, files=files, tmp=tmp)
        if "error" in ref:
            raise RuntimeError(ref["error"])
        if ref["code"] == 0 and ref["index"]:
            page = os.path.join(root, roots[-1] or ".", "index.html") if roots else None
            try:
                with open(page, "rb") as f:
                    got = f.read()
            except OSError:
                got = b""
            if got != bytes.fromhex(ref["index"]):
                v = viol("stale-page", f"after the last save and six quiet polls the served page ({len(got)} bytes) is not the page of the current source ({len(ref['index']) // 2} bytes)"
                         f"; {st.builds} rebuilds, {st.failed} of them failed, {st.during} builds had edits under way")
            elif st.builds > st.builds_before:
                def flat(s):
                    s = re.sub(r"\x1b\[[0-9;]*m", "", s)
                    s = re.sub(r"\d\d\d\d-\d\d-\d\d |\d\d:\d\d:\d\d(,\d+)?", "", s)
                    return " ".join(s.split())
                if flat(ref["err"]) not in flat(err.getvalue()[st.err_from:]):
                    v = viol("options-lost", f"the rebuild did not report what the same command without --serve reports: expected {flat(ref['err'])[:200]!r}, got {flat(err.getvalue()[st.err_from:])[:300]!r}")
    import hashlib
    sig = hashlib.sha256(json.dumps(events, sort_keys=True).encode()).hexdigest()[:16]
    return dict(violation=v, nontrivial=bool(st.during or st.hits), sig=sig, stats=stats, sample={"events": events[:10], "path": rel, "opts": opts}, events=events,
                sim_ms=(clock.t - T0) * 1000)
