"""One process used many times: histories of calls, interruptions, failures and threads.

Shared by P05, P06, P08 and P09.  Every call is also asked of a pristine process that has no
history (see site.Clean); the two answers must agree.
"""
import hashlib
import io
import json
import logging
import os
import re
import sys
import tempfile
import time

from . import corpus, site
from .prng import Rng
from .sched import Scheduler, Stopper
from .stdio import Out

ASSETS = corpus.ASSETS + ["fig (1).png", "img/ein Bild.png", "Größe.svg", "UP/Low.Png", ".dot.png", "x,y=z.png"]
EPOCH = 1_700_000_000.0
rsm = None


def warm():
    global rsm
    from . import sched
    sched.patch_locks()
    site.warm()
    rsm = site.rsm
    logging.raiseExceptions = True
    from . import disk as _d  # noqa: F401


# -- one call -------------------------------------------------------------------------------

def norm(s):
    return re.sub(r"0x[0-9a-f]{6,}", "0xADDR", str(s))


class Clock:
    """A simulated wall clock: every reading advances it a little."""

    def __init__(self, t):
        self.t, self.reads = t, 0

    def time(self):
        self.reads += 1
        self.t += 0.001
        return self.t

    def time_ns(self):
        return int(self.time() * 1e9)

    def __enter__(self):
        self.saved = time.time, time.time_ns
        time.time, time.time_ns = self.time, self.time_ns
        return self

    def __exit__(self, *a):
        time.time, time.time_ns = self.saved
        return False


def make_app(op):
    kw = dict(op.get("kw", {}))
    tgt = {"srcpath": op["path"]} if op.get("path") else {"plain": op["src"]}
    cls = {"processor": rsm.app.ProcessorApp, "linter": rsm.app.LinterApp, "full": rsm.app.FullBuildApp}[op["cls"]]
    return cls(**tgt, **kw)


def summarise(value):
    if value is None or isinstance(value, str):
        return value
    if hasattr(value, "sexp"):
        return norm(value.sexp(meta=True))
    if hasattr(value, "html"):
        return {"html": value.html, "body": value.body}
    return norm(repr(value))


def call(op, app=None):
    """Execute one call; the result is plain data. BaseExceptions other than SystemExit pass through."""
    fn = op["fn"]
    kw = dict(op.get("kw", {}))
    if "path" in op:
        kw["path"] = op["path"]
    elif "src" in op:
        kw["source"] = op["src"]
    try:
        if fn == "app_run":
            return {"value": summarise((app or make_app(op)).run())}
        if fn in ("render", "lint", "make"):
            v = summarise(getattr(rsm, fn)(**kw))
        elif fn.startswith("cli_"):
            old, out = sys.argv, Out()
            so = sys.stdout
            sys.argv = ["rsm-" + fn[4:]] + (["-c", op["src"]] if "src" in op else [op["path"]]) + list(op.get("args", []))
            sys.stdout = out
            try:
                code = getattr(rsm.cli, fn[4:])()
            finally:
                sys.argv, sys.stdout = old, so
            v = {"code": code, "out": norm(out.getvalue())}
        else:
            raise AssertionError(fn)
        res = {"value": v}
        if fn.endswith("make"):
            res["index"] = None
            if os.path.exists("index.html"):
                with open("index.html", "rb") as f:
                    res["index"] = hashlib.sha256(f.read()).hexdigest()
        return res
    except SystemExit as e:
        return {"exit": e.code}
    except Exception as e:
        return {"raised": type(e).__name__, "msg": norm(e)}


def prepare_dir(d, files):
    os.makedirs(d, exist_ok=True)
    for p in ASSETS:
        full = os.path.join(d, p)
        if not os.path.exists(full):
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(site.asset_bytes(p, 40, 0))
    for p, text in files.items():
        write_file(d, p, text)


def write_file(d, p, text, keep=None):
    full = os.path.join(d, p)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))
    if keep:
        os.utime(full, ns=(keep, keep))


def remove_site(d):
    import shutil
    if os.path.exists(os.path.join(d, "index.html")):
        os.unlink(os.path.join(d, "index.html"))
    shutil.rmtree(os.path.join(d, "static"), ignore_errors=True)


class Err(io.StringIO):
    """The process's standard error; can start failing."""

    def __init__(self, fail_from=None, fail_for=1 << 30):
        super().__init__()
        self.fail_from, self.fail_for, self.writes, self.failed = fail_from, fail_for, 0, 0

    def write(self, s):
        self.writes += 1
        if self.fail_from is not None and self.fail_from < self.writes <= self.fail_from + self.fail_for:
            self.failed += 1
            raise OSError(32, "Broken pipe")
        return super().write(s)


def isolated(op, clock_t, count_steps=False, err=None, app=None, stop=None):
    """Run one call with its own stderr, clock and (optionally) line counter. -> (result, err, tap, steps)"""
    err = err or Err()
    se = sys.stderr
    sys.stderr = err
    st = stop or Stopper()
    try:
        with site.ErrorTap() as tap, Clock(clock_t):
            if count_steps or stop:
                with st:
                    res = call(op, app)
            else:
                res = call(op, app)
    finally:
        sys.stderr = se
    return res, err, tap, st.step


def answer_call(req):
    """In a pristine process."""
    d = req["dir"]
    prepare_dir(d, req.get("files", {}))
    os.chdir(d)
    tempfile.tempdir = req["tmp"]
    res, err, tap, steps = isolated(req["op"], req.get("t", EPOCH), count_steps=req.get("steps", False))
    out = {"res": res, "err": err.getvalue(), "steps": steps}
    os.chdir("/")
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return out


site.ANSWERS["call"] = answer_call


# -- generation -----------------------------------------------------------------------------

SICK = ["unclosed", "prev", "item", "open-brace", "truncate", "empty", "nodelim"]


def gen_source(r, sick=0.12, **kw):
    doc = corpus.Gen(r, assets=r.some(ASSETS, 1) if r.chance(0.7) else [], dup_labels=r.chance(0.3), **kw).doc()
    s = corpus.source(doc)
    if r.chance(sick):
        k = r.pick(SICK)
        s = {"unclosed": s.rstrip()[:-2], "prev": ":rsm:\n\nStray :prev: tag.\n\n::\n", "item": ":rsm:\n\n:item: Foo bar.\n\n::\n",
             "open-brace": s.replace(":rsm:", ":rsm: {", 1), "truncate": s[: len(s) * 2 // 3], "empty": " ",
             "nodelim": s.replace("::", ":", 1)}[k]
    return s


def gen_kw(r, fn):
    kw = {}
    if fn in ("render", "lint", "make"):
        if r.chance(0.6):
            kw["handrails"] = r.chance(0.6)
        if fn == "render" and r.chance(0.3):
            kw["add_source"] = r.chance(0.5)
        if r.chance(0.4):
            kw["loglevel"] = r.pick([10, 20, 25, 30, 40])
        if r.chance(0.4):
            kw["log_format"] = r.pick(["rsm", "plain", "json", "lint"])
        if r.chance(0.3):
            kw["log_time"] = r.chance(0.5)
        if r.chance(0.3):
            kw["log_lineno"] = r.chance(0.5)
        if fn == "make" and r.chance(0.4):
            kw["lint"] = r.chance(0.5)
    return kw


def gen_args(r):
    a = []
    if r.chance(0.4):
        a.append("-r")
    if r.chance(0.3):
        a.append(r.pick(["-v", "-vv"]))
    if r.chance(0.3):
        a.append("--log-no-timestamps")
    if r.chance(0.3):
        a.append("--log-no-lineno")
    if r.chance(0.4):
        a.append("--log-format=" + r.pick(["rsm", "plain", "json", "lint"]))
    if r.chance(0.2):
        a.append("-s")
    return a


FNS = ["render"] * 5 + ["lint"] * 2 + ["make"] * 2 + ["cli_render", "cli_lint", "cli_make"]


def gen_call(r, sources, names, fns=FNS):
    fn = r.pick(fns)
    op = {"op": "call", "fn": fn}
    if names and r.chance(0.35):
        op["path"] = r.pick(names)
    else:
        op["src"] = r.pick(sources)
    if fn.startswith("cli_"):
        op["args"] = gen_args(r)
    else:
        op["kw"] = gen_kw(r, fn)
    return op


def resolve(op, plan):
    """replace source indices by text"""
    op = dict(op)
    if isinstance(op.get("src"), int):
        op["src"] = plan["sources"][op["src"]]
    return op


def brief(res):
    if "raised" in res:
        return f"{res['raised']}: {res['msg'][:80]}"
    v = res.get("value")
    if isinstance(v, dict):
        v = v.get("html") or v.get("out") or json.dumps(v)[:80]
    return "exit" if "exit" in res else f"{len(v or '')} characters"


def first_diff(a, b):
    a, b = json.dumps(a, sort_keys=True, ensure_ascii=False), json.dumps(b, sort_keys=True, ensure_ascii=False)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, n - 60):n + 60]}... vs ...{b[max(0, n - 60):n + 60]}..."


def shrink_session(plan):
    for i, s in enumerate(plan["sources"]):
        blocks = s.split("\n\n")
        if len(blocks) > 2:
            for j in range(1, len(blocks) - 1):
                yield dict(plan, sources=plan["sources"][:i] + ["\n\n".join(blocks[:j] + blocks[j + 1:])] + plan["sources"][i + 1:])
    for i, op in enumerate(plan["ops"]):
        if op.get("kw"):
            for k in op["kw"]:
                kw = {a: b for a, b in op["kw"].items() if a != k}
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, kw=kw)] + plan["ops"][i + 1:])
        if op.get("switches"):
            for j in range(len(op["switches"])):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, switches=op["switches"][:j] + op["switches"][j + 1:])] + plan["ops"][i + 1:])
        if op["op"] == "par" and len(op["calls"]) > 2:
            for j in range(len(op["calls"])):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, calls=op["calls"][:j] + op["calls"][j + 1:])] + plan["ops"][i + 1:])


class Session:
    """A history of calls in this process, next to a pristine reference."""

    def __init__(self, plan):
        base = os.environ["VERIF_SCRATCH"]
        self.dir = os.path.join(base, "s")
        self.ref_dir = os.path.join(base, "ref", "s")
        self.tmp = os.path.join(base, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        tempfile.tempdir = self.tmp
        self.plan = plan
        self.clean = site.Clean()
        self.files = {}
        prepare_dir(self.dir, {})
        os.chdir(self.dir)
        self.t = EPOCH
        self.stats, self.events, self.cache = {}, [], {}
        self.sim0 = self.t

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + int(n)

    def write(self, name, text, keep=False):
        full = os.path.join(self.dir, name)
        keep_ns = os.stat(full).st_mtime_ns if keep and os.path.exists(full) else None
        write_file(self.dir, name, text, keep_ns)
        self.files[name] = text

    def unlink(self, name):
        if name in self.files:
            os.unlink(os.path.join(self.dir, name))
            del self.files[name]

    def reference(self, op, steps=False, t=None):
        files = {op["path"]: self.files[op["path"]]} if op.get("path") in self.files else {}
        key = json.dumps([op, files, steps, t], sort_keys=True)
        if key not in self.cache:
            self.cache[key] = self.clean.ask(what="call", op=op, files=files, dir=self.ref_dir, tmp=self.tmp, steps=steps, t=t or EPOCH)
            self.count("reference_calls")
            if "error" in self.cache[key]:
                raise RuntimeError(self.cache[key]["error"])
        return self.cache[key]

    def log(self, *e):
        self.events.append(list(e))

    def finish(self, v, nontrivial, sample, states=()):
        sig = hashlib.sha256(json.dumps(self.events, sort_keys=True).encode()).hexdigest()[:16]
        return dict(violation=v, nontrivial=bool(nontrivial), sig=sig, stats=self.stats, sample=sample,
                    events=self.events, sim_ms=(self.t - self.sim0) * 1000, states=list(states))


def run_parallel(sess, calls, switches, first):
    """calls on caller threads; the baton moves at the given global steps"""
    err = Err()
    se = sys.stderr
    sys.stderr = err
    try:
        with Clock(sess.t):
            s = Scheduler([(lambda c=c: call(c)) for c in calls], switches, first)
            out = s.run()
    finally:
        sys.stderr = se
    return out, s
