"""The site is a function of the manuscript: the same inputs give the same bytes in every environment."""
import hashlib
import io
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import time

from sim import corpus, session, site
from sim.disk import Disk, REAL
from sim.helper import Helper
from sim.prng import Rng
from sim.site import viol
from sim.stdio import Out

LEVEL = "exploration"
RUNS = {"quick": 750, "thorough": 10000}
RULE = "a run counts when a build under a changed environment was compared with the plain one; distinct by manuscript and environment"
REQUIRED_PROBES = ["locale_not_utf8", "other_hash_seed", "short_reads", "dir_order", "string_vs_file", "entry_differs", "non_ascii", "foreign_line_ends"]
REQUIRED_FAULTS = ["short_read"]
SHRINK_FIELDS = ["env"]
COMPONENTS = {"real": ["all of rsm", "a second interpreter with another hash seed (and, for half of the workers, with assertions off) gives the reference"],
              "simulated": ["locale encoding", "wall clock and time zone", "directory enumeration order", "partial reads", "os.urandom and random state", "environment variables, umask, garbage collection"],
              "stubbed": ["none"]}
ASSUMPTIONS = ["a manuscript given as a string ends its lines with newlines", "every referenced asset exists"]
STATE_MEASURE = "distinct (manuscript, environment) pairs"
helper = None


def warm():
    global helper
    session.warm()
    seed = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
    helper = Helper("P08", seed * 31 + 17, ["-O"] if (seed // 7919) % 2 else [])


def warm_helper():
    session.warm()
    site.ANSWERS["plain"] = answer


ENV = {
    "locale": ["ascii", "latin-1", "cp1252", "utf-16", "shift_jis"],
    "tz": ["Pacific/Auckland", "America/St_Johns", "Asia/Kolkata"],
    "clock": [0.5, 946684799.0, 4102444800.0, 1_700_000_000.25],
    "order": [1, 2, 3, 4, 5, 6, 7],
    "short": [3, 99, 12345, 777777],
    "entry": ["cli", "app", "render", "cli_string", "source", "cli_render"],
    "cwd": ["a b", "ünï", "x/y/z/w", "%41", "$HOME", "a?b!c#d", "w.rsm", "static"],
    "abs": [1, 2, 3],
    "umask": [0o077, 0o000, 0o002],
    "loglevel": [10, 20, 40],
    "log_format": ["json", "plain", "lint"],
    "random": [1, 2, 3],
    "gc": ["off", "eager"],
    "vars": [{"LANG": "C", "LC_ALL": "POSIX"}, {"PYTHONIOENCODING": "ascii"}, {"HOME": "/tmp/none", "USER": "x"}, {"COLUMNS": "13", "NO_COLOR": "1"}, {"TMPDIR": "/nonexistent"}],
    "eol": ["\r\n", "\r", "mixed"],   # what the editor of another system ends lines with
    "pre": [1],   # the output directory already holds a site of another manuscript
}


def gen(seed, index, tier):
    r = Rng("P08", seed, index)
    assets = r.some(session.ASSETS, 0, 3)
    doc = corpus.Gen(r, assets=assets, dup_labels=r.chance(0.2), size=r.pick([None, None, 3, 14])).doc()
    keys = r.some(sorted(ENV), 1, 7)
    if r.chance(0.5) and "locale" not in keys:
        keys.append("locale")
    env = [[k, r.pick(ENV[k])] for k in keys]
    return {"prop": "P08", "doc": doc, "env": env, "handrails": r.chance(0.6)}


def shrink(plan):
    d = plan["doc"]
    for j in range(len(d["blocks"])):
        yield dict(plan, doc=dict(d, blocks=d["blocks"][:j] + d["blocks"][j + 1:]))


def read_site(d):
    out = {}
    for p, data in site.snapshot(d).items():
        if isinstance(data, bytes) and (p == "index.html" or p.startswith("static/")):
            out[p] = hashlib.sha256(data).hexdigest() if p != "index.html" else data.decode("utf-8", "surrogateescape")
    return out


def build(entry, root, src, text, kw):
    """-> what the user gets"""
    so, se, av = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = Out(), io.StringIO()
    try:
        args = []
        if kw.get("loglevel") in (10, 20):
            args.append("-" + "v" * (3 - kw["loglevel"] // 10))
        if kw.get("log_format"):
            args.append("--log-format=" + kw["log_format"])
        if entry == "cli":
            sys.argv = ["rsm-make", src, *args]
            site.rsm.cli.make()
        elif entry == "cli_string":
            sys.argv = ["rsm-make", text, "-c", *args]
            site.rsm.cli.make()
        elif entry == "app":
            site.rsm.app.FullBuildApp(srcpath=src, handrails=kw["handrails"]).run()
        elif entry == "render":
            return {"body": site.rsm.render(path=src, **kw)}
        elif entry == "cli_render":
            sys.argv = ["rsm-render", src, *args] + (["-r"] if kw["handrails"] else [])
            site.rsm.cli.render()
            return {"body": sys.stdout.getvalue()[:-1]}
        elif entry == "source":
            site.rsm.make(source=text, **kw)
        else:
            site.rsm.make(path=src, **kw)
    except Exception as e:
        return {"raised": f"{type(e).__name__}: {e}", "stderr": sys.stderr.getvalue()[-300:]}
    finally:
        sys.stdout, sys.stderr, sys.argv = so, se, av
    return read_site(root)


def lay(root, doc, text, eol="\n"):
    os.makedirs(root)
    for p in session.ASSETS:
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(site.asset_bytes(p, 40, 0))
    with open(os.path.join(root, "paper.rsm"), "wb") as f:
        ends = {"mixed": ["\r\n", "\n", "\r"]}.get(eol, [eol])
        lines = text.split("\n")
        # a lone return in front of an empty line's newline would read as one line end: a mixed file keeps those apart
        f.write("".join(l + ("" if i == len(lines) - 1 else "\r\n" if eol == "mixed" and not lines[i + 1] else ends[i % len(ends)]) for i, l in enumerate(lines)).encode())


def answer(req):
    root = os.path.join(req["scratch"], "plain")
    shutil.rmtree(root, ignore_errors=True)
    lay(root, None, req["text"])
    os.chdir(root)
    out = {"site": build("api", root, "paper.rsm", req["text"], {"handrails": True})}
    if not req["handrails"] or req["body"]:
        out["other"] = build("render", root, "paper.rsm", req["text"], {"handrails": req["handrails"]})
        os.chdir("/")
        shutil.rmtree(root)
        lay(root, None, req["text"])
        os.chdir(root)
        out["site2"] = build("api", root, "paper.rsm", req["text"], {"handrails": req["handrails"]})
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return out


class LocaleDisk(Disk):
    enc = None

    def _wrap(self, file, mode, buffering, encoding, errors, newline, closefd, opener, rel):
        if self.enc and "b" not in mode and encoding in (None, "locale"):
            encoding = self.enc
            self.count("locale_text_opens")
        return super()._wrap(file, mode, buffering, encoding, errors, newline, closefd, opener, rel)


def execute(plan):
    base = os.environ["VERIF_SCRATCH"]
    env = dict(plan["env"])
    text = corpus.source(plan["doc"])
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    root = os.path.join(base, "w", env.get("cwd", "d"))
    lay(root, plan["doc"], text, env.get("eol", "\n"))
    entry = env.get("entry", "api")
    kw = {"handrails": plan["handrails"]}
    for k in ("loglevel", "log_format"):
        if k in env:
            kw[k] = env[k]
    stats = {}

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + int(n)

    ref = helper.ask(what="plain", text=text, handrails=plan["handrails"], body=entry in ("render", "cli_render"))
    if "error" in ref:
        raise RuntimeError(ref["error"])
    if env.get("pre"):
        with open(os.path.join(root, "index.html"), "w") as f:
            f.write("<html>another page, much longer " + "x" * 400000)
        os.makedirs(os.path.join(root, "static"), exist_ok=True)
        with open(os.path.join(root, "static", "rsm.css"), "wb") as f:
            f.write(b"body{}" * 99999)
    os.chdir(root)
    src = "paper.rsm"
    if env.get("abs") == 1:
        src = os.path.join(root, src)
    elif env.get("abs") == 2:
        src = "./" + src
    elif env.get("abs") == 3:
        src = os.path.join("..", os.path.basename(root), src)
    shuffle = None
    if "order" in env:
        def shuffle(items):
            items = list(items)
            Rng("order", env["order"]).shuffle(items)
            return items
    disk = LocaleDisk(root, extra_read=[os.path.dirname(site.static_dir())], short_reads=env.get("short", 0), shuffle=shuffle, tmp=tmp)
    disk.enc = env.get("locale")
    saved = dict(os.environ)
    os.environ.update(env.get("vars", {}))
    if "tz" in env:
        os.environ["TZ"] = env["tz"]
        time.tzset()
    if "random" in env:
        random.seed(env["random"])
        rr = random.Random(env["random"])
        os.urandom = lambda n: bytes(rr.randrange(256) for _ in range(n))
    if "umask" in env:
        os.umask(env["umask"])
    import gc
    gc.disable() if env.get("gc") == "off" else gc.set_threshold(1) if env.get("gc") == "eager" else None
    import locale
    pref = locale.getpreferredencoding, locale.getencoding
    if disk.enc:
        locale.getpreferredencoding = lambda *a: disk.enc
        locale.getencoding = lambda: disk.enc
    try:
        with session.Clock(env.get("clock", session.EPOCH)), disk:
            got = build(entry, root, src, text, kw)
    finally:
        locale.getpreferredencoding, locale.getencoding = pref
        os.environ.clear()
        os.environ.update(saved)
        time.tzset()
        gc.enable()
        gc.set_threshold(700)
    os.chdir("/")
    if entry in ("render", "cli_render"):
        want = ref["other"]
    elif entry in ("cli", "cli_string") or plan["handrails"]:
        want = ref["site"]
    else:
        want = ref["site2"]
    for k, n in disk.stats.items():
        count(k, n)
    count("comparisons")
    for k in env:
        count("env:" + k)
    count("probe:locale_not_utf8", bool(disk.enc))
    count("probe:other_hash_seed")
    count("probe:short_reads", "short" in env)
    count("probe:dir_order", "order" in env)
    count("probe:string_vs_file", entry in ("source", "cli_string"))
    count("probe:entry_differs", entry != "api")
    count("probe:foreign_line_ends", "eol" in env and entry not in ("source", "cli_string"))
    count("probe:non_ascii", not text.isascii())
    v = None
    if entry == "cli_render" and env.get("loglevel") == 10 and "body" in got and "body" in want and got["body"].endswith(want["body"]):
        got = want   # at the most verbose level the trees are printed first, by design
    if got != want:
        if "raised" in got or "raised" in want:
            msg = f"fails with {got.get('raised')} (plain environment: {want.get('raised', 'succeeds')})"
        else:
            k = next(k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))
            a, b = got.get(k), want.get(k)
            msg = f"{k}: " + ("missing" if a is None else "should not be there" if b is None else session.first_diff(a, b))
        v = viol("environment-dependence", f"the same manuscript gives something else under {plan['env']}: {msg}")
    sig = hashlib.sha256(json.dumps([plan["doc"], plan["env"]], sort_keys=True).encode()).hexdigest()[:16]
    return dict(violation=v, nontrivial=True, sig=sig, stats=stats, sample={"env": plan["env"], "bytes": len(text)},
                events=[disk.n, sorted(got), entry], sim_ms=0)
