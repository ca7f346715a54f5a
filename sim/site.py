"""Site simulation: histories of edits, builds, disk faults, crashes and power losses.

Shared by P01-P04.  A world is a scratch directory holding a manuscript, its assets and
bystander files; builds run the real rsm entry points inside the disk seam.
"""
import hashlib
import html
import io
import json
import logging
import os
import re
import select
import shutil
import sys
import tempfile
import time
import traceback

from . import corpus
from .disk import Disk, REAL, SimCrash, snapshot
from .prng import Rng, derive
from .stdio import Out

SRC_DEFAULT = "paper.rsm"
ASSETS = ["fig-a.png", "fig-b.svg", "img/plot.png", "img/deep/tree.svg", "static/mine.png"]
ODD_ASSETS = ["fig (1).png", "img/ein Bild.png", "naïve Ä.svg", "図.png", "it's.png", "a+b.png", "x,y=z.png", ".dot.png", "UP/Low.Png", "noext", "fig.tar.gz.png",
              "img/..two.png", "-dash.png", "100%.png", "a~.png", "#1.png", "img/a&b.png", "a" * 180 + ".png", "v1.2/fig.png", "static/sub/inner.png", "tmp.png", "FIG-A.png", "Fig-b.SVG"]
EPOCHS = [0, 946_684_800, 1_577_836_800, 1_700_000_000, 2_050_000_000, 4_000_000_000]   # clocks that were never right
BYSTANDERS = {"notes.txt": b"do not touch\n", "static/keep.txt": b"mine too\n", ".git/HEAD": b"ref: x\n",
              "other.rsm": b":rsm:\n\nother\n\n::\n", "img/unused.png": b"\x89PNG unused",
              # the user's own files that look like something of ours, or like leftovers
              "static/custom.css": b"body{}\n", "static/analytics.js": b"1;\n", "static/vendor/lib.js": b"2;\n",
              "static/old.png": b"\x89PNG old", "static/.hidden": b"h", "static/rsm.css.bak": b"bak", "static/onload.js~": b"~",
              "static/RSM.CSS": b"upper", "index.html.bak": b"<html>", "index.html~": b"<html>", "index.htm": b"<html>",
              ".index.html.swp": b"swp", "index.html.tmp": b"tmp", "index.tmp": b"tmp", "static.bak/rsm.css": b"saved", "static.tmp/x": b"x", "tmp/x": b"x",
              "static_old/tree.js": b"o", "paper.html": b"<p>", "paper.rsm~": b"~", "rsm.log": b"log", "custom.js": b"3;", "main.css": b"p{}",
              "static/index.html": b"listing", "build/index.html": b"b", "_site/static/rsm.css": b"c", "empty": b"", "favicon.ico": b"ico"}

rsm = None


def warm():
    """Import the code under test and its dependencies (nothing is run)."""
    global rsm
    sys.path.insert(0, "/repo") if "/repo" not in sys.path else None
    logging.raiseExceptions = False
    import rsm as _rsm
    import rsm.app, rsm.cli, rsm.builder, rsm.writer, rsm.reader, rsm.translator  # noqa: F401,E401
    import fs.osfs, fs.memoryfs, fs.mountfs, fs.copy  # noqa: F401,E401
    import pygments.lexers, pygments.formatters  # noqa: F401,E401
    assert os.path.realpath(_rsm.__file__) == "/repo/rsm/__init__.py", _rsm.__file__
    try:  # pygments imports lexers lazily: load them now, so that imports are not part of a run
        from pygments.lexers import get_lexer_by_name
        get_lexer_by_name("python")
    except Exception:
        pass
    from fs import open_fs  # registers openers lazily
    open_fs("mem://").close()
    open_fs("/").close()
    rsm = _rsm


def asset_bytes(path, n, ver):
    r = Rng("asset", path, n, ver)
    return (b"\x89PNG" if path.endswith("png") else b"<svg>") + bytes(r.randrange(256) for _ in range(min(n, 512))) * (1 + n // 512)


def static_dir():
    return os.path.join(os.path.dirname(os.path.realpath(rsm.__file__)), "static")


def package_static():
    d = static_dir()
    out = {}
    for n in sorted(REAL["listdir"](d)):
        if os.path.splitext(n)[1] in (".js", ".css"):
            with open(os.path.join(d, n), "rb") as f:
                out[n] = f.read()
    return out


class ErrorTap:
    """Sees every log record created, at whatever level the loggers are."""

    def __init__(self):
        self.records = []

    def __enter__(self):
        self.old = logging.getLogRecordFactory()

        def factory(*a, **k):
            rec = self.old(*a, **k)
            self.records.append(rec)
            return rec

        logging.setLogRecordFactory(factory)
        return self

    def __exit__(self, *a):
        logging.setLogRecordFactory(self.old)
        return False


class Outcome:
    def __init__(self):
        self.raised = None
        self.crashed = False
        self.reported = False
        self.code = 0
        self.stdout = self.stderr = ""
        self.value = None

    @property
    def ok(self):
        return not self.crashed and not self.reported


def run_entry(entry, src, handrails=True, extra_args=(), loglevel=None):
    """Run one build the way a user does; classify how it ended."""
    o = Outcome()
    out, err = Out(), io.StringIO()
    so, se, av = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = out, err
    with ErrorTap() as tap:
        try:
            if entry == "cli":
                sys.argv = ["rsm-make", src, *extra_args]
                o.code = rsm.cli.make() or 0
            elif entry == "app":
                o.value = rsm.app.FullBuildApp(srcpath=src).run()
            else:
                kw = {"handrails": handrails}
                if loglevel is not None:
                    kw["loglevel"] = loglevel
                o.value = rsm.make(path=src, **kw)
        except SimCrash:
            o.crashed = True
        except SystemExit as e:
            o.code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:
            o.raised = f"{type(e).__name__}: {e}"
        finally:
            sys.stdout, sys.stderr, sys.argv = so, se, av
    o.stdout, o.stderr = out.getvalue(), err.getvalue()
    # a report is something the user gets: an exception, a nonzero exit, or an error on stderr
    logged = any(r.levelno >= logging.ERROR for r in tap.records) and bool(o.stderr.strip())
    o.reported = bool(o.raised) or o.code != 0 or logged
    return o


class Clean:
    """A pristine process (forked before the run starts) that answers reference queries."""

    def __init__(self):
        self.req_r, self.req_w = os.pipe()
        self.res_r, self.res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self._serve()
        os.close(self.req_r)
        os.close(self.res_w)
        self.f_out = os.fdopen(self.req_w, "w", encoding="utf-8")
        self.f_in = os.fdopen(self.res_r, "r", encoding="utf-8")

    def _serve(self):
        os.close(self.req_w)
        os.close(self.res_r)
        fin = os.fdopen(self.req_r, "r", encoding="utf-8")
        for line in fin:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    out = _answer(json.loads(line))
                except BaseException:
                    out = {"error": traceback.format_exc()}
                data = json.dumps(out).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
            os.close(w)
            buf = b""
            while True:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf += b
            os.close(r)
            os.waitpid(pid, 0)
            buf += b"\n"
            while buf:
                buf = buf[os.write(self.res_w, buf):]
        os._exit(0)

    def ask(self, **req):
        self.f_out.write(json.dumps(req) + "\n")
        self.f_out.flush()
        return json.loads(self.f_in.readline())


ANSWERS = {}  # further questions, registered by other engines


def _answer(req):
    """Runs in a fresh fork of the pristine process: no history, no faults."""
    what = req["what"]
    if what in ANSWERS:
        return ANSWERS[what](req)
    if what == "build":  # a clean-room build of the given inputs
        d = req["dir"]
        os.makedirs(d)
        for p, hexdata in req["files"].items():
            full = os.path.join(d, p.lstrip("/"))   # in a page, /x is below the root of the site
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(bytes.fromhex(hexdata))
        os.chdir(d)
        o = run_entry(req["entry"], req["src"], req.get("handrails", True))
        snap = snapshot(d)
        shutil.rmtree(d, ignore_errors=True)
        return {"ok": o.ok, "raised": o.raised, "code": o.code,
                "site": {k: v.hex() for k, v in snap.items() if isinstance(v, bytes) and (k == "index.html" or k.startswith("static/"))}}
    raise ValueError(what)


# -- generation ---------------------------------------------------------------------------

def gen_doc(r, assets, size=None):
    return corpus.Gen(r, assets=assets, size=size).doc()


SYNTAX_BREAKS = ["unclosed", "open-brace", "stray-math", "empty", "garbage"]
READ_FAULTS = [("open_r", "EIO"), ("open_r", "EACCES"), ("open_r", "EMFILE"), ("open_r", "ENOENT"), ("read", "EIO"), ("read", "ESTALE"),
               ("list", "EIO"), ("list", "EACCES"), ("stat", "EIO"), ("stat", "EACCES")]
WRITE_FAULTS = [("open_w", "EACCES"), ("open_w", "ENOSPC"), ("open_w", "EMFILE"), ("open_w", "EROFS"), ("write", "ENOSPC"), ("write", "EIO"),
                ("write", "EDQUOT"), ("close_w", "EIO"), ("close_w", "EDQUOT"), ("mkdir", "ENOSPC"), ("mkdir", "EACCES"),
                ("rename", "EIO"), ("unlink", "EACCES"), ("sync", "EIO"), ("meta", "EPERM")]
ROLES = {"open_r": ["src", "asset", "pkg", "any"], "read": ["src", "asset", "pkg", "any"], "list": ["any"], "stat": ["any"],
         "open_w": ["index", "static", "asset", "any"], "write": ["index", "static", "asset", "any"], "close_w": ["index", "static", "asset", "any"]}


def gen_fault(r, reads, writes):
    pool = ([("r", x) for x in READ_FAULTS] if reads else []) + ([("w", x) for x in WRITE_FAULTS[:11]] * 1 if writes else [])
    _, (on, kind) = r.pick(pool)
    role = r.pick(ROLES.get(on, ["any"]))
    nth = 0 if role in ("src", "index") else r.pick([0, 0, 1, 2, 3, 5, 8, 13, 21])
    return {"on": on, "kind": kind, "role": role, "nth": nth}


def gen_crash(r):
    k = r.randrange(10)
    if k < 3:  # aimed at the publishing phase
        return {"on": r.pick(["write", "open_w", "close_w"]), "kind": r.pick(["CRASH", "CRASH", "TORN"]), "frac": r.pick([0.1, 0.5, 0.9]),
                "role": r.pick(["index", "static", "asset", "any"]), "nth": r.pick([0, 0, 0, 1, 2, 4, 7, 11, 15])}
    return {"at": r.randrange(150), "kind": r.pick(["CRASH", "CRASH", "TORN"]), "frac": r.pick([0.05, 0.3, 0.6, 0.95])}


def gen_world(r, static_asset=True, own=0.0):
    """own: how often the manuscript mostly refers to an asset that already is in static/"""
    if r.chance(own):
        pool = ["static/mine.png"] + r.some(ASSETS[:4], 0, 1)
        links = [["pics", "static"]]
        a = r.pick(["static/mine.png", "img/../static/mine.png", "/static/mine.png", "pics/mine.png", "pics/mine.png"])
        return {"links": links if a.startswith("pics") else [], "mt": 0, "assets": {p: [r.pick([40, 9000, 70000]), 0] for p in [a] + pool[1:]},
                "src": SRC_DEFAULT, "bystanders": r.some(sorted(BYSTANDERS), 0, 4), "abs": False, "root": r.pick(["w", "my work"])}
    pool = r.some(ASSETS if static_asset else ASSETS[:4], 1, 4)
    if r.chance(0.35):
        pool += [p for p in r.some(ODD_ASSETS, 1, 3) if static_asset or not p.startswith("static/")]
    links = []
    if r.chance(0.15):   # the same files by other names
        k = r.randrange(3)
        if k == 0 and static_asset:
            links = [["pics", "static"]]
            pool = [p for p in pool if not p.startswith("static/")] + ["pics/mine.png"]
        elif k == 1 and "img/plot.png" in pool and static_asset:
            links = [["static/plot.png", "../img/plot.png"]]
        elif k == 2 and "fig-a.png" in pool:
            links = [["fig-a.png", "img/real a.png"]]
    if r.chance(0.2):   # next to the working directory rather than below it
        pool += r.some(["../shared/figure 7.png", "../plan.svg", "../../far.png"], 1, 2)
    if r.chance(0.25):
        pool = [r.pick(["./" + p, p, "img/../" + p] + (["/" + p] if not p.startswith("..") else [])) if not any(p == a or p.startswith(a + "/") for a, _ in links) else p for p in pool]
    return {"links": links, "mt": r.randrange(1, 1 << 30) if r.chance(0.5) else 0,
            "assets": {p: [r.pick([3, 40, 700, 9000, 70000, 70000 if r.chance(0.9) else 2_500_000]), 0] for p in pool}, "src": r.pick([SRC_DEFAULT, SRC_DEFAULT, "my paper.rsm", "sub/p.rsm", "папка.rsm"]),
            "bystanders": r.some(sorted(BYSTANDERS), 0, r.pick([2, 4, 12])), "abs": r.chance(0.15),
            "root": r.pick(["w", "w", "w", "my work", "50%41", "$HOME", "a?b#c!d", "каталог", "sub.rsm"])}


# -- execution ----------------------------------------------------------------------------

class World:
    def __init__(self, plan, disk_kw=None):
        base = os.environ["VERIF_SCRATCH"]
        self.root = os.path.join(base, "home", "papers", plan["world"].get("root", "w"))
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.scratch = base
        self.tmp = os.path.join(base, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        tempfile.tempdir = self.tmp
        self.w = plan["world"]
        self.src = self.w["src"]
        self.assets = {p: tuple(v) for p, v in self.w["assets"].items()}
        for link, target in self.w.get("links", ()):
            full = os.path.join(self.root, link)
            to = os.path.join(os.path.dirname(full), target)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.makedirs(to if target == "static" else os.path.dirname(to), exist_ok=True)
            os.symlink(target, full)
        os.makedirs(os.path.join(self.root, "img"), exist_ok=True)
        for p in self.w["bystanders"]:
            self.put(p, BYSTANDERS[p])
        for p, (n, v) in self.assets.items():
            self.put(p, asset_bytes(p, n, v))
        self.skew(self.w.get("mt", 0))
        self.clean = Clean()
        self.events, self.stats = [], {}
        self.doc = None
        self.src_state = "none"
        self.disk_kw = disk_kw or {}
        self.cache = {}

    def put(self, rel, data):
        full = os.path.join(self.root, rel.lstrip("/"))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(data)

    def skew(self, seed, only=None):
        """Clocks jump: files carry time stamps from the past and the future."""
        if not seed:
            return
        r = Rng("mtime", seed)
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for n in sorted(files):
                if only is None or n == only:
                    t = r.pick(EPOCHS) + r.randrange(100)
                    os.utime(os.path.join(d, n), (t, t), follow_symlinks=False)

    def canon(self, rel):
        """the path a file has in a snapshot of the tree"""
        return os.path.relpath(os.path.realpath(os.path.join(self.root, rel.lstrip("/"))), os.path.realpath(self.root))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def snap(self):
        return snapshot(self.root)

    def site(self, snap=None):
        s = snap if snap is not None else self.snap()
        out = {}
        for k, v in s.items():
            if k == "index.html" or k.startswith("static/"):
                v = self.through(k, v)
                if isinstance(v, bytes):
                    out[k] = v
        return out

    def through(self, rel, v):
        """what a reader of the site sees at rel: symbolic links are followed"""
        full = os.path.join(self.root, rel)
        if isinstance(v, tuple) and os.path.isfile(full):
            with open(full, "rb") as f:
                return f.read()
        return v

    # what the current inputs call for
    def refs(self):
        """asset paths the current manuscript refers to"""
        out = []
        for b in self.doc["blocks"]:
            out += re.findall(r"^  :path: (.+)$", b, re.M)
        return sorted(set(out))

    def src_exists(self):
        return os.path.exists(os.path.join(self.root, self.src))

    def rewrite_inputs(self):
        for p, (n, v) in self.assets.items():
            self.put(p, asset_bytes(p, n, v))
        if self.doc is not None and self.src_state == "ok":
            self.put(self.src, corpus.source(self.doc).encode("utf-8"))

    def buildable(self):
        return self.src_state == "ok" and all(p in self.assets for p in self.refs())

    def expected(self, entry, handrails=True):
        """the complete site for the current inputs, from a clean-room build plus independent facts"""
        files = {self.src: corpus.source(self.doc).encode("utf-8").hex()}
        for p in self.refs():
            n, v = self.assets[p]
            files[p] = asset_bytes(p, n, v).hex()
        handrails = handrails or entry != "api"   # the other entry points always add them
        key = hashlib.sha256(json.dumps([entry, handrails, files], sort_keys=True).encode()).hexdigest()
        if key not in self.cache:
            self.cache[key] = self.clean.ask(what="build", dir=os.path.join(self.scratch, "clean", "x", "y"), files=files, src=self.src, entry=entry, handrails=handrails)
        return self.cache[key]

    def check_complete(self, entry, snap, handrails=True):
        """None if the site on disk is complete and exact, else a message"""
        pkg = package_static()
        for n, data in pkg.items():
            if n in {os.path.basename(p) for p in self.refs()}:
                continue
            got = snap.get(f"static/{n}")
            if got != data:
                return f"static/{n} is " + ("missing" if got is None else f"not the shipped file ({len(got)} of {len(data)} bytes)")
        self.collided = []
        for p in self.refs():
            n, v = self.assets[p]
            got = self.through("static/" + os.path.basename(p), snap.get("static/" + os.path.basename(p)))
            twins = [q for q in self.refs() if q != p and os.path.basename(q) == os.path.basename(p)]
            if got != asset_bytes(p, n, v) and any(got == asset_bytes(q, *self.assets[q]) for q in twins):
                self.collided = sorted([p, *twins])   # the known finding: the copy is exact, but of the other one
            elif got != asset_bytes(p, n, v):
                return f"referenced asset {p}: its copy in the site is " + ("missing" if got is None else "wrong")
        idx = snap.get("index.html")
        if idx is None:
            return "index.html is missing"
        exp = self.expected(entry, handrails)
        if not exp["ok"]:
            return None  # judged by the fault-free rule
        text = idx.decode("utf-8", "replace")
        if not text.rstrip().endswith("</html>"):
            return f"index.html is cut short ({len(idx)} bytes)"
        want = bytes.fromhex(exp["site"]["index.html"])
        for ref in re.findall(r'<(?:script|link|img|source|video)\b[^>]*?\b(?:src|href)="([^"]*)"', text):
            ref = html.unescape(ref)
            if "://" not in ref and not ref.startswith(("//", "data:")) and not os.path.isfile(os.path.join(self.root, os.path.normpath(ref.lstrip("/")))):
                return f"index.html refers to {ref}, which is not there"
        if idx != want:
            return f"index.html differs from a clean build of the same inputs ({len(idx)} vs {len(want)} bytes)"
        return None

    def build(self, op, on_op=None):
        """One build under the disk seam. -> (Outcome, Disk)"""
        assets = {self.canon(p) for p in self.assets} | {os.path.normpath(p) for p in self.assets}
        src = self.src

        def role(rel):
            if rel == src:
                return "src"
            if rel == "index.html":
                return "index"
            if rel in assets:
                return "asset"
            if rel.startswith("<pkg>"):
                return "pkg"
            if rel.startswith("static/"):
                return "static"
            return "other"

        shuffle = None
        if op.get("order"):
            def shuffle(items, k=op["order"]):
                items = list(items)
                Rng("order", k).shuffle(items)
                return items
        disk = Disk(self.root, extra_read=[os.path.dirname(static_dir())], faults=op.get("faults", ()), short_reads=op.get("short", 0), shuffle=shuffle, tmp=self.tmp, on_op=on_op)
        disk.classify = role
        src_arg = os.path.join(self.root, self.src) if self.w.get("abs") else self.src
        os.chdir(self.root)
        with disk:
            o = run_entry(op.get("entry", "api"), src_arg, op.get("handrails", True))
        os.chdir(self.scratch)
        if disk.frozen:
            o.crashed = True
        for k, v in disk.stats.items():
            self.count(k, v)
        self.count("builds")
        self.count("disk_ops", disk.n)
        self.events.append(["build", op.get("entry", "api"), disk.n, disk.fired, o.crashed, o.reported, (o.raised or "").split(":")[0]])
        return o, disk

    def build_threads(self, builds, seed, mode, lines):
        """Several builds at once, in threads of this process. -> (outcomes, disk, scheduler)"""
        from . import sched
        disk = Disk(self.root, extra_read=[os.path.dirname(static_dir())], faults=[f for b in builds for f in b.get("faults", ())], tmp=self.tmp,
                    short_reads=builds[0].get("short", 0))
        disk.classify = lambda rel: "index" if rel == "index.html" else "static" if rel.startswith("static/") else "other"
        src_arg = os.path.join(self.root, self.src) if self.w.get("abs") else self.src

        def body(b):
            def go():
                o = Outcome()
                try:
                    if b["entry"] == "app":
                        rsm.app.FullBuildApp(srcpath=src_arg).run()
                    else:
                        rsm.make(path=src_arg, handrails=True)
                except SimCrash:
                    o.crashed = True
                except sched.Deadlock as e:
                    o.raised = f"Deadlock: {e}"
                except Exception as e:
                    o.raised = f"{type(e).__name__}: {e}"
                o.reported = bool(o.raised)
                return o
            return go

        g = sched.Gate([body(b) for b in builds], {int(k): v for k, v in lines}, mode, Rng("threads", seed), seed)
        disk.on_op = g.op
        os.chdir(self.root)
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = Out(), io.StringIO()
        try:
            with disk:
                outs = g.run()
        finally:
            sys.stdout, sys.stderr = so, se
        os.chdir(self.scratch)
        for o in outs:
            o.crashed = o.crashed or disk.frozen
        for k, v in disk.stats.items():
            self.count(k, v)
        self.count("builds", len(outs))
        self.count("disk_ops", disk.n)
        return outs, disk, g

    def power_loss(self, disk, seed):
        """After a crash: anything written but not synced may be lost, cut short or zero-filled."""
        r = Rng("powerloss", seed)
        for rel in sorted(disk.dirty):
            full = os.path.join(self.root, rel)
            if not os.path.isfile(full) or os.path.islink(full):
                continue
            k = r.randrange(5)
            with open(full, "rb") as f:
                data = f.read()
            if k == 0 or not data:
                continue
            self.count("fault:powerloss")
            if k == 1:
                data = data[:r.randrange(len(data))]
            elif k == 2:
                data = b""
            elif k == 3:
                n = r.randrange(len(data))
                data = data[:n] + b"\0" * (len(data) - n)
            elif k == 4:
                os.unlink(full)
                continue
            with open(full, "wb") as f:
                f.write(data)

    def apply(self, op):
        k = op["op"]
        if k == "edit":
            self.doc = op["doc"]
            self.put(self.src, corpus.source(self.doc).encode("utf-8"))
            self.src_state = "ok"
        elif k == "asset":
            if op["path"] in self.assets:
                n, v = self.assets[op["path"]]
                self.assets[op["path"]] = (op.get("n", n), v + 1)
                self.put(op["path"], asset_bytes(op["path"], *self.assets[op["path"]]))
                self.skew(op.get("mt", 0), only=os.path.basename(op["path"]))
        elif k == "skew":
            self.count("fault:clock_skew")
            self.skew(op["seed"])
        elif k == "rmasset":
            if op["path"] in self.assets:
                del self.assets[op["path"]]
                os.unlink(os.path.join(self.root, op["path"].lstrip("/")))
        elif k == "restore":
            if op["path"] not in self.assets:
                self.assets[op["path"]] = (100, 0)
                self.put(op["path"], asset_bytes(op["path"], 100, 0))
        elif k == "break":
            if self.doc is None:
                return
            text = corpus.source(self.doc)
            how = op["how"]
            full = os.path.join(self.root, self.src)
            if how == "delete":
                if os.path.exists(full):
                    os.unlink(full)
            else:
                data = {"unclosed": text.rstrip()[:-2].encode(), "open-brace": text.replace(":rsm:", ":rsm: {", 1).encode(),
                        "truncate": text.encode()[: len(text.encode()) // 2], "latin": text.encode() + b"\xff\xfe\xe9",
                        "prev": text.replace("\n\n::", "\n\nStray :prev: tag.\n\n::", 1).encode() if False else (":rsm:\n\nStray :prev: tag.\n\n::\n").encode(),
                        "item": b":rsm:\n\n:item: Foo bar.\n\n::\n", "nul": text.encode()[:40] + b"\0\0\0", "empty": b""}[how]
                self.put(self.src, data)
            self.src_state = "broken"
        self.events.append([k])


def result(world, violation, nontrivial, sample, **extra):
    sig = hashlib.sha256(json.dumps(world.events, sort_keys=True).encode()).hexdigest()[:16]
    return dict(violation=violation, nontrivial=bool(nontrivial), sig=sig, stats=world.stats, sample=sample, events=world.events, sim_ms=0, **extra)


def viol(cls, msg, key=None):
    return {"cls": cls, "key": key or cls, "msg": msg}


# -- shared by the four site properties -----------------------------------------------------

def gen_history(r, tier, steps, build_op, final=None, own=0.0):
    """A history: edits, asset changes and breakages between builds."""
    world = gen_world(r, own=own)
    pool = sorted(world["assets"])
    ops = [{"op": "edit", "doc": gen_doc(r, pool)}]
    for i in range(steps):
        if i and r.chance(0.6):
            k = r.randrange(8)
            if k < 4:
                ops.append({"op": "edit", "doc": gen_doc(r, pool)})
            elif k == 4:
                ops.append({"op": "asset", "path": r.pick(pool), "n": r.pick([3, 40, 700, 9000]), "mt": r.randrange(1, 1 << 30) if r.chance(0.5) else 0})
            elif k == 5:
                ops.append({"op": "rmasset", "path": r.pick(pool)})
            elif k == 6:
                ops.append({"op": "restore", "path": r.pick(pool)})
            else:
                ops.append({"op": "break", "how": r.pick(BREAKS)})
            if r.chance(0.3):
                ops.append({"op": "skew", "seed": r.randrange(1, 1 << 30)})
        ops.append(build_op(r, i, world))
    return {"world": world, "ops": ops + (final or [])}


BREAKS = ["unclosed", "open-brace", "truncate", "latin", "prev", "item", "nul", "empty", "delete"]
ENTRIES = ["api", "api", "cli", "app"]


def shrink_world(plan):
    """Property-specific shrinking: smaller documents, fewer faults per build, simpler world."""
    for i, op in enumerate(plan["ops"]):
        def rep(new):
            return dict(plan, ops=plan["ops"][:i] + [new] + plan["ops"][i + 1:])
        if op["op"] == "edit":
            d = op["doc"]
            for j in range(len(d["blocks"])):
                yield rep(dict(op, doc=dict(d, blocks=d["blocks"][:j] + d["blocks"][j + 1:])))
            if d.get("bib"):
                yield rep(dict(op, doc=dict(d, bib=[])))
        if op["op"] == "build":
            for j in range(len(op.get("faults", []))):
                yield rep(dict(op, faults=op["faults"][:j] + op["faults"][j + 1:]))
            for k in ("short", "order"):
                if op.get(k):
                    yield rep(dict(op, **{k: 0}))
            if op.get("entry") != "api":
                yield rep(dict(op, entry="api"))
    w = plan["world"]
    if w["bystanders"]:
        yield dict(plan, world=dict(w, bystanders=[]))
    if w["abs"]:
        yield dict(plan, world=dict(w, abs=False))
    if w.get("mt"):
        yield dict(plan, world=dict(w, mt=0))
    if w.get("root", "w") != "w":
        yield dict(plan, world=dict(w, root="w"))


def gen_build(r, faults, p_short=0.2, p_order=0.4):
    return {"op": "build", "entry": r.pick(ENTRIES), "handrails": r.chance(0.7), "faults": faults,
            "short": r.randrange(1, 1 << 30) if r.chance(p_short) else 0, "order": r.randrange(1, 1 << 30) if r.chance(p_order) else 0}


def published(world):
    """paths a build of the current manuscript may create or overwrite"""
    out = {"index.html", "static"}
    out |= {f"static/{n}" for n in package_static()}
    out |= {"static/" + os.path.basename(p) for p in (world.refs() if world.doc else [])}
    return out


COMPONENTS = {
    "real": ["rsm.app / rsm.cli entry points", "reader, tree-sitter parser and grammar, transformer, linter, translator, builder, writer",
             "PyFilesystem (fs) OSFS/MemoryFS/MountFS", "Python buffered and text I/O layers", "kernel file system (scratch directory on tmpfs)"],
    "simulated": ["open/read/write/close/stat/list/mkdir/rename/unlink results (errno, short, torn)", "process death", "loss of unsynced writes at power loss",
                  "directory enumeration order"],
    "stubbed": ["none"],
}
ASSUMPTIONS = ["manuscripts come from the seeded generator in sim/corpus.py", "one process builds at a time",
               "a referenced asset never has the name of a shipped static file, and two of one name only where the known finding is exercised",
               "sendfile/copy_file_range are refused so that copies use read and write"]
STATE_MEASURE = "distinct event histories (operation kinds, disk operations per build, faults fired and where, outcomes)"
