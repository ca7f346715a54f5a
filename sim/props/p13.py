"""Standard output of the commands carries exactly the result, and a failing output never passes as success."""
import errno
import io
import os
import sys

from sim import session, site
from sim.prng import Rng
from sim.session import Clock, Err, Session, resolve, warm, shrink_session as shrink  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 12000}
RULE = "a run counts when an output stream took short writes, failed, could not encode the result, or was shared with logging at DEBUG; distinct by event history"
REQUIRED_PROBES = ["complete", "incomplete", "unencodable", "recovered", "silent", "debug_output", "parse_error"]
REQUIRED_FAULTS = ["short_write", "EPIPE", "ENOSPC", "EIO", "EAGAIN"]
SHRINK_FIELDS = ["ops"]
COMPONENTS = {"real": ["rsm-render, rsm-lint, rsm-make entry points and everything below them", "Python's text and buffered output layers"],
              "simulated": ["the file descriptor behind standard output (short writes, EPIPE, ENOSPC, EIO, EAGAIN)", "its encoding and buffering", "wall clock"], "stubbed": ["none"]}
ASSUMPTIONS = ["standard output has its byte buffer (with PYTHONUNBUFFERED Python itself ignores short writes)", "standard output is open when the command starts", "the exit code is judged together with the final flush the interpreter performs at exit"]
STATE_MEASURE = "distinct event histories"
CODES = {k: getattr(errno, k) for k in ("EPIPE", "ENOSPC", "EIO", "EAGAIN")}


class Pipe(io.RawIOBase):
    """File descriptor 1."""

    def __init__(self, script):
        super().__init__()
        self.script, self.data, self.n, self.fired = script, bytearray(), 0, {}

    def writable(self):
        return True

    def fileno(self):
        return 1

    def isatty(self):
        return bool(self.script.get("tty"))

    def hit(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def write(self, b):
        b, n = bytes(b), self.n
        self.n += 1
        f = self.script.get("fail")
        if f and f["at"] <= n < f["at"] + f["for"]:
            self.hit(f["kind"])
            if f["kind"] == "EAGAIN":
                return None
            raise OSError(CODES[f["kind"]], os.strerror(CODES[f["kind"]]))
        short = self.script.get("short")
        if short and len(b) > short:
            self.hit("short_write")
            b = b[:short]
        self.data += b
        return len(b)


class Fd1:
    """os.write(1, ...) and friends reach the same simulated descriptor."""

    def __init__(self, pipe):
        self.pipe = pipe

    def write(self, fd, b):
        if fd != 1:
            return self.real(fd, b)
        n = self.pipe.write(b)
        if n is None:
            raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        return n

    def __enter__(self):
        self.real, os.write = os.write, self.write

    def __exit__(self, *a):
        os.write = self.real


def run_cli(op, script, t):
    """-> how it ended, the bytes that reached the descriptor, stderr"""
    pipe, err = Pipe(script), Err()
    raw = io.BufferedWriter(pipe, script.get("buffer", 8192))
    out = io.TextIOWrapper(raw, encoding=script["encoding"], errors="strict", line_buffering=bool(script.get("tty")), write_through=bool(script.get("through")))
    saved = sys.argv, sys.stdout, sys.stderr, sys.__stdout__
    how = None
    try:
        sys.argv = ["rsm-" + op["fn"][4:]] + (["-c", op["src"]] if "src" in op else [op["path"]]) + list(op.get("args", []))
        sys.stdout, sys.stderr, sys.__stdout__ = out, err, out
        with Clock(t), Fd1(pipe):
            try:
                code = getattr(site.rsm.cli, op["fn"][4:])()
                how = "success" if code in (0, None) else f"exit {code}"
            except SystemExit as e:
                how = "success" if e.code in (0, None) else f"exit {e.code}"
            except Exception as e:
                how = "raised " + type(e).__name__
            try:  # what the interpreter does at exit; a failure there is exit code 120
                if not out.closed:
                    out.flush()
            except Exception as e:
                how = how + " then flush failed" if how != "success" else "exit 120"
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.__stdout__ = saved
        pipe.script = {}
        pipe.data, got = bytearray(), bytes(pipe.data)
        try:
            out.close()
        except Exception:
            pass
    return how, got, err.getvalue(), pipe.fired


def gen_script(r):
    s = {"encoding": r.pick(["utf-8"] * 6 + ["ascii", "latin-1", "cp1252"]), "buffer": r.pick([1, 64, 512, 8192, 8192])}
    k = r.randrange(8)
    if k < 3:
        s["short"] = r.pick([1, 7, 100, 1000, 4096])
    elif k < 6:
        s["fail"] = {"kind": r.pick(list(CODES)), "at": r.pick([0, 0, 0, 1, 1, 2, 3, 7, 20]), "for": r.pick([1, 1, 1 << 30])}
        if r.chance(0.4):
            s["short"] = r.pick([7, 100, 1000])
    if r.chance(0.2):
        s["tty"] = True
    if r.chance(0.2):
        s["through"] = True
    return s


def gen(seed, index, tier):
    r = Rng("P13", seed, index)
    n = r.randint(2, 3)
    sources = [session.gen_source(r, sick=0.2, size=r.pick([None, 2, 3])) for _ in range(n)]
    idx, names = list(range(n)), ["a.rsm", "dir/b c.rsm"]
    ops = [{"op": "write", "path": p, "src": r.pick(idx)} for p in names]
    for _ in range(r.randint(3, 6)):
        c = session.gen_call(r, idx, names + ["missing.rsm"], ["cli_render"] * 6 + ["cli_lint", "cli_make"])
        c["out"] = gen_script(r)
        ops.append(c)
    return {"prop": "P13", "sources": sources, "ops": ops}


def execute(plan):
    s = Session(plan)
    v, hit, bad = None, 0, False
    for op in plan["ops"]:
        s.t += 3.1
        if op["op"] == "write":
            s.write(op["path"], plan["sources"][op["src"]])
            continue
        c = resolve({k: x for k, x in op.items() if k != "out"}, plan)
        session.remove_site(s.dir)
        ref = s.reference(c, t=s.t)["res"]
        how, got, err, fired = run_cli(c, op["out"], s.t)
        what = f"rsm-{c['fn'][4:]} {' '.join(c['args'])}".strip()
        s.count("calls")
        for k, n in fired.items():
            s.count("fault:" + k, n)
        failed = any(k in CODES for k in fired)
        debug = "-vv" in c["args"] and c["fn"] != "cli_lint"
        s.log("call", what, how, len(got), sorted(fired))
        text = ref["value"]["out"] if "value" in ref else None
        if text is None:  # the command itself fails, whatever the output does
            if how == "success":
                v = site.viol("failure-as-success", f"{what} reported success although it fails ({str(ref)[:100]}) on a healthy output")
            hit += bool(fired)
            if v:
                break
            continue
        try:
            want, enc = text.encode(op["out"]["encoding"]), True
        except UnicodeEncodeError:
            want, enc = b"", False
        norm = session.norm
        if c["fn"] == "cli_render" and not debug and enc and "-s" not in c["args"]:
            kw = {("source" if "src" in c else "path"): c.get("src", c.get("path"))}
            e, se = Err(), sys.stderr
            sys.stderr = e
            try:
                with Clock(s.t):
                    lib = site.rsm.render(**kw, handrails="-r" in c["args"])
            finally:
                sys.stderr = se
            if text != (norm(lib) + "\n" if lib else ""):
                v = site.viol("not-the-result", f"{what} prints something else than rsm.render() returns: {text[:80]!r} / {str(lib)[:80]!r}")
                break
            s.count("probe:parse_error", not lib)
        if c["fn"] != "cli_render" or "-s" in c["args"]:
            s.count("probe:silent", not debug)
            if not debug and text:
                v = site.viol("stray-output", f"{what} writes to standard output: {text[:100]!r}")
                break
        s.count("probe:debug_output", debug and bool(text))
        gottext = norm(got.decode(op["out"]["encoding"], "replace"))
        if how == "success":
            s.count("probe:complete", bool(text))
            s.count("probe:recovered", bad and bool(text))
            if not enc:
                v = site.viol("unencodable", f"{what} reported success although the result cannot be written in {op['out']['encoding']}: wrote {len(got)} bytes")
            elif gottext != text:
                n = next((i for i, (a, b) in enumerate(zip(gottext, text)) if a != b), min(len(gottext), len(text)))
                v = site.viol("incomplete-success", f"{what} reported success; {len(gottext)} characters reached the output instead of {len(text)} (first difference at {n}: {gottext[n:n + 30]!r} / {text[n:n + 30]!r}), faults {sorted(fired)}")
        else:
            s.count("probe:unencodable", not enc)
            s.count("probe:incomplete", failed)
            bad = True
            if enc and not failed:
                v = site.viol("success-as-failure", f"{what} {how} although every write to its output was accepted (faults {sorted(fired)}): {err[-200:]}")
            elif enc and not debug and not want.startswith(got[: max(0, len(got) - 24)]) and not text.startswith(gottext.rstrip("\ufffd")[:-24]):
                v = site.viol("foreign-output", f"{what} ({how}) left something else than a beginning of the result on its output: {gottext[:120]!r}")
        hit += bool(fired) or not enc or debug
        if v:
            break
    return s.finish(v, hit, {"history": s.events[:12]})
