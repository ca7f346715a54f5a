"""Diagnostics: every message exactly once, in the format and at the level asked for, whatever happened before; a failing error stream harms nothing."""
import datetime
import json
import re

from sim import session, site
from sim.prng import Rng
from sim.sched import Stopper
from sim.session import Err, Session, isolated, resolve, warm, shrink_session as shrink  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 520, "thorough": 10000}
RULE = "a run counts when diagnostics were judged on a call made after other calls with different logging options, an interruption, or a failing error stream; distinct by event history"
REQUIRED_PROBES = ["after_other_options", "after_stream_failure", "after_interrupt", "fmt_rsm", "fmt_json", "fmt_plain", "fmt_lint", "lint_messages"]
REQUIRED_FAULTS = ["stderr_fails", "stderr_absent", "clock_jump", "KeyboardInterrupt"]
SHRINK_FIELDS = ["ops"]
COMPONENTS = {"real": ["rsm logging configuration and formatters", "all pipeline stages", "Python logging"],
              "simulated": ["standard error (fails from the n-th write, for a while or for good, or absent)", "wall clock", "interruptions at arbitrary lines"],
              "stubbed": ["none"]}
ASSUMPTIONS = ["calls are made one after the other", "time zone is UTC"]
STATE_MEASURE = "distinct event histories"
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def gen(seed, index, tier):
    r = Rng("P06", seed, index)
    n = r.randint(2, 4)
    sources = [session.gen_source(r, size=r.pick([None, 2, 3, 4])) for _ in range(n)]
    idx = list(range(n))
    names = ["a.rsm"]
    ops = [{"op": "write", "path": names[0], "src": 0}]
    for i in range(r.randint(4, 9)):
        c = session.gen_call(r, idx, names)
        if r.chance(0.25):
            c["jump"] = r.pick([-86400 * 400, -3600, 3600, 86400 * 9000, 1e9])
        k = r.randrange(10)
        if k < 2:
            c["stderr"] = {"from": r.pick([0, 0, 1, 2, 3, 5]), "for": r.pick([1, 2, 1 << 30])}
        elif k == 2:
            c["stderr"] = None
        elif k == 3:
            c.update(stop=r.random())
        ops.append(c)
    return {"prop": "P06", "sources": sources, "ops": ops}


def options(op):
    """What the caller asked for: (format, threshold, with time, with line numbers)"""
    fn, kw, args = op["fn"], op.get("kw", {}), op.get("args", [])
    if fn.startswith("cli_"):
        fmt = "lint" if fn == "cli_lint" else "rsm"
        level = 30
        for a in args:
            if a.startswith("--log-format="):
                fmt = a.split("=")[1]
            if a in ("-v", "-vv"):
                level -= 10 * (len(a) - 1)
        t, ln = "--log-no-timestamps" not in args, "--log-no-lineno" not in args
    else:
        fmt, level = kw.get("log_format", "rsm"), kw.get("loglevel", 30)
        t, ln = kw.get("log_time", True), kw.get("log_lineno", True)
    if fn in ("lint", "cli_lint"):
        level = 25
    return fmt, level, t, ln


def expected(rec, fmt, t, ln):
    """The line a record must produce, written from the documentation of the formats."""
    msg = rec.getMessage()
    stamp = datetime.datetime.fromtimestamp(rec.created, datetime.timezone.utc)
    if fmt == "plain":
        return msg
    if fmt == "lint":
        pt = f"{rec.start_row}:{rec.start_col}" if hasattr(rec, "start_row") else "1:1"
        return f"src:{pt}: {rec.levelname}: {msg}"
    if fmt == "json":
        d = {"name": rec.name, "level": rec.levelname, "msg": msg, "filename": rec.filename}
        if ln:
            d["lineno"] = rec.lineno
        if t:
            d["time"] = stamp.strftime("%Y-%m-%d %H:%M:%S,") + f"{int(rec.msecs):03d}"
        return d
    out = (stamp.strftime("%H:%M:%S ") if t else "") + f"{rec.name} {rec.levelname:<3} | {msg}"
    if hasattr(rec, "start_row"):
        out += f" | ({rec.start_row}, {rec.start_col})"
        if hasattr(rec, "end_row"):
            out += f" - ({rec.end_row}, {rec.end_col})"
        out += " | "
    if ln:
        out += f" ({rec.filename}:{rec.lineno})"
    return out


def judge_text(text, recs, op):
    fmt, level, t, ln = options(op)
    floor = min(30, max(level, 10))
    mine = [r for r in recs if r.name == "RSM" or r.name.startswith("RSM.")]
    linting = op["fn"] in ("lint", "cli_lint", "make", "cli_make") and op.get("kw", {}).get("lint", True)
    low = [r for r in mine if r.levelno < (min(level, 25) if linting else level)]
    if low:
        return f"a message below the requested level {level} was issued: {low[0].getMessage()!r}"
    want = [expected(r, fmt, t, ln) for r in mine if r.levelno >= floor]
    got = ANSI.sub("", text)
    if "--- Logging error ---" in got:
        return "a message could not be formatted: " + got[got.index("--- Logging error ---"):][-160:]
    if fmt == "json":
        try:
            lines = [json.loads(x) for x in got.splitlines()]
        except ValueError:
            return f"standard error is not one JSON document per line: {got[:160]!r}"
        if lines != want:
            k = next((i for i, (a, b) in enumerate(zip(lines, want)) if a != b), min(len(lines), len(want)))
            return f"{len(want)} messages were issued, {len(lines)} printed; at {k}: {str(lines[k:k + 1])[:160]} instead of {str(want[k:k + 1])[:160]}"
        return None
    text = "".join(w + "\n" for w in want)
    if got != text:
        a, b = got.splitlines(), text.splitlines()
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"{len(want)} messages were issued in format {fmt}; line {k}: printed {a[k:k + 1]} instead of {b[k:k + 1]} ({len(a)} lines for {len(b)})"
    return None


def execute(plan):
    s = Session(plan)
    v, prev, flags, hits = None, None, set(), 0
    for op in plan["ops"]:
        if op["op"] == "write":
            s.write(op["path"], plan["sources"][op["src"]])
            continue
        c = resolve(op, plan)
        jump, fault, stop = c.pop("jump", 0), c.pop("stderr", False), c.pop("stop", None)
        s.t += 11.25 + jump
        s.t = max(s.t, 1000.0)
        s.count("fault:clock_jump", bool(jump))
        opts = options(c)
        if c["fn"].endswith("make"):
            session.remove_site(s.dir)
        if stop is not None:
            ref = s.reference(c, steps=True, t=s.t)
            st = Stopper(1 + int(stop * ref["steps"]))
            try:
                isolated(c, s.t, stop=st)
            except KeyboardInterrupt:
                pass
            s.log("stop", st.hit)
            if st.hit:
                s.count("fault:KeyboardInterrupt")
                flags.add("after_interrupt")
            prev = opts
            continue
        ref = s.reference(c, t=s.t)
        if fault is None:
            class NoErr(Err):
                pass
            err = None
            import sys
            se, sys.stderr = sys.stderr, None
            try:
                with session.site.ErrorTap(), session.Clock(s.t):
                    got = session.call(c)
            finally:
                sys.stderr = se
            s.count("fault:stderr_absent")
        else:
            err = Err(fault["from"], fault["for"]) if fault else Err()
            got, err, tap, _ = isolated(c, s.t, err=err)
            if err.failed:
                s.count("fault:stderr_fails", err.failed)
        s.count("calls")
        s.log(c["fn"], opts, session.brief(got), err and len(err.getvalue()), bool(fault))
        if got != ref["res"]:
            what = "with a failing error stream" if fault or fault is None else f"after {sorted(flags)}"
            v = site.viol("result-changed", f"{c['fn']} {what} returned {session.brief(got)} instead of {session.brief(ref['res'])}")
            break
        if fault or fault is None:
            flags.add("after_stream_failure")
            prev = opts
            continue
        s.count("probe:fmt_" + opts[0], bool(err.getvalue()))
        s.count("probe:lint_messages", "LINT" in err.getvalue())
        for f in flags:
            s.count("probe:" + f)
        if prev is not None and prev != opts:
            s.count("probe:after_other_options")
            hits += 1
        hits += len(flags)
        msg = judge_text(err.getvalue(), tap.records, c)
        if msg:
            v = site.viol("diagnostics-wrong", f"{c['fn']} {c.get('kw') or c.get('args')}: {msg}")
            break
        if err.getvalue() != ref["err"]:
            v = site.viol("diagnostics-history", f"{c['fn']} {c.get('kw') or c.get('args')}: standard error differs from the same call in a fresh process: "
                          + session.first_diff(err.getvalue(), ref["err"]))
            break
        prev = opts
    return s.finish(v, hits, {"calls": s.events[:8]})
