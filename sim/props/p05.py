"""Every call behaves as it would in a process with no history: after other calls, failures, interruptions, and next to other threads."""
import os

from sim import session, site
from sim.prng import Rng
from sim.sched import Stopper
from sim.session import Session, call, isolated, resolve, warm, shrink_session as shrink  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 9000}
RULE = "a run counts when a call was judged after an interruption or failure, on a reused application object, after a same-size edit, or in a group of interleaved threads; distinct by event history"
REQUIRED_PROBES = ["after_interrupt", "after_failure", "app_reused", "interleaved", "same_mtime_edit", "pipeline_changed"]
REQUIRED_FAULTS = ["KeyboardInterrupt", "MemoryError", "preemption"]
SHRINK_FIELDS = ["ops"]
HANG_IS_VIOLATION = True
RUN_LIMIT = 90
COMPONENTS = {"real": ["rsm.render/lint/make, application classes, command-line entry points", "tree-sitter parser", "logging", "caller threads (real threads, one runs at a time)"],
              "simulated": ["which thread runs and when it is preempted (line granularity in rsm)", "locks", "asynchronous interruptions and allocation failures at arbitrary lines", "wall clock", "standard error"],
              "stubbed": ["none"]}
ASSUMPTIONS = ["a preemption happens between two lines of rsm's Python code, not inside the native parser or the standard library",
               "threads run render and lint on strings and files, not builds into one directory"]
STATE_MEASURE = "distinct preemption sequences (step, from, to) and interruption sites"


def gen(seed, index, tier):
    r = Rng("P05", seed, index)
    n = r.randint(2, 4)
    sources = [session.gen_source(r, tag=r.pick(["", "", f"d{i}x"]), size=r.pick([None, 2, 3, 5])) for i in range(n)]
    idx = list(range(n))
    names = ["a.rsm", "dir/b c.rsm"]
    ops = [{"op": "write", "path": names[0], "src": r.pick(idx)}]
    for i in range(r.randint(3, 7)):
        k = r.randrange(12)
        if k < 4:
            ops.append(session.gen_call(r, idx, names))
        elif k == 4:
            ops.append({"op": "write", "path": r.pick(names), "src": r.pick(idx), "keep": r.chance(0.6), "pad": r.chance(0.6)})
            c = session.gen_call(r, idx, names)
            c.pop("src", None)
            c["path"] = ops[-1]["path"]
            ops.append(c)
        elif k == 5:
            ops.append({"op": "unlink", "path": r.pick(names)})
        elif k in (6, 7):
            c = session.gen_call(r, idx, names)
            c.update(op="stop", at=r.random(), exc=r.pick(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]))
            ops.append(c)
            ops.append(session.gen_call(r, idx, names))
        elif k in (8, 9):
            cls = r.pick(["processor", "processor", "linter", "full"])
            kw = {}
            if cls == "processor":
                kw = {"handrails": r.chance(0.6), "add_source": r.chance(0.4), "run_linter": r.chance(0.3)}
            elif cls == "full":
                kw = {"handrails": r.chance(0.6), "run_linter": r.chance(0.3)}
            tgt = {"path": r.pick(names)} if r.chance(0.6) else {"src": r.pick(idx)}
            aid = f"app{i}"
            ops.append({"op": "app", "id": aid, "cls": cls, "kw": kw, **tgt})
            for _ in range(r.randint(2, 3)):
                q = r.randrange(5)
                if q == 0 and "path" in tgt:
                    ops.append({"op": "write", "path": tgt["path"], "src": r.pick(idx), "keep": r.chance(0.5), "pad": r.chance(0.5)})
                elif q == 1:
                    ops.append({"op": "app_stop", "id": aid, "at": r.random(), "exc": r.pick(["KeyboardInterrupt", "MemoryError"])})
                elif q == 2:
                    ops.append(session.gen_call(r, idx, names))
                if r.chance(0.25):   # a shorter pipeline for one run
                    ops.append({"op": "app_repipe", "id": aid, "k": r.randint(1, 3), "run": r.chance(0.8)})
                ops.append({"op": "app_run", "id": aid})
        else:
            m = r.pick([2, 2, 3])
            calls = [session.gen_call(r, idx, names, fns=["render", "render", "render", "lint"]) for _ in range(m)]
            d = r.pick([1, 2, 3, 5, 8, 20])
            ops.append({"op": "par", "calls": calls, "first": r.randrange(m), "switches": [[r.random(), r.randrange(4)] for _ in range(d)]})
    return {"prop": "P05", "sources": sources, "ops": ops}


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def execute(plan):
    s = Session(plan)
    v, apps, states = None, {}, set()
    dirty = []          # what has happened so far in this process
    nontrivial = 0

    def judge(what, op, got, ref):
        nonlocal v
        if got != ref["res"]:
            v = site.viol("history-dependence" if what != "thread" else "interleaving",
                          f"{what} of {op.get('fn') or op.get('cls')} differs from the same call in a fresh process after {dirty[-4:] or 'nothing'}: "
                          f"got {session.brief(got)}, fresh {session.brief(ref['res'])}; {session.first_diff(got, ref['res'])}")
        return v

    for op in plan["ops"]:
        k = op["op"]
        s.t += 7.3
        if k == "write":
            text = plan["sources"][op["src"]]
            old = s.files.get(op["path"])
            if op.get("pad") and old is not None:   # make the edit invisible to size checks
                a, b = len(old.encode()), len(text.encode())
                if b < a:
                    text += "\n" * (a - b)
            if op.get("keep") and old is not None and len(old.encode()) == len(text.encode()) and old != text:
                s.count("probe:same_mtime_edit")
                nontrivial += 1
            s.write(op["path"], text, op.get("keep"))
            s.log("write", op["path"])
        elif k == "unlink":
            s.unlink(op["path"])
            s.log("unlink", op["path"])
        elif k == "call":
            c = resolve(op, plan)
            if c["fn"].endswith("make"):
                session.remove_site(s.dir)
            got, err, _, _ = isolated(c, s.t)
            s.count("calls")
            s.log("call", c["fn"], session.brief(got))
            for d in set(dirty):
                if d.startswith(("interrupted", "ran out")):
                    s.count("probe:after_interrupt")
                    nontrivial += 1
                if d.startswith("failed"):
                    s.count("probe:after_failure")
                    nontrivial += 1
            if judge("call", c, got, s.reference(c)):
                break
            dirty.append(("failed " if "raised" in got or got.get("value") == "" else "") + c["fn"])
        elif k == "stop":
            c = resolve(op, plan)
            if c["fn"].endswith("make"):
                session.remove_site(s.dir)
            ref = s.reference(c, steps=True)
            st = Stopper(1 + int(op["at"] * ref["steps"]), EXC[op["exc"]])
            try:
                got, *_ = isolated(c, s.t, stop=st)
            except KeyboardInterrupt:
                got = None
            s.log("stop", c["fn"], st.hit)
            if st.hit:
                s.count("fault:" + op["exc"])
                states.add(st.hit)
                dirty.append(("interrupted " if op["exc"] == "KeyboardInterrupt" else "ran out of memory in ") + c["fn"] + " at " + st.hit)
            elif judge("call", c, got, ref):
                break
        elif k == "app":
            c = resolve(op, plan)
            import io
            import sys
            se, sys.stderr = sys.stderr, io.StringIO()
            try:
                apps[op["id"]] = [session.make_app(c), c, 0]
            finally:
                sys.stderr = se
            s.log("app", c["cls"])
        elif k == "app_repipe":
            if op["id"] not in apps:
                continue
            a, c, runs = apps[op["id"]]
            before = list(a.tasks)
            out = [a.pop_task() for _ in range(min(op["k"], len(before) - 2))]
            gone = [t.name for t in out if hasattr(a, t.name)]
            if out != before[::-1][:len(out)] or list(a.tasks) != before[:len(before) - len(out)] or gone:
                v = site.viol("pipeline", f"taking the last {len(out)} tasks {[t.name for t in before]} off a pipeline gave {[getattr(t, 'name', t) for t in out]}, kept {[t.name for t in a.tasks]} and left the attributes {gone}")
                break
            if op["run"]:
                if c["cls"] == "full":
                    session.remove_site(s.dir)
                isolated(dict(c, fn="app_run"), s.t, app=a)
                if c["cls"] == "full" and os.path.exists(os.path.join(s.dir, "index.html")):
                    v = site.viol("pipeline", "a build whose writer was taken off still wrote the site")
                    break
            for t in out[::-1]:
                a.add_task(t)
            if list(a.tasks) != before or any(getattr(a, t.name) is not t.obj for t in before):
                v = site.viol("pipeline", f"putting the tasks back gave {[t.name for t in a.tasks]}, not {[t.name for t in before]}")
                break
            apps[op["id"]][2] += op["run"]
            s.count("probe:pipeline_changed", op["run"])
            dirty.append("a shorter run of the app")
            s.log("app_repipe", len(out))
        elif k in ("app_run", "app_stop"):
            if op["id"] not in apps:
                continue
            a, c, runs = apps[op["id"]]
            c = dict(c, fn="app_run")
            if c["cls"] == "full":
                session.remove_site(s.dir)
            if k == "app_stop":
                ref = s.reference(c, steps=True)
                st = Stopper(1 + int(op["at"] * ref["steps"]), EXC[op["exc"]])
                try:
                    got, *_ = isolated(c, s.t, app=a, stop=st)
                except KeyboardInterrupt:
                    got = None
                s.log("app_stop", st.hit)
                if st.hit:
                    s.count("fault:" + op["exc"])
                    states.add(st.hit)
                    dirty.append("interrupted app at " + st.hit)
                apps[op["id"]][2] += 1
                continue
            got, *_ = isolated(c, s.t, app=a)
            s.count("calls")
            s.count("probe:app_reused", runs > 0)
            nontrivial += runs > 0
            apps[op["id"]][2] += 1
            s.log("app_run", session.brief(got))
            if judge("run %d" % (runs + 1), c, got, s.reference(c)):
                break
            dirty.append(("failed " if "raised" in got else "") + "app run")
        elif k == "par":
            calls = [resolve(c, plan) for c in op["calls"]]
            refs = [s.reference(c, steps=True) for c in calls]
            total = sum(x["steps"] for x in refs)
            sw = {1 + int(f * total): ch for f, ch in op["switches"]}
            out, sch = session.run_parallel(s, calls, sw, op["first"])
            pre = [o for o in sch.order if not sch.done or o[0] in sw]
            s.count("fault:preemption", len(pre))
            s.count("probe:interleaved", bool(pre))
            s.count("calls", len(calls))
            nontrivial += bool(pre)
            states.add(str(sch.order))
            s.log("par", [c["fn"] for c in calls], sch.order)
            if sch.deadlock:
                v = site.viol("deadlock", "threads calling rsm wait for each other forever")
                break
            for c, got, ref in zip(calls, out, refs):
                if judge("thread", c, got, ref):
                    break
            if v:
                break
            dirty.append("threads")
    return s.finish(v, nontrivial, {"history": s.events[:12]}, states)
