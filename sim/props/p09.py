"""A finished manuscript tree can be translated again and again, by any translator, even after interrupted attempts."""
from sim import corpus, session, site
from sim.prng import Rng
from sim.sched import Stopper
from sim.session import Session, warm  # noqa: F401

LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 14000}
RULE = "a run counts when a tree was translated after an earlier complete or interrupted translation of the same tree; distinct by event history"
REQUIRED_PROBES = ["again", "other_translator", "after_interrupt", "translator_reused", "between_reads", "two_trees"]
REQUIRED_FAULTS = ["KeyboardInterrupt", "MemoryError"]
SHRINK_FIELDS = ["ops"]
HANG_IS_VIOLATION = True
COMPONENTS = {"real": ["parser, transformer, linter, both translators, node classes"],
              "simulated": ["interruptions and allocation failures at arbitrary lines of a translation"], "stubbed": ["none"]}
ASSUMPTIONS = ["translations of one tree follow each other (no two run at the same time on one tree)"]
STATE_MEASURE = "distinct event histories"
KINDS = ["plain", "rails", "source"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def gen(seed, index, tier):
    r = Rng("P09", seed, index)
    n = r.pick([1, 1, 2])
    sources = [session.gen_source(r, sick=0, size=r.pick([None, None, 2, 4])) for _ in range(n)]
    ops = []
    for _ in range(r.randint(3, 8)):
        k = r.randrange(8)
        t = r.randrange(n)
        if k < 5:
            ops.append({"op": "translate", "tree": t, "by": r.pick(KINDS), "reuse": r.chance(0.4)})
        elif k == 5:
            ops.append({"op": "stop", "tree": t, "by": r.pick(KINDS), "reuse": r.chance(0.4), "at": r.random(), "exc": r.pick(sorted(EXC))})
        elif k == 6:
            ops.append({"op": "read", "tree": t, "how": r.pick(["sexp", "traverse", "lint", "reftext"])})
        else:
            ops.append({"op": "other", "src": r.randrange(n)})
    return {"prop": "P09", "sources": sources, "ops": ops}


def shrink(plan):
    yield from session.shrink_session(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("reuse"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, reuse=False)] + plan["ops"][i + 1:])


def translator(kind):
    t = site.rsm.translator
    return t.Translator() if kind == "plain" else t.HandrailsTranslator(add_source=(kind == "source"))


def build(src):
    return site.rsm.transformer.Transformer().transform(site.rsm.tsparser.TSParser().parse(src))


def quiet():
    import logging
    lg = logging.getLogger("RSM")
    lg.handlers.clear()
    lg.addHandler(logging.NullHandler())


def answer(req):
    quiet()
    tree, st = build(req["src"]), Stopper()
    with st:
        out = translator(req["by"]).translate(tree)
    return {"html": out, "steps": st.step}


def warm_():
    session.warm()
    site.ANSWERS["translate"] = answer


warm = warm_


def execute(plan):
    s = Session(plan)
    quiet()
    trees, done, tools, v, hits, broken = {}, {}, {}, None, 0, {}
    refs = {}

    def ref(src, by):
        if (src, by) not in refs:
            refs[src, by] = s.clean.ask(what="translate", src=plan["sources"][src], by=by)
            if "error" in refs[src, by]:
                raise RuntimeError(refs[src, by]["error"])
        return refs[src, by]

    for op in plan["ops"]:
        k = op["op"]
        i = op.get("tree", op.get("src", 0))
        if i >= len(plan["sources"]):
            continue
        if k == "other":
            build(plan["sources"][i])
            s.log("other", i)
            continue
        if i not in trees:
            trees[i] = build(plan["sources"][i])
        tree = trees[i]
        if k == "read":
            if op["how"] == "sexp":
                tree.sexp(meta=True)
            elif op["how"] == "lint":
                site.rsm.linter.Linter().lint(tree)
            elif op["how"] == "reftext":
                [(n.reftext, n.full_number) for n in tree.traverse()]
            else:
                list(tree.traverse())
            s.log("read", op["how"])
            s.count("probe:between_reads", bool(done.get(i)))
            continue
        t = tools.setdefault(op["by"], translator(op["by"])) if op["reuse"] else translator(op["by"])
        want = ref(i, op["by"])
        if k == "stop":
            st = Stopper(1 + int(op["at"] * want["steps"]), EXC[op["exc"]])
            try:
                with st:
                    t.translate(tree)
            except (KeyboardInterrupt, MemoryError):
                pass
            s.log("stop", i, op["by"], st.hit)
            if st.hit:
                s.count("fault:" + op["exc"])
                broken[i] = st.hit
            continue
        try:
            got = t.translate(tree)
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        s.count("translations")
        s.count("probe:again", op["by"] in done.get(i, ()))
        s.count("probe:other_translator", bool(set(done.get(i, ())) - {op["by"]}))
        s.count("probe:after_interrupt", i in broken)
        s.count("probe:translator_reused", bool(op["reuse"] and done))
        s.count("probe:two_trees", len(trees) > 1)
        hits += bool(done.get(i)) + (i in broken)
        s.log("translate", i, op["by"], op["reuse"], len(got))
        if got != want["html"]:
            hist = f"after translations by {done.get(i, [])}" + (f" and one interrupted at {broken[i]}" if i in broken else "")
            v = site.viol("translation-differs", f"translating the same tree by {op['by']} {hist} gives a different page: {session.first_diff(got, want['html'])}")
            break
        done.setdefault(i, []).append(op["by"])
    return s.finish(v, hits, {"history": s.events})
