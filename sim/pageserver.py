"""Builds web pages with the real pipeline for the page simulations (JSON lines on stdin/stdout).

{"gen": [seed, index, profile]} -> {"doc", "source", "html"}
{"doc": {...}}                  -> {"doc", "source", "html"}
{"embed": [seed, index]} or {"docs": [doc, ...], "how": ...} -> several manuscripts in one page:
{"spec", "source", "html", "parts": [html of each manuscript's own page], "path", "base"}
A manuscript the pipeline refuses gives {"doc", "source", "error"}.
"""
import io
import json
import os
import shutil
import sys
import tempfile
from pathlib import Path

from sim import corpus
from sim.prng import Rng
from sim.stdio import Out

ODD = ["p({n})", "a.b{n}", "{n}x", "x.{n}", "A+B{n}", "it's{n}", "été{n}", "two words{n}", "-d{n}", "q~{n}", "m,n{n}", "{n} a", "{n}.{n}", "a&b{n}", "<b{n}>", "αβ{n}", "{n}é"]


class PageGen(corpus.Gen):
    """Manuscripts that exercise the page: nested proofs, sections, contents, references."""

    def __init__(self, rng, odd=0.0, refs=0, **kw):
        super().__init__(rng, **kw)
        self.odd, self.refs, self.labelled = odd, refs, refs > 0

    def label(self, prefix):
        if self.r.chance(self.odd):
            self.n += 1
            lab = self.r.pick(ODD).format(n=self.n)
            if "," in lab and prefix != "sec":
                lab = lab.replace(",", ".")
            self.labels.append(lab)
            return lab
        return super().label(prefix)

    def proof_deep(self):
        r = self.r
        out = ":proof:\n"
        if r.chance(0.2):
            out += f"\n  :sketch: {self.sentence()} ::\n"
        if r.chance(0.3):
            out = f":proof:\n  :label: {self.label('prf')}\n"
        for j in range(r.randint(1, 3)):
            out += "\n" + self.step(r.randint(1, 3), 1, j == 0) + "\n"
        return out + "\n::"

    def algorithm(self):
        bad = "\\nosuchcommand\n" if self.r.chance(0.15) else ""
        lab = f"  :label: {self.label('alg')}\n" if self.r.chance(0.4) else ""
        return (":algorithm:\n" + lab + "\\begin{algorithm}\n\\caption{Quick}\n\\begin{algorithmic}\n" + bad
                + f"\\STATE $x = {self.r.randrange(9)}$\n" + "\\end{algorithmic}\n\\end{algorithm}\n::")

    def theorem(self):
        out = super().theorem()
        if self.r.chance(0.2):
            out = ":" + self.r.pick(["exercise", "problem", "porism"]) + out[out.index(":", 1):]
        return out

    def lst(self):
        r = self.r
        t = r.pick(["enumerate", "itemize"])
        items = "\n\n".join(f"  :item: " + (f"{{:label: {self.label('it')}}} " if r.chance(0.5) else "") + self.sentence()
                            for _ in range(r.randint(1, 3)))
        return f":{t}:\n\n{items}\n\n::"

    def math(self):
        if self.labelled and self.r.chance(0.3):
            return f":math: {{:label: {self.label('m')}}} {self.r.pick(['2 + 2', 'x^2', 'n > 1'])} ::"
        return super().math()

    def table(self):
        out = super().table()
        return out.replace(":table:\n", f":table:\n  :label: {self.label('tab')}\n", 1) if self.r.chance(0.6) else out

    def references(self):
        r = self.r
        labs = r.some(self.labels, 1, min(6, len(self.labels))) if self.labels else []
        return "See " + ", ".join(f":ref:{x}" + r.pick(["::", f", {self.words(1, 2)}::"]) for x in labs) + "."

    labelled = False

    def page(self, weights=None):
        r = self.r
        blocks = []
        title = self.words(2, 4).title() if r.chance(0.9) else ""
        if r.chance(0.25):
            blocks.append(":author:\n  :name: Ada Lovelace\n  :affiliation: ACME University\n::")
        if r.chance(0.4):
            lab = f"  :label: {self.label('abs')}\n" if r.chance(0.5) else ""
            blocks.append(f":abstract:\n{lab}\n  {self.sentence()}\n\n::")
        if r.chance(0.6):
            blocks.append(":toc: ::")
        level = 0
        w = weights or {"par": 6, "lst": 1, "thm": 4, "deep": 5, "proof": 2, "table": 1, "code": 1, "alg": 1, "fig": 1}
        kinds, ws = list(w), list(w.values())
        for _ in range(self.size):
            if r.chance(0.45):
                level = r.randint(2, min(4, level + 1 if level else 2))
                blocks.append(self.section(level))
            k = r.choices(kinds, ws)[0]
            blocks.append({"par": self.paragraph, "lst": self.lst, "thm": self.theorem, "deep": self.proof_deep,
                           "proof": self.proof, "table": self.table, "code": self.code, "alg": self.algorithm,
                           "fig": self.figure}[k]())
        for _ in range(self.refs):
            if self.labels:
                blocks.append(self.references())
        return {"title": title, "blocks": blocks, "bib": list(self.bib)}


PROFILES = {
    "any": {},
    "proofs": {"weights": {"par": 2, "thm": 3, "deep": 8, "proof": 2}},
    "refs": {"weights": {"par": 8, "thm": 5, "lst": 2, "deep": 3, "fig": 2, "table": 1, "alg": 1}, "odd": 0.25, "refs": 3},
    "sections": {"weights": {"par": 6, "thm": 2}, "odd": 0.35, "size": (5, 14), "toc_labels": 0.7},
    "algs": {"weights": {"par": 3, "alg": 6, "thm": 2, "deep": 2}},
}


def generate(seed, index, profile):
    r = Rng("page", seed, index, profile)
    p = PROFILES[profile]
    lo, hi = p.get("size", (2, 8))
    g = PageGen(r, odd=p.get("odd", 0.1), refs=p.get("refs", 0), assets=["fig-a.png", "img/plot.svg"], bad_refs=True, size=r.randint(lo, hi),
                toc_labels=r.chance(p.get("toc_labels", 0.3)))
    return g.page(p.get("weights"))


def render(doc):
    from rsm import app, builder
    src = corpus.source(doc)
    err, sys.stderr, sys.stdout = (sys.stderr, sys.stdout), io.StringIO(), Out()
    try:
        body = app.ProcessorApp(plain=src, handrails=True).run()
        if not body:
            return {"doc": doc, "source": src, "error": "the pipeline produced nothing"}
        web = builder.FullBuilder().build(body)
        return {"doc": doc, "source": src, "html": web.html}
    except BaseException as e:  # judged by other properties, not by the page ones
        return {"doc": doc, "source": src, "error": f"{type(e).__name__}: {e}"}
    finally:
        sys.stderr, sys.stdout = err


def directive():
    """The real Sphinx extension of the documentation; docutils, which is not installed, is stood in for."""
    import importlib.util
    import types
    if "docutils" not in sys.modules:
        du, nodes, parsers, rst = (types.ModuleType(n) for n in ("docutils", "docutils.nodes", "docutils.parsers", "docutils.parsers.rst"))

        class Element:
            def __init__(self, *a, **kw):
                self.args, self.children, self.attributes = a, [], {"classes": []}

            def append(self, x):
                self.children.append(x)

            def __getitem__(self, k):
                return self.attributes[k]

            def __setitem__(self, k, v):
                self.attributes[k] = v

        nodes.Element, nodes.literal_block, rst.Directive = Element, type("literal_block", (Element,), {}), type("Directive", (), {})
        du.nodes, du.parsers, parsers.rst = nodes, parsers, rst
        sys.modules.update({"docutils": du, "docutils.nodes": nodes, "docutils.parsers": parsers, "docutils.parsers.rst": rst})
    import rsm
    f = Path(rsm.__file__).resolve().parent.parent / "docs" / "source" / "rsm_directive.py"
    spec = importlib.util.spec_from_file_location("rsm_directive", f)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def embed(spec):
    """A page of the documentation (how: docs) or somebody's own page holding several manuscripts."""
    import html as H
    import types
    srcs = [corpus.source(d) for d in spec["docs"]]
    out = {"spec": spec, "source": "\n----\n".join(srcs)}
    err, sys.stderr, sys.stdout = (sys.stderr, sys.stdout), io.StringIO(), Out()
    try:
        import rsm
        from rsm import builder
        out["sources"] = srcs
        out["parts"] = [builder.FullBuilder().build(rsm.render(s, handrails=True)).html for s in srcs]
        mod = directive()
        prod = spec["how"] == "docs-prod"
        own = spec["how"] == "own"
        base = spec["base"] if own else "/en/latest/_static/" if prod else "/_static/"
        heads, scripts = [], []
        if own:
            keys = "true" if spec["keys"] else "false"
            scripts.append(f"import {{ onload }} from '{base}onload.js';\nwindow.addEventListener('load', (ev) => {{onload(null, {{path: '{base}', keys: {keys}}})}});")
            heads += ["jquery-3.6.0.js", "tooltipster.bundle.js"]
        else:
            cfg = types.SimpleNamespace(html_static_path=[], rsm_static_path_dev=None, rsm_static_path_prod=None, rsm_build_prod=prod)
            calls = {}
            app = types.SimpleNamespace(config=cfg, add_css_file=lambda *a, **k: None, connect=lambda *a: None, add_directive=lambda n, c: calls.update({n: c}),
                                        add_node=lambda n, html: calls.update({n: html}), add_config_value=lambda n, v, r: setattr(cfg, n, v if n != "rsm_build_prod" else prod),
                                        add_js_file=lambda name, body=None, **k: heads.append(name) if name else scripts.append(body))
            mod.setup(app)
            mod.add_rsm_static_files(app)
            heads.insert(0, "jquery-3.6.0.js")  # the theme's
        body = ["<h1>Gallery</h1><p>Text of the page.</p>"]
        for src in srcs:
            if own:
                page = rsm.render(src, handrails=True)
                body.append(page[page.index("<body>") + 6:page.rindex("</body>")])
                continue
            d = mod.RSMDirective()
            d.content = src.split("\n")
            [example] = d.run()
            block, manuscript = example.children
            tr = types.SimpleNamespace(body=body)
            calls[type(example)][0](tr, example)
            body.append(f'<div class="{" ".join(block["classes"])} highlight-{block["language"]} notranslate"><div class="highlight"><pre><span></span>{H.escape(block.args[0])}\n</pre></div></div>')
            calls[type(manuscript)][0](tr, manuscript)
            calls[type(manuscript)][1](tr, manuscript)
            calls[type(example)][1](tr, example)
        up = base if own else "../_static/"
        out["base"], out["path"] = base, spec["base"].rsplit("/", 2)[0] + "/notes.html" if own else ("/en/latest" if prod else "") + "/tutorials/page.html"
        out["html"] = ("<html>\n<head>\n" + "".join(f'<script src="{up}{h}"></script>\n' for h in heads)
                       + "".join(f'<script type="module">{s}</script>\n' for s in scripts) + "</head>\n<body>\n" + "\n".join(body) + "\n</body>\n</html>\n")
        return out
    except BaseException as e:
        import traceback
        return dict(out, error=f"{type(e).__name__}: {e}", trace=traceback.format_exc())
    finally:
        sys.stderr, sys.stdout = err


def gallery(seed, index):
    r = Rng("gallery", seed, index)
    docs, twin = [], r.chance(0.4)  # twins have the same structure, so everything numbered per manuscript coincides
    for i in range(r.randint(2, 4)):
        q = Rng("gallery", seed, index, "doc", 0 if twin and i < 2 else i)
        g = PageGen(q, odd=0.0 if twin else 0.1, refs=q.randint(0, 2), assets=["fig-a.png", "img/plot.svg"], bad_refs=True, size=q.randint(1, 4), tag="abcd"[i])
        g.n = 1000 * (1 if twin else i)
        doc = g.page(PROFILES[q.pick(["proofs", "proofs", "any", "refs"])].get("weights"))
        docs.append(dict(doc, bib=[], blocks=[b for b in doc["blocks"] if ":cite:" not in b and ":bibliography:" not in b]))
    return {"docs": docs, "how": r.pick(["docs-dev", "docs-prod", "own", "own"]), "base": r.pick(["/static/", "/notes/files/"]), "keys": r.chance(0.8)}


def main():
    rin = os.fdopen(os.dup(0), "r", encoding="utf-8")
    rout = os.fdopen(os.dup(1), "w", encoding="utf-8")
    dn = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    try:
        import rsm.app  # noqa: F401
        rout.write(json.dumps({"ready": True}) + "\n")
    except BaseException as e:
        rout.write(json.dumps({"ready": False, "error": f"{type(e).__name__}: {e}"}) + "\n")
    rout.flush()
    scratch = tempfile.mkdtemp(prefix="pages-")  # figures are looked up relative to the working directory
    try:
        Path(scratch, "img").mkdir()
        Path(scratch, "fig-a.png").write_bytes(b"\x89PNG")
        Path(scratch, "img", "plot.svg").write_text("<svg/>")
        os.chdir(scratch)
        for line in rin:
            req = json.loads(line)
            if "embed" in req or "docs" in req:
                reply = embed(gallery(*req["embed"]) if "embed" in req else req)
            else:
                reply = render(generate(*req["gen"]) if "gen" in req else req["doc"])
            rout.write(json.dumps(reply) + "\n")
            rout.flush()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
