"""Seeded generator of RSM manuscripts (the workload, not the thing being decided).

A manuscript is a JSON-able dict {"title", "blocks": [str], "bib": [keys], "shape"} so that a
history can edit it block by block; source(doc) renders it to text.
"""
WORDS = ("graph node edge proof lemma ring ideal spectrum matrix vector field limit open closed "
         "compact dense prime module kernel image order metric space basis cover chain").split()
UNI = ["naïve", "Erdős", "Poincaré", "Gödel", "λ-calculus", "束", "été", "Ω", "↖", "“quoted”", "Łoś"]
KINDS = ["theorem", "lemma", "corollary", "definition", "proposition", "remark", "example"] * 2 + ["exercise", "problem", "porism"]
ASSETS = ["fig-a.png", "fig-b.svg", "img/plot.png", "img/deep/tree.svg"]


class Gen:
    def __init__(self, rng, assets=None, unicode=True, bad_refs=True, size=None, dup_labels=False, tag="", toc_labels=False):
        self.r, self.assets, self.unicode, self.bad_refs = rng, assets, unicode, bad_refs
        self.labels, self.n, self.tag = [], 0, tag
        self.bib = []
        self.size = size or rng.randint(2, 9)
        self.dup = dup_labels
        self.toc_labels = toc_labels

    def words(self, lo=3, hi=12):
        ws = [self.r.pick(WORDS) for _ in range(self.r.randint(lo, hi))]
        if self.unicode and self.r.chance(0.35):
            ws.insert(self.r.randrange(len(ws)), self.r.pick(UNI))
        return " ".join(ws)

    def label(self, prefix):
        if self.dup and self.labels and self.r.chance(0.25):
            return self.r.pick(self.labels)
        self.n += 1
        l = f"{prefix}-{self.tag}{self.n}"
        self.labels.append(l)
        return l

    def math(self):
        return "$" + self.r.pick(["x^2", "a + b", "2+2=4", r"\alpha", "G", "n > 1", "f(x)", r"x \in A"]) + "$"

    def inline(self):
        """one inline fragment (never empty)"""
        r = self.r
        k = r.randrange(16)
        w = self.words(1, 3)
        if k == 14:
            return r.pick([f":claim: {{:label: {self.label('cl')}}} {w} {self.math()} ::", f":math: {{:label: {self.label('im')}}} 2 + 2 ::",
                           f":span: {{:strong:}} {w} :span: {{:emphas:}} deep ::{r.pick(['', ' '])}::", f"*{w} {self.math()}*", f"/{w} `c`/"])
        if k == 15 and self.labels:
            return f":ref:{r.pick(self.labels)}::"
        if k == 12:
            return r.pick(["50\\% off", "\\$5 and \\#2", "a\\:b", "\\`tick\\`", "\\*star\\*", "\\{brace", "x \\: \\% \\$"])
        if k == 13:
            return f":span: {{:{r.pick(['strong', 'emphas'])}:}} {w} ::"
        if k == 0:
            return f"*{w}*"
        if k == 1:
            return f"/{w}/"
        if k == 2:
            return self.math() + r.pick([".", "", ","])
        if k == 3 and self.labels:
            return f":ref:{r.pick(self.labels)}" + r.pick(["::", f", {w}::"])
        if k == 4 and self.bad_refs and r.chance(0.4):
            return f":ref:nowhere-{r.randrange(9)}::"
        if k == 5:
            return f":url:https://example.org/{r.randrange(99)}, {w}::"
        if k == 6:
            return f":span: {{:label: {self.label('sp')}}} {w} ::"
        if k == 7:
            return f"`{r.pick(['x = 1', 'def f(x): pass', 'a[b]'])}`"
        if k == 8:
            keys = r.some(["knuth", "turing", "godel"], 1, 2)
            for key in keys:
                if key not in self.bib:
                    self.bib.append(key)
            if self.bad_refs and r.chance(0.15):
                keys = keys + [f"missing{r.randrange(5)}"]
            return f":cite:{','.join(keys)}::"
        if k == 9:
            return f":note: {w} ::"
        if k == 10:
            return f":draft: {w} ::"
        return w

    def sentence(self):
        parts = [self.words(2, 6).capitalize()]
        for _ in range(self.r.randint(0, 3)):
            parts.append(self.inline())
            if self.r.chance(0.5):
                parts.append(self.words(1, 4))
        return " ".join(parts) + self.r.pick([".", " done.", "!"])

    def paragraph(self):
        r = self.r
        lines = [self.sentence() for _ in range(r.randint(1, 3))]
        if r.chance(0.2):
            icon = r.pick(["", "", ", :icon: heart", ", :icon: success", ", :types: mytype"])
            lines[0] = f":paragraph: {{:label: {self.label('par')}{icon}}} {lines[0]}"
        if r.chance(0.08):
            lines.append(f"% a comment about {r.pick(WORDS)}")
        text = "\n".join(lines)
        if r.chance(0.3):
            meta = r.pick(["", "  :nonum:\n", f"  :label: {self.label('eq')}\n"])
            text += f"\n$$\n{meta}{r.pick(['x = y', 'a^2 + b^2 = c^2', '2L(G)'])}\n$$"
            if r.chance(0.5):
                text += f"\n{self.sentence()}"
        return text

    def lst(self):
        r = self.r
        t = r.pick(["enumerate", "itemize"])
        def item():
            lab = f"{{:label: {self.label('it')}}} " if r.chance(0.15) else ""
            return f"  :item: {lab}{self.sentence()}"
        items = "\n\n".join(item() for _ in range(r.randint(1, 3)))
        if r.chance(0.15):
            items += f"\n\n  :{r.pick(['enumerate', 'itemize'])}:\n\n  {item()}\n\n  ::"
        return f":{t}:\n\n{items}\n\n::"

    def theorem(self):
        r = self.r
        k = r.pick(KINDS)
        meta = ""
        if r.chance(0.6):
            meta += f"  :label: {self.label('thm')}\n"
        if r.chance(0.4):
            meta += f"  :title: {self.words(1, 3)}\n"
        if r.chance(0.15):
            meta += "  :nonum:\n"
        if r.chance(0.12):
            meta += f"  :reftext: {self.words(1, 3)}\n"
        if r.chance(0.1):
            meta += "  :types: {important, main}\n"
        body = self.sentence()
        if r.chance(0.3):
            body = f":let: {self.math()} be a {r.pick(WORDS)} ::. " + body
        if r.chance(0.2):
            body = " ".join(f":{c}: {self.math()} ::," for c in r.some(["define", "write", "assume", "new", "pick", "case", "st", "then"], 1, 4)) + " " + body
        if r.chance(0.1):
            body += "\n\n" + self.proof()
        return f":{k}:\n{meta}\n  {body}\n\n::"

    def step(self, depth, ind, first):
        r = self.r
        pad = "  " * ind
        meta = f"\n{pad}  :label: {self.label('st')}\n" if r.chance(0.5) else ""
        body = r.pick([
            self.sentence(),
            f":claim: {self.math()} :: by assumption.",
            f":suffices: {self.words(2, 4)} :: and :prove: {self.math()} ::",
        ])
        if not first and r.chance(0.25):
            body += r.pick([" Due to :prev:.", " Due to :prev:.", " Due to :previous:1,that::."])
        out = f"{pad}:step:{meta}" + (f"\n{pad}  {body}" if meta else f" {body}")
        if depth > 0 and r.chance(0.7):
            if r.chance(0.5):
                fig = f"{self.figure()}\n\n" if self.assets and r.chance(0.1) else ""
                out += f"\n\n{pad}  :p:\n\n{fig}" + "\n\n".join(
                    self.step(depth - 1, ind + 2, j == 0) for j in range(r.randint(1, 3))) + f"\n\n{pad}  ::\n"
            else:
                out += f"\n\n{pad}  :p: {self.sentence()} ::\n"
        return out + f"\n{pad}::"

    def proof(self):
        r = self.r
        out = ":proof:\n" + (f"  :label: {self.label('pf')}\n" if r.chance(0.2) else "")
        if r.chance(0.2):
            out += f"\n  :sketch: {self.sentence()} ::\n"
        for j in range(r.randint(1, 3)):
            out += "\n" + self.step(r.randint(0, 3), 1, j == 0) + "\n"
        return out + "\n::"

    def figure(self):
        r = self.r
        path = r.pick(self.assets) if self.assets else "missing.png"
        cap = f"\n  :caption: {self.sentence()}\n" if r.chance(0.8) else ""
        lab = f"  :label: {self.label('fig')}\n" if r.chance(0.5) else ""
        scale = "  :scale: 0.5\n" if False else ""
        return f":figure:\n  :path: {path}\n{lab}{scale}{cap}\n::"

    def table(self):
        r = self.r
        rows = "\n\n".join(":tr: " + " ".join(f":td:{self.r.pick(WORDS)}::" for _ in range(2)) + " ::" for _ in range(r.randint(1, 3)))
        head = f":thead:\n\n:tr: :td: {r.pick(WORDS)} :: :td: {r.pick(WORDS)} :: ::\n\n::\n\n" if r.chance(0.5) else ""
        lab = f"\n  :label: {self.label('tb')}" if r.chance(0.3) else ""
        cap = f"\n\n:caption: {self.sentence()}" if r.chance(0.3) else ""
        return f":table:{lab}\n\n{head}:tbody:\n\n{rows}\n\n::{cap}\n\n::"

    def code(self):
        lang = self.r.pick(["  :lang: python\n", ""]) + (f"  :label: {self.label('cb')}\n" if self.r.chance(0.15) else "")
        return f":codeblock:\n{lang}def f(x):\n    return x + {self.r.randrange(9)}\n::"

    def algorithm(self):
        lab = f"  :label: {self.label('al')}\n" if self.r.chance(0.3) else ""
        return (f":algorithm:\n{lab}" "\\begin{algorithm}\n\\caption{Quick}\n\\begin{algorithmic}\n"
                f"\\STATE $x = {self.r.randrange(9)}$\n\\end{{algorithmic}}\n\\end{{algorithm}}\n::")

    def block(self):
        r = self.r
        k = r.choices(["par", "lst", "thm", "proof", "fig", "table", "code", "alg"],
                      [8, 2, 4, 4, 2 if self.assets else 0, 1, 1, 1])[0]
        return {"par": self.paragraph, "lst": self.lst, "thm": self.theorem, "proof": self.proof,
                "fig": self.figure, "table": self.table, "code": self.code, "alg": self.algorithm}[k]()

    def section(self, level):
        r = self.r
        lab = f"\n  :label: {self.label('sec')}" if (self.toc_labels or r.chance(0.6)) else ""
        nonum = "\n  :nonum:" if r.chance(0.12) else ""
        rt = f"\n  :reftext: {self.words(1, 2)}" if lab and r.chance(0.1) else ""
        return f"{'#' * level} {self.words(1, 4).title()}{lab}{nonum}{rt}"

    def doc(self):
        r = self.r
        blocks = []
        title = self.words(2, 5).title() if r.chance(0.85) else ""
        if r.chance(0.35):
            blocks.append(f":author:\n  :name: {r.pick(['Ada Lovelace', 'Paul Erdős' if self.unicode else 'Paul E', 'M. Blanc'])}\n"
                          f"  :affiliation: ACME University\n  :email: a{r.randrange(9)}@example.org\n::")
        if r.chance(0.3):
            blocks.append(f":abstract:\n  :keywords: {{{r.pick(WORDS)}, {r.pick(WORDS)}}}\n\n  {self.sentence()}\n\n::")
        toc = r.chance(0.35) or self.toc_labels
        if toc:
            blocks.append(":toc: ::")
        level = 0
        for _ in range(self.size):
            if r.chance(0.35):
                level = r.randint(2, min(4, level + 1 if level else 2))
                blocks.append(self.section(level))
            blocks.append(self.block())
        if r.chance(0.05):
            blocks.append(":toc: ::")
        if r.chance(0.2):
            for _ in range(r.pick([1, 1, 2])):
                blocks.append(":appendix:")
                blocks.append(self.section(2))
                blocks.append(self.paragraph())
                if r.chance(0.3):
                    blocks.append(self.section(2))
                    blocks.append(self.block())
        secs = [l for l in self.labels if l.startswith("sec-")]
        if secs and r.chance(0.4):
            blocks.append(" ".join(f"See :ref:{l}::." for l in r.some(secs, 1, 4)))
        return {"title": title, "blocks": blocks, "bib": list(self.bib)}


BIB = {
    "knuth": "@book{knuth,\n  title={Art of computer programming},\n  author={Knuth, Donald E},\n  year={2014},\n  publisher={Addison-Wesley}\n}",
    "turing": "@article{turing,\n  title={On computable numbers},\n  author={Turing, Alan},\n  year={1936},\n  journal={LMS},\n  doi={10.1112/plms}\n}",
    "godel": "@article{godel,\n  title={Undecidable propositions},\n  author={Godel, Kurt},\n  year={1931}\n}",
}


def source(doc):
    head = ":rsm:\n" + (f"  :title: {doc['title']}\n" if doc["title"] else "")
    body = "\n\n".join(doc["blocks"])
    bib = ""
    tail = ""
    if doc["bib"]:
        body += "\n\n:bibliography: ::"
        bib = "\n\n:bibtex:\n\n" + "\n\n".join(BIB[k] for k in doc["bib"]) + "\n\n::\n"
    return f"{head}\n{body}\n\n::\n{bib}{tail}"
