// Tooltips: every reference that leads somewhere shows what it leads to, whatever the other references are.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 6, 18);
  const acts = [], touch = rng.chance(0.4);
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "hover", n: rng.int(0, 999) }, 6],
      [{ a: "key", n: rng.int(0, 999) }, 3],
      [{ a: "quick", n: rng.int(0, 999), ms: rng.int(1, 250) }, 1],
      [{ a: "collapse", n: rng.int(0, 999) }, 2],
      [{ a: "wheel", d: rng.pick([-900, 300, 900]) }, 1],
      [{ a: "click", n: rng.int(0, 999) }, 1],
      [{ a: "dismiss", n: rng.int(0, 999), how: rng.pick(["key-elsewhere", "key-origin", "pointer-origin", "inside"]), m: rng.int(0, 99) }, 2],
      [{ a: "press", n: rng.int(0, 999) }, touch ? 5 : 0],
      [{ a: "tap", n: rng.int(0, 999) }, touch ? 2 : 0],
      [{ a: "swipe", n: rng.int(0, 999), d: rng.pick([-300, 200]) }, touch ? 2 : 0],
    ]));
  }
  return { page: page(rng, req, [["refs", 10], ["any", 4], ["sections", 2], ["proofs", 2], ["algs", 1]]), viewport: rng.pick(VIEWPORTS), touch, seed: rng.int(1, 1e9), mathThrows: rng.chance(0.1), acts };
}

const ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone"];
export function plain(el) {
  if (el.nodeType === 3) return el.data;
  if (el.nodeType !== 1 || ZONES.some(z => el.classList.contains(z))) return "";
  return [...el.childNodes].map(plain).join("");
}
const squeeze = s => s.replace(/\s+/g, " ").trim();

/** what the tooltip of a reference to t must show; null: this kind of thing has no preview */
export function preview(t) {
  const c = t.classList, text = el => squeeze(plain(el));
  switch (t.localName) {
    case "p": case "li": case "figure": case "table": return text(t);
    case "span": return c.contains("math") ? text(t) : text(t.parentElement);
    case "a": return text(t.parentElement);
    case "dt": return text(t.nextElementSibling);
    case "section": return squeeze([...t.children].slice(0, 2).map(plain).join(""));
    case "div":
      if (c.contains("step")) { const s = t.querySelector(".statement"); return s && text(s); }
      if (["math", "algorithm", "paragraph", "mathblock", "bibitem", "abstract", "proof", "sketch", "theorem", "lemma", "corollary", "example", "exercise", "proposition", "problem", "porism", "remark", "definition"].some(k => c.contains(k))) return text(t);
  }
  return null;
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  run.intact("opening the page");
  const refs = p.$$(".manuscriptwrapper a.reference");
  const broken = refs.filter(a => !a.classList.contains("tooltipstered"));
  if (broken.length) run.fail("missing", `${broken.length} of ${refs.length} references have no tooltip, the first is to ${broken[0].getAttribute("href")}`);
  const want = new Map();
  for (const a of refs) {
    const href = a.getAttribute("href") || "";
    if (href === "#") { want.set(a, { error: true }); if (!a.classList.contains("error")) run.fail("error-mark", "a reference to something without a label is not marked as an error"); continue; }
    if (!href.startsWith("#")) { want.set(a, { none: true }); continue; }
    const t = p.doc.getElementById(href.slice(1));
    const text = t && preview(t);
    want.set(a, t ? (text === null ? { any: true } : { text, t }) : { none: true });
  }
  const boxes = () => p.$$(".tooltipster-base");
  const usable = () => refs.filter(a => p.shown(a));
  const pickRef = n => { const u = usable(), good = u.filter(a => want.get(a).text !== undefined); return good.length && n % 4 ? good[n % good.length] : M.nth(u, n); };

  function judge(a, what) {
    run.noErrors(what);
    const w = want.get(a), b = boxes();
    if (w.any) return;
    if (w.none) { if (b.length) run.fail("content", `${what}: a tooltip for a link that leads nowhere in the page: “${squeeze(b[0].textContent).slice(0, 80)}”`); return; }
    if (b.length !== 1) run.fail("open", `${what}: ${b.length} tooltips are open, expected 1`);
    const got = squeeze(plain(b[0].querySelector(".tooltipster-content")));
    if (w.error) { if (!/no label/.test(got)) run.fail("content", `${what}: a reference to something without a label shows “${got.slice(0, 80)}”`); run.count("probe:error"); return; }
    if (got !== w.text) run.fail("content", `${what}: shows “${got.slice(0, 120)}”, expected “${w.text.slice(0, 120)}” of ${run.describe(w.t)}`);
    const z = ZONES.find(k => [...b[0].querySelectorAll("." + k)].some(e => squeeze(e.textContent) || e.querySelector("svg, i, img, .icon")));
    if (z && !["li"].includes(w.t.localName)) run.fail("handrail", `${what}: the tooltip shows the handrail of ${run.describe(w.t)}`);
    if (!b[0].querySelector(".tooltipster-content .manuscriptwrapper")) run.fail("content", `${what}: the tooltip's content is outside the manuscript's styles`);
    run.count(`probe:kind-${w.t.localName}${["step", "hr-labeled", "abstract", "paragraph", "mathblock", "bibitem", "algorithm", "math"].filter(k => w.t.classList.contains(k)).map(k => "." + k)[0] || ""}`);
    if (!/^[\w-]*$/.test(w.t.id)) run.count("probe:odd-label");
    run.nontrivial = true;
    run.state(plan.page, refs.indexOf(a));
  }

  for (const act of plan.acts) {
    let what = act.a;
    if (act.a === "hover") {
      const a = pickRef(act.n); if (!a) continue;
      what = `pointing at the reference to ${a.getAttribute("href")}`;
      await p.hover(a); await p.advance(1500);
      judge(a, what);
      await p.hover(null); await p.advance(1500);
      if (boxes().length) run.fail("close", `the tooltip of ${a.getAttribute("href")} stays open after the pointer left`);
    } else if (act.a === "key") {
      const a = pickRef(act.n); if (!a || a.getAttribute("tabindex") === "-1") continue;
      what = `i on the reference to ${a.getAttribute("href")}`;
      await M.focus(p, a);
      if (p.doc.activeElement !== a) continue;
      await p.key("i"); await p.advance(1500); judge(a, what);
      if (boxes().length) { await p.key("i"); await p.advance(1500); if (boxes().length) run.fail("close", `a second i does not close the tooltip of ${a.getAttribute("href")}`); run.count("probe:key"); }
    } else if (act.a === "dismiss") { // a click closes what is open, wherever the pointer is
      const a = pickRef(act.n); if (!a || want.get(a).none || want.get(a).any) continue;
      what = `the tooltip of ${a.getAttribute("href")}`;
      if (act.how.startsWith("key")) {
        if (a.getAttribute("tabindex") === "-1") continue;
        await M.focus(p, a); if (p.doc.activeElement !== a) continue;
        await p.key("i");
      } else await p.hover(a);
      await p.advance(1500); judge(a, `opening ${what}`);
      const inside = boxes()[0]?.querySelector(".tooltipster-content");
      const at = act.how.endsWith("origin") ? a : act.how === "inside" ? inside : M.nth(p.$$(".manuscriptwrapper p, .manuscriptwrapper h1, .manuscriptwrapper .heading").filter(x => p.shown(x) && !x.contains(a)), act.m);
      if (!at) continue;
      if (act.how === "inside") { await p.hover(inside); await p.advance(1500); await p.hover(null); await p.advance(1500); } else { await p.click(at); await p.advance(1200); }
      if (boxes().length) run.fail("close", `${what} stays open after ${act.how === "inside" ? "the pointer went through it and away" : `a click on ${run.describe(at)}`}`);
      await p.hover(null); await p.advance(1000);
      run.count(`probe:dismiss-${act.how}`);
    } else if (act.a === "press") { // a finger rests on the reference
      const a = pickRef(act.n); if (!a) continue;
      what = `holding a finger on the reference to ${a.getAttribute("href")}`;
      await p.finger("touchstart", a); await p.advance(1500);
      judge(a, what);
      await p.finger("touchend", a); await p.advance(1500);
      if (boxes().length) run.fail("close", `the tooltip of ${a.getAttribute("href")} stays open after the finger was lifted`);
      run.count("probe:touch");
    } else if (act.a === "tap") {
      const a = pickRef(act.n); if (!a) continue;
      await p.tap(a); await p.advance(2000);
      if (boxes().length) run.fail("close", `a tooltip stays open after tapping ${a.getAttribute("href")}`);
      await p.hover(null); await p.advance(1000);
      run.count("probe:tap");
    } else if (act.a === "swipe") { // a finger that scrolls the page starts on the reference
      const a = pickRef(act.n); if (!a) continue;
      await p.finger("touchstart", a); await p.advance(50); await p.finger("touchmove", a); await p.wheel(act.d); await p.advance(700); await p.finger("touchmove", a);
      // (tooltipster's garbage collection may forget the swipe: what shows while the finger is down is not judged)
      await p.finger("touchend", a); await p.advance(1500);
      if (boxes().length) run.fail("close", `a tooltip stays open after the page was scrolled with a finger on ${a.getAttribute("href")}`);
      run.count("probe:swipe");
    } else if (act.a === "quick") { // the pointer only passes by
      const a = pickRef(act.n); if (!a) continue;
      await p.hover(a); await p.advance(act.ms); await p.hover(null); await p.advance(2000);
      if (boxes().length) run.fail("close", `a tooltip stays open after the pointer passed over ${a.getAttribute("href")}`);
      run.count("probe:passed-by");
    } else if (act.a === "collapse") { const h = M.nth(M.hrs(p).filter(x => p.shown(x) && M.collapseButton(x)), act.n); if (!h) continue; await p.click(M.collapseButton(h)); await p.hover(null); } else if (act.a === "wheel") await p.wheel(act.d);
    else if (act.a === "click") { const a = pickRef(act.n); if (!a) continue; await p.click(a); await p.hover(null); await p.advance(1500); if (boxes().length) run.fail("close", `a tooltip stays open after following ${a.getAttribute("href")}`); }
    await p.advance(50);
    run.log(act.a, what);
    run.noErrors(what);
  }
  run.intact("using the tooltips");
}
