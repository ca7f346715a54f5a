// Minimaps: they follow the reader and the pointer on every page, and never get in the way.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 10, 30);
  const acts = [];
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "wheel", d: rng.pick([-5000, -1500, -400, -60, 60, 250, 400, 900, 1500, 5000]) }, 8],
      [{ a: "at", n: rng.int(0, 99), off: rng.int(-700, 100) }, 4],
      [{ a: "hover", n: rng.int(0, 99) }, 3],
      [{ a: "focus", n: rng.int(0, 99) }, 1],
      [{ a: "go", n: rng.int(0, 99), from: rng.pick(["toc", "float"]) }, 2],
      [{ a: "collapse", n: rng.int(0, 99) }, 2],
      [{ a: "key", k: rng.pick(["j", "k", "h", "l", "H"]) }, 2],
      [{ a: "resize", v: rng.pick(VIEWPORTS) }, 1],
    ]));
  }
  return { page: page(rng, req, [["sections", 8], ["any", 2], ["refs", 2], ["proofs", 1]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9), acts };
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  const pct = n => { const a = p.doc.getElementById(`stop-follow-${n}-1`)?.getAttribute("offset"), b = p.doc.getElementById(`stop-follow-${n}-2`)?.getAttribute("offset"); if (a !== b) run.fail("gradient", `the two ends of the ${n} marker are at ${a} and ${b}`); return a === undefined || a === null ? null : parseFloat(a); };
  const toc = p.$(".toc-wrapper > .minimap"), fl = p.$(".float-minimap-wrapper > .minimap");
  run.count(`probe:${toc ? "with" : "without"}-contents`);
  let scrolled = false, stale = true, mouse = pct("mouse");
  const entries = () => p.$$("ul.contents li.item");
  const seen = r => r.top < p.win.innerHeight && r.bottom > 0;

  function judge(what) {
    run.noErrors(what);
    const m = pct("mouse"), s = pct("scroll");
    if ((m !== null && !Number.isFinite(m)) || (s !== null && !Number.isFinite(s))) run.fail("gradient", `after ${what}: markers at ${m}% and ${s}%`);
    if (m !== null && mouse !== null && Math.abs(m - mouse) > 1e-6) run.fail("pointer", `after ${what}: the contents' minimap is marked at ${m}%, expected ${mouse}%`);
    if (!fl || !scrolled || stale) return; // judged at the first scroll after the layout changed
    const inView = !!toc && seen(toc.getBoundingClientRect());
    if (p.shown(fl) === inView) run.fail("floating", `after ${what}: the contents' minimap is ${inView ? "" : "not "}in view and the floating one is ${inView ? "shown too" : "hidden"}`);
    run.count(inView ? "probe:toc-in-view" : "probe:floating");
    if (inView) return;
    const secs = p.$$("section").filter(x => { const r = x.getBoundingClientRect(); return r.top < p.win.innerHeight / 2 && r.bottom > 0; });
    const last = secs[secs.length - 1];
    const circle = last?.id && [...fl.querySelectorAll("circle")].find(c => c.id === `mm-${last.id}`);
    if (circle) {
      const c = circle.getBoundingClientRect(), b = fl.getBoundingClientRect(), want = (c.bottom - b.top + 12) / fl.offsetHeight * 100;
      if (Math.abs(s - want) > 1e-6) run.fail("scroll", `after ${what}: reading ${run.describe(last)}, the minimap is marked at ${s}%, expected ${want}%`);
      run.count("probe:followed"); run.nontrivial = true;
    } else if ((!last || last.classList.contains("level-1")) && s !== 0) run.fail("scroll", `after ${what}: no section of the contents is being read but the minimap is marked at ${s}%`);
    run.state(plan.page, secs.length, s);
  }

  async function nudge() { stale = true; for (const d of [1, -1]) { const y = p.win.scrollY; await p.wheel(d); if (p.win.scrollY !== y) { scrolled = true; stale = false; } } }

  for (const act of plan.acts) {
    const y0 = p.win.scrollY;
    let what = act.a;
    if (act.a === "wheel") await p.wheel(act.d);
    else if (act.a === "at") { const s = M.nth(p.$$("section").filter(x => p.shown(x)), act.n); if (!s) continue; await p.wheel(s.getBoundingClientRect().top + act.off); what = `scrolling to ${run.describe(s)}`; } else if (act.a === "hover") {
      const all = entries(), e = M.nth(all.filter(x => p.shown(x)), act.n); if (!e) continue;
      await p.hover(null); await p.hover(M.inner(e, act.n));
      mouse = (all.indexOf(e) + 1) / all.length * 100; what = `pointing at entry ${all.indexOf(e) + 1} of ${all.length}`; run.count("probe:pointed"); run.nontrivial = true;
      // entries may be nested: the innermost one under the pointer is entered last
      const inn = [...p.doc._hover ? [p.doc._hover.closest("li.item")] : []].filter(Boolean)[0];
      if (inn && inn !== e) mouse = (all.indexOf(inn) + 1) / all.length * 100;
    } else if (act.a === "focus") {
      const all = entries(), e = M.nth(all.filter(x => p.shown(x)), act.n), a = e?.querySelector("a.reference"); if (!a) continue;
      if (p.doc.activeElement === a) continue;
      await M.focus(p, a); what = "focusing an entry of the contents";
      mouse = (all.indexOf(a.closest("li.item")) + 1) / all.length * 100; run.count("probe:focused");
    } else if (act.a === "go") {
      const a = M.nth(p.$$(act.from === "toc" ? "ul.contents a.reference" : ".float-minimap-wrapper a.reference").filter(x => p.shown(x) && x.getAttribute("href") !== "#"), act.n); if (!a) continue;
      const all = entries(), li = a.closest("li.item");
      const id = a.getAttribute("href").slice(1), t = p.doc.getElementById(id);
      if (!t) run.fail("target", `the minimap links to #${id} but nothing has that id`);
      await p.hover(null); await p.click(M.inner(a, act.n)); await p.advance(100);
      if (li) mouse = (all.indexOf(li) + 1) / all.length * 100;
      what = `following the ${act.from} link to ${id}`;
      if (p.shown(t) && t.getBoundingClientRect().top >= p.win.innerHeight) run.fail("target", `after ${what} the target is still below the screen`);
      run.count("probe:followed-link");
      await p.hover(null);
    } else if (act.a === "collapse") { const h = M.nth(M.hrs(p).filter(x => p.shown(x) && M.collapseButton(x)), act.n); if (!h) continue; await p.click(M.collapseButton(h)); await p.hover(null); what = `closing or opening ${run.describe(h)}`; await nudge(); } else if (act.a === "key") {
      const at = p.doc.activeElement;
      await p.key(act.k); await p.advance(600);
      const li = p.doc.activeElement?.closest?.("ul.contents li.item"); // not the items of the manuscript's own lists
      if (li && p.doc.activeElement !== at && p.doc.activeElement.matches("a.reference")) mouse = (entries().indexOf(li) + 1) / entries().length * 100;
      what = `key ${act.k}`;
    } else if (act.a === "resize") { await p.resize(...act.v); await nudge(); what = "resizing the window"; }
    await p.advance(40);
    while (p.scrollQueued) await p.advance(20); // a page that got shorter scrolls by itself
    if (p.win.scrollY !== y0) { scrolled = true; if (!["collapse", "resize"].includes(act.a)) stale = false; }
    run.log(act.a, what, Math.round(p.win.scrollY));
    if (p.win.scrollY !== y0 || ["hover", "focus", "collapse", "resize"].includes(act.a)) judge(what); else run.noErrors(what);
  }
}
