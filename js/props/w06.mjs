// Handrail menus: mouse and keyboard open, browse, execute and close them without surprises.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 10, 35);
  const acts = [];
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "focus", n: rng.int(0, 999) }, 3],
      [{ a: "dot" }, 4],
      [{ a: "arrow", k: rng.pick(["ArrowUp", "ArrowDown"]), m: rng.int(1, 5) }, 6],
      [{ a: "enter" }, 3],
      [{ a: "dots", n: rng.int(0, 999), inner: rng.int(0, 4) }, 3],
      [{ a: "point", n: rng.int(0, 99), inner: rng.int(0, 3) }, 4],
      [{ a: "leave" }, 3],
      [{ a: "click", n: rng.int(0, 99), inner: rng.int(0, 3) }, 3],
      [{ a: "nav", k: rng.pick(["j", "k"]) }, 2],
      [{ a: "toggle" }, 1],
    ]));
    if (rng.chance(0.12)) acts.push({ a: "focus", n: rng.int(0, 999) }, { a: "dot" }, { a: "arrow", k: rng.pick(["ArrowUp", "ArrowDown"]), m: rng.int(1, 5) }, { a: "enter" });
  }
  return { page: page(rng, req, [["proofs", 6], ["any", 3], ["sections", 2]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9), clipboard: { mode: rng.pick(["ok", "reject"]), delay: 0 }, acts };
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  const m = new M.CollapseModel(run, p);
  const open = new Set(); // handrails whose menu must be open
  const marked = new Map(); // handrail -> its one active item (only while open)
  let copies = 0;
  const focused = () => p.doc.activeElement.closest?.(".hr") === p.doc.activeElement && p.doc.activeElement.classList.contains("hr") ? p.doc.activeElement : null;
  const near = h => p.doc._hover && M.menuOf(h)?.contains(p.doc._hover);

  function judge(what) {
    run.noErrors(what);
    for (const h of m.hrs) {
      const z = M.menuZone(h), menu = M.menuOf(h);
      if (!z || !menu) continue;
      const isOpen = p.styles.get(z, "display") !== "none";
      if (isOpen !== open.has(h)) run.fail("menu", `after ${what}: the menu of ${run.describe(h)} is ${isOpen ? "open" : "closed"}, expected ${open.has(h) ? "open" : "closed"}`);
      const act = M.items(h).filter(i => i.classList.contains("active"));
      if (act.length > 1) run.fail("active", `after ${what}: ${act.length} active items in the menu of ${run.describe(h)}`);
      const want = marked.get(h) || null;
      if (want !== undefined && (act[0] || null) !== want) run.fail("active", `after ${what}: the active item of ${run.describe(h)} is “${act[0]?.textContent.trim() ?? "none"}”, expected “${want?.textContent.trim() ?? "none"}”`);
    }
    m.check(what);
    const said = p.$$(".toast").length;
    if (said !== copies) run.fail("toast", `after ${what}: ${said} notifications on the page, expected ${copies}`);
  }
  function effect(h, it) { // what executing an item does
    if (!M.enabled(it)) return "nothing";
    if (it.classList.contains("collapse-subproof")) { m.toggle(h); return "toggle"; }
    if (it.classList.contains("collapse-steps")) { m.toggleAll(h); return "toggle all"; }
    if (it.classList.contains("link")) { copies++; return "copy"; }
    return "nothing";
  }
  function gone(prev) { // the pointer left prev's menu: it closes
    if (prev && !near(prev)) { open.delete(prev); marked.delete(prev); }
  }
  const hoverMenu = () => { const x = p.doc._hover?.isConnected ? p.doc._hover.closest(".hr-menu") : null; return x ? x.closest(".hr") : (p._hoverChain || []).find(n => n.isConnected && n.classList?.contains("hr-menu"))?.closest(".hr") || null; };

  for (const act of plan.acts) {
    const live = m.hrs.filter(h => p.shown(h) && M.menuOf(h));
    const under = hoverMenu();
    const f = focused();
    let what = act.a;
    if (act.a === "focus") { const h = M.nth(live.filter(x => x.hasAttribute("tabindex")), act.n); if (!h) continue; await M.focus(p, h); what = `focusing ${run.describe(h)}`; } else if (act.a === "dot") {
      what = `. on ${run.describe(p.doc.activeElement)}`;
      await p.key(".");
      if (f && M.menuOf(f)) { if (open.has(f)) { open.delete(f); marked.delete(f); } else open.add(f); run.count("probe:dot"); }
    } else if (act.a === "arrow") {
      for (let i = 0; i < act.m; i++) {
        const at = p.smooth ? null : p.win.scrollY;
        await p.key(act.k);
        if (f && open.has(f) && at !== null && p.win.scrollY !== at) run.fail("arrow-scrolls", `${act.k} in the open menu of ${run.describe(f)} also scrolled the page from ${at} to ${p.win.scrollY}`);
        what = `${act.k} on ${run.describe(p.doc.activeElement)}`;
        if (!f || !open.has(f)) { judge(what); continue; }
        const its = M.items(f), cur = marked.get(f), hov = its.find(x => p.doc._hover && x.contains(p.doc._hover));
        if (hov) marked.set(f, its.find(x => x.classList.contains("active")) || null); // pointer and keys at once: any one item
        else marked.set(f, cur ? its[(its.indexOf(cur) + (act.k === "ArrowDown" ? 1 : its.length - 1)) % its.length] : its[0]);
        run.count("probe:arrow"); run.nontrivial = true;
        judge(what);
      }
    } else if (act.a === "enter") {
      if (p.doc.activeElement.localName === "a") continue;
      what = `Enter on ${run.describe(p.doc.activeElement)}`;
      await p.key("Enter");
      if (f && open.has(f) && marked.get(f)) { what += `: ${effect(f, marked.get(f))}`; run.count("probe:enter"); }
    } else if (act.a === "dots") {
      const h = M.nth(live.filter(x => M.dotsOf(x)), act.n); if (!h) continue;
      await p.click(M.inner(M.dotsOf(h), act.inner));
      gone(under); open.add(h); what = `clicking the dots of ${run.describe(h)}`; run.count("probe:dots");
    } else if (act.a === "point" || act.a === "click") {
      const h = M.nth([...open].filter(x => p.shown(x)), act.n); if (!h) continue;
      const it = M.nth(M.items(h), act.n), el = M.inner(it, act.inner);
      if (act.a === "point") { await p.hover(el); what = `pointing at “${it.textContent.trim()}” of ${run.describe(h)}`; if (under !== h) gone(under); } else { what = `clicking “${it.textContent.trim()}” of ${run.describe(h)}`; await p.click(el); if (under !== h) gone(under); what += `: ${effect(h, it)}`; }
      run.count(`probe:${act.a}`); run.nontrivial = true;
    } else if (act.a === "leave") { await p.hover(null); gone(under); what = "moving the pointer away"; if (under) run.count("probe:leave"); } else if (act.a === "nav") { await p.key(act.k); await p.advance(400); what = `key ${act.k}`; } else if (act.a === "toggle") { if (!f || !M.collapsible(f)) continue; await p.key(","); m.toggle(f); what = `, on ${run.describe(f)}`; }
    await p.advance(100);
    run.log(act.a, what);
    judge(what);
    run.state([...open].map(h => m.hrs.indexOf(h)), [...marked].map(([h, i]) => [m.hrs.indexOf(h), i ? M.items(h).indexOf(i) : -1]));
    if (copies) { await p.advance(6000); copies = 0; if (p.$$(".toast").length) run.fail("toast", "notifications did not go away"); }
  }
}
