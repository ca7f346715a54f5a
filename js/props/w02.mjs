// Collapsing and expanding: what is shown is exactly what the model says, whatever the route and the history.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 6, 22);
  const acts = [];
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "icon", n: rng.int(0, 999), inner: rng.int(0, 5) }, 5],
      [{ a: "item", n: rng.int(0, 999), inner: rng.int(0, 5) }, 3],
      [{ a: "all", n: rng.int(0, 999), inner: rng.int(0, 5) }, 4],
      [{ a: "disabled", n: rng.int(0, 999), inner: rng.int(0, 5) }, 1],
      [{ a: "key", n: rng.int(0, 999), k: "," }, 3],
      [{ a: "key", n: rng.int(0, 999), k: ";" }, 3],
      [{ a: "enter", n: rng.int(0, 999), m: rng.int(0, 9), up: rng.chance(0.3) }, 4],
      [{ a: "resize", v: rng.pick(VIEWPORTS) }, 1],
      [{ a: "same", k: rng.pick([",", ";", "icon"]) }, 2],
    ]));
  }
  return { page: page(rng, req, [["proofs", 6], ["any", 3], ["sections", 2], ["refs", 1]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9), acts };
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  const m = new M.CollapseModel(run, p);
  m.check("opening the page");
  let last = null;
  for (const act of plan.acts) {
    const live = m.hrs.filter(hr => p.shown(hr));
    let what = null;
    if (act.a === "icon") {
      const hr = M.nth(live.filter(h => M.collapseButton(h)), act.n);
      if (!hr) continue;
      await p.click(M.inner(M.collapseButton(hr), act.inner));
      m.toggle(hr); last = hr; what = `clicking the collapse icon of ${run.describe(hr)}`; run.count("probe:icon");
    } else if (act.a === "item" || act.a === "all" || act.a === "disabled") {
      const name = act.a === "all" ? "collapse-steps" : "collapse-subproof";
      const ok = act.a === "disabled" ? h => M.items(h).some(i => !M.enabled(i)) : h => M.enabled(M.item(h, name));
      const hr = M.nth(live.filter(h => ok(h) && M.dotsOf(h)), act.n);
      if (!hr) continue;
      await p.hover(hr);
      await p.click(M.inner(M.dotsOf(hr), act.inner));
      if (!p.shown(M.menuZone(hr))) run.fail("menu", `clicking the dots of ${run.describe(hr)} does not open its menu`);
      const it = act.a === "disabled" ? M.nth(M.items(hr).filter(i => !M.enabled(i)), act.inner) : M.item(hr, name);
      await p.click(M.inner(it, act.inner));
      if (act.a === "item") m.toggle(hr); else if (act.a === "all") m.toggleAll(hr);
      last = hr; what = `clicking “${it.textContent.trim()}” (${act.a}) in the menu of ${run.describe(hr)}`; run.count(`probe:${act.a}`);
      await p.hover(null);
      if (p.shown(M.menuZone(hr))) run.fail("menu", `the menu of ${run.describe(hr)} stays open after the pointer left`);
    } else if (act.a === "key" || act.a === "same") {
      const hr = act.a === "same" ? (last && p.shown(last) ? last : null) : M.nth(live.filter(h => h.hasAttribute("tabindex")), act.n);
      if (!hr) continue;
      if (act.k === "icon") {
        if (!M.collapseButton(hr)) continue;
        await p.click(M.collapseButton(hr)); m.toggle(hr);
      } else {
        await M.focus(p, hr);
        await p.key(act.k);
        if (act.k === "," && M.collapsible(hr)) { m.toggle(hr); run.count("probe:key-toggle"); }
        if (act.k === ";" && M.collapsibleAll(hr)) { m.toggleAll(hr); run.count("probe:key-toggle-all"); }
      }
      last = hr; what = `${act.k} on ${run.describe(hr)}`;
    } else if (act.a === "enter") {
      const hr = M.nth(live.filter(h => h.hasAttribute("tabindex") && M.menuOf(h) && (M.collapsibleAll(h) || M.item(h, "collapse-subproof"))), act.n);
      if (!hr) continue;
      await p.hover(null);
      await M.focus(p, hr);
      await p.key(".");
      const its = M.items(hr);
      for (let i = 0; i <= act.m; i++) await p.key(act.up ? "ArrowUp" : "ArrowDown");
      const active = its.filter(i => i.classList.contains("active"));
      if (active.length !== 1) run.fail("menu", `${active.length} active items in the menu of ${run.describe(hr)}`);
      if (active[0].classList.contains("link")) { await p.key("."); continue; }
      await p.key("Enter");
      if (M.enabled(active[0]) && active[0].classList.contains("collapse-subproof")) m.toggle(hr);
      if (M.enabled(active[0]) && active[0].classList.contains("collapse-steps")) m.toggleAll(hr);
      await p.key(".");
      last = hr; what = `Enter on “${active[0].textContent.trim()}” in the menu of ${run.describe(hr)}`; run.count("probe:enter");
    } else if (act.a === "resize") { await p.resize(...act.v); what = "resizing the window"; }
    await p.advance(50);
    run.log(act.a, what);
    run.noErrors(what);
    m.check(what);
    for (const hr of m.hrs) {
      if (!hr.classList.contains("hr-offset")) continue;
      const h = Math.round(M.zone(hr, "content")?.getBoundingClientRect().height ?? -1);
      for (const z of ["border", "spacer", "info"]) {
        const el = M.zone(hr, z);
        if (el && p.shown(el) && h >= 0 && Math.round(parseFloat(el.style.height)) !== h) run.fail("height", `after ${what}: the ${z} of ${run.describe(hr)} is ${el.style.height || "auto"} high, its content ${h}px`);
      }
    }
    run.state(plan.page, [...m.closed].map(h => m.hrs.indexOf(h)).sort((a, b) => a - b), [...m.allClosed].map(h => m.hrs.indexOf(h)));
    if (m.closed.size > 1) run.nontrivial = true;
    if ([...m.closed].some(h => !m.visible(h))) run.count("probe:nested-closed");
  }
}
