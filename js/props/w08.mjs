// A long visit: the same round of use, repeated and undone each time, leaves nothing behind and works the same every time.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 4, 12);
  const acts = [];
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "icon", n: rng.int(0, 999) }, 4],
      [{ a: "key", k: rng.pick([",", "j", "k", "h", "l", "H", "z"]), n: rng.int(0, 999) }, 4],
      [{ a: "ref", n: rng.int(0, 999), ms: rng.pick([50, 300, 1500]) }, 4],
      [{ a: "peek", n: rng.int(0, 999) }, 2],
      [{ a: "copy", n: rng.int(0, 999) }, 3],
      [{ a: "dismiss", n: rng.int(0, 999) }, 1],
      [{ a: "all", n: rng.int(0, 999) }, 2],
      [{ a: "menu", n: rng.int(0, 999), m: rng.int(0, 4) }, 3],
      [{ a: "scroll", d: rng.pick([-700, 200, 900, 5000]) }, 2],
      [{ a: "resize", v: rng.pick(VIEWPORTS) }, 1],
      [{ a: "entry", n: rng.int(0, 999) }, 2],
    ]));
  }
  return { page: page(rng, req, [["any", 5], ["refs", 4], ["proofs", 4], ["sections", 3]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9), clipboard: { mode: rng.pick(["ok", "ok", "reject"]), delay: rng.pick([0, 40]) }, rounds: req.tier === "thorough" ? 9 : 6, acts };
}

/** what a page at rest is made of, besides what the reader sees */
function footprint(p) {
  const out = {};
  const add = (k, n = 1) => { out[k] = (out[k] || 0) + n; };
  const jq = p.win.jQuery?._data;
  const listeners = (t, name) => {
    for (const [type, l] of t._listeners || []) add(`listeners for ${type} on ${name}`, l.length);
    if (jq && t.nodeType) { const ev = p.win.jQuery._data(t, "events"); for (const k in ev || {}) add(`jQuery handlers for ${k} on ${name}`, ev[k].length); }
  };
  listeners(p.win, "window"); listeners(p.doc, "document");
  for (const el of p.doc.querySelectorAll("*")) {
    const c = el.classList, kind = `${el.localName}${c.length ? "." + c[0] : ""}`;
    add(`<${kind}> elements`);
    listeners(el, kind);
  }
  add("pending timers", p.timers.length);
  add("observed elements", p.resizeObservers.reduce((s, r) => s + r._t.size, 0));
  return out;
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  run.intact("opening the page");
  const all = M.hrs(p), refs = p.$$(".manuscriptwrapper a.reference"), entries = p.$$(".minimap a");
  const fixed = (list, n) => { const x = M.nth(list, n); return x && p.shown(x) ? x : null; };
  const rest = async () => { await p.hover(null); await p.advance(9000); };

  async function restore() { // open whatever is closed, outermost first
    for (let guard = 0; guard < 200; guard++) {
      const closed = all.filter(h => h.classList.contains("hr-collapsed") && p.shown(h) && M.collapsible(h));
      if (!closed.length) return all.filter(h => h.classList.contains("hr-collapsed") && M.collapsible(h)).length;
      const h = closed[0], b = M.collapseButton(h);
      if (b) await p.click(b); else { await M.focus(p, h); await p.key(","); }
      if (h.classList.contains("hr-collapsed")) run.fail("stuck", `${run.describe(h)} does not open any more`);
    }
    return 1;
  }
  async function round() {
    let done = 0;
    for (const act of plan.acts) {
      if (act.a === "icon") { const h = fixed(all.filter(x => M.collapseButton(x)), act.n); if (!h) continue; await p.click(M.collapseButton(h)); }
      else if (act.a === "key") { const h = fixed(all.filter(x => x.hasAttribute("tabindex")), act.n); if (!h) continue; await M.focus(p, h); await p.key(act.k); await p.advance(400); }
      else if (act.a === "ref") { const a = fixed(refs, act.n); if (!a) continue; await p.hover(a); await p.advance(act.ms); await p.hover(null); await p.advance(1500); run.count("probe:tooltip"); }
      else if (act.a === "peek") { const a = fixed(refs, act.n); if (!a) continue; await M.focus(p, a); if (p.doc.activeElement !== a) continue; await p.key("i"); await p.advance(1500); await p.key("i"); await p.advance(1500); }
      else if (act.a === "copy" || act.a === "dismiss") {
        const h = fixed(all.filter(x => M.dotsOf(x) && M.enabled(M.item(x, "link"))), act.n); if (!h) continue;
        await p.hover(h); await p.click(M.dotsOf(h)); await p.click(M.item(h, "link")); await p.hover(null); await p.advance(200);
        if (act.a === "dismiss") { const x = p.$(".toast .close"); if (x) await p.click(x); }
        run.count("probe:copy");
      } else if (act.a === "all") { // and back
        const h = fixed(all.filter(x => x.hasAttribute("tabindex") && M.collapsibleAll(x)), act.n); if (!h) continue;
        await M.focus(p, h); await p.key(";"); await p.advance(50); await p.key(";"); run.count("probe:all");
      } else if (act.a === "menu") {
        const h = fixed(all.filter(x => x.hasAttribute("tabindex") && M.menuOf(x)), act.n); if (!h) continue;
        await M.focus(p, h); await p.key("."); for (let i = 0; i < act.m; i++) await p.key("ArrowDown"); await p.key("."); run.count("probe:menu");
      } else if (act.a === "scroll") await p.wheel(act.d);
      else if (act.a === "resize") { await p.resize(...act.v); await p.advance(300); }
      else if (act.a === "entry") { const a = fixed(entries, act.n); if (!a) continue; await p.hover(a); await p.advance(50); await p.hover(null); }
      await p.advance(50);
      done++;
    }
    await p.resize(...plan.viewport);
    await p.wheel(-1e6);
    await rest();
    if (await restore()) return null;
    await rest();
    return done;
  }

  const seen = [];
  for (let r = 0; r < plan.rounds; r++) {
    const steps = p.steps, before = p.copied.length, done = await round();
    const what = `round ${r + 1} of the same ${plan.acts.length} acts`;
    run.noErrors(what);
    if (done === null) { run.count("not_restored"); return; }
    seen.push({ done, copied: p.copied.length - before, height: Math.round(p.layout.total()), steps: p.steps - steps, foot: footprint(p) });
    run.log("round", r + 1, done, seen[r].copied, seen[r].height, seen[r].steps);
  }
  run.intact("a long visit");
  // the first rounds may still build what is only built when first needed
  const [a, ...later] = seen.slice(2);
  for (const [i, b] of later.entries()) {
    const which = `in round ${i + 4} of the same acts, each time undone`;
    if (b.done !== a.done) run.fail("differs", `${which}, ${b.done} acts were possible, in round 3 it was ${a.done}`);
    if (b.copied !== a.copied) run.fail("differs", `${which}, ${b.copied} links were copied, in round 3 it was ${a.copied}`);
    if (b.height !== a.height) run.fail("differs", `${which}, the page became ${b.height}px long, in round 3 it was ${a.height}px`);
  }
  const keys = new Set(seen.flatMap(s => Object.keys(s.foot)));
  const at = (s, k) => s.foot[k] || 0;
  for (const k of keys) {
    const last = seen.slice(2);
    if (last.every((s, i) => !i || at(s, k) > at(last[i - 1], k))) run.fail("residue", `every round of the same acts, each time undone and left to rest, leaves more ${k}: ${seen.map(s => at(s, k)).join(", ")}`);
  }
  run.nontrivial = a.done > 0;
  run.state(plan.page, plan.acts.map(x => [x.a, x.n, x.k]));
}
