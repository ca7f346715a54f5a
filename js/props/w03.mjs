// Keyboard navigation: where every key press leads, in any state of the page, and that no key can break it.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 15, 50);
  const acts = [];
  const mode = rng.weighted([["walk", 3], ["mixed", 4], ["chaos", 2]]);
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "nav", k: rng.weighted([["j", 5], ["k", 4]]) }, mode === "walk" ? 10 : 5],
      [{ a: "sib", k: rng.pick(["h", "l"]) }, 5],
      [{ a: "top" }, 1],
      [{ a: "z" }, 1],
      [{ a: "collapse", n: rng.int(0, 999), route: rng.pick(["icon", "key", "all"]) }, mode === "walk" ? 1 : 4],
      [{ a: "focus", n: rng.int(0, 999) }, 2],
      [{ a: "blur" }, 0.5],
      [{ a: "tab", back: rng.chance(0.4) }, 1],
      [{ a: "click", n: rng.int(0, 9999) }, 1],
      [{ a: "wheel", d: rng.pick([-2000, -300, 200, 500, 3000]) }, 1],
      [{ a: "resize", v: rng.pick(VIEWPORTS) }, 0.5],
      [{ a: "any", k: rng.pick([".", "ArrowUp", "ArrowDown", "Enter", "i", "z", ",", ";", "x", "J", "Escape", " "]) }, mode === "chaos" ? 12 : 1],
      [{ a: "tip", n: rng.int(0, 999), then: rng.int(0, 2) }, 1],
      [{ a: "burst", k: rng.pick(["j", "k", "h", "l"]), m: rng.int(2, 8) }, 1.5],
    ]));
  }
  return {
    page: page(rng, req, [["proofs", 4], ["sections", 4], ["any", 3], ["refs", 2]]), viewport: rng.pick([...VIEWPORTS, [400, 300], [1000, 300]]), seed: rng.int(1, 1e9),
    clipboard: { mode: rng.pick(["ok", "reject", "absent"]), delay: rng.pick([0, 50]) },
    root: rng.chance(0.12) ? ".manuscriptwrapper" : null, acts,
  };
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  const root = plan.root ? p.$(plan.root) : null;
  const heard = () => !root || root.contains(p.doc.activeElement);
  const focusables = () => [...(root || p.doc).querySelectorAll(M.FOCUSABLE)].filter(e => p.shown(e));
  const cur = () => (p.doc.activeElement === p.doc.body ? null : p.doc.activeElement);
  const name = e => run.describe(e);

  function expectNav(k) {
    const c = M.candidates(p, root), at = cur();
    if (!c.length) return at;
    if (!at || !at.matches(M.FOCUSABLE) || (root && !root.contains(at))) return c[0];
    if (k === "j") return c.find(e => e !== at && M.before(at, e)) || (c[0] === at ? at : c[0]);
    const prev = c.filter(e => e !== at && M.before(e, at));
    return prev.length ? prev[prev.length - 1] : c[c.length - 1];
  }
  function expectSib(k) { // h: down, l: up
    const at = cur();
    if (!at || !at.matches(M.FOCUSABLE) || (root && !root.contains(at))) return M.candidates(p, root)[0] || at;
    if (at.classList.contains("heading")) {
      const sec = at.parentElement;
      if (sec.localName !== "section") return at;
      const sibs = [...sec.parentElement.children].filter(e => e.localName === "section"), i = sibs.indexOf(sec);
      const t = sibs[k === "h" ? i + 1 : i - 1];
      return (t && t.querySelector(".heading")) || at;
    }
    const sibs = [...at.parentElement.children].filter(e => e.matches(M.FOCUSABLE) && p.shown(e)), i = sibs.indexOf(at);
    return sibs[k === "h" ? i + 1 : i - 1] || at;
  }
  async function settled(what) {
    await p.advance(800);
    run.noErrors(what);
    const at = cur();
    if (!at || !p.shown(at)) return;
    const r = at.getBoundingClientRect(), h = p.win.innerHeight;
    if (r.bottom <= 0 || r.top >= h) run.fail("off-screen", `after ${what}: the focused ${name(at)} is off the screen (${Math.round(r.top)}..${Math.round(r.bottom)} of 0..${h})`);
  }

  /** going down never leaves the element in the lower part of the window, going up never in the upper part, if the page can scroll */
  function placed(what, down) {
    const at = cur();
    if (!at || !p.shown(at) || p.layout.boxes.get(at)?.fixed) return;
    const r = at.getBoundingClientRect(), h = p.win.innerHeight, max = Math.max(0, p.layout.total() - h), tall = r.height > h;
    const off = tall ? r.top : r.top + r.height / 2 - h / 2, slack = tall ? 2 : 50;
    if (tall) run.count("probe:taller-than-window");
    if (down ? off > slack && max - p.win.scrollY > 2 : off < -slack && p.win.scrollY > 2) run.fail("placement", `after ${what}: the ${tall ? "top" : "middle"} of the focused ${name(at)} is ${Math.round(Math.abs(off))}px ${down ? "below" : "above"} the ${tall ? "top" : "middle"} of the window although the page can scroll`);
    run.count("probe:placed");
  }

  for (const act of plan.acts) {
    let what = act.a;
    if (act.a === "nav" || act.a === "sib") {
      const want = heard() ? (act.a === "nav" ? expectNav(act.k) : expectSib(act.k)) : cur();
      const from = cur();
      what = `${act.k} on ${name(from)}`;
      await p.key(act.k);
      const got = cur();
      run.noErrors(what);
      if (got !== want) run.fail(act.a === "nav" ? "navigation" : "siblings", `${what} went to ${name(got)}, expected ${name(want)}`);
      if (got !== from) { run.count(`probe:${act.k}`); run.nontrivial = true; await settled(what); if (act.a === "nav" || from?.matches(M.FOCUSABLE)) placed(what, "jh".includes(act.k)); }
    } else if (act.a === "top") {
      const want = heard() ? M.candidates(p, root)[0] || cur() : cur();
      await p.key("H"); what = "H";
      run.noErrors(what);
      if (cur() !== want) run.fail("top", `H went to ${name(cur())}, expected ${name(want)}`);
      if (cur()) await settled(what);
      run.count("probe:H");
    } else if (act.a === "z") {
      if (!cur() || !heard()) continue;
      await p.key("z"); await settled("z");
      const r = cur()?.getBoundingClientRect();
      if (!r) continue;
      const off = r.top + r.height / 2 - p.win.innerHeight / 2, max = Math.max(0, p.layout.total() - p.win.innerHeight);
      const room = off > 0 ? max - p.win.scrollY : p.win.scrollY;
      if (!p.layout.boxes.get(cur())?.fixed && Math.min(Math.abs(off), room) > 2) run.fail("middle", `z leaves ${name(cur())} ${Math.round(off)}px off the middle although the page can scroll ${Math.round(room)}px further`);
      run.count("probe:z");
    } else if (act.a === "collapse") {
      const live = M.hrs(p).filter(h => p.shown(h) && M.collapsible(h));
      if (act.route === "icon") { const h = M.nth(live.filter(x => M.collapseButton(x)), act.n); if (!h) continue; what = `clicking the collapse icon of ${name(h)}`; await p.click(M.collapseButton(h)); } else if (act.route === "key") { const h = M.nth(live, act.n); if (!h) continue; what = `, on ${name(h)}`; await M.focus(p, h); await p.key(","); } else { const h = M.nth(live.filter(M.collapsibleAll), act.n); if (!h) continue; what = `; on ${name(h)}`; await M.focus(p, h); await p.key(";"); }
      run.count("probe:collapse"); await p.hover(null);
    } else if (act.a === "focus") {
      const e = M.nth(focusables(), act.n); if (!e) continue;
      await M.focus(p, e); what = `focusing ${name(e)}`;
    } else if (act.a === "blur") p.task(() => p.doc.activeElement.blur(), "blur");
    else if (act.a === "tab") { await p.key("Tab", { shiftKey: act.back }); what = "Tab"; } else if (act.a === "click") {
      const all = p.$$(".manuscriptwrapper *").filter(e => p.shown(e) && e._html && !e.closest("a") && !e.closest(".hr-collapse, .hr-border-dots"));
      const e = M.nth(all, act.n); if (!e) continue;
      await p.click(e); await p.hover(null); what = `clicking ${name(e)}`;
    } else if (act.a === "wheel") await p.wheel(act.d);
    else if (act.a === "resize") await p.resize(...act.v);
    else if (act.a === "any") {
      const at = cur();
      if (act.k === "Enter" && at?.localName === "a") continue;
      what = `${act.k} on ${name(at)}`; await p.key(act.k); await p.advance(400); run.count("probe:any-key");
    } else if (act.a === "tip") { // with a tooltip open, what is inside it can be reached too
      const a = M.nth(focusables().filter(e => e.classList.contains("tooltipstered")), act.n); if (!a) continue;
      what = `i on ${name(a)}`;
      await M.focus(p, a); await p.key("i"); await p.advance(500); run.count("probe:tip"); run.noErrors(what);
      const inside = focusables().filter(e => e.closest(".tooltipster-base"));
      if (act.then && inside.length) { const e = M.nth(inside, act.n); what = `${act.then === 1 ? "i" : "."} on ${name(e)} in a tooltip`; await M.focus(p, e); await p.key(act.then === 1 ? "i" : "."); run.count("probe:in-tooltip"); }
    } else if (act.a === "burst") { // keys faster than the smooth scroll
      what = `${act.k} pressed ${act.m} times in a row`;
      for (let i = 0; i < act.m; i++) {
        const want = heard() ? ("jk".includes(act.k) ? expectNav(act.k) : expectSib(act.k)) : cur(), from = cur();
        await p.key(act.k); run.noErrors(what);
        if (cur() !== want) run.fail("jk".includes(act.k) ? "navigation" : "siblings", `${what} went from ${name(from)} to ${name(cur())}, expected ${name(want)}`);
        await p.advance(20);
      }
      await p.advance(800); run.count("probe:burst"); // where the page ends up is not judged: an earlier smooth scroll may win
    }
    await p.idle();
    run.log(act.a, what);
    run.noErrors(what);
    run.state(plan.page, M.hrs(p).indexOf(cur()), M.hrs(p).map((h, i) => (h.classList.contains("hr-collapsed") ? i : -1)).filter(i => i >= 0));
  }
}
