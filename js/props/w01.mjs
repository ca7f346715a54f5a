// Start-up: every component whose own files arrive works, exactly once, whatever happens to the others' files.
import * as M from "../model.mjs";
import { VIEWPORTS, page } from "./common.mjs";

const FILES = ["libraries.js", "icons.js", "handrails.js", "keyboard.js", "minimap.js", "tooltips.js", "jquery-3.6.0.js", "tooltipster.bundle.js", "mathjax@", "pseudocode@"];

export function gen(rng, req) {
  const net = [];
  const mode = rng.weighted([["none", 1], ["one", 4], ["some", 4], ["slow", 3]]);
  for (const file of FILES) {
    const p = { none: 0, one: 0, some: 0.25, slow: 0.1 }[mode];
    if (rng.chance(p)) net.push({ file, ok: false, delay: rng.chance(0.4) ? rng.int(1, 3000) : 0 });
    else if (mode === "slow" ? rng.chance(0.6) : rng.chance(0.15)) net.push({ file, ok: true, delay: rng.pick([1, 7, 40, 250, 900, 4000]) });
  }
  if (mode === "one") { const file = rng.pick(FILES); net.unshift({ file, ok: false, delay: rng.chance(0.3) ? rng.int(1, 3000) : 0 }); }
  return {
    page: page(rng, req, [["any", 3], ["algs", 4], ["refs", 3], ["sections", 2], ["proofs", 2]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9),
    net, mathThrows: rng.chance(0.15),
    base: rng.weighted([["/static/", 6], ["/docs/v2/static/", 2], ["/_static/", 1], ["/a b/static/".replace(" ", "-"), 1]]),
    keys: rng.chance(0.9), acts: [],
  };
}

export async function execute(run, plan) {
  const first = run.html.match(/<pre class="pseudocode"/g)?.length || 0;
  const p = await run.open({ settle: 0 });
  const lost = f => (plan.net || []).some(x => x.ok === false && f === x.file);
  let settled = !p.win.lsp_ws?.then;
  p.win.lsp_ws?.then?.(() => { settled = true; }, () => { settled = true; });
  await p.advance(60000);
  // tooltipster itself (not part of the repository) cannot even be defined without jQuery
  if (lost("jquery-3.6.0.js")) p.errors = p.errors.filter(e => !/jQuery is not defined/.test(e.msg));
  run.noErrors("starting up");
  if (!settled) run.fail("start-up", "start-up did not finish within a minute of every file having arrived or failed");
  const has = {
    icons: !lost("icons.js"), handrails: !lost("handrails.js"), keyboard: plan.keys && !lost("keyboard.js") && !lost("handrails.js"),
    minimap: !lost("minimap.js"), math: !lost("libraries.js") && !lost("mathjax@"), pseudo: !lost("libraries.js") && !lost("pseudocode@"),
    tooltips: !lost("tooltips.js") && !lost("jquery-3.6.0.js") && !lost("tooltipster.bundle.js"),
  };
  for (const [k, v] of Object.entries(has)) run.count(`probe:${k}-${v ? "up" : "down"}`);
  run.nontrivial = (plan.net || []).length > 0;
  run.state(Object.values(has), plan.mathThrows, plan.base);
  run.log("components", has);
  const fetched = f => p.requests.filter(u => u.includes(f)).length;
  for (const f of ["icons.js", "handrails.js", "minimap.js", "tooltips.js"]) if (!fetched(f)) run.fail("not-loaded", `${f} was never requested`);
  if (plan.keys && !fetched("keyboard.js")) run.fail("not-loaded", "keyboard.js was never requested");
  if (!lost("libraries.js")) for (const f of ["mathjax@", "pseudocode@"]) if (!fetched(f)) run.fail("not-loaded", `${f} was never requested`);
  for (const u of p.requests) if (/\/[\w-]+\.js$/.test(u) && u.startsWith("http://sim.local") && !u.startsWith("http://sim.local" + plan.base)) run.fail("deployment", `the page deployed under ${plan.base} requested ${u}`);

  if (has.icons) {
    for (const i of p.$$(".hr .icon")) {
      const known = ["collapse", "collapse-all", "dots", "link", "tree", "code"].find(k => i.classList.contains(k));
      if (known && !i.querySelector("svg")) run.fail("icons", `icon ${known} of ${run.describe(i.closest(".hr"))} was not drawn`);
    }
  }
  const hrs = M.hrs(p);
  if (has.handrails) {
    const withButton = hrs.filter(h => M.collapseButton(h) && p.shown(h));
    for (const hr of pick3(withButton, plan.seed)) {
      const rest = M.controlled(hr).filter(e => p.shown(e) && !e.classList.contains("hr-menu-zone"));
      for (const gone of [true, false]) {
        await p.click(M.collapseButton(hr));
        run.noErrors("clicking a collapse icon");
        if (hr.classList.contains("hr-collapsed") !== gone || rest.some(e => p.shown(e) === gone)) run.fail("handrails", `a click on the collapse icon of ${run.describe(hr)} did not ${gone ? "close" : "open"} it`);
      }
      run.count("probe:toggled");
    }
    const hr = hrs.find(h => M.dotsOf(h) && M.menuOf(h) && p.shown(h) && p.shown(M.dotsOf(h)));
    if (hr) {
      await p.hover(hr); await p.click(M.dotsOf(hr));
      if (!p.shown(M.menuZone(hr))) run.fail("handrails", `the dots of ${run.describe(hr)} do not open its menu`);
      await p.hover(M.items(hr)[0]); await p.hover(null);
      if (p.shown(M.menuZone(hr))) run.fail("handrails", `the menu of ${run.describe(hr)} does not close`);
    }
    const off = hrs.filter(h => h.classList.contains("hr-offset") && p.shown(h) && M.zone(h, "border") && M.zone(h, "content"));
    for (const h of off) { const want = `${M.zone(h, "content").getBoundingClientRect().height}px`; if (M.zone(h, "border").style.height !== want) run.fail("handrails", `the border of ${run.describe(h)} is ${M.zone(h, "border").style.height || "auto"} high, its content ${want}`); }
  }
  if (has.keyboard) {
    p.task(() => p.doc.activeElement.blur(), "blur");
    const c = M.candidates(p);
    for (const want of c.slice(0, 3)) {
      await p.key("j");
      run.noErrors("pressing j");
      if (p.doc.activeElement !== want) run.fail("keyboard", `j went to ${run.describe(p.doc.activeElement)}, expected ${run.describe(want)}`);
      run.count("probe:j");
    }
    const h = hrs.find(x => x.hasAttribute("tabindex") && M.collapsible(x) && p.shown(x));
    if (h) { await M.focus(p, h); await p.key(","); if (!h.classList.contains("hr-collapsed")) run.fail("keyboard", "the , key does not close a handrail"); await p.key(","); if (h.classList.contains("hr-collapsed")) run.fail("keyboard", "the , key does not open a handrail"); }
  } else if (!plan.keys) {
    const at = p.doc.activeElement; await p.key("j");
    if (p.doc.activeElement !== at) run.fail("keyboard", "the page reacts to keys although keys were turned off");
  }
  if (has.minimap) {
    const li = p.$$("ul.contents li.item").filter(e => p.shown(e)), all = p.$$("ul.contents li.item");
    const stop = () => p.doc.getElementById("stop-follow-mouse-1")?.getAttribute("offset");
    for (const l of pick3(li, plan.seed)) {
      await p.hover(null); await p.hover(l);
      const want = (all.indexOf(l) + 1) / all.length * 100;
      if (Math.abs(parseFloat(stop()) - want) > 1e-6) run.fail("minimap", `hovering entry ${all.indexOf(l) + 1} of ${all.length} sets the minimap to ${stop()}`);
      run.count("probe:minimap");
    }
    await p.hover(null);
  }
  const typesets = p.win.__simTypeset || 0;
  if (has.math !== !!p.win.MathJax?.version) run.fail("math", `MathJax ${has.math ? "was not" : "was"} started`);
  if (has.pseudo) {
    const left = p.$$("pre.pseudocode"), ok = p.$$(".ps-root");
    const bad = left.filter(e => !/\\nosuchcommand/.test(e.textContent));
    if (bad.length) run.fail("pseudocode", `${bad.length} of ${first} algorithms were not rendered`);
    if (ok.length + left.length !== first) run.fail("pseudocode", `${first} algorithms became ${ok.length} rendered and ${left.length} unrendered ones`);
    if (ok.some(e => e.getAttribute("data-lines") !== "1" || e.getAttribute("data-noend") !== "1")) run.fail("pseudocode", "an algorithm was rendered with other options");
    if (first > 1) run.count("probe:algorithms");
    if (left.length) run.count("fault:bad-algorithm", left.length);
  }
  if (has.tooltips) {
    const refs = p.$$(".manuscriptwrapper a.reference");
    const un = refs.filter(a => !a.classList.contains("tooltipstered"));
    if (un.length) run.fail("tooltips", `${un.length} of ${refs.length} references have no tooltip`);
    if (has.math && !typesets) run.fail("tooltips", "mathematics was not typeset again after the tooltips were made");
    if (refs.length) run.count("probe:refs");
  }
  run.noErrors("using the page");
  run.intact("starting up");
}
const pick3 = (a, s) => (a.length <= 3 ? a : [a[s % a.length], a[(s * 7 + 3) % a.length], a[(s * 13 + 5) % a.length]].filter((x, i, l) => l.indexOf(x) === i));
