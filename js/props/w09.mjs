// Several manuscripts in one page, as in RSM's own documentation: each behaves exactly as on a page of its own.
import * as M from "../model.mjs";
import { VIEWPORTS, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 6, 24);
  const acts = [];
  for (let i = 0; i < n; i++) {
    const last = acts[acts.length - 1];
    if (last && "w" in last && rng.chance(0.3)) { acts.push({ ...last, w: 1 - (last.w & 1) }); continue; } // the same on another
    const w = rng.chance(0.6) ? rng.int(0, 1) : rng.int(0, 9), k = rng.int(0, 999), inner = rng.int(0, 4);
    acts.push(rng.weighted([
      [{ a: "icon", w, n: k, inner }, 5],
      [{ a: "item", w, n: k, m: rng.int(0, 9), inner }, 4],
      [{ a: "all", w, n: k, inner }, 4],
      [{ a: "key", w, n: k, k: rng.pick([",", ",", ";", ";", ".", "h", "l"]) }, 5],
      [{ a: "menu", w, n: k, m: rng.int(1, 6), k: rng.pick(["ArrowUp", "ArrowDown"]), close: rng.chance(0.7) }, 4],
      [{ a: "point", w, n: k, ms: rng.pick([100, 700, 700]) }, 5],
      [{ a: "tip", w, n: k }, 3],
      [{ a: "follow", w, n: k }, 2],
      [{ a: "edit", w, inner }, 3],
      [{ a: "leave" }, 2],
      [{ a: "wait", ms: rng.pick([300, 6000]) }, 1],
      [{ a: "wheel", dy: rng.pick([-400, 200, 900]) }, 1],
      [{ a: "resize", v: rng.pick(VIEWPORTS) }, 1],
    ]));
  }
  const net = rng.chance(0.2) ? [rng.weighted([[{ file: rng.pick(["icons.js", "minimap.js", "pseudocode@", "mathjax@", "keyboard.js"]), ok: false }, 1], [{ file: rng.pick(["icons.js", "handrails.js", "tooltips.js", "pseudocode@", "mathjax@", "onload.js"]), delay: rng.pick([30, 400]) }, 2]])] : [];
  return { page: { embed: [req.seed, req.index] }, viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9), clipboard: { mode: rng.weighted([["ok", 3], ["reject", 1]]), delay: rng.pick([0, 0, 80]) }, net, acts };
}

const SKIP = new Set(["toast", "float-minimap-wrapper", "minimap"]);
/** what a reader can tell about a manuscript: structure, state, texts, what is shown */
function view(p, wrapper) {
  const out = [];
  const go = el => {
    for (const n of el.childNodes) {
      if (n.nodeType === 3) { const t = n.data.replace(/\s+/g, " ").trim(); if (t) out.push(t); continue; }
      if (n.nodeType !== 1 || [...n.classList].some(c => SKIP.has(c))) continue;
      const attrs = [...n._attrs].filter(([k]) => k !== "style").map(([k, v]) => `${k}=${k === "class" ? [...new Set(v.split(/\s+/).filter(Boolean))].sort().join(" ") : v}`).sort().join(" ");
      out.push(`<${n.localName} ${attrs} ${n.classList.contains("icon") ? "" : p.shown(n) ? "shown" : "hidden"}>`);
      go(n);
    }
  };
  go(wrapper);
  return out;
}

export async function execute(run, plan) {
  const given = run.given, spec = given.spec, docs = spec.how !== "own", keyed = !docs && spec.keys;
  const P = (run.page = run.browse(given.html, { base: given.base, path: given.path }));
  const keysOff = html => (keyed ? html : html.replace(/\bonload\(\s*\)/, "onload(null, {keys: false})"));
  const S = given.parts.map(h => run.browse(keysOff(h), { base: "/static/" }));
  const wrap = (p, i) => p.doc.body.querySelectorAll(".manuscriptwrapper")[p === P ? i : 0]; // tooltips come after
  const closing = () => S.forEach(p => p.close());
  try {
    for (const p of [P, ...S]) await p.open();
    for (const p of [P, ...S]) await p.advance(4000);
    run.count("pages"); run.count("probe:" + (docs ? "docs" : "own"));
    const mine = S.map((_, i) => wrap(P, i)), theirs = S.map(p => wrap(p, 0));
    if (P.$$(".manuscriptwrapper").length !== S.length) run.fail("embedding", `${P.$$(".manuscriptwrapper").length} manuscripts on the page, expected ${S.length}`);
    const tips = p => p.$$(".tooltipster-base").map(t => t.textContent.replace(/\s+/g, " ").trim());
    const toasts = p => p.$$(".toast").map(t => `${t.getAttribute("class")} ${t.querySelector(".msg")?.textContent ?? ""} ${t.querySelector(".msg")?.innerText ?? ""}`);
    const tail = u => u.replace(/^[^#]*/, "");
    const seen = { copied: 0, went: 0 };
    function judge(what, on) {
      run.noErrors(what);
      for (const [i, s] of S.entries()) {
        if (s.errors.length) run.fail("page-error", `${what}: on its own page, manuscript ${i + 1} raises ${s.errors[0].msg}`);
        const a = view(P, mine[i]), b = view(s, theirs[i]);
        for (let j = 0; j < Math.max(a.length, b.length); j++) if (a[j] !== b[j]) run.fail(on === undefined || on === i ? "differs" : "interference", `after ${what}: manuscript ${i + 1} of ${S.length} has “${a[j] ?? "its end"}” where on a page of its own it has “${b[j] ?? "its end"}”`);
      }
      const same = (name, a, b) => { if (JSON.stringify(a) !== JSON.stringify(b)) run.fail(name, `after ${what}: ${name} ${JSON.stringify(a)}, on pages of their own ${JSON.stringify(b)}`); };
      same("notifications", toasts(P).sort(), S.flatMap(toasts).sort());
      same("tooltips", tips(P), S.flatMap(tips));
      if (on !== undefined) {
        const s = S[on], f = P.doc.activeElement, g = s.doc.activeElement;
        const at = (list, el) => (list.contains(el) ? [...list.querySelectorAll("*")].filter(e => !e.closest(".toast")).indexOf(el) : -1);
        same("focus", at(mine[on], f), at(theirs[on], g));
        same("links copied", P.copied.slice(seen.copied).map(tail), s.copied.slice(s.__copied || 0).map(tail));
        for (const u of P.copied.slice(seen.copied)) if (u.split("#")[0] !== P.loc.href.split("#")[0]) run.fail("links copied", `after ${what}: the copied link ${u} does not lead to this page (${P.loc.href})`);
        same("places visited", P.navigations.slice(seen.went).map(tail), s.navigations.slice(s.__went || 0).map(tail));
      }
      for (const s of S) { s.__copied = s.copied.length; s.__went = s.navigations.length; }
      seen.copied = P.copied.length; seen.went = P.navigations.length;
    }
    judge("opening the page");
    const all = f => Promise.all([P, ...S].map(() => 0)).then(async () => { for (const p of [P, ...S]) await f(p); });
    for (const act of plan.acts) {
      const i = (act.w || 0) % S.length, s = S[i];
      let what = act.a, on = i;
      const pairUp = pick => { // the same element in both
        const l = pick(s, theirs[i]), e = M.nth(l, act.n);
        if (!e) return null;
        const k = [...theirs[i].querySelectorAll("*")].filter(x => !x.closest(".toast")).indexOf(e);
        return [e, [...mine[i].querySelectorAll("*")].filter(x => !x.closest(".toast"))[k]];
      };
      const others = async () => { for (const [k, o] of S.entries()) if (o !== s && !mine[k].contains(P.doc.activeElement)) { o.task(() => o.doc._focus(null), "blur"); await o.idle(); } };
      const both = async (pair, f) => { for (const o of S) if (o !== s) await o.hover(null); await f(P, pair[1]); await f(s, pair[0]); await others(); };
      const hr = ok => pairUp((p, w) => [...w.querySelectorAll(".hr")].filter(h => !h.closest(".tooltipster-base") && p.shown(h) && ok(h)));
      if (act.a === "icon") {
        const pr = hr(h => M.collapseButton(h)); if (!pr) continue;
        await both(pr, (p, h) => p.click(M.inner(M.collapseButton(h), act.inner)));
        what = `clicking the collapse icon of ${run.describe(pr[1])}`; run.count("probe:icon"); run.nontrivial = true;
      } else if (act.a === "item" || act.a === "all") {
        const pr = hr(h => M.dotsOf(h) && (act.a === "all" ? M.collapsibleAll(h) : M.items(h).length)); if (!pr) continue;
        const choose = h => (act.a === "all" ? M.item(h, "collapse-steps") : M.nth(M.items(h), act.m));
        await both(pr, async (p, h) => { await p.hover(h); await p.click(M.inner(M.dotsOf(h), act.inner)); });
        judge(`clicking the dots of ${run.describe(pr[1])}`, i);
        if (!P.shown(M.menuZone(pr[1]))) continue;
        await both(pr, async (p, h) => { await p.click(M.inner(choose(h), act.inner)); await p.hover(null); });
        what = `“${choose(pr[1]).textContent.trim()}” in the menu of ${run.describe(pr[1])}`; run.count("probe:item"); run.nontrivial = true;
      } else if (act.a === "key" || act.a === "menu") {
        if (!keyed) continue;
        const pr = hr(h => h.hasAttribute("tabindex")); if (!pr) continue;
        await both(pr, async (p, h) => {
          await M.focus(p, h);
          if (act.a === "key") return p.key(act.k);
          await p.key(".");
          for (let m = 0; m < act.m; m++) await p.key(act.k);
          await p.key("Enter");
          if (act.close) await p.key(".");
        });
        what = `${act.a === "key" ? act.k : "menu keys"} on ${run.describe(pr[1])}`; run.count("probe:keys"); run.nontrivial = true;
      } else if (act.a === "point" || act.a === "tip" || act.a === "follow") {
        const pr = pairUp((p, w) => [...w.querySelectorAll("a.reference")].filter(a => p.shown(a) && !a.closest(".minimap"))); if (!pr) continue;
        if (act.a === "tip" && !keyed) continue;
        if (act.a === "follow" && !(pr[1].getAttribute("href") || "").startsWith("#")) continue;
        what = `${act.a} on ${run.describe(pr[1])}`;
        if (act.a === "point") await both(pr, (p, a) => p.hover(a));
        else if (act.a === "follow") await both(pr, (p, a) => p.click(a));
        else await both(pr, async (p, a) => { await p.hover(null); await M.focus(p, a); await p.key("i"); });
        await all(p => p.advance(act.ms || 700));
        if (tips(P).length) run.count("probe:tooltip");
        judge(what, i);
        await both(pr, async (p, a) => { if (act.a === "tip") await p.key("i"); await p.hover(null); });
        what = `leaving ${run.describe(pr[1])}`; await all(p => p.advance(1500)); run.nontrivial = true;
      } else if (act.a === "edit") {
        if (!docs) continue;
        const btn = P.$$("button.openlive")[i];
        if (P.$$("button.openlive").length !== S.length) run.fail("edit", `${P.$$("button.openlive").length} edit buttons for ${S.length} sources`);
        const was = P.navigations.length;
        for (const o of S) { await o.hover(null); o.task(() => o.doc._focus(null), "blur"); await o.idle(); } // the focus goes to the button
        await P.click(M.inner(btn, act.inner));
        await P.advance(20);
        const got = P.navigations.slice(was);
        if (got.length !== 1 || !/[?&]src=/.test(got[0])) run.fail("edit", `the edit button opens ${JSON.stringify(got)}`);
        const code = new URL(got[0]).searchParams.get("src");
        if (code.trim() !== given.sources[i].trim()) run.fail("edit", `the edit button of manuscript ${i + 1} hands the editor “${code.slice(0, 80)}”, its source is “${given.sources[i].slice(0, 80)}”`);
        what = `editing manuscript ${i + 1} online`; on = undefined; run.count("probe:edit");
      } else if (act.a === "leave") { await all(p => p.hover(null)); on = undefined; } else if (act.a === "wait") { await all(p => p.advance(act.ms)); on = undefined; } else if (act.a === "wheel") { await all(p => p.wheel(act.dy)); on = undefined; } else if (act.a === "resize") { await all(p => p.resize(...act.v)); on = undefined; }
      await all(p => p.advance(150));
      run.log(act.a, i, what);
      judge(what, on);
      run.state(plan.page, mine.map(w => [...w.querySelectorAll(".hr")].map(h => +h.classList.contains("hr-collapsed"))));
      if (mine.filter(w => w.querySelector(".hr-collapsed")).length > 1) run.count("probe:several-changed");
    }
  } finally { closing(); }
}
