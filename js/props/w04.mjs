// Copy link: what lands on the clipboard is a link that leads to the thing, and the page says truthfully whether it did.
import * as M from "../model.mjs";
import { VIEWPORTS, page, actCount } from "./common.mjs";

export function gen(rng, req) {
  const n = actCount(rng, req, 4, 14);
  const acts = [];
  for (let i = 0; i < n; i++) {
    acts.push(rng.weighted([
      [{ a: "copy", n: rng.int(0, 999), inner: rng.int(0, 4), wait: rng.pick([0, 0, 100, 1000, 6000]) }, 6],
      [{ a: "enter", n: rng.int(0, 999), wait: rng.pick([0, 100, 6000]) }, 3],
      [{ a: "clipboard", mode: rng.pick(["ok", "ok", "reject", "throw", "absent"]), delay: rng.pick([0, 0, 30, 700, 5200]) }, 3],
      [{ a: "disabled", n: rng.int(0, 999), inner: rng.int(0, 4) }, 1],
      [{ a: "dismiss", n: rng.int(0, 9), inner: rng.int(0, 3) }, 2],
      [{ a: "go", n: rng.int(0, 99) }, 1],
      [{ a: "collapse", n: rng.int(0, 999) }, 1],
      [{ a: "tip", n: rng.int(0, 99) }, 1.5],
      [{ a: "wait", ms: rng.pick([50, 1500, 4900, 5100]) }, 2],
    ]));
  }
  return {
    page: page(rng, req, [["refs", 4], ["sections", 4], ["any", 3], ["proofs", 2]]), viewport: rng.pick(VIEWPORTS), seed: rng.int(1, 1e9),
    clipboard: { mode: rng.pick(["ok", "ok", "reject"]), delay: rng.pick([0, 0, 40]) }, acts,
  };
}

/** where a copied link has to lead */
function targetOf(hr) {
  if (!hr.classList.contains("heading")) return { id: hr.id };
  const headed = hr.parentElement;
  if (headed.localName === "section" && headed.classList.contains("level-1")) return { page: true };
  return { id: headed.id };
}

export async function execute(run, plan) {
  const p = await run.open();
  run.noErrors("opening the page");
  const toasts = () => p.$$(".toast");
  let live = []; // {el, until}: toasts that must be on the page
  let pending = []; // {due, kind, link}: uses whose outcome is not known yet
  let consumed = 0, seq = 0;
  const firstUrl = p.win.location.href.split("#")[0];
  const kindOf = t => ["success", "error", "information"].find(k => t.classList.contains(k));

  /** run to time t, matching every toast that appears with the use it answers */
  async function runTo(t) {
    for (;;) {
      const next = Math.min(t, ...pending.map(u => u.due), ...live.map(l => l.until));
      await p.advance(Math.max(0, next - p.now));
      const known = new Set(live.map(l => l.el));
      const due = pending.filter(u => u.due <= p.now);
      const born = toasts().filter(el => !known.has(el));
      for (const u of due.sort((a, b) => a.due - b.due || a.seq - b.seq)) {
        const got = u.ok ? p.copied[consumed++] : null;
        const i = born.findIndex(el => kindOf(el) === (u.ok ? "success" : "error"));
        if (i < 0) run.fail("toast", `copying the link of ${u.name} ${u.ok ? "worked" : "failed"} (clipboard: ${u.mode}) but the page says ${born.length ? born.map(kindOf).join(", ") : "nothing"}`);
        if (u.ok && !u.links.includes(got)) run.fail("link", `copied ${JSON.stringify(got)} for ${u.name}, expected ${JSON.stringify(u.links[0])}`);
        live.push({ el: born[i], until: p.now + 5000 });
        const r = born[i].getBoundingClientRect();
        if (!p.shown(born[i]) || !born[i].textContent.trim() && !String(born[i].querySelector(".msg")?.innerText || "").trim()) run.fail("toast", "the notification is empty or not shown");
        born.splice(i, 1);
        run.count(u.ok ? "probe:copied" : "probe:refused");
      }
      if (born.length) run.fail("toast", `${born.length} notification(s) nobody asked for: ${born.map(b => kindOf(b)).join(", ")}`);
      pending = pending.filter(u => !due.includes(u));
      const over = live.filter(l => l.until <= p.now && l.el.isConnected && l.until < p.now);
      if (over.length) run.fail("toast", `a notification is still there ${Math.round(p.now - over[0].until + 5000)} ms after it appeared`);
      for (const l of live) if (l.until > p.now && !l.el.isConnected) run.fail("toast", `a notification vanished ${Math.round(l.until - p.now)} ms early`);
      live = live.filter(l => l.until > p.now || l.el.isConnected);
      if (p.now >= t) break;
      if (!pending.length && !live.length) { await p.advance(t - p.now); break; }
      if (next <= p.now && next < t && !pending.some(u => u.due > p.now) && !live.some(l => l.until > p.now)) await p.advance(1);
      else if (live.some(l => l.until <= p.now)) await p.advance(1);
    }
  }
  function use(hr, what) {
    const t = targetOf(hr), { mode, delay } = p.clipboard;
    const can = t.page || t.id;
    const ok = !!can && mode === "ok";
    if (mode !== "ok" && can) run.count(`fault:clipboard-${mode}`);
    const async_ = can && (mode === "ok" || mode === "reject");
    const links = t.page ? [`${firstUrl}#`, firstUrl] : [`${firstUrl}#${t.id}`];
    pending.push({ due: p.now + (async_ ? delay : 0), ok, mode, links, name: run.describe(hr), seq: seq++ });
    if (t.id) {
      if (p.doc.getElementById(t.id) === null) run.fail("link", `there is nothing with id ${JSON.stringify(t.id)} to link to`);
    }
    run.nontrivial = true;
    run.log(what, run.describe(hr), mode, links[0]);
  }

  for (const act of plan.acts) {
    const hrs = M.hrs(p).filter(h => p.shown(h) && M.dotsOf(h) && M.menuOf(h));
    if (act.a === "copy") {
      const hr = M.nth(hrs.filter(h => M.enabled(M.item(h, "link"))), act.n); if (!hr) continue;
      await p.hover(hr); await p.click(M.dotsOf(hr));
      const it = M.item(hr, "link");
      await settle0();
      use(hr, "copy");
      await p.click(M.inner(it, act.inner));
      await p.hover(null);
      await runTo(p.now + act.wait);
    } else if (act.a === "enter") {
      const hr = M.nth(hrs.filter(h => h.hasAttribute("tabindex") && M.item(h, "link")), act.n); if (!hr) continue;
      const it = M.item(hr, "link");
      if (p.doc._hover) await p.hover(null);
      await M.focus(p, hr); await p.key(".");
      for (let i = 0; i < 9 && !it.classList.contains("active"); i++) await p.key("ArrowDown");
      if (!it.classList.contains("active")) run.fail("menu", `the arrow keys never reach “Copy link” of ${run.describe(hr)}`);
      await settle0();
      if (M.enabled(it)) use(hr, "Enter");
      await p.key("Enter");
      await p.key(".");
      run.count("probe:enter");
      await runTo(p.now + act.wait);
    } else if (act.a === "disabled") {
      const hr = M.nth(hrs.filter(h => M.item(h, "link") && !M.enabled(M.item(h, "link"))), act.n); if (!hr) continue;
      await p.hover(hr); await p.click(M.dotsOf(hr)); await settle0();
      await p.click(M.inner(M.item(hr, "link"), act.inner)); await p.hover(null); run.count("probe:disabled");
    } else if (act.a === "clipboard") p.clipboard = { mode: act.mode, delay: act.delay };
    else if (act.a === "dismiss") {
      await settle0();
      const l = M.nth(live.filter(x => x.el.isConnected), act.n); if (!l) continue;
      await p.click(M.inner(l.el.querySelector(".close"), act.inner));
      if (l.el.isConnected) run.fail("toast", "the close button of a notification does not close it");
      live = live.filter(x => x !== l); run.count("probe:dismiss");
    } else if (act.a === "go") { // the address already has a fragment
      const a = M.nth(p.$$("a.reference").filter(x => p.shown(x) && (x.getAttribute("href") || "").startsWith("#")), act.n); if (!a) continue;
      await p.click(a); await p.hover(null); run.count("probe:fragment");
    } else if (act.a === "collapse") { const h = M.nth(hrs.filter(x => M.collapseButton(x)), act.n); if (h) { await p.click(M.collapseButton(h)); await p.hover(null); } } else if (act.a === "tip") { // a tooltip may be open meanwhile
      const a = M.nth(p.$$("a.reference.tooltipstered").filter(x => p.shown(x) && x.getAttribute("tabindex") !== "-1"), act.n); if (!a) continue;
      await M.focus(p, a); await p.key("i"); await runTo(p.now + 300); run.count("probe:tooltip-open");
    } else if (act.a === "wait") await runTo(p.now + act.ms);
    await settle0();
    run.noErrors(act.a);
    run.state(p.copied.length, live.length, pending.length, p.clipboard.mode);
  }
  await runTo(p.now + 12000);
  run.noErrors("waiting");
  if (toasts().length) run.fail("toast", `${toasts().length} notification(s) never went away`);
  async function settle0() { await runTo(p.now); }
}
