// One simulated visit of one page: opens it under the plan's environment, lets the property drive and judge it.
import { createHash } from "node:crypto";
import { Page, PageHang } from "./page.mjs";

export class Violation extends Error {
  constructor(cls, msg, key) { super(msg); this.cls = cls; this.key = key || cls; }
}

export class Run {
  constructor(plan, page) {
    this.plan = plan; this.given = page; this.source = page.source; this.html = page.html;
    this.stats = {}; this.events = []; this.states = new Set(); this.nontrivial = false;
  }
  count(k, n = 1) { this.stats[k] = (this.stats[k] || 0) + n; }
  log(...a) { this.events.push([this.page ? Math.round(this.page.now) : 0, ...a]); }
  fail(cls, msg, key) { throw new Violation(cls, msg, key); }
  state(...parts) { this.states.add(createHash("sha256").update(JSON.stringify(parts)).digest("hex").slice(0, 12)); }
  /** a browser about to open html, in the plan's environment */
  browse(html, where) {
    const { viewport, clipboard, seed } = this.plan;
    const net = (url, kind) => {
      for (const f of this.plan.net || []) {
        if (!url.includes(f.file)) continue;
        if (f.ok === false) { this.count("fault:load-failure"); this.log("net", f.file, "fails", f.delay || 0); } else if (f.delay) { this.count("fault:load-delay"); this.log("net", f.file, "delayed", f.delay); }
        return { ok: f.ok !== false, delay: f.delay || 0 };
      }
      return { ok: true, delay: 0 };
    };
    return new Page({ html, net, viewport: viewport || [1000, 600], clipboard: clipboard ? { ...clipboard } : undefined, seed: seed || 1, touch: this.plan.touch, ...where });
  }
  /** open the page as deployed under plan.base, with plan.net deciding what becomes of every request */
  async open({ settle = 4000 } = {}) {
    const { base = "/static/", keys = true, root = null } = this.plan;
    let html = this.html;
    if (base !== "/static/" || !keys || root) {
      const opts = [`path: '${base}'`].concat(keys ? [] : ["keys: false"]);
      html = html.replace(/(['"])\/static\/onload\.js\1/, `'${base}onload.js'`).replace(/\bonload\(\s*\)/, `onload(${root ? `document.querySelector('${root}')` : "null"}, {${opts.join(", ")}})`).replaceAll('"static/', `"${base}`);
    }
    const p = (this.page = this.browse(html, { base }));
    if (this.plan.mathThrows) { p.win.__simMathJaxTypesetThrows = true; this.count("fault:typeset-throws"); }
    this.served = skeleton(p);
    await p.open();
    await p.advance(settle);
    this.count("pages");
    return p;
  }
  /** what the author wrote and the structure around it are as served, whatever the scripts did since */
  intact(after) {
    const now = skeleton(this.page), was = this.served;
    for (let i = 0; i < Math.max(now.length, was.length); i++) if (now[i] !== was[i]) this.fail("page-damaged", `after ${after}: where the page as served had “${clip(was[i] ?? "its end")}” it now has “${clip(now[i] ?? "its end")}”`);
  }
  /** uncaught errors of the page are violations wherever every input is legitimate */
  describe(el) { return describe(el); }
  noErrors(doing) {
    const p = this.page;
    if (p.errors.length) {
      const e = p.errors[0];
      const at = /([\w.-]+\.js):(\d+)/.exec(e.stack.split("\n").slice(1).join("\n")) || [];
      this.fail("page-error", `uncaught error while ${doing}: ${e.msg} (${e.where}${at[1] ? `, ${at[1]}` : ""})`);
    }
  }
}

function skeleton(page) {
  const out = [];
  const go = el => {
    for (const n of el.childNodes) {
      if (n.nodeType === 3) { const t = n.data.replace(/\s+/g, " ").trim(); if (t) out.push(t); continue; }
      if (n.nodeType !== 1) continue;
      const k = n.classList;
      if (["toast", "tooltipster-base", "icon", "hr-menu-item-text", "pseudocode", "ps-root", "float-minimap-wrapper"].some(c => k.contains(c)) || n.localName === "script") continue;
      out.push(`<${n.localName}${n.id ? "#" + n.id : ""}${[...k].filter(c => /^hr(-|$)/.test(c) && c !== "hr-collapsed").map(c => "." + c).join("")}>`);
      go(n);
    }
  };
  const m = page.doc.querySelector(".manuscriptwrapper");
  if (m) go(m);
  return out;
}

const clip = (s, n = 60) => { s = String(s).replace(/\s+/g, " ").trim(); return s.length > n ? s.slice(0, n) + "…" : s; };
export const describe = el => {
  if (!el) return "nothing";
  const own = el.querySelector?.(".hr-content-zone")?.textContent ?? el.textContent ?? "";
  return `<${el.localName}${el.id ? ` id=${JSON.stringify(el.id)}` : ""}${el.getAttribute?.("class") ? ` class="${el.getAttribute("class")}"` : ""}> “${clip(own, 40)}”`;
};

export async function runPlan(prop, plan, page) {
  const r = new Run(plan, page);
  let violation = null;
  try { await prop.execute(r, plan); } catch (e) {
    if (e instanceof Violation) violation = { cls: e.cls, key: e.key, msg: e.message };
    else if (e instanceof PageHang) violation = { cls: "page-hang", key: "page-hang", msg: `the page never finished handling: ${e.message}` };
    else throw e;
  }
  if (violation) r.log("VIOLATION", violation.msg);
  const sim_ms = r.page ? Math.round(r.page.now - 1000) : 0;
  if (r.page) { r.count("tasks", r.page.steps); r.page.close(); }
  return {
    violation, nontrivial: r.nontrivial, stats: r.stats, states: [...r.states], sim_ms,
    sig: createHash("sha256").update(JSON.stringify([r.events, [...r.states]])).digest("hex").slice(0, 16),
    sample: { manuscript: clip(r.source, 160), plan: { ...plan, page: plan.page.gen || "inline", acts: (plan.acts || []).slice(0, 12) }, events: r.events.slice(0, 8) },
    events: r.events.slice(-60),
  };
}
