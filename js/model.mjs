// The reference model of the page's behaviour, stated over the document's structure.
export const FOCUSABLE = 'a[href]:not([tabindex="-1"]), button:not([disabled]):not([tabindex="-1"]), textarea:not([disabled]):not([tabindex="-1"]), input:not([disabled]):not([tabindex="-1"]), select:not([disabled]):not([tabindex="-1"]), [tabindex]:not([tabindex="-1"])';
const kids = (el, cls) => [...el.children].filter(c => c.classList.contains(cls));
export const zone = (hr, name) => kids(hr, `hr-${name}-zone`)[0] || null;
export const collapseButton = hr => { const z = zone(hr, "collapse"); return (z && kids(z, "hr-collapse")[0]) || null; };
export const menuZone = hr => zone(hr, "menu");
export const menuOf = hr => { const z = menuZone(hr); return (z && kids(z, "hr-menu")[0]) || null; };
export const items = hr => { const m = menuOf(hr); return m ? kids(m, "hr-menu-item") : []; };
export const item = (hr, cls) => items(hr).find(i => i.classList.contains(cls)) || null;
export const enabled = i => !!i && !i.classList.contains("disabled");
export const dotsOf = hr => { const z = zone(hr, "border"); return (z && kids(z, "hr-border-dots")[0]) || null; };
export const collapsible = hr => !!collapseButton(hr) || enabled(item(hr, "collapse-subproof"));
export const collapsibleAll = hr => enabled(item(hr, "collapse-steps"));
export const hrs = page => page.$$(".hr");

/** what a closed handrail hides: its content below its own title line */
export function controlled(hr) {
  const content = zone(hr, "content");
  if (hr.classList.contains("hr-labeled")) return [...content.children].filter(c => !c.classList.contains("hr-label"));
  if (hr.classList.contains("step")) return [...content.children].filter(c => !c.classList.contains("statement"));
  return [...hr.parentElement.children].filter(c => c !== hr); // a heading: everything else in what it heads
}
/** the direct sub-steps with a proof of their own that "collapse all" acts on */
export function subSteps(hr) {
  const content = zone(hr, "content");
  const from = hr.classList.contains("step") ? kids(content, "subproof").map(s => zone(s, "content")).filter(Boolean) : [content];
  return from.flatMap(z => kids(z, "step")).filter(s => s.querySelector(".subproof"));
}

export class CollapseModel {
  constructor(run, page) {
    this.run = run; this.page = page;
    this.closed = new Set(); this.allClosed = new Set();
    this.hrs = hrs(page);
    this.base = new Map();
    this.look = new Map();
    for (const el of this.watched()) this.base.set(el, page.shown(el));
    for (const hr of this.hrs) this.look.set(hr, this.icons(hr).map(i => ({ icon: i, svg: i.innerHTML })));
    this.text = this.manuscriptText();
    this.inert = this.hrs.flatMap(hr => items(hr).filter(i => !enabled(i))).map(i => [i, i.outerHTML.replace(/ active\b/, "")]);
    this.svgs = {}; // state of an icon -> its drawing, learnt from the first one seen in that state
  }
  *walk(el) {
    for (const c of el.children) {
      const k = c.classList;
      if (k.contains("hr-menu-zone") || k.contains("toast") || k.contains("float-minimap-wrapper") || k.contains("tooltipster-base")) continue;
      yield c;
      if (!k.contains("icon")) yield* this.walk(c);
    }
  }
  watched() { const m = this.page.$(".manuscriptwrapper"); return m ? this.walk(m) : []; }
  manuscriptText() {
    let out = "";
    const go = el => { for (const n of el.childNodes) { if (n.nodeType === 3) out += n.data; else if (n.nodeType === 1 && !["hr-menu-zone", "toast", "icon"].some(c => n.classList.contains(c))) go(n); } };
    const m = this.page.$(".manuscript");
    if (m) go(m);
    return out;
  }
  icons(hr) {
    const out = [], b = collapseButton(hr), it = item(hr, "collapse-subproof");
    if (b) out.push(...kids(b, "icon"));
    if (enabled(it)) out.push(...kids(it, "icon"));
    return out;
  }
  toggle(hr) { if (this.closed.has(hr)) this.closed.delete(hr); else this.closed.add(hr); }
  toggleAll(hr) {
    const steps = subSteps(hr);
    if (this.allClosed.has(hr)) { this.allClosed.delete(hr); steps.forEach(s => this.closed.delete(s)); } else { this.allClosed.add(hr); steps.forEach(s => this.closed.add(s)); }
  }
  visible(hr) { for (const c of this.closed) if (controlled(c).some(e => e.contains(hr))) return false; return true; }
  /** every element's visibility, every icon and every label against the model */
  check(after) {
    const { run, page } = this;
    const hidden = new Set();
    for (const hr of this.closed) for (const e of controlled(hr)) hidden.add(e);
    const go = (el, under) => {
      for (const c of el.children) {
        const k = c.classList;
        if (k.contains("hr-menu-zone") || k.contains("toast") || k.contains("float-minimap-wrapper") || k.contains("tooltipster-base")) continue;
        const off = under || hidden.has(c);
        const want = !!this.base.get(c) && !off, got = page.shown(c);
        if (this.base.has(c) && want !== got) run.fail("visibility", `after ${after}: ${run.describe(c)} is ${got ? "shown" : "hidden"}, expected ${want ? "shown" : "hidden"} (${this.closed.size} closed handrails)`);
        if (!k.contains("icon")) go(c, off);
      }
    };
    const m = page.$(".manuscriptwrapper");
    if (m) go(m, false);
    for (const hr of this.hrs) {
      const closed = this.closed.has(hr);
      if (hr.classList.contains("hr-collapsed") !== closed && collapsible(hr)) run.fail("state", `after ${after}: ${run.describe(hr)} is ${closed ? "not " : ""}marked collapsed`);
      for (const i of this.icons(hr)) {
        const cls = closed ? "expand" : "collapse", other = closed ? "collapse" : "expand";
        if (!i.classList.contains(cls) || i.classList.contains(other)) run.fail("icon", `after ${after}: the icon of ${run.describe(hr)} says ${i.getAttribute("class")}, expected ${cls}`);
        this.drawing(cls, i, after);
        const t = i.nextElementSibling;
        if (t?.classList.contains("hr-menu-item-text") && t.textContent !== (closed ? "Expand" : "Collapse")) run.fail("icon", `after ${after}: the menu of ${run.describe(hr)} offers “${t.textContent}” while ${closed ? "closed" : "open"}`);
      }
      const all = item(hr, "collapse-steps");
      if (enabled(all)) {
        const ac = this.allClosed.has(hr), i = kids(all, "icon")[0], t = kids(all, "hr-menu-item-text")[0];
        if (i && !i.classList.contains(ac ? "expand-all" : "collapse-all")) run.fail("icon", `after ${after}: the collapse-all icon of ${run.describe(hr)} says ${i.getAttribute("class")}`);
        if (i) this.drawing(ac ? "expand-all" : "collapse-all", i, after);
        if (t && t.textContent !== (ac ? "Expand all" : "Collapse all")) run.fail("icon", `after ${after}: the menu of ${run.describe(hr)} offers “${t.textContent}”`);
      }
    }
    for (const [i, html] of this.inert) if (i.outerHTML.replace(/ active\b/, "") !== html) run.fail("disabled-item", `after ${after}: the disabled menu item “${i.textContent.trim()}” of ${run.describe(i.closest(".hr"))} changed`);
    if (this.manuscriptText() !== this.text) run.fail("text", `after ${after}: the text of the manuscript changed`);
  }
  drawing(state, icon, after) {
    const svg = norm(icon.innerHTML);
    if (!svg) this.run.fail("icon", `after ${after}: an icon in state ${state} is empty`);
    const opposite = { collapse: "expand", expand: "collapse", "collapse-all": "expand-all", "expand-all": "collapse-all" }[state];
    if (!(state in this.svgs)) this.svgs[state] = svg;
    if (this.svgs[state] !== svg || this.svgs[opposite] === svg) this.run.fail("icon", `after ${after}: an icon in state ${state} has the wrong drawing`);
  }
}
export const norm = s => s.replace(/\s+/g, " ").replace(/> </g, "><").trim();

/** the elements keyboard navigation visits: focusable, on the page, and not within a closed handrail */
export function candidates(page, root) {
  return [...(root || page.doc).querySelectorAll(FOCUSABLE)].filter(e => page.shown(e) && !e.parentElement.closest(".hr-collapsed"));
}
export const before = (a, b) => !!(a.compareDocumentPosition(b) & 4);

/** Acts shared by several properties. n selects among the candidates at the time of the act. */
export const nth = (list, n) => (list.length ? list[n % list.length] : null);
export const inner = (el, n) => { const all = [el, ...el.querySelectorAll("*")]; return all[n % all.length]; };
export async function focus(page, el) { page.task(() => el.focus({ preventScroll: true }), "focus"); await page.idle(); }
