// One browser page under simulation: a fresh JS realm, a DOM, a virtual clock, a simulated network,
// clipboard, layout, keyboard and mouse. The page's own scripts run unmodified from /repo.
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import * as dom from "./dom.mjs";

export const REPO = process.env.VERIF_REPO || "/repo";
const STATIC = path.join(REPO, "rsm", "static"), DOCS = path.join(REPO, "docs", "source", "_static"); // Sphinx serves both as one
export const ORIGIN = "http://sim.local";
export class PageHang extends Error { }

const files = new Map();
export function staticFile(name) {
  if (!files.has(name)) { let v = null; try { v = fs.readFileSync(path.join(STATIC, name), "utf8"); } catch { try { v = fs.readFileSync(path.join(DOCS, name), "utf8"); } catch { } } files.set(name, v); }
  return files.get(name);
}
let cssRules = null;
export const rules = () => cssRules || (cssRules = dom.parseCSS(staticFile("rsm.css") || ""));

const turn = () => new Promise(r => setImmediate(r));
const scriptCache = new Map();
const compiled = (src, name) => { const k = name + "\0" + src.length; let s = scriptCache.get(k); if (!s || s.src !== src) { s = { src, script: new vm.Script(src, { filename: name }) }; scriptCache.set(k, s); } return s.script; };

let current = null; // the page whose stray promise rejections are being collected
process.on("unhandledRejection", e => { if (current) current.errors.push({ where: "unhandled rejection", msg: msgOf(e), stack: String(e?.stack || "") }); });
export const msgOf = e => (e && typeof e === "object" && "message" in e ? `${e.name || "Error"}: ${e.message}` : String(e));

class Window extends dom.EventTarget {
  constructor(page) { super(); this._isWindow = true; Object.defineProperty(this, "_page", { value: page, enumerable: false }); }
  _report(e, where) { this._page.errors.push({ where, msg: msgOf(e), stack: String(e?.stack || "") }); }
  _now() { return this._page.now; }
  _click(el, trusted) { this._page._clickDefault(el, trusted); }
  _focusScroll(el) { this._page._revealFocused(el); }
  _execCommand(c) { return this._page._execCommand(c); }
}

export class Page {
  /** opt: {html, net(url)->{ok,delay}|undefined, viewport:[w,h], clipboard:{mode,delay}, seed} */
  constructor(opt) {
    this.opt = opt;
    this.now = 1000; this.timers = []; this.tid = 0; this.seq = 0;
    this.errors = []; this.console = []; this.requests = []; this.navigations = []; this.copied = [];
    this.clipboard = opt.clipboard || { mode: "ok", delay: 0 };
    this.resizeObservers = []; this.modules = new Map(); this.moduleOps = Promise.resolve();
    this.steps = 0; this.pendingNet = 0; this.listenersAdded = 0;
    this.rendered = []; this.typesets = 0;
    const win = (this.win = new Window(this));
    const doc = (this.doc = dom.newDocument(opt.html));
    doc.defaultView = win;
    this._makeWindow(win, doc);
    this.ctx = vm.createContext(win);
    this.global = vm.runInContext("globalThis", this.ctx);
    for (const k of ["window", "self", "top", "parent", "frames"]) win[k] = this.global;
    vm.runInContext(`{
      const now = __now, RD = Date;
      const D = function Date(...a) { return new.target ? (a.length ? new RD(...a) : new RD(1.7e12 + now())) : new RD(1.7e12 + now()).toString(); };
      D.now = () => 1.7e12 + Math.round(now()); D.parse = RD.parse; D.UTC = RD.UTC; D.prototype = RD.prototype;
      globalThis.Date = D;
      let s = ${(opt.seed >>> 0) || 1};
      Math.random = () => { s = (s * 1664525 + 1013904223) >>> 0; return s / 4294967296; };
      delete globalThis.__now;
    }`, this.ctx);
    this.styles = new dom.Styles(doc, rules());
    this.layout = new dom.Layout(doc, this.styles);
    doc._layout = this.layout;
    doc._connected = n => this._connected(n);
    this.guardScript = compiled("__task()", "guard");
  }

  _makeWindow(win, doc) {
    const page = this;
    const [w, h] = this.opt.viewport || [1000, 600];
    const loc = new URL(ORIGIN + (this.opt.path || "/index.html"));
    const location = {
      get href() { return loc.href; }, set href(v) { page._navigate(String(v)); },
      get hash() { return loc.hash; }, set hash(v) { page._navigate("#" + String(v).replace(/^#/, "")); },
      get origin() { return loc.origin; }, get protocol() { return loc.protocol; }, get host() { return loc.host; },
      get hostname() { return loc.hostname; }, get pathname() { return loc.pathname; }, get search() { return loc.search; }, get port() { return loc.port; },
      assign(v) { page._navigate(String(v)); }, replace(v) { page._navigate(String(v)); }, reload() { }, toString() { return loc.href; },
    };
    this.loc = loc;
    const props = {
      document: doc, location, innerWidth: w, innerHeight: h, outerWidth: w, outerHeight: h, scrollX: 0, scrollY: 0, pageXOffset: 0, devicePixelRatio: 1,
      name: "", closed: false, length: 0, isSecureContext: true,
      screen: { width: 1600, height: 900, availWidth: 1600, availHeight: 900 },
      history: { length: 1, state: null, pushState(s, t, u) { if (u) { try { loc.href = new URL(u, loc.href).href; } catch { } } }, replaceState(s, t, u) { this.pushState(s, t, u); }, back() { }, forward() { }, go() { } },
      performance: { now: () => page.now, mark() { }, measure() { }, timeOrigin: 1.7e12, getEntriesByType: () => [] },
      console: Object.fromEntries(["log", "info", "debug", "warn", "error", "trace", "group", "groupEnd", "groupCollapsed", "table", "dir", "time", "timeEnd", "assert", "count"].map(k => [k, (...a) => { page.console.push([k, ...a.map(x => (typeof x === "string" ? x : x instanceof Error || (x && x.message) ? msgOf(x) : x && x.nodeType ? `<${x.nodeName}>` : String(typeof x === "object" ? "[object]" : x)))]); }])),
      setTimeout: (f, ms, ...a) => page._timer(f, ms, a, 0), setInterval: (f, ms, ...a) => page._timer(f, ms, a, 1),
      clearTimeout: id => page._clear(id), clearInterval: id => page._clear(id),
      requestAnimationFrame: f => page._timer(() => f(page.now), 16 - (page.now % 16) || 16, [], 2), cancelAnimationFrame: id => page._clear(id),
      requestIdleCallback: f => page._timer(() => f({ didTimeout: false, timeRemaining: () => 10 }), 1, [], 0), cancelIdleCallback: id => page._clear(id),
      queueMicrotask: f => Promise.resolve().then(() => { try { f(); } catch (e) { win._report(e, "microtask"); } }),
      alert() { }, confirm: () => true, prompt: () => null, open: u => { page.navigations.push(String(u)); return null; }, print() { }, stop() { }, focus() { }, blur() { }, postMessage() { },
      getSelection: () => doc.getSelection(),
      matchMedia: q => ({ matches: false, media: q, addEventListener() { }, removeEventListener() { }, addListener() { }, removeListener() { }, onchange: null }),
      getComputedStyle: el => page._computed(el),
      scrollBy: (x, y) => page._scroll(x, y, true), scrollTo: (x, y) => page._scroll(x, y, false), scroll: (x, y) => page._scroll(x, y, false),
      fetch: (u, o) => page._fetch(u, o),
      URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone, AbortController, AbortSignal,
      atob: s => Buffer.from(s, "base64").toString("binary"), btoa: s => Buffer.from(s, "binary").toString("base64"),
      localStorage: page._storage(), sessionStorage: page._storage(),
      CSS: { escape: cssEscape, supports: () => true },
      navigator: page._navigator(),
      ResizeObserver: class ResizeObserver {
        constructor(cb) { this._cb = cb; this._t = new Map(); page.resizeObservers.push(this); }
        observe(el) { this._t.set(el, null); }
        unobserve(el) { this._t.delete(el); }
        disconnect() { this._t.clear(); }
      },
      MutationObserver: page._mutationObserver(), IntersectionObserver: class { constructor(cb) { this.cb = cb; } observe() { } unobserve() { } disconnect() { } takeRecords() { return []; } },
      Image: class { constructor() { return doc.createElement("img"); } },
      XMLHttpRequest: class { open() { } send() { } setRequestHeader() { } },
      DOMParser: class { parseFromString(s) { return dom.newDocument(s); } },
      XMLSerializer: class { serializeToString(n) { return dom.serialize(n); } },
      __now: () => page.now,
      addEventListener: (...a) => { dom.EventTarget.prototype.addEventListener.apply(win, a); }, removeEventListener: (...a) => { dom.EventTarget.prototype.removeEventListener.apply(win, a); },
      dispatchEvent: e => dom.EventTarget.prototype.dispatchEvent.call(win, e),
      NodeFilter: { SHOW_ALL: -1, SHOW_ELEMENT: 1, SHOW_TEXT: 4 },
    };
    for (const k of ["Node", "Element", "HTMLElement", "SVGElement", "Text", "Comment", "DocumentFragment", "Document", "Event", "UIEvent", "MouseEvent", "KeyboardEvent", "FocusEvent", "CustomEvent", "EventTarget", "NodeList", "HTMLCollection", "DOMException", "DOMTokenList"]) props[k] = dom[k];
    props.HTMLDocument = dom.Document;
    if (this.opt.touch) props.ontouchstart = null;   // what libraries look for
    Object.assign(win, props);
    Object.defineProperty(win, "pageYOffset", { get: () => win.scrollY, enumerable: true });
    Object.defineProperty(win, "event", { value: undefined, writable: true });
  }
  _storage() { const m = new Map(); return { getItem: k => m.get(String(k)) ?? null, setItem: (k, v) => { m.set(String(k), String(v)); }, removeItem: k => { m.delete(String(k)); }, clear: () => m.clear(), key: i => [...m.keys()][i] ?? null, get length() { return m.size; } }; }
  _navigator() {
    const page = this;
    const nav = { userAgent: "Mozilla/5.0 (X11; Linux x86_64) SimBrowser/1.0", platform: "Linux x86_64", language: "en", languages: ["en"], onLine: true, maxTouchPoints: 0, vendor: "", cookieEnabled: true, sendBeacon: () => true };
    Object.defineProperty(nav, "clipboard", {
      enumerable: true,
      get() {
        if (page.clipboard.mode === "absent") return undefined; // insecure origin
        return {
          writeText(t) {
            const { mode, delay } = page.clipboard;
            const text = String(t);
            if (mode === "throw") throw new dom.DOMException("Clipboard access is blocked by permissions policy", "NotAllowedError");
            return new Promise((res, rej) => page._timer(() => { if (mode === "ok") { page.copied.push(text); res(); } else rej(new dom.DOMException("Write permission denied.", "NotAllowedError")); }, delay || 0, [], 0));
          },
          readText: async () => page.copied[page.copied.length - 1] || "",
          write: async () => { throw new dom.DOMException("Write permission denied.", "NotAllowedError"); },
        };
      },
    });
    return nav;
  }
  _execCommand(c) {
    if (c !== "copy") return false;
    if (this.clipboard.mode !== "ok") return false;
    const el = this.doc.activeElement; this.copied.push(el?.value ?? ""); return true;
  }
  _mutationObserver() {
    const page = this;
    return class MutationObserver { constructor(cb) { this.cb = cb; } observe() { page.mutationObservers = (page.mutationObservers || 0) + 1; } disconnect() { } takeRecords() { return []; } };
  }
  _computed(el) {
    const page = this;
    const get = n => { n = n.toLowerCase(); if (["display", "visibility", "position", "flex-direction", "pointer-events"].includes(n)) return el.isConnected ? page.styles.get(el, n) : ""; const v = el.style.getPropertyValue(n); if (v) return v; const r = el.getBoundingClientRect(); if (n === "height" || n === "width") return `${r[n]}px`; if (n === "opacity") return "1"; if (/^(margin|padding|border).*(width|top|left|right|bottom)$/.test(n) || ["top", "left", "right", "bottom"].includes(n)) return "0px"; return ""; };
    return new Proxy({}, { get: (t, k) => (k === "getPropertyValue" ? get : k === "length" ? 0 : typeof k === "string" ? get(dom.kebab(k)) : undefined) });
  }

  // ---------------------------------------------------------------- clock
  _timer(f, ms, args, kind) {
    const id = ++this.tid;
    ms = Math.max(0, Number(ms) || 0);
    this.timers.push({ id, at: this.now + ms, seq: this.seq++, f, args, every: kind === 1 ? Math.max(ms, 4) : 0 });
    return id;
  }
  _clear(id) { this.timers = this.timers.filter(t => t.id !== id); }
  after(ms, f) { return this._timer(f, ms, [], 0); }

  /** run f as one task of the page's event loop, then everything the browser does after a task */
  task(f, what) {
    if (this.hung) return;
    this.steps++;
    let r;
    this.win.__task = () => { try { r = f(); } catch (e) { if (e instanceof HarnessBug) throw e; this.win._report(e, what || "task"); } };
    const prev = current;
    current = this;
    try { this.guardScript.runInContext(this.ctx, { timeout: 10000 }); }
    catch (e) { if (e.code === "ERR_SCRIPT_EXECUTION_TIMEOUT") { this.hung = what; throw new PageHang(what); } throw e; }
    finally { current = this; }
    return r;
  }
  _afterTask() {
    // focus fix-up: an element that is no longer rendered loses focus
    const a = this.doc._focused;
    if (a && !(a.isConnected && this.layout.shown(a))) { this.doc._focused = null; this.doc._version++; }
    for (let round = 0; round < 3; round++) {
      let any = false;
      for (const ro of this.resizeObservers) {
        if (!ro._t.size) continue;
        const entries = [];
        for (const [el, old] of ro._t) {
          const r = this.layout.rect(el);
          if (old !== null ? old !== r.height : r.height !== 0) { ro._t.set(el, r.height); entries.push({ target: el, contentRect: { x: 0, y: 0, top: 0, left: 0, width: r.width, height: r.height, right: r.width, bottom: r.height }, borderBoxSize: [{ blockSize: r.height, inlineSize: r.width }], contentBoxSize: [{ blockSize: r.height, inlineSize: r.width }] }); }
        }
        if (entries.length) { any = true; this.task(() => ro._cb(entries, ro), "ResizeObserver"); }
      }
      if (!any) break;
    }
    const max = Math.max(0, this.layout.total() - this.win.innerHeight);
    if (this.win.scrollY > max) this._setScroll(max);
  }
  async idle() { // drain microtasks and module work that needs no virtual time
    const c = current; current = this;
    for (let i = 0; i < 3; i++) await turn();
    if (!this.loadingCount) { } else for (let i = 0; i < 6; i++) await turn();
    current = c === null ? this : c;
    this._afterTask();
  }
  /** advance virtual time by ms, running whatever becomes due in order */
  async advance(ms) {
    const end = this.now + ms;
    await this.idle();
    for (let guard = 0; guard < 20000; guard++) {
      let best = null;
      for (const t of this.timers) if (t.at <= end && (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq))) best = t;
      if (!best) break;
      this.now = Math.max(this.now, best.at);
      if (best.every) { best.at = this.now + best.every; best.seq = this.seq++; } else this.timers = this.timers.filter(t => t !== best);
      this.task(() => (typeof best.f === "function" ? best.f.apply(this.global, best.args) : vm.runInContext(String(best.f), this.ctx)), "timer");
      await this.idle();
    }
    this.now = end;
  }
  /** advance until cond() or the budget of virtual ms is used up */
  async until(cond, budget = 120000) {
    await this.idle();
    const end = this.now + budget;
    while (!cond()) {
      const next = this.timers.length ? Math.min(...this.timers.map(t => t.at)) : Infinity;
      if (next > end) return cond();
      await this.advance(Math.max(0, next - this.now));
    }
    return true;
  }

  // ---------------------------------------------------------------- network, scripts, modules
  _resource(url, kind) {
    const u = new URL(url, this.loc.href);
    this.requests.push(u.href);
    const r = (this.opt.net && this.opt.net(u.href, kind)) || { ok: true, delay: 0 };
    let body = null;
    if (u.origin === ORIGIN) {
      const base = this.opt.base || "/static/"; // where the static files are deployed
      body = u.pathname.startsWith(base) ? staticFile(decodeURIComponent(u.pathname.slice(base.length))) : null;
    } else body = STUBS.find(([re]) => re.test(u.href))?.[1] ?? null;
    return { url: u.href, ok: r.ok !== false && body !== null, delay: r.delay || 0, never: !!r.never, body };
  }
  _get(url, kind) {
    const r = this._resource(url, kind);
    return new Promise((res, rej) => {
      if (r.never) return;
      this._timer(() => (r.ok ? res(r) : rej(new TypeError(`Failed to fetch dynamically imported module: ${r.url}`))), r.delay, [], 0);
    });
  }
  async _fetch(u) { const r = await this._get(u, "fetch"); return { ok: true, status: 200, text: async () => r.body, json: async () => JSON.parse(r.body) }; }
  _module(url) {
    if (!this.modules.has(url)) {
      const p = this._get(url, "module").then(r => new vm.SourceTextModule(r.body, { context: this.ctx, identifier: url, initializeImportMeta: m => { m.url = url; }, importModuleDynamically: (s, ref) => this.importModule(s, ref.identifier || url) }));
      p.catch(() => { });
      this.modules.set(url, p);
    }
    return this.modules.get(url);
  }
  async _graph(url, seen = new Set()) {
    if (seen.has(url)) return this._module(url);
    seen.add(url);
    const m = await this._module(url);
    await Promise.all((m.dependencySpecifiers || []).map(s => this._graph(new URL(s, url).href, seen)));
    return m;
  }
  async importModule(spec, referrer) {
    if (!/^(\.{0,2}\/|[a-z]+:)/i.test(spec)) throw new TypeError(`Failed to resolve module specifier '${spec}'`);
    const url = new URL(spec, referrer || this.loc.href).href;
    this.loadingCount = (this.loadingCount || 0) + 1;
    try {
      const m = await this._graph(url);
      const op = this.moduleOps.then(async () => { if (m.status === "unlinked") await m.link(async (s, ref) => this._module(new URL(s, ref.identifier).href)); });
      this.moduleOps = op.catch(() => { });
      await op;
      await m.evaluate();
      return m;
    } finally { this.loadingCount--; }
  }
  _exec(src, name) { compiled(src, name).runInContext(this.ctx); }
  _connected(root) {
    const scripts = root.localName === "script" ? [root] : root.nodeType === 1 ? [...root._descendants()].filter(e => e.localName === "script") : [];
    for (const s of scripts) {
      if (s._started || s._inert) continue;
      const type = s._attrs.get("type") || "";
      if (type && !/^(text|application)\/(java|ecma)script$|^module$/i.test(type)) continue;
      if (!s._attrs.has("src") && !s.textContent) continue;
      s._started = true;
      this._runScript(s);
    }
  }
  _runScript(s) {
    const fire = type => s.dispatchEvent(new dom.Event(type, { bubbles: false }));
    const module = (s._attrs.get("type") || "") === "module";
    const run = (src, name) => { try { this._exec(src, name); } catch (e) { this.win._report(e, `script ${name}`); } };
    if (s._attrs.has("src")) {
      const r = this._resource(s._attrs.get("src"), "script");
      if (r.never) return;
      this._timer(() => {
        if (!r.ok) return fire("error");
        if (module) return this.importModule(r.url).then(() => this.task(() => fire("load"), "script load"), e => { this.win._report(e, `module ${r.url}`); this.task(() => fire("error"), "script error"); });
        this.doc.currentScript = s;
        run(r.body, r.url);
        this.doc.currentScript = null;
        fire("load");
      }, r.delay, [], 0);
    } else if (module) this._inlineModule(s.textContent);
    else run(s.textContent, "inline");
  }
  async _inlineModule(src) {
    const url = this.loc.href + "#inline" + this.seq++;
    this.loadingCount = (this.loadingCount || 0) + 1;
    try {
      const base = this.loc.href;
      const m = new vm.SourceTextModule(src, { context: this.ctx, identifier: url, importModuleDynamically: s => this.importModule(s, base) });
      await Promise.all((m.dependencySpecifiers || []).map(s => this._graph(new URL(s, base).href)));
      const op = this.moduleOps.then(() => m.link(async (s, ref) => this._module(new URL(s, ref.identifier === url ? base : ref.identifier).href)));
      this.moduleOps = op.catch(() => { });
      await op;
      await m.evaluate();
    } catch (e) { this.win._report(e, "module script"); }
    finally { this.loadingCount--; }
  }
  /** parse-time scripts, deferred modules, DOMContentLoaded and load, as a browser does */
  async open() {
    const scripts = [...this.doc.querySelectorAll("script")];
    for (const s of scripts) s._started = true;
    const deferred = [];
    for (const s of scripts) {
      if ((s._attrs.get("type") || "") === "module") { deferred.push(s); continue; }
      if (s._attrs.has("src")) {
        const r = this._resource(s._attrs.get("src"), "script");
        await this.advance(r.delay);
        if (r.ok) { this.task(() => { this.doc.currentScript = s; try { this._exec(r.body, r.url); } finally { this.doc.currentScript = null; } }, `script ${r.url}`); }
        else this.task(() => s.dispatchEvent(new dom.Event("error")), "script error");
      } else if (s.textContent) this.task(() => this._exec(s.textContent, "inline"), "inline script");
    }
    this.doc.readyState = "interactive";
    for (const s of deferred) {
      let done = false;
      const p = s._attrs.has("src") ? this.importModule(s._attrs.get("src")).catch(e => this.win._report(e, "module script")) : this._inlineModule(s.textContent);
      p.then(() => { done = true; });
      await this.until(() => done);
    }
    this.task(() => this.doc.dispatchEvent(new dom.Event("DOMContentLoaded", { bubbles: true })), "DOMContentLoaded");
    await this.idle();
    this.doc.readyState = "complete";
    this.task(() => this.win.dispatchEvent(new dom.Event("load")), "load");
    await this.idle();
  }

  // ---------------------------------------------------------------- scrolling
  _setScroll(y) {
    const max = Math.max(0, this.layout.total() - this.win.innerHeight);
    y = Math.min(max, Math.max(0, y));
    if (y === this.win.scrollY) return;
    this.win.scrollY = y;
    if (!this.scrollQueued) { this.scrollQueued = true; this._timer(() => { this.scrollQueued = false; this.doc.dispatchEvent(new dom.Event("scroll", { bubbles: true })); }, 16 - (this.now % 16), [], 2); }
  }
  _scroll(x, y, rel) {
    let behavior = "auto", top;
    if (typeof x === "object" && x) { top = x.top; behavior = x.behavior || "auto"; } else top = y;
    if (top === undefined || top === null) return;
    top = Number(top);
    if (Number.isNaN(top) || !Number.isFinite(top)) top = 0;
    const target = rel ? this.win.scrollY + top : top;
    this.scrollCalls = (this.scrollCalls || 0) + 1;
    if (behavior !== "smooth") { this.smooth = null; this._setScroll(target); return; }
    const from = this.win.scrollY, t0 = this.now, tok = (this.smooth = {}), D = 240;
    const frame = () => { if (this.smooth !== tok) return; const k = Math.min(1, (this.now - t0) / D); this._setScroll(from + (target - from) * k); if (k < 1) this._timer(frame, 16, [], 2); else this.smooth = null; };
    this._timer(frame, 16, [], 2);
  }
  _revealFocused(el) {
    const r = el.getBoundingClientRect(), h = this.win.innerHeight;
    if (r.top >= 0 && r.bottom <= h) return;
    if (r.bottom > 0 && r.top < h && r.height > h) return;
    this.smooth = null; // an instant scroll replaces a smooth one under way
    this._setScroll(this.win.scrollY + (r.top < 0 ? r.top : r.bottom - h));
  }
  _navigate(v) {
    const u = new URL(v, this.loc.href);
    const samePage = u.origin === this.loc.origin && u.pathname === this.loc.pathname && u.search === this.loc.search;
    this.navigations.push(u.href);
    if (!samePage) return;
    const old = this.loc.href;
    this.loc.href = u.href;
    const id = decodeURIComponent(u.hash.slice(1)), t = id && this.doc.getElementById(id);
    if (t) this._setScroll(this.win.scrollY + t.getBoundingClientRect().top); else if (!id) this._setScroll(0);
    if (old !== u.href) this._timer(() => this.win.dispatchEvent(new dom.Event("hashchange")), 0, [], 0);
  }

  // ---------------------------------------------------------------- input devices
  _fire(el, Cls, type, init) { const e = new Cls(type, { bubbles: true, cancelable: true, ...init }); e.isTrusted = true; el.dispatchEvent(e); return e; }
  _clickDefault(el, trusted) {
    const e = new dom.MouseEvent("click", { bubbles: true, cancelable: true });
    e.isTrusted = trusted;
    el.dispatchEvent(e);
    if (e.defaultPrevented) return;
    const a = el.closest && el.closest("a");
    if (a && a._attrs.has("href")) this._navigate(a._attrs.get("href"));
  }
  async key(key, init = {}) {
    const codes = { Enter: 13, Tab: 9, Escape: 27, " ": 32, ArrowUp: 38, ArrowDown: 40, ArrowLeft: 37, ArrowRight: 39 };
    const keyCode = codes[key] || (/^[a-z]$/i.test(key) ? key.toUpperCase().charCodeAt(0) : { ".": 190, ",": 188, ";": 186 }[key] || 0);
    const i = { key, code: codes[key] ? key : "", keyCode, which: keyCode, ...init };
    let ev;
    this.task(() => { ev = this._fire(this.doc.activeElement, dom.KeyboardEvent, "keydown", i); }, `keydown ${key}`);
    await this.idle();
    if (!ev.defaultPrevented) {
      if (key === "ArrowUp" || key === "ArrowDown") this.task(() => { this.smooth = null; this._setScroll(this.win.scrollY + (key === "ArrowDown" ? 40 : -40)); }, "arrow scrolls");
      if (key === "Tab") this.task(() => this._tab(init.shiftKey ? -1 : 1), "Tab");
      if (key === "Enter") { const a = this.doc.activeElement; if (a && ((a.localName === "a" && a._attrs.has("href")) || a.localName === "button")) this.task(() => this._clickDefault(a, true), "Enter"); }
    }
    await this.idle();
    this.task(() => this._fire(this.doc.activeElement, dom.KeyboardEvent, "keyup", i), `keyup ${key}`);
    await this.idle();
    return ev;
  }
  tabbable() { const l = [...this.doc.body._descendants()].filter(e => e._focusable() && e.tabIndex >= 0); const pos = l.filter(e => e.tabIndex > 0).sort((a, b) => a.tabIndex - b.tabIndex); return [...pos, ...l.filter(e => e.tabIndex === 0)]; }
  _tab(dir) { const l = this.tabbable(); if (!l.length) return; const i = l.indexOf(this.doc._focused); const n = i < 0 ? (dir > 0 ? 0 : l.length - 1) : (i + dir + l.length) % l.length; l[n].focus(); }
  /** move the pointer onto el (null: off the page) */
  async hover(el) { this.task(() => this._hoverTo(el), "mousemove"); await this.idle(); }
  _hoverTo(el) {
    // an element removed from under the pointer leaves it over what contained it
    const chain = n => { const c = []; for (; n && n.nodeType === 1; n = n.parentNode) c.push(n); return c; };
    const old = (this._hoverChain || []).find(n => n.isConnected) || null;
    this.doc._hover = el;
    this._hoverChain = chain(el);
    if (old === el) return;
    const a = chain(old), b = chain(el);
    if (old) { this._fire(old, dom.MouseEvent, "mouseout", { relatedTarget: el }); for (const n of a) if (!b.includes(n)) this._fire(n, dom.MouseEvent, "mouseleave", { bubbles: false, relatedTarget: el }); }
    if (el) { this._fire(el, dom.MouseEvent, "mouseover", { relatedTarget: old }); for (const n of b.slice().reverse()) if (!a.includes(n)) this._fire(n, dom.MouseEvent, "mouseenter", { bubbles: false, relatedTarget: old }); this._fire(el, dom.MouseEvent, "mousemove", {}); }
  }
  async click(el) {
    this.task(() => {
      this._hoverTo(el);
      const t = this.doc._hover;
      if (t !== el) return;
      const d = this._fire(el, dom.MouseEvent, "mousedown", { detail: 1 });
      if (!d.defaultPrevented) { let f = el; while (f && f.nodeType === 1 && !f._focusable()) f = f.parentNode; if (f && f.nodeType === 1) this.doc._focus(f, { preventScroll: true }); else this.doc._focus(null); }
      this._fire(el, dom.MouseEvent, "mouseup", { detail: 1 });
      if (el.isConnected) this._clickDefault(el, true);
    }, "click");
    await this.idle();
  }
  // one finger; the browser sends mouse events of its own after a tap
  async finger(type, el) { this.task(() => { if (el && el.isConnected) this._fire(el, dom.UIEvent, type, { touches: [] }); }, type); await this.idle(); }
  async tap(el) { await this.finger("touchstart", el); await this.advance(70); await this.finger("touchend", el); await this.click(el); }
  async wheel(dy) { this.task(() => { this.smooth = null; this._setScroll(this.win.scrollY + dy); }, "wheel"); await this.advance(32); }
  async resize(w, h) { this.win.innerWidth = this.win.outerWidth = w; this.win.innerHeight = this.win.outerHeight = h; this.doc._version++; this.task(() => this.win.dispatchEvent(new dom.Event("resize")), "resize"); await this.idle(); }
  shown(el) { return !!el && this.layout.shown(el); }
  $(s) { return this.doc.querySelector(s); }
  $$(s) { return [...this.doc.querySelectorAll(s)]; }
  close() { this.timers = []; if (current === this) current = null; }
}
export class HarnessBug extends Error { }

export function cssEscape(v) {
  const s = String(v);
  let out = "";
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 0) out += "\ufffd";
    else if ((c >= 1 && c <= 0x1f) || c === 0x7f || (i === 0 && c >= 48 && c <= 57) || (i === 1 && c >= 48 && c <= 57 && s[0] === "-")) out += "\\" + c.toString(16) + " ";
    else if (i === 0 && s.length === 1 && s[0] === "-") out += "\\-";
    else if (c >= 0x80 || s[i] === "-" || s[i] === "_" || /[0-9A-Za-z]/.test(s[i])) out += s[i];
    else out += "\\" + s[i];
  }
  return out;
}

// Stand-ins for the two third-party libraries the page loads from a CDN (not part of the repository).
const STUBS = [
  [/mathjax@/i, `{
    const cfg = window.MathJax || {};
    const err = window.__simMathJaxTypesetThrows;
    window.MathJax = Object.assign({}, cfg, { version: "3.sim", typeset: function () { window.__simTypeset = (window.__simTypeset || 0) + 1; if (err) throw new Error("MathJax typeset failed"); }, typesetPromise: function () { this.typeset(); return Promise.resolve(); } });
    MathJax.startup = { promise: Promise.resolve(), document: {} };
  }`],
  [/pseudocode@.*\.js/i, `window.pseudocode = {
    renderElement: function (el, options) {
      if (!(el instanceof Element)) throw new ReferenceError("a DOM element is required");
      el.style.display = "none";
      const src = el.textContent;
      if (/\\\\nosuchcommand/.test(src)) throw new TypeError("pseudocode ParseError: unexpected command");
      const d = document.createElement("div");
      d.className = "ps-root";
      d.setAttribute("data-lines", options && options.lineNumber ? "1" : "0");
      d.setAttribute("data-noend", options && options.noEnd ? "1" : "0");
      d.textContent = src;
      el.replaceWith(d);
      return d;
    },
    render: function (src, base, options) { const d = document.createElement("div"); d.className = "ps-root"; d.textContent = src; if (base) base.appendChild(d); return d; },
    renderClass: function (c, o) { document.querySelectorAll("." + c).forEach(e => this.renderElement(e, o)); },
  };`],
];
