// A small browser DOM: enough of the standard for the page scripts of leotrs/rsm (and for jQuery
// and tooltipster) to run unchanged. Nothing here knows anything about rsm.
import { parse as parseSel, matchList, SelectorError, specificity } from "./selector.mjs";

export const HTML_NS = "http://www.w3.org/1999/xhtml";
export const SVG_NS = "http://www.w3.org/2000/svg";
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "textarea", "title", "noscript", "xmp"]);
const CLOSES_P = new Set(["address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "hr", "main", "menu", "nav", "ol", "p", "pre", "section", "summary", "table", "ul"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", copy: "\u00a9", mdash: "\u2014", ndash: "\u2013", hellip: "\u2026", times: "\u00d7", laquo: "\u00ab", raquo: "\u00bb" };

export class DOMException extends Error {
  constructor(msg, name = "Error") { super(msg); this.name = name; this.code = { SyntaxError: 12, HierarchyRequestError: 3, NotFoundError: 8, InvalidCharacterError: 5, InvalidStateError: 11 }[name] || 0; }
}

const decode = s => s.indexOf("&") < 0 ? s : s.replace(/&(?:#x([0-9a-fA-F]+)|#(\d+)|([a-zA-Z]+));/g, (m, h, d, n) => h ? String.fromCodePoint(parseInt(h, 16)) : d ? String.fromCodePoint(+d) : n in ENT ? ENT[n] : m);
const escText = s => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escAttr = s => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
export const camel = s => s.replace(/-([a-z])/g, (m, c) => c.toUpperCase());
export const kebab = s => s.replace(/[A-Z]/g, c => "-" + c.toLowerCase());

function sel(src) {
  try { return parseSel(String(src)); }
  catch (e) { if (e instanceof SelectorError) throw new DOMException(e.message, "SyntaxError"); throw e; }
}

// ---------------------------------------------------------------- events

export class Event {
  constructor(type, init = {}) {
    this.type = String(type);
    this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable; this.composed = !!init.composed;
    this.defaultPrevented = false; this.target = null; this.currentTarget = null; this.eventPhase = 0;
    this.timeStamp = 0; this.isTrusted = false; this._stop = false; this._stopNow = false;
    for (const k of Object.keys(init)) if (!["bubbles", "cancelable", "composed"].includes(k)) { try { this[k] = init[k]; } catch { } }
  }
  get srcElement() { return this.target; }
  get returnValue() { return !this.defaultPrevented; }
  set returnValue(v) { if (v === false) this.preventDefault(); }
  get cancelBubble() { return this._stop; }
  set cancelBubble(v) { if (v) this._stop = true; }
  preventDefault() { if (this.cancelable && !this._passive) this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._stopNow = true; }
  composedPath() { return (this._path || []).slice(); }
  initEvent(t, b, c) { this.type = t; this.bubbles = !!b; this.cancelable = !!c; }
}
Object.assign(Event, { NONE: 0, CAPTURING_PHASE: 1, AT_TARGET: 2, BUBBLING_PHASE: 3 });
export class UIEvent extends Event { constructor(t, i = {}) { super(t, { detail: 0, view: null, ...i }); } }
export class MouseEvent extends UIEvent {
  constructor(t, i = {}) { super(t, { button: 0, buttons: 0, clientX: 0, clientY: 0, pageX: 0, pageY: 0, screenX: 0, screenY: 0, ctrlKey: false, shiftKey: false, altKey: false, metaKey: false, relatedTarget: null, ...i }); }
}
export class KeyboardEvent extends UIEvent {
  constructor(t, i = {}) { super(t, { key: "", code: "", keyCode: 0, which: i.keyCode || 0, repeat: false, isComposing: false, ctrlKey: false, shiftKey: false, altKey: false, metaKey: false, ...i }); }
  getModifierState(k) { return !!this[{ Control: "ctrlKey", Shift: "shiftKey", Alt: "altKey", Meta: "metaKey" }[k]]; }
}
export class FocusEvent extends UIEvent { constructor(t, i = {}) { super(t, { relatedTarget: null, ...i }); } }
export class CustomEvent extends Event { constructor(t, i = {}) { super(t, i); this.detail = i.detail ?? null; } }

export class EventTarget {
  _ls() { return this._listeners || (this._listeners = new Map()); }
  addEventListener(type, fn, opt) {
    if (fn == null) return;
    const o = typeof opt === "boolean" ? { capture: opt } : opt || {};
    const l = this._ls().get(type) || [];
    if (l.some(x => x.fn === fn && x.capture === !!o.capture)) return;
    const rec = { fn, capture: !!o.capture, once: !!o.once, passive: !!o.passive, gone: false };
    if (o.signal) { if (o.signal.aborted) return; o.signal.addEventListener("abort", () => this.removeEventListener(type, fn, o)); }
    this._ls().set(type, [...l, rec]);
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === "boolean" ? opt : !!(opt && opt.capture);
    const l = this._ls().get(type);
    if (!l) return;
    for (const r of l) if (r.fn === fn && r.capture === capture) r.gone = true;
    this._ls().set(type, l.filter(r => !r.gone));
  }
  _listenerCount(type) { return ((this._listeners && this._listeners.get(type)) || []).length; }
  _invoke(ev, capture) {
    ev.currentTarget = this;
    const win = this._window();
    const run = (fn, isHandler) => {
      try {
        const r = typeof fn === "function" ? fn.call(this, ev) : fn.handleEvent(ev);
        if (isHandler && r === false) ev.preventDefault();
      } catch (e) { if (win) win._report(e, `${ev.type} listener`); else throw e; }
    };
    const on = !capture && this["on" + ev.type];
    if (typeof on === "function") run(on, true);
    for (const r of (this._listeners && this._listeners.get(ev.type)) || []) {
      if (r.gone || r.capture !== capture) continue;
      if (r.once) this.removeEventListener(ev.type, r.fn, r.capture);
      ev._passive = r.passive;
      run(r.fn, false);
      ev._passive = false;
      if (ev._stopNow) return;
    }
  }
  _window() { return this.ownerDocument?.defaultView || this.defaultView || (this._isWindow ? this : null); }
  dispatchEvent(ev) {
    ev.target = this;
    const path = [this];
    for (let p = this._parentForEvent(); p; p = p._parentForEvent()) path.push(p);
    ev._path = path;
    const win = this._window();
    if (win) ev.timeStamp = win._now();
    ev.eventPhase = 1;
    for (let i = path.length - 1; i > 0 && !ev._stop; i--) path[i]._invoke(ev, true);
    ev.eventPhase = 2;
    if (!ev._stop) this._invoke(ev, true);
    if (!ev._stop) this._invoke(ev, false);
    ev.eventPhase = 3;
    if (ev.bubbles) for (let i = 1; i < path.length && !ev._stop; i++) path[i]._invoke(ev, false);
    ev.eventPhase = 0; ev.currentTarget = null;
    return !ev.defaultPrevented;
  }
  _parentForEvent() { return null; }
}

// ---------------------------------------------------------------- nodes

export class Node extends EventTarget {
  constructor(doc, type) { super(); this.ownerDocument = doc; this.nodeType = type; this.parentNode = null; this._kids = null; }
  get childNodes() { return this._kids || (this._kids = []); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get nextSibling() { const s = this.parentNode?.childNodes; return (s && s[s.indexOf(this) + 1]) || null; }
  get previousSibling() { const s = this.parentNode?.childNodes; return (s && s[s.indexOf(this) - 1]) || null; }
  get nextElementSibling() { const s = this.parentNode?.childNodes; if (!s) return null; for (let i = s.indexOf(this) + 1; i < s.length; i++) if (s[i].nodeType === 1) return s[i]; return null; }
  get previousElementSibling() { const s = this.parentNode?.childNodes; if (!s) return null; for (let i = s.indexOf(this) - 1; i >= 0; i--) if (s[i].nodeType === 1) return s[i]; return null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
  get nodeValue() { return null; }
  set nodeValue(v) { }
  get baseURI() { return this.ownerDocument?.URL; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  isSameNode(o) { return this === o; }
  isEqualNode(o) { return !!o && this._html5() === o._html5(); }
  _html5() { return serialize(this); }
  _parentForEvent() { return this.parentNode; }
  _touch() { const d = this.nodeType === 9 ? this : this.ownerDocument; if (d) d._version++; }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    const chain = n => { const c = []; for (; n; n = n.parentNode) c.unshift(n); return c; };
    const a = chain(this), b = chain(o);
    if (a[0] !== b[0]) return 1 | 32 | 4;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i === a.length) return 16 | 4;
    if (i === b.length) return 8 | 2;
    const k = a[i - 1].childNodes;
    return k.indexOf(a[i]) < k.indexOf(b[i]) ? 4 : 2;
  }
  _insert(node, ref) {
    if (node == null || typeof node !== "object" || !node.nodeType) throw new TypeError("parameter 1 is not of type 'Node'");
    if (node.nodeType !== 11 && node.contains(this)) throw new DOMException("The new child element contains the parent.", "HierarchyRequestError");
    if (ref && ref.parentNode !== this) throw new DOMException("The node before which the new node is to be inserted is not a child of this node.", "NotFoundError");
    const list = node.nodeType === 11 ? node.childNodes.slice() : [node];
    for (const n of list) {
      if (n === ref) ref = n.nextSibling;
      if (n.parentNode) n.parentNode._removeChild(n);
      const at = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
      this.childNodes.splice(at, 0, n);
      n.parentNode = this;
    }
    this._touch();
    if (this.isConnected) for (const n of list) this.ownerDocument._connected?.(n);
    return node;
  }
  _removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new DOMException("The node to be removed is not a child of this node.", "NotFoundError");
    this.childNodes.splice(i, 1);
    n.parentNode = null;
    this._touch();
    return n;
  }
  appendChild(n) { return this._insert(n, null); }
  insertBefore(n, ref) { return this._insert(n, ref || null); }
  removeChild(n) { return this._removeChild(n); }
  replaceChild(n, old) { const ref = old.nextSibling; if (n === old) return old; this._removeChild(old); this._insert(n, ref === n ? n.nextSibling : ref); return old; }
  remove() { if (this.parentNode) this.parentNode._removeChild(this); }
  normalize() { for (const k of this.childNodes.slice()) { if (k.nodeType === 3) { while (k.nextSibling && k.nextSibling.nodeType === 3) { k.data += k.nextSibling.data; k.nextSibling.remove(); } if (k.data === "") k.remove(); } else k.normalize(); } }
  _nodes(args) {
    const one = a => (a && typeof a === "object" && a.nodeType ? a : new Text(this.nodeType === 9 ? this : this.ownerDocument, String(a)));
    if (args.length === 1) return one(args[0]);
    const f = new DocumentFragment(this.nodeType === 9 ? this : this.ownerDocument);
    for (const a of args) f.appendChild(one(a));
    return f;
  }
  append(...a) { this._insert(this._nodes(a), null); }
  prepend(...a) { this._insert(this._nodes(a), this.firstChild); }
  replaceChildren(...a) { for (const k of this.childNodes.slice()) this._removeChild(k); if (a.length) this.append(...a); }
  before(...a) { this.parentNode?._insert(this._nodes(a), this); }
  after(...a) { this.parentNode?._insert(this._nodes(a), this.nextSibling); }
  replaceWith(...a) { const p = this.parentNode; if (!p) return; const ref = this.nextSibling; this.remove(); p._insert(this._nodes(a), ref); }
  get textContent() { let s = ""; for (const k of this.childNodes) if (k.nodeType === 1 || k.nodeType === 11) s += k.textContent; else if (k.nodeType === 3) s += k.data; return s; }
  set textContent(v) { for (const k of this.childNodes.slice()) this._removeChild(k); if (v != null && v !== "") this._insert(new Text(this.ownerDocument, String(v)), null); }
  _childElements() { return this.childNodes.filter(n => n.nodeType === 1); }
  get children() { return collection(this._childElements()); }
  get childElementCount() { return this._childElements().length; }
  get firstElementChild() { return this._childElements()[0] || null; }
  get lastElementChild() { const c = this._childElements(); return c[c.length - 1] || null; }
  *_descendants() { for (const k of this.childNodes) if (k.nodeType === 1) { yield k; yield* k._descendants(); } }
  querySelectorAll(s) { const l = sel(s), out = []; for (const d of this._descendants()) if (matchList(d, l, { scope: this })) out.push(d); return collection(out, "NodeList"); }
  querySelector(s) { const l = sel(s); for (const d of this._descendants()) if (matchList(d, l, { scope: this })) return d; return null; }
  getElementsByClassName(c) { const cs = String(c).split(/\s+/).filter(Boolean); return collection([...this._descendants()].filter(e => cs.every(x => e._hasClass(x)))); }
  getElementsByTagName(t) { t = String(t).toLowerCase(); return collection([...this._descendants()].filter(e => t === "*" || e.localName.toLowerCase() === t)); }
  getElementsByTagNameNS(ns, t) { return this.getElementsByTagName(t); }
  cloneNode(deep) { return clone(this, !!deep, this.nodeType === 9 ? this : this.ownerDocument); }
}
Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11, DOCUMENT_POSITION_DISCONNECTED: 1, DOCUMENT_POSITION_PRECEDING: 2, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_CONTAINS: 8, DOCUMENT_POSITION_CONTAINED_BY: 16 });
Object.assign(Node.prototype, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });

export class NodeList extends Array { item(i) { return this[i] ?? null; } static get [Symbol.species]() { return Array; } }
export class HTMLCollection extends Array {
  item(i) { return this[i] ?? null; }
  namedItem(n) { return this.find(e => e.id === n || e.getAttribute("name") === n) || null; }
  static get [Symbol.species]() { return Array; }
}
// Real NodeList/HTMLCollection are not arrays: hide what they do not have, so that code relying on
// array methods fails here as it would in a browser.
const HIDE_NL = ["map", "filter", "reduce", "reduceRight", "slice", "splice", "push", "pop", "shift", "unshift", "concat", "join", "reverse", "sort", "indexOf", "lastIndexOf", "includes", "find", "findIndex", "findLast", "findLastIndex", "some", "every", "flat", "flatMap", "fill", "at", "copyWithin", "toSorted", "toReversed", "toSpliced", "with"];
function collection(arr, kind) {
  const c = kind === "NodeList" ? new NodeList() : new HTMLCollection();
  const proto = kind === "NodeList" ? NL : HC;
  Object.setPrototypeOf(c, proto);
  for (let i = 0; i < arr.length; i++) c[i] = arr[i];
  return c;
}
const hidden = (cls, names) => { const p = Object.create(cls.prototype); for (const n of names) Object.defineProperty(p, n, { value: undefined, enumerable: false, configurable: true, writable: true }); return p; };
const NL = hidden(NodeList, HIDE_NL);
const HC = hidden(HTMLCollection, [...HIDE_NL, "forEach", "entries", "keys", "values"]);

export class Text extends Node {
  constructor(doc, data) { super(doc, 3); this._data = data; }
  get data() { return this._data; }
  set data(v) { this._data = String(v); this._touch(); }
  get nodeName() { return "#text"; }
  get nodeValue() { return this._data; }
  set nodeValue(v) { this.data = v; }
  get textContent() { return this._data; }
  set textContent(v) { this.data = v; }
  get length() { return this._data.length; }
  get wholeText() { return this._data; }
}
export class Comment extends Node {
  constructor(doc, data) { super(doc, 8); this.data = data; }
  get nodeName() { return "#comment"; }
  get nodeValue() { return this.data; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = v; }
}
export class DocumentFragment extends Node {
  constructor(doc) { super(doc, 11); }
  get nodeName() { return "#document-fragment"; }
  getElementById(id) { for (const d of this._descendants()) if (d.id === id) return d; return null; }
}

export class DOMTokenList {
  constructor(el) { this._el = el; return new Proxy(this, { get: (t, k) => (typeof k === "string" && /^\d+$/.test(k) ? t._list()[+k] : Reflect.get(t, k, t)) }); }
  _list() { return this._el._classes(); }
  _set(l) { this._el._setAttr("class", l.join(" ")); }
  _check(ts) { for (const t of ts) { if (String(t) === "") throw new DOMException("The token provided must not be empty.", "SyntaxError"); if (/\s/.test(t)) throw new DOMException(`The token provided ('${t}') contains HTML space characters`, "InvalidCharacterError"); } }
  get length() { return this._list().length; }
  get value() { return this._el.getAttribute("class") || ""; }
  set value(v) { this._el.setAttribute("class", v); }
  contains(t) { return this._list().includes(String(t)); }
  add(...ts) { this._check(ts); const l = this._list().slice(); for (const t of ts) if (!l.includes(String(t))) l.push(String(t)); this._set(l); }
  remove(...ts) { this._check(ts); const s = ts.map(String); if (!this._el._attrs.has("class")) return; this._set(this._list().filter(x => !s.includes(x))); }
  toggle(t, force) { this._check([t]); const has = this.contains(t); if (has && force !== true) { this.remove(t); return false; } if (!has && force !== false) { this.add(t); return true; } return has; }
  replace(a, b) { this._check([a, b]); const l = this._list().slice(), i = l.indexOf(a); if (i < 0) return false; l[i] = b; this._set([...new Set(l)]); return true; }
  item(i) { return this._list()[i] ?? null; }
  forEach(f, th) { this._list().forEach((x, i) => f.call(th, x, i, this)); }
  keys() { return this._list().keys(); }
  values() { return this._list().values(); }
  entries() { return this._list().entries(); }
  [Symbol.iterator]() { return this._list()[Symbol.iterator](); }
  toString() { return this.value; }
  supports() { return true; }
}

function parseDecls(text) {
  const m = new Map();
  for (const d of String(text).split(";")) {
    const i = d.indexOf(":");
    if (i < 0) continue;
    const n = d.slice(0, i).trim().toLowerCase();
    let v = d.slice(i + 1).trim(), imp = false;
    if (/!\s*important$/i.test(v)) { imp = true; v = v.replace(/!\s*important$/i, "").trim(); }
    if (n && v) m.set(n, { v, imp });
  }
  return m;
}
class StyleDecl {
  constructor(el) { this._el = el; }
  _map() { return parseDecls(this._el._attrs.get("style") || ""); }
  _store(m) { const s = [...m].map(([k, { v, imp }]) => `${k}: ${v}${imp ? " !important" : ""};`).join(" "); if (s || this._el._attrs.has("style")) this._el._setAttr("style", s); }
  getPropertyValue(n) { return this._map().get(String(n).toLowerCase())?.v || ""; }
  getPropertyPriority(n) { return this._map().get(String(n).toLowerCase())?.imp ? "important" : ""; }
  setProperty(n, v, pri) { const m = this._map(); n = n.startsWith("--") ? n : n.toLowerCase(); if (v === "" || v == null) m.delete(n); else m.set(n, { v: String(v), imp: pri === "important" }); this._store(m); }
  removeProperty(n) { const m = this._map(), v = m.get(n)?.v || ""; m.delete(n); this._store(m); return v; }
  get cssText() { return this._el._attrs.get("style") || ""; }
  set cssText(v) { this._el._setAttr("style", String(v)); }
  get length() { return this._map().size; }
  item(i) { return [...this._map().keys()][i] || ""; }
}
const STYLE_PROPS = new Set("display visibility position top left right bottom width height min-width max-width min-height max-height margin margin-top margin-left margin-right margin-bottom padding padding-top padding-left padding-right padding-bottom border border-width border-color border-style color background background-color background-image background-clip font font-size font-family font-weight opacity overflow overflow-x overflow-y z-index float clear cursor transform transition transition-duration animation animation-duration animation-name flex flex-direction flex-grow flex-shrink flex-basis order align-items align-content justify-content text-align text-decoration vertical-align white-space line-height pointer-events box-sizing content filter clip outline fill stroke zoom list-style gap grid-area grid-column grid-row user-select will-change table-layout border-spacing text-indent letter-spacing".split(" "));
const vendor = k => /^(webkit|moz|ms|o)[A-Z]/i.test(k);
const styleProxy = decl => new Proxy(decl, {
  get(t, k) {
    if (typeof k !== "string" || k in t) return Reflect.get(t, k, t);
    if (k === "cssFloat") return t.getPropertyValue("float");
    const n = kebab(k);
    return STYLE_PROPS.has(n) ? t.getPropertyValue(n) : vendor(k) ? undefined : n.startsWith("-") ? undefined : t._map().has(n) ? t.getPropertyValue(n) : undefined;
  },
  set(t, k, v) {
    if (k === "cssText") { t.cssText = v; return true; }
    if (k === "cssFloat") k = "float";
    const n = kebab(String(k));
    if (STYLE_PROPS.has(n)) { if (v === undefined || (typeof v === "number" && Number.isNaN(v))) return true; t.setProperty(n, v === null ? "" : String(v).trim()); }
    return true;
  },
  has(t, k) { return typeof k === "string" && (k in StyleDecl.prototype || STYLE_PROPS.has(kebab(k))); },
});

export class Element extends Node {
  constructor(doc, name, ns = HTML_NS) {
    super(doc, 1);
    this.localName = name; this.namespaceURI = ns; this._html = ns === HTML_NS;
    this.tagName = this._html ? name.toUpperCase() : name;
    this._attrs = new Map(); this._cls = null;
    this.scrollTop = 0; this.scrollLeft = 0;
  }
  get nodeName() { return this.tagName; }
  get prefix() { return null; }
  // attributes
  _classes() { return this._cls || (this._cls = [...new Set((this._attrs.get("class") || "").split(/[ \t\r\n\f]+/).filter(Boolean))]); }
  _hasClass(c) { return this._classes().includes(c); }
  _an(n) { return this._html ? String(n).toLowerCase() : String(n); }
  _setAttr(n, v) { v = String(v); const old = this._attrs.get(n); this._attrs.set(n, v); if (n === "class") this._cls = null; if (old !== v) this._touch(); this.ownerDocument?._attr?.(this, n, old, v); }
  getAttribute(n) { return this._attrs.get(this._an(n)) ?? null; }
  getAttributeNS(ns, n) { return this.getAttribute(n); }
  setAttribute(n, v) { this._setAttr(this._an(n), v); }
  setAttributeNS(ns, n, v) { this._setAttr(String(n), v); }
  removeAttribute(n) { n = this._an(n); if (this._attrs.delete(n)) { if (n === "class") this._cls = null; this._touch(); } }
  hasAttribute(n) { return this._attrs.has(this._an(n)); }
  hasAttributes() { return this._attrs.size > 0; }
  toggleAttribute(n, f) { n = this._an(n); const h = this._attrs.has(n); if (h && f !== true) { this.removeAttribute(n); return false; } if (!h && f !== false) { this._setAttr(n, ""); return true; } return h; }
  getAttributeNames() { return [...this._attrs.keys()]; }
  getAttributeNode(n) { const v = this.getAttribute(n); return v === null ? null : { name: n, value: v, specified: true, nodeValue: v }; }
  get attributes() { const a = [...this._attrs].map(([name, value]) => ({ name, localName: name, value, nodeName: name, nodeValue: value, specified: true })); a.item = i => a[i]; a.getNamedItem = n => a.find(x => x.name === n) || null; return a; }
  get id() { return this._attrs.get("id") || ""; }
  set id(v) { this._setAttr("id", v); }
  get className() { return this._html ? this._attrs.get("class") || "" : { baseVal: this._attrs.get("class") || "", toString() { return this.baseVal; } }; }
  set className(v) { this._setAttr("class", v); }
  get classList() { return this._cl || (this._cl = new DOMTokenList(this)); }
  set classList(v) { this._setAttr("class", v); }
  get dataset() {
    const el = this;
    return new Proxy({}, {
      get: (t, k) => (typeof k === "string" ? el._attrs.get("data-" + kebab(k)) : undefined),
      set: (t, k, v) => { el._setAttr("data-" + kebab(k), v); return true; },
      has: (t, k) => el._attrs.has("data-" + kebab(String(k))),
      deleteProperty: (t, k) => { el.removeAttribute("data-" + kebab(k)); return true; },
      ownKeys: () => [...el._attrs.keys()].filter(k => k.startsWith("data-")).map(k => camel(k.slice(5))),
      getOwnPropertyDescriptor: (t, k) => (el._attrs.has("data-" + kebab(String(k))) ? { value: el._attrs.get("data-" + kebab(k)), enumerable: true, configurable: true, writable: true } : undefined),
    });
  }
  get style() { return this._style || (this._style = styleProxy(new StyleDecl(this))); }
  set style(v) { this._setAttr("style", v); }
  // selectors
  matches(s) { return matchList(this, sel(s), { scope: this }); }
  webkitMatchesSelector(s) { return this.matches(s); }
  closest(s) { const l = sel(s); for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (matchList(n, l, { scope: this })) return n; return null; }
  // markup
  get innerHTML() { return this.localName === "template" && this.content ? this.content.childNodes.map(serialize).join("") : this.childNodes.map(n => serialize(n)).join(""); }
  set innerHTML(v) {
    for (const k of this.childNodes.slice()) this._removeChild(k);
    this._insert(parseFragment(this.ownerDocument, v === null ? "" : String(v), this), null);
  }
  get outerHTML() { return serialize(this); }
  set outerHTML(v) { const p = this.parentNode; if (p) p.replaceChild(parseFragment(this.ownerDocument, String(v), p), this); }
  insertAdjacentElement(w, n) { this._adj(w, n); return n; }
  insertAdjacentText(w, t) { this._adj(w, new Text(this.ownerDocument, String(t))); }
  insertAdjacentHTML(w, h) { this._adj(w, parseFragment(this.ownerDocument, String(h), /begin$|end$/i.test(w) && /^(beforebegin|afterend)$/i.test(w) ? this.parentNode : this)); }
  _adj(w, n) {
    switch (String(w).toLowerCase()) {
      case "beforebegin": this.parentNode?._insert(n, this); break;
      case "afterbegin": this._insert(n, this.firstChild); break;
      case "beforeend": this._insert(n, null); break;
      case "afterend": this.parentNode?._insert(n, this.nextSibling); break;
      default: throw new DOMException("invalid position", "SyntaxError");
    }
  }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get outerText() { return this.textContent; }
  get text() { return this.textContent; }
  set text(v) { this.textContent = v; }
  // geometry
  getBoundingClientRect() { return this.ownerDocument._layout.rect(this); }
  getClientRects() { const r = this.getBoundingClientRect(); const l = this.ownerDocument._layout.shown(this) ? [r] : []; l.item = i => l[i] || null; return l; }
  get offsetHeight() { return this._html ? Math.round(this.getBoundingClientRect().height) : undefined; }
  get offsetWidth() { return this._html ? Math.round(this.getBoundingClientRect().width) : undefined; }
  get offsetTop() { return this.getBoundingClientRect().top + this.ownerDocument.defaultView.scrollY; }
  get offsetLeft() { return this.getBoundingClientRect().left; }
  get offsetParent() { return this.ownerDocument._layout.shown(this) && this.localName !== "body" ? this.ownerDocument.body : null; }
  get clientHeight() { return this === this.ownerDocument.documentElement ? this.ownerDocument.defaultView.innerHeight : Math.round(this.getBoundingClientRect().height); }
  get clientWidth() { return this === this.ownerDocument.documentElement ? this.ownerDocument.defaultView.innerWidth : Math.round(this.getBoundingClientRect().width); }
  get clientTop() { return 0; }
  get clientLeft() { return 0; }
  get scrollHeight() { return this === this.ownerDocument.documentElement || this === this.ownerDocument.body ? this.ownerDocument._layout.total() : this.clientHeight; }
  get scrollWidth() { return this.clientWidth; }
  checkVisibility() { return this.ownerDocument._layout.shown(this); }
  getAnimations() { return []; }
  animate() { return { cancel() { }, finish() { }, play() { }, finished: Promise.resolve(), onfinish: null }; }
  scrollIntoView(o) {
    const r = this.getBoundingClientRect(), w = this.ownerDocument.defaultView;
    const block = typeof o === "object" && o ? o.block || "start" : o === false ? "end" : "start";
    const top = block === "center" ? r.top + r.height / 2 - w.innerHeight / 2 : block === "end" ? r.bottom - w.innerHeight : block === "nearest" ? (r.top < 0 ? r.top : r.bottom > w.innerHeight ? r.bottom - w.innerHeight : 0) : r.top;
    w.scrollBy({ top, behavior: o?.behavior });
  }
  scrollTo() { } scrollBy() { } scroll() { }
  getBBox() { const r = this.getBoundingClientRect(); return { x: r.left, y: r.top, width: r.width, height: r.height }; }
  // interaction
  get tabIndex() { const t = this._tabindex(); return t ?? (this._naturallyFocusable() ? 0 : -1); }
  set tabIndex(v) { this._setAttr("tabindex", String(v)); }
  _tabindex() { const v = this._attrs.get("tabindex"); const m = v === undefined ? null : /^\s*([+-]?\d+)/.exec(v); return m ? parseInt(m[1], 10) : null; }
  _naturallyFocusable() { const n = this.localName; return ((n === "a" || n === "area") && this._attrs.has("href")) || ["button", "input", "select", "textarea"].includes(n) || n === "iframe" || n === "summary" || (this._attrs.has("contenteditable") && this._attrs.get("contenteditable") !== "false"); }
  _focusable() {
    if (!this.isConnected) return false;
    if (this._attrs.has("disabled") && ["button", "input", "select", "textarea"].includes(this.localName)) return false;
    if (this.localName === "input" && this._attrs.get("type") === "hidden") return false;
    if (this._tabindex() === null && !this._naturallyFocusable()) return false;
    return this.ownerDocument._layout.shown(this);
  }
  focus(opt) { this.ownerDocument._focus(this, opt); }
  blur() { if (this.ownerDocument._focused === this) this.ownerDocument._focus(null); }
  click() { if (this._attrs.has("disabled") && ["button", "input"].includes(this.localName)) return; this.ownerDocument.defaultView._click(this, false); }
  get hidden() { return this._attrs.has("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get isContentEditable() { return this._attrs.has("contenteditable") && this._attrs.get("contenteditable") !== "false"; }
  get ownerSVGElement() { return this._html ? undefined : this.closest("svg"); }
  attachShadow() { throw new DOMException("not supported", "NotSupportedError"); }
  get shadowRoot() { return null; }
  get content() { return this.localName === "template" ? this._content || (this._content = new DocumentFragment(this.ownerDocument)) : this._attrs.get("content") ?? undefined; }
  get sheet() { return null; }
  get offsetParentNode() { return null; }
  get elements() { return collection([]); }
}
export class HTMLElement extends Element { }
export class SVGElement extends Element { }

// reflected properties
const refl = (...names) => names.forEach(n => Object.defineProperty(Element.prototype, n, { configurable: true, get() { return this._attrs.get(n.toLowerCase()) ?? ""; }, set(v) { this._setAttr(n.toLowerCase(), v); } }));
refl("title", "lang", "dir", "type", "src", "rel", "name", "alt", "target", "media", "placeholder", "role", "nonce", "integrity", "crossOrigin", "htmlFor", "download", "charset", "align", "accessKey");
Object.defineProperty(Element.prototype, "href", { configurable: true, get() { const v = this._attrs.get("href"); if (!this._html) return v === undefined ? undefined : { baseVal: v, animVal: v }; if (v === undefined) return ""; try { return new URL(v, this.ownerDocument.URL).href; } catch { return v; } }, set(v) { this._setAttr("href", v); } });
for (const p of ["hash", "pathname", "host", "search", "protocol"]) Object.defineProperty(Element.prototype, p, { configurable: true, get() { if (this.localName !== "a") return undefined; try { return new URL(this._attrs.get("href") || "", this.ownerDocument.URL)[p]; } catch { return ""; } } });
Object.defineProperty(Element.prototype, "src", { configurable: true, get() { const v = this._attrs.get("src"); if (v === undefined) return ""; try { return new URL(v, this.ownerDocument.URL).href; } catch { return v; } }, set(v) { this._setAttr("src", v); } });
Object.defineProperty(Element.prototype, "type", { configurable: true, get() { const v = this._attrs.get("type"); return v ?? (this.localName === "input" ? "text" : this.localName === "button" ? "submit" : ""); }, set(v) { this._setAttr("type", v); } });
for (const b of ["disabled", "checked", "selected", "async", "defer", "multiple", "readOnly", "required", "autofocus", "noModule", "open"]) Object.defineProperty(Element.prototype, b, { configurable: true, get() { return this._attrs.has(b.toLowerCase()); }, set(v) { if (v) this._setAttr(b.toLowerCase(), ""); else this.removeAttribute(b.toLowerCase()); } });
Object.defineProperty(Element.prototype, "value", { configurable: true, get() { if (this.localName === "textarea") return this._value ?? this.textContent; return this._value ?? this._attrs.get("value") ?? (this.localName === "input" && ["checkbox", "radio"].includes(this._attrs.get("type")) ? "on" : this.localName === "option" ? this.textContent : ""); }, set(v) { this._value = String(v); } });

export class Attr { }
export class Document extends Node {
  constructor() { super(null, 9); this._version = 0; this._focused = null; this._hover = null; this._active = null; this.defaultView = null; this.readyState = "loading"; this.compatMode = "CSS1Compat"; this.contentType = "text/html"; this.characterSet = "UTF-8"; this.hidden = false; this.visibilityState = "visible"; this.cookie = ""; this.referrer = ""; this.currentScript = null; this.nodeName_ = "#document"; this._layout = { rect: () => ({ top: 0, left: 0, right: 0, bottom: 0, width: 0, height: 0, x: 0, y: 0 }), shown: () => true, total: () => 0 }; }
  get nodeName() { return "#document"; }
  get textContent() { return null; }
  get documentElement() { return this._childElements()[0] || null; }
  get head() { return this.documentElement?._childElements().find(e => e.localName === "head") || null; }
  get body() { return this.documentElement?._childElements().find(e => e.localName === "body") || null; }
  get scrollingElement() { return this.documentElement; }
  get location() { return this.defaultView?.location; }
  get URL() { return this.defaultView ? this.defaultView.location.href : "about:blank"; }
  get documentURI() { return this.URL; }
  get title() { return (this.querySelector("title")?.textContent || "").trim(); }
  set title(v) { const t = this.querySelector("title"); if (t) t.textContent = v; }
  get activeElement() { return this._focused && this._focused.isConnected ? this._focused : this.body; }
  hasFocus() { return true; }
  get implementation() { return { createHTMLDocument: (t = "") => newDocument(`<html><head><title>${t}</title></head><body></body></html>`), hasFeature: () => true }; }
  get forms() { return collection([]); }
  get images() { return this.getElementsByTagName("img"); }
  get links() { return this.querySelectorAll("a[href]"); }
  get scripts() { return this.getElementsByTagName("script"); }
  get styleSheets() { return []; }
  get fonts() { return { ready: Promise.resolve(), load: async () => [] }; }
  getElementById(id) { for (const d of this._descendants()) if (d._attrs.get("id") === String(id)) return d; return null; }
  getElementsByName(n) { return collection([...this._descendants()].filter(e => e.getAttribute("name") === n), "NodeList"); }
  createElement(n) { return makeElement(this, String(n).toLowerCase(), HTML_NS); }
  createElementNS(ns, n) { return makeElement(this, String(n), ns || HTML_NS); }
  createTextNode(t) { return new Text(this, String(t)); }
  createComment(t) { return new Comment(this, String(t)); }
  createDocumentFragment() { return new DocumentFragment(this); }
  createAttribute(n) { return { name: n, value: "" }; }
  createEvent(k) { const C = { keyboardevent: KeyboardEvent, mouseevent: MouseEvent, mouseevents: MouseEvent, customevent: CustomEvent }[String(k).toLowerCase()] || Event; return new C(""); }
  createRange() { return { selectNode(n) { this._n = n; }, selectNodeContents(n) { this._n = n; }, createContextualFragment: h => parseFragment(this, h, this.body), collapse() { }, getBoundingClientRect: () => this._n?.getBoundingClientRect?.() }; }
  createTreeWalker(root, what = -1) {
    const all = []; (function rec(n) { for (const k of n.childNodes) { all.push(k); rec(k); } })(root);
    let i = -1; const ok = n => what === -1 || what === 0xffffffff || (what & (1 << (n.nodeType - 1)));
    return { currentNode: root, root, nextNode() { for (i++; i < all.length; i++) if (ok(all[i])) return (this.currentNode = all[i]); return null; } };
  }
  importNode(n, deep) { return clone(n, !!deep, this); }
  adoptNode(n) { n.remove(); (function rec(x, d) { x.ownerDocument = d; x.childNodes.forEach(k => rec(k, d)); })(n, this); return n; }
  elementFromPoint(x, y) { return this._layout.hit ? this._layout.hit(x, y) : this.body; }
  getSelection() { return { removeAllRanges() { }, addRange() { }, toString: () => "", rangeCount: 0, isCollapsed: true }; }
  execCommand(cmd) { return this.defaultView?._execCommand?.(cmd) ?? false; }
  queryCommandSupported() { return false; }
  open() { } write() { } close() { }
  _focus(el, opt) {
    const old = this._focused;
    if (el && !el._focusable()) return;
    if (old === el) return;
    this._focused = el;
    this._version++;
    const w = this.defaultView;
    const fire = (t, type, bubbles, rel) => { if (t) t.dispatchEvent(new FocusEvent(type, { bubbles, relatedTarget: rel })); };
    if (old && old.isConnected) { fire(old, "blur", false, el); fire(old, "focusout", true, el); }
    if (this._focused !== el) return;
    if (el) { if (w && !(opt && opt.preventScroll)) w._focusScroll?.(el); fire(el, "focus", false, old); fire(el, "focusin", true, old); }
  }
  _parentForEvent() { return this.defaultView; }
}
Object.defineProperty(Document.prototype, "ownerDocument", { get() { return null; }, set() { } });
// child node creation needs the owning document even when the parent is the document itself
const _ins = Document.prototype._insert;
Document.prototype._insert = function (n, ref) { return _ins.call(this, n, ref); };

const SVG_CASE = { lineargradient: "linearGradient", radialgradient: "radialGradient", clippath: "clipPath", foreignobject: "foreignObject", textpath: "textPath" };
const SVG_ATTR = { viewbox: "viewBox", preserveaspectratio: "preserveAspectRatio", gradientunits: "gradientUnits", gradienttransform: "gradientTransform", patternunits: "patternUnits" };

function makeElement(doc, name, ns) {
  if (!/^[A-Za-z_:\u0080-\uffff][\w\-:.\u0080-\uffff]*$/.test(name)) throw new DOMException(`'${name}' is not a valid name`, "InvalidCharacterError");
  return ns === SVG_NS ? new SVGElement(doc, name, ns) : new HTMLElement(doc, name, ns);
}

function clone(n, deep, doc) {
  let c;
  switch (n.nodeType) {
    case 1: c = makeElement(doc, n.localName, n.namespaceURI); for (const [k, v] of n._attrs) c._attrs.set(k, v); break;
    case 3: c = new Text(doc, n.data); break;
    case 8: c = new Comment(doc, n.data); break;
    case 11: c = new DocumentFragment(doc); break;
    case 9: c = new Document(); doc = c; break;
  }
  if (deep) for (const k of n.childNodes) { const x = clone(k, true, doc); c.childNodes.push(x); x.parentNode = c; }
  return c;
}

export function serialize(n) {
  switch (n.nodeType) {
    case 3: return n.parentNode && ["script", "style", "xmp", "noscript"].includes(n.parentNode.localName) ? n.data : escText(n.data);
    case 8: return `<!--${n.data}-->`;
    case 1: {
      const a = [...n._attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join("");
      if (n._html && VOID.has(n.localName)) return `<${n.localName}${a}>`;
      return `<${n.localName}${a}>${n.innerHTML}</${n.localName}>`;
    }
    default: return n.childNodes.map(serialize).join("");
  }
}

// ---------------------------------------------------------------- HTML parser

function* tokens(src) {
  let i = 0;
  while (i < src.length) {
    const lt = src.indexOf("<", i);
    if (lt < 0) { yield { t: "text", v: src.slice(i) }; return; }
    if (lt > i) yield { t: "text", v: src.slice(i, lt) };
    if (src.startsWith("<!--", lt)) { let e = src.indexOf("-->", lt + 4); if (e < 0) e = src.length; yield { t: "comment", v: src.slice(lt + 4, e) }; i = e + 3; continue; }
    if (/^<[!?]/.test(src.slice(lt, lt + 2))) { let e = src.indexOf(">", lt); if (e < 0) e = src.length; yield { t: "decl" }; i = e + 1; continue; }
    let m = /^<\/([A-Za-z][^\s>/]*)[^>]*>/.exec(src.slice(lt, lt + 2000));
    if (m) { yield { t: "end", v: m[1].toLowerCase() }; i = lt + m[0].length; continue; }
    m = /^<([A-Za-z][^\s>/]*)/.exec(src.slice(lt, lt + 200));
    if (!m) { yield { t: "text", v: "<" }; i = lt + 1; continue; }
    const attrs = new Map();
    let j = lt + m[0].length, self = false;
    for (;;) {
      while (j < src.length && /[\s/]/.test(src[j])) { self = src[j] === "/"; j++; }
      if (j >= src.length) break;
      if (src[j] === ">") { j++; break; }
      const s = j;
      j++;
      while (j < src.length && !/[\s/>=]/.test(src[j])) j++;
      const name = src.slice(s, j).toLowerCase();
      let k = j;
      while (k < src.length && /\s/.test(src[k])) k++;
      let val = "";
      if (src[k] === "=") {
        k++;
        while (k < src.length && /\s/.test(src[k])) k++;
        const q = src[k];
        if (q === '"' || q === "'") { let e = src.indexOf(q, k + 1); if (e < 0) e = src.length; val = src.slice(k + 1, e); j = e + 1; }
        else { let e = k; while (e < src.length && !/[\s>]/.test(src[e])) e++; val = src.slice(k, e); j = e; }
      }
      self = false;
      if (!attrs.has(name)) attrs.set(name, decode(val));
    }
    const name = m[1].toLowerCase();
    yield { t: "start", v: name, attrs, self };
    i = j;
    if (RAW.has(name) && !(self && false)) {
      const re = new RegExp(`</${name}[\\s>/]`, "i"), r = re.exec(src.slice(i)), e = r ? i + r.index : src.length;
      if (e > i) yield { t: "text", v: name === "title" || name === "textarea" ? src.slice(i, e) : src.slice(i, e), raw: name !== "title" && name !== "textarea" };
      i = e;
    }
  }
}

const INLINE_SCOPE_STOP = new Set(["html", "body", "table", "td", "th", "caption", "button", "object", "svg", "foreignObject"]);

function build(doc, src, rootEl, isDocument) {
  const stack = [rootEl];
  const top = () => stack[stack.length - 1];
  const add = n => { const p = top(); p.childNodes.push(n); n.parentNode = p; };
  const inScope = (name, stops) => { for (let i = stack.length - 1; i >= 0; i--) { if (stack[i].localName === name) return i; if (i === 0 || INLINE_SCOPE_STOP.has(stack[i].localName) || stops?.has(stack[i].localName)) return -1; } return -1; };
  const closeTo = i => { stack.length = i; };
  const svgCtx = () => { const t = top(); return t.namespaceURI === SVG_NS && t.localName !== "foreignObject"; };
  const html = isDocument ? new HTMLElement(doc, "html") : null;
  let head = null, body = null;
  if (isDocument) { add(html); stack.push(html); }
  const needBody = () => { if (!isDocument || body) return; if (!head) { head = new HTMLElement(doc, "head"); stack.length = 2; add(head); } stack.length = 2; body = new HTMLElement(doc, "body"); add(body); stack.push(body); };
  const HEADISH = new Set(["meta", "link", "title", "script", "style", "base", "noscript", "template"]);
  for (const tk of tokens(src)) {
    if (tk.t === "decl") continue;
    if (tk.t === "comment") { add(new Comment(doc, tk.v)); continue; }
    if (tk.t === "text") {
      if (isDocument && !body && (top() === html || top() === head) && !tk.v.trim()) continue;
      if (isDocument && !body && (top() === html || top() === head)) needBody();
      const v = tk.raw ? tk.v : decode(tk.v), last = top().childNodes[top().childNodes.length - 1];
      if (last && last.nodeType === 3) last._data += v; else add(new Text(doc, v));
      continue;
    }
    if (tk.t === "start") {
      let name = tk.v;
      if (isDocument && name === "html") { for (const [k, v] of tk.attrs) html._attrs.set(k, v); continue; }
      if (isDocument && name === "head") { if (!head && !body) { head = new HTMLElement(doc, "head"); add(head); stack.push(head); } continue; }
      if (isDocument && name === "body") { needBody(); for (const [k, v] of tk.attrs) body._attrs.set(k, v); continue; }
      if (isDocument && !body && !(HEADISH.has(name) && (top() === head || top() === html))) { needBody(); }
      if (isDocument && !body && top() === html) { if (!head) { head = new HTMLElement(doc, "head"); add(head); } stack.push(head); }
      const svg = name === "svg" || svgCtx();
      if (!svg) {
        if (CLOSES_P.has(name)) { const p = inScope("p"); if (p > 0) closeTo(p); }
        if (name === "li") { for (let i = stack.length - 1; i > 0; i--) { if (stack[i].localName === "li") { closeTo(i); break; } if (["ul", "ol", "div", "section", "td", "body"].includes(stack[i].localName) && stack[i].localName !== "div") break; } }
        if (name === "dt" || name === "dd") { for (let i = stack.length - 1; i > 0; i--) { if (["dt", "dd"].includes(stack[i].localName)) { closeTo(i); break; } if (["dl", "body", "section"].includes(stack[i].localName)) break; } }
        if (["tr", "td", "th", "tbody", "thead", "tfoot"].includes(name)) {
          const closers = { td: ["td", "th"], th: ["td", "th"], tr: ["td", "th", "tr"], tbody: ["td", "th", "tr", "tbody", "thead", "tfoot"], thead: ["td", "th", "tr", "tbody", "thead"], tfoot: ["td", "th", "tr", "tbody", "thead"] }[name];
          for (let i = stack.length - 1; i > 0 && stack[i].localName !== "table"; i--) if (closers.includes(stack[i].localName)) closeTo(i);
        }
        if (/^h[1-6]$/.test(name) && /^h[1-6]$/.test(top().localName || "")) stack.pop();
        if (name === "a") { const a = inScope("a"); if (a > 0) closeTo(a); }
        if (name === "option" && top().localName === "option") stack.pop();
      } else name = SVG_CASE[name] || name;
      const el = makeElement(doc, name, svg ? SVG_NS : HTML_NS);
      for (const [k, v] of tk.attrs) el._attrs.set(svg ? SVG_ATTR[k] || k : k, v);
      add(el);
      if (svg ? !tk.self : !VOID.has(name)) stack.push(el);
      continue;
    }
    // end tag
    const name = tk.v;
    if (isDocument && (name === "html" || name === "body")) continue;
    if (isDocument && name === "head") { if (!body) stack.length = 2; continue; }
    if (name === "p") {
      const i = inScope("p");
      if (i > 0) closeTo(i); else { const p = new HTMLElement(doc, "p"); add(p); }
      continue;
    }
    if (name === "br") { add(new HTMLElement(doc, "br")); continue; }
    for (let i = stack.length - 1; i > 0; i--) {
      if (stack[i].localName.toLowerCase() === name) { closeTo(i); break; }
      if (isDocument && (stack[i] === body || stack[i] === html)) break;
      if (["table", "td", "th"].includes(stack[i].localName) && !["table", "tr", "tbody", "thead", "tfoot", "div", "section", "body"].includes(name)) break;
      // a formatting element's stray end tag never closes a block
      if (["span", "a", "b", "i", "em", "strong", "code", "small"].includes(name) && CLOSES_P.has(stack[i].localName)) break;
    }
  }
  if (isDocument) needBody();
}

export function parseFragment(doc, src, ctx) {
  const f = new DocumentFragment(doc);
  f.namespaceURI = ctx && ctx.namespaceURI; f.localName = ctx ? ctx.localName : "div";
  build(doc, src, f, false);
  return f;
}

export function newDocument(src) {
  const d = new Document();
  build(d, src, d, true);
  const rec = n => { for (const k of n.childNodes) { k.ownerDocument = d; rec(k); } };
  rec(d);
  return d;
}

// ---------------------------------------------------------------- CSS cascade (a few properties)

export function parseCSS(src) {
  src = src.replace(/\/\*[\s\S]*?\*\//g, " ");
  let i = 0;
  const out = [];
  function block(parentSel, active) {
    // reads declarations and nested rules up to the matching '}'
    let start = i;
    while (i < src.length) {
      const c = src[i];
      if (c === '"' || c === "'") { const e = src.indexOf(c, i + 1); i = e < 0 ? src.length : e + 1; continue; }
      if (c === "(") { let d = 1; i++; while (i < src.length && d) { if (src[i] === "(") d++; else if (src[i] === ")") d--; i++; } continue; }
      if (c === ";") { decl(src.slice(start, i), parentSel, active); i++; start = i; continue; }
      if (c === "}") { decl(src.slice(start, i), parentSel, active); i++; return; }
      if (c === "{") {
        const prelude = src.slice(start, i).trim();
        i++;
        if (prelude.startsWith("@")) {
          const on = active && !/^@(media|keyframes|font-face|-webkit-keyframes)/.test(prelude) || (active && /^@media/.test(prelude) && mediaOn(prelude));
          block(parentSel, on);
        } else block(nest(prelude, parentSel), active);
        start = i;
        continue;
      }
      i++;
    }
    decl(src.slice(start, i), parentSel, active);
  }
  const nest = (s, p) => {
    if (!p) return s;
    return split(s).map(x => { x = x.trim(); return x.includes("&") ? x.replace(/&/g, `:is(${p})`) : /^[>+~]/.test(x) ? `:is(${p}) ${x}` : `:is(${p}) ${x}`; }).join(", ");
  };
  const split = s => { const parts = []; let d = 0, b = 0; for (let k = 0; k < s.length; k++) { if ("([".includes(s[k])) d++; else if (")]".includes(s[k])) d--; else if (s[k] === "," && !d) { parts.push(s.slice(b, k)); b = k + 1; } } parts.push(s.slice(b)); return parts; };
  const mediaOn = p => /screen|all/.test(p) && !/\(/.test(p);
  function decl(text, sel_, active) {
    if (!sel_ || !active) return;
    const m = /^\s*([\w-]+)\s*:\s*([\s\S]+?)\s*$/.exec(text);
    if (!m) return;
    const prop = m[1].toLowerCase();
    if (!["display", "visibility", "position", "flex-direction", "pointer-events"].includes(prop)) return;
    let v = m[2], imp = false;
    if (/!\s*important$/i.test(v)) { imp = true; v = v.replace(/!\s*important$/i, "").trim(); }
    for (const one of split(sel_)) {
      let l;
      try { l = parseSel(one.trim()); } catch { continue; }
      for (const seq of l) {
        if (seq[seq.length - 1].parts.some(q => q.t === "pel")) continue;
        out.push({ seq, spec: specificity(seq), prop, v, imp, order: out.length });
      }
    }
  }
  block(null, true);
  return out;
}

const UA_NONE = new Set(["head", "script", "style", "template", "title", "meta", "link", "base", "noscript", "datalist"]);
const UA_BLOCK = new Set([...CLOSES_P, "html", "body", "li", "dd", "dt", "tr", "tbody", "thead", "tfoot", "td", "th", "caption"]);

export class Styles {
  constructor(doc, rules) { this.doc = doc; this.rules = rules; this.cache = new Map(); this.version = -1; this.hash = null;
    this.byProp = new Map();
    for (const r of rules) { if (!this.byProp.has(r.prop)) this.byProp.set(r.prop, []); this.byProp.get(r.prop).push(r); }
  }
  get(el, prop) {
    const st = this.doc._version;
    if (st !== this.version || this.doc._hover !== this.h) { this.cache.clear(); this.version = st; this.h = this.doc._hover; }
    let c = this.cache.get(el);
    if (!c) this.cache.set(el, (c = {}));
    if (prop in c) return c[prop];
    return (c[prop] = this.compute(el, prop));
  }
  compute(el, prop) {
    let best = null;
    const better = (a, b) => { if (a.imp !== b.imp) return a.imp; if (!!a.inline !== !!b.inline) return !!a.inline; for (let i = 0; i < 3; i++) if (a.spec[i] !== b.spec[i]) return a.spec[i] > b.spec[i]; return a.order > b.order; };
    for (const r of this.byProp.get(prop) || []) {
      const last = r.seq[r.seq.length - 1].parts;
      let skip = false;
      for (const q of last) if ((q.t === "class" && !el._hasClass(q.v)) || (q.t === "tag" && q.l !== el.localName.toLowerCase())) { skip = true; break; }
      if (skip) continue;
      if (matchList(el, [r.seq], { scope: null }) && (!best || better(r, best))) best = r;
    }
    const inl = el._attrs.has("style") && parseDecls(el._attrs.get("style")).get(prop);
    if (inl) { const r = { v: inl.v, imp: inl.imp, inline: true, spec: [0, 0, 0], order: 1e9 }; if (!best || better(r, best)) best = r; }
    if (best && !["inherit", "unset", "initial", "revert"].includes(best.v)) return best.v;
    if (prop === "display") {
      if (best && best.v === "initial") return "inline";
      if (el._attrs.has("hidden") && !best) return "none";
      const n = el.localName;
      if (el._html && UA_NONE.has(n)) return "none";
      if (!el._html) return ["defs", "linearGradient", "mask", "stop"].includes(n) ? "none" : "inline";
      return n === "li" ? "list-item" : n === "table" ? "table" : n === "tr" ? "table-row" : n === "td" || n === "th" ? "table-cell" : UA_BLOCK.has(n) ? "block" : "inline";
    }
    if (prop === "visibility") return el.parentElement ? this.get(el.parentElement, "visibility") : "visible";
    if (prop === "pointer-events") return el.parentElement ? this.get(el.parentElement, "pointer-events") : "auto";
    if (prop === "position") return "static";
    if (prop === "flex-direction") return "row";
    return "";
  }
}

// ---------------------------------------------------------------- simulated layout

const LINE = 24;
export class Layout {
  constructor(doc, styles) { this.doc = doc; this.styles = styles; this.v = -1; this.boxes = new Map(); }
  shown(el) {
    if (!el.isConnected) return false;
    for (let n = el; n && n.nodeType === 1; n = n.parentNode) if (this.styles.get(n, "display") === "none") return false;
    return this.styles.get(el, "visibility") !== "hidden";
  }
  _ensure() {
    if (this.v === this.doc._version) return;
    this.v = this.doc._version;
    this.boxes = new Map();
    const b = this.doc.documentElement;
    if (b) this.height = this._box(b, 0, 0, this.doc.defaultView.innerWidth);
  }
  total() { this._ensure(); return this.height; }
  _fixedH(el) { const st = el._attrs.get("style"); if (!st) return null; const h = parseDecls(st).get("height"); const m = h && /^(-?[\d.]+)px$/.exec(h.v); return m ? +m[1] : null; }
  _box(el, x, y, w) {
    const disp = this.styles.get(el, "display");
    if (disp === "none") return 0;
    const box = { x, y, w, h: 0, fixed: false };
    this.boxes.set(el, box);
    if (!el._html) {
      if (el.localName === "svg") {
        const vb = (el._attrs.get("viewBox") || "").split(/\s+/).map(Number), h = parseFloat(el._attrs.get("height")) || (vb[3] > 40 ? vb[3] : 16);
        box.h = h; box.w = parseFloat(el._attrs.get("width")) || vb[2] || 16;
        for (const d of el._descendants()) {
          const cy = parseFloat(d._attrs.get("cy")), r = parseFloat(d._attrs.get("r"));
          this.boxes.set(d, Number.isFinite(cy) ? { x: x + 16 - (r || 0), y: y + cy - (r || 0), w: 2 * (r || 0), h: 2 * (r || 0), svg: el } : { x, y, w: box.w, h: box.h, svg: el });
        }
      }
      return box.h;
    }
    const row = disp === "flex" && this.styles.get(el, "flex-direction").startsWith("row");
    const fixedKids = [];
    let cy = y, inlineLen = 0, maxh = 0, cx = x;
    const flush = () => { if (inlineLen) { const h = Math.ceil(inlineLen / Math.max(10, w / 9)) * LINE; cy += h; inlineLen = 0; } };
    const flow = node => {
      for (const k of node.childNodes) {
        if (k.nodeType === 3) { inlineLen += k.data.trim().length; continue; }
        if (k.nodeType !== 1) continue;
        const d = this.styles.get(k, "display");
        if (d === "none") continue;
        const pos = this.styles.get(k, "position");
        if (pos === "fixed" || pos === "absolute") { fixedKids.push([k, pos, cy]); continue; }
        if (row && node === el) { const h = this._box(k, cx, y, Math.max(100, w - 100)); cx += 8; if (h > maxh) maxh = h; continue; }
        if (d === "inline" && k._html) { this.boxes.set(k, { x, y: cy, w: Math.min(w, 9 * k.textContent.trim().length), h: LINE }); flow(k); continue; }
        flush();
        cy += this._box(k, x, cy, w);
      }
    };
    flow(el);
    flush();
    const fh = this._fixedH(el);
    const img = el.localName === "img" ? 120 : 0;
    box.h = fh !== null ? fh : Math.max(cy - y, maxh, img, ["input", "button"].includes(el.localName) ? LINE : 0);
    for (const [k, pos, at] of fixedKids) {
      const h = this._box(k, x - 48, pos === "fixed" ? 0 : y, pos === "fixed" ? 48 : w);
      if (pos === "fixed") this._shift(k, this.doc.defaultView.innerHeight / 2 - h / 2);
    }
    return box.h;
  }
  _shift(el, dy) { for (const e of [el, ...el._descendants()]) { const b = this.boxes.get(e); if (b) { b.y += dy; b.fixed = true; } } }
  rect(el) {
    this._ensure();
    const b = el.isConnected && this.boxes.get(el), w = this.doc.defaultView;
    if (!b) return rectOf(0, 0, 0, 0);
    return rectOf(b.x, b.fixed ? b.y : b.y - w.scrollY, b.w, b.h);
  }
}
function rectOf(x, y, width, height) { return { x, y, left: x, top: y, width, height, right: x + width, bottom: y + height, toJSON() { return { x, y, width, height }; } }; }
