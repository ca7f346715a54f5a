// CSS selector parser and matcher (Selectors 4 subset a browser page realistically uses).
const cache = new Map();

export class SelectorError extends Error {}

const ident = /^-?(?:[_a-zA-Z\u0080-\uffff]|\\[0-9a-fA-F]{1,6}\s?|\\[^\n0-9a-fA-F]|--)(?:[\w\-\u0080-\uffff]|\\[0-9a-fA-F]{1,6}\s?|\\[^\n0-9a-fA-F])*/;
const nameRe = /^(?:[\w\-\u0080-\uffff]|\\[0-9a-fA-F]{1,6}\s?|\\[^\n0-9a-fA-F])+/;

export function unescape(s) {
  return s.replace(/\\([0-9a-fA-F]{1,6})\s?|\\([^\n])/g, (m, hex, ch) => (hex ? String.fromCodePoint(parseInt(hex, 16) || 0xfffd) : ch));
}

class P {
  constructor(s) { this.s = s; this.i = 0; }
  rest() { return this.s.slice(this.i); }
  eof() { return this.i >= this.s.length; }
  peek() { return this.s[this.i]; }
  ws() { const m = /^(?:[ \t\r\n\f]|\/\*[\s\S]*?\*\/)+/.exec(this.rest()); if (m) this.i += m[0].length; return !!m; }
  fail() { throw new SelectorError(`'${this.s}' is not a valid selector`); }
  ident() { const m = ident.exec(this.rest()); if (!m) this.fail(); this.i += m[0].length; return unescape(m[0]); }
  name() { const m = nameRe.exec(this.rest()); if (!m) this.fail(); this.i += m[0].length; return unescape(m[0]); }
  expect(c) { if (this.peek() !== c) this.fail(); this.i++; }
  balanced() { // text up to the matching ')'
    let d = 0, j = this.i;
    for (; j < this.s.length; j++) {
      const c = this.s[j];
      if (c === "\\") { j++; continue; }
      if (c === '"' || c === "'") { const k = this.s.indexOf(c, j + 1); if (k < 0) this.fail(); j = k; continue; }
      if (c === "(" || c === "[") d++;
      else if (c === ")" || c === "]") { if (d === 0) break; d--; }
    }
    if (j >= this.s.length) this.fail();
    const t = this.s.slice(this.i, j);
    this.i = j + 1;
    return t;
  }
}

const SIMPLE_PSEUDO = new Set(["hover", "active", "focus", "focus-within", "focus-visible", "first-child", "last-child", "only-child",
  "first-of-type", "last-of-type", "only-of-type", "empty", "root", "scope", "checked", "disabled", "enabled", "link", "any-link",
  "visited", "target", "required", "optional", "read-only", "read-write", "placeholder-shown", "defined", "indeterminate",
  "default", "valid", "invalid", "fullscreen", "autofill"]);
const PSEUDO_EL = new Set(["before", "after", "first-line", "first-letter", "marker", "selection", "placeholder", "backdrop"]);

function parseNth(t) {
  t = t.trim().toLowerCase();
  if (t === "odd") return [2, 1];
  if (t === "even") return [2, 0];
  let m = /^([+-]?\d*)n\s*(?:([+-])\s*(\d+))?$/.exec(t);
  if (m) return [m[1] === "" || m[1] === "+" ? 1 : m[1] === "-" ? -1 : +m[1], m[3] ? (m[2] === "-" ? -1 : 1) * +m[3] : 0];
  m = /^[+-]?\d+$/.exec(t);
  if (m) return [0, +t];
  return null;
}

function compound(p, allowAmp) {
  const parts = [];
  for (;;) {
    if (p.eof()) break;
    const c = p.peek();
    if (c === "*") { p.i++; parts.push({ t: "any" }); }
    else if (c === "&") { if (!allowAmp) p.fail(); p.i++; parts.push({ t: "amp" }); }
    else if (c === "#") { p.i++; parts.push({ t: "id", v: p.name() }); }
    else if (c === ".") { p.i++; parts.push({ t: "class", v: p.ident() }); }
    else if (c === "[") {
      p.i++; p.ws();
      const n = p.ident(); p.ws();
      if (p.peek() === "]") { p.i++; parts.push({ t: "attr", n }); continue; }
      const m = /^([~|^$*]?=)/.exec(p.rest());
      if (!m) p.fail();
      p.i += m[0].length; p.ws();
      let v;
      if (p.peek() === '"' || p.peek() === "'") {
        const q = p.peek(); let j = p.i + 1;
        while (j < p.s.length && p.s[j] !== q) j += p.s[j] === "\\" ? 2 : 1;
        if (j >= p.s.length) p.fail();
        v = unescape(p.s.slice(p.i + 1, j)); p.i = j + 1;
      } else v = p.ident();
      p.ws();
      let ci = false;
      const f = /^([isIS])(?=\s*\])/.exec(p.rest());
      if (f) { ci = f[1].toLowerCase() === "i"; p.i++; p.ws(); }
      p.expect("]");
      parts.push({ t: "attr", n, op: m[1], v, ci });
    } else if (c === ":") {
      p.i++;
      if (p.peek() === ":") { p.i++; const n = p.ident(); if (p.peek() === "(") { p.i++; p.balanced(); } parts.push({ t: "pel", v: n }); continue; }
      const n = p.ident().toLowerCase();
      if (p.peek() === "(") {
        p.i++;
        const arg = p.balanced();
        if (n === "not" || n === "is" || n === "where" || n === "matches" || n === "-webkit-any") parts.push({ t: n === "not" ? "not" : "is", where: n === "where", v: parse(arg, { amp: true, forgiving: n === "is" || n === "where" }) });
        else if (n === "has") { const v = parse(arg, { amp: true, relative: true }); parts.push({ t: "has", v }); }
        else if (n.startsWith("nth-")) {
          const m = /^(.*?)(?:\s+of\s+([\s\S]+))?$/.exec(arg);
          const ab = parseNth(m[1]);
          if (!ab || !["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"].includes(n)) p.fail();
          parts.push({ t: "nth", n, ab, of: m[2] ? parse(m[2], { amp: true }) : null });
        } else if (n === "lang" || n === "dir") parts.push({ t: "never" });
        else p.fail();
      } else if (SIMPLE_PSEUDO.has(n)) parts.push({ t: "pc", v: n });
      else if (PSEUDO_EL.has(n)) parts.push({ t: "pel", v: n });
      else p.fail();
    } else {
      const m = ident.exec(p.rest());
      if (m && !parts.length) { p.i += m[0].length; parts.push({ t: "tag", v: unescape(m[0]), l: unescape(m[0]).toLowerCase() }); }
      else break;
    }
  }
  if (!parts.length) p.fail();
  return parts;
}

// -> list of complex selectors; each is [{comb, parts}, ...] left to right; comb is the combinator BEFORE the compound.
export function parse(src, opt = {}) {
  const key = src + "\u0000" + (opt.amp ? 1 : 0) + (opt.relative ? 2 : 0) + (opt.forgiving ? 4 : 0);
  const hit = cache.get(key);
  if (hit) return hit;
  const p = new P(src), out = [];
  p.ws();
  if (p.eof()) { if (opt.forgiving) return []; p.fail(); }
  for (;;) {
    const seq = [];
    let comb = null;
    p.ws();
    if (opt.relative && /[>+~]/.test(p.peek() || "")) { comb = p.peek(); p.i++; p.ws(); } else if (opt.relative) comb = " ";
    for (;;) {
      seq.push({ comb, parts: compound(p, true) });
      const sp = p.ws();
      if (p.eof() || p.peek() === ",") break;
      if (/[>+~]/.test(p.peek())) { comb = p.peek(); p.i++; p.ws(); if (p.eof()) p.fail(); } else if (sp) comb = " "; else p.fail();
    }
    out.push(seq);
    if (p.eof()) break;
    p.i++; // comma
    p.ws();
    if (p.eof()) p.fail();
  }
  cache.set(key, out);
  return out;
}

const FORM = new Set(["BUTTON", "INPUT", "SELECT", "TEXTAREA", "OPTION", "FIELDSET"]);

function nthMatch([a, b], k) { return a === 0 ? k === b : (k - b) / a >= 0 && Number.isInteger((k - b) / a); }

function matchPart(el, q, ctx) {
  switch (q.t) {
    case "any": return true;
    case "tag": return el.namespaceURI === "http://www.w3.org/1999/xhtml" ? el.localName === q.l : el.localName === q.v || el.localName.toLowerCase() === q.l;
    case "id": return el._attrs.get("id") === q.v;
    case "class": return el._hasClass(q.v);
    case "amp": return ctx.scope && ctx.scope.nodeType === 1 ? el === ctx.scope : ctx.nest ? matchList(el, ctx.nest, { scope: null }) : el === el.ownerDocument.documentElement;
    case "never": return false;
    case "pel": return false;
    case "attr": {
      const n = el._html ? q.n.toLowerCase() : q.n;
      let v = el._attrs.get(n);
      if (v === undefined) return false;
      if (!q.op) return true;
      let w = q.v;
      if (q.ci) { v = v.toLowerCase(); w = w.toLowerCase(); }
      switch (q.op) {
        case "=": return v === w;
        case "~=": return w !== "" && !/\s/.test(w) && v.split(/\s+/).includes(w);
        case "|=": return v === w || v.startsWith(w + "-");
        case "^=": return w !== "" && v.startsWith(w);
        case "$=": return w !== "" && v.endsWith(w);
        case "*=": return w !== "" && v.includes(w);
      }
      return false;
    }
    case "not": return !matchList(el, q.v, ctx);
    case "is": return matchList(el, q.v, ctx);
    case "has": return q.v.some(seq => hasMatch(el, seq, ctx));
    case "nth": {
      const par = el.parentNode;
      if (!par) return false;
      let sibs = par._childElements();
      if (q.n.endsWith("of-type")) sibs = sibs.filter(s => s.localName === el.localName);
      if (q.of) { if (!matchList(el, q.of, ctx)) return false; sibs = sibs.filter(s => matchList(s, q.of, ctx)); }
      const i = sibs.indexOf(el);
      return nthMatch(q.ab, q.n.includes("last") ? sibs.length - i : i + 1);
    }
    case "pc": {
      const doc = el.ownerDocument, par = el.parentNode;
      switch (q.v) {
        case "hover": return !!doc._hover && (el === doc._hover || el.contains(doc._hover));
        case "active": return !!doc._active && (el === doc._active || el.contains(doc._active));
        case "focus": return doc._focused === el;
        case "focus-visible": return doc._focused === el;
        case "focus-within": return !!doc._focused && el.contains(doc._focused);
        case "first-child": return !!par && par._childElements()[0] === el;
        case "last-child": { if (!par) return false; const c = par._childElements(); return c[c.length - 1] === el; }
        case "only-child": { if (!par) return false; const c = par._childElements(); return c.length === 1 && c[0] === el; }
        case "first-of-type": return !!par && par._childElements().find(s => s.localName === el.localName) === el;
        case "last-of-type": { if (!par) return false; const c = par._childElements().filter(s => s.localName === el.localName); return c[c.length - 1] === el; }
        case "only-of-type": return !!par && par._childElements().filter(s => s.localName === el.localName).length === 1;
        case "empty": return !el.childNodes.some(n => n.nodeType === 1 || (n.nodeType === 3 && n.data !== ""));
        case "root": return el === doc.documentElement;
        case "scope": return ctx.scope && ctx.scope.nodeType === 1 ? el === ctx.scope : el === doc.documentElement;
        case "checked": return !!(el._attrs.has("checked") || el._attrs.has("selected"));
        case "disabled": return FORM.has(el.tagName) && el._attrs.has("disabled");
        case "enabled": return FORM.has(el.tagName) && !el._attrs.has("disabled");
        case "link": case "any-link": return (el.localName === "a" || el.localName === "area") && el._attrs.has("href");
        case "defined": return true;
        case "target": { const h = (doc.location?.hash || "").slice(1); return h !== "" && el._attrs.get("id") === h; }
      }
      return false;
    }
  }
  return false;
}

function matchCompound(el, parts, ctx) {
  for (const q of parts) if (!matchPart(el, q, ctx)) return false;
  return true;
}

function matchSeq(el, seq, i, ctx, anchor) {
  if (!matchCompound(el, seq[i].parts, ctx)) return false;
  const comb = seq[i].comb;
  if (i === 0) {
    if (comb === null || !anchor) return true;
    // relative selector: the anchor is what precedes
    switch (comb) {
      case " ": return anchor !== el && anchor.contains(el);
      case ">": return el.parentNode === anchor;
      case "+": return el.previousElementSibling === anchor;
      case "~": return el.parentNode === anchor.parentNode && !!(anchor.compareDocumentPosition(el) & 4);
    }
    return false;
  }
  switch (comb) {
    case " ": for (let p = el.parentNode; p && p.nodeType === 1; p = p.parentNode) if (matchSeq(p, seq, i - 1, ctx, anchor)) return true; return false;
    case ">": return !!el.parentNode && el.parentNode.nodeType === 1 && matchSeq(el.parentNode, seq, i - 1, ctx, anchor);
    case "+": { const s = el.previousElementSibling; return !!s && matchSeq(s, seq, i - 1, ctx, anchor); }
    case "~": for (let s = el.previousElementSibling; s; s = s.previousElementSibling) if (matchSeq(s, seq, i - 1, ctx, anchor)) return true; return false;
  }
  return false;
}

function hasMatch(el, seq, ctx) {
  const first = seq[0].comb;
  const root = first === "+" || first === "~" ? el.parentNode : el;
  if (!root) return false;
  for (const d of root._descendants()) if (matchSeq(d, seq, seq.length - 1, ctx, el)) return true;
  return false;
}

export function matchList(el, list, ctx) {
  for (const seq of list) if (matchSeq(el, seq, seq.length - 1, ctx, null)) return true;
  return false;
}

export function matchOne(el, seq, ctx) { return matchSeq(el, seq, seq.length - 1, ctx, null); }

export function specificity(seq) {
  let a = 0, b = 0, c = 0;
  const add = ([x, y, z]) => { a += x; b += y; c += z; };
  const best = list => list.map(specificity).sort((m, n) => m[0] - n[0] || m[1] - n[1] || m[2] - n[2]).pop() || [0, 0, 0];
  for (const { parts } of seq) for (const q of parts) {
    if (q.t === "id") a++;
    else if (q.t === "class" || q.t === "attr" || q.t === "pc" || q.t === "nth") b++;
    else if (q.t === "tag" || q.t === "pel") c++;
    else if (q.t === "not" || q.t === "has" || (q.t === "is" && !q.where)) add(best(q.v));
  }
  return [a, b, c];
}
