"use strict";
// A small document object model: enough of a browser to run the demo's page in.

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "textarea", "title"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = s => s.replace(/&(?:#x([0-9a-fA-F]+)|#(\d+)|(\w+));/g, (m, h, d, n) =>
  h ? String.fromCodePoint(parseInt(h, 16)) : d ? String.fromCodePoint(+d) : n in ENT ? ENT[n] : m);
const escape = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const camel = s => s.replace(/-(\w)/g, (_, c) => c.toUpperCase());
const dashed = s => s.replace(/[A-Z]/g, c => "-" + c.toLowerCase());

class Ev {
  constructor(type, init = {}) {
    this.type = type; this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable; this.defaultPrevented = false;
    this.target = this.currentTarget = null; this.stopped = this.halted = false;
    if ("detail" in init) this.detail = init.detail;
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stopped = this.halted = true; }
}

class Target {
  constructor() { this.listeners = {}; }
  addEventListener(t, f, o) { (this.listeners[t] ||= []).push({ f, once: !!(o && o.once) }); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(l => l.f !== f); }
  fire(ev) {
    ev.currentTarget = this;
    for (const l of [...(this.listeners[ev.type] || [])]) {
      if (l.once) this.removeEventListener(ev.type, l.f);
      this.env().call(() => typeof l.f === "function" ? l.f.call(this, ev) : l.f.handleEvent(ev));
      if (ev.halted) return;
    }
    const h = this["on" + ev.type];
    if (typeof h === "function") this.env().call(() => h.call(this, ev));
    else if (this.attrs && this.attrs["on" + ev.type] !== undefined) this.env().inline(this, this.attrs["on" + ev.type], ev);
  }
  dispatchEvent(ev) {
    ev.target = this;
    for (let n = this; n; n = ev.bubbles ? n.parentNode || (n === n.env().document ? n.env().window : null) : null) {
      n.fire(ev);
      if (ev.stopped) break;
    }
    return !ev.defaultPrevented;
  }
}

class Node extends Target {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  env() { return (this.ownerDocument || this).environment; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get children() { return this.childNodes.filter(n => n instanceof Element); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  get nextSibling() { const c = this.parentNode ? this.parentNode.childNodes : []; return c[c.indexOf(this) + 1] || null; }
  get previousSibling() { const c = this.parentNode ? this.parentNode.childNodes : []; return c[c.indexOf(this) - 1] || null; }
  get isConnected() { for (let n = this; n; n = n.parentNode) if (n === this.ownerDocument) return true; return false; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  get textContent() { return this.childNodes.map(n => n instanceof Comment ? "" : n.textContent).join(""); }
  set textContent(s) { this.replaceChildren(...(s === null || s === undefined || String(s) === "" ? [] : [String(s)])); }
  node(x) { return x instanceof Node ? x : new Text(this.ownerDocument || this, String(x)); }
  insertBefore(n, ref) {
    if (n instanceof Fragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    if (n.parentNode) n.parentNode.removeChild(n);
    const k = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(k < 0 ? this.childNodes.length : k, 0, n);
    n.parentNode = this;
    this.grown && this.grown();
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) {
    const k = this.childNodes.indexOf(n);
    if (k < 0) throw new Error("NotFoundError");
    this.childNodes.splice(k, 1); n.parentNode = null;
    return n;
  }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  append(...a) { for (const x of a) this.appendChild(this.node(x)); }
  prepend(...a) { const f = this.firstChild; for (const x of a) this.insertBefore(this.node(x), f); }
  before(...a) { for (const x of a) this.parentNode.insertBefore(this.node(x), this); }
  after(...a) { const s = this.nextSibling; for (const x of a) this.parentNode.insertBefore(this.node(x), s); }
  replaceWith(...a) { const p = this.parentNode; this.before(...a); p.removeChild(this); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...a) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...a); }
  cloneNode(deep) {
    const d = this.ownerDocument || this;
    const n = this instanceof Element ? make(d, this.localName) : this instanceof Text ? new this.constructor(d, this.data) : new Fragment(d);
    if (this.attrs) Object.assign(n.attrs, this.attrs);
    if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
    return n;
  }
  normalize() {}
  all() { return this.children.flatMap(c => [c, ...c.all()]); }
  querySelectorAll(sel) { return this.all().filter(e => e.matches(sel)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByTagName(t) { return this.all().filter(e => t === "*" || e.localName === t.toLowerCase()); }
  getElementsByClassName(c) { return this.all().filter(e => c.split(/\s+/).every(x => e.classList.contains(x))); }
}

class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; }
  get nodeType() { return 3; }
  get textContent() { return this.data; }
  set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; }
  set nodeValue(s) { this.data = String(s); }
  html() { return escape(this.data); }
}
class Comment extends Text {
  get nodeType() { return 8; }
  html() { return `<!--${this.data}-->`; }
}
class Fragment extends Node { get nodeType() { return 11; } }

class Element extends Node {
  constructor(doc, tag) {
    super(doc);
    this.localName = tag.toLowerCase(); this.attrs = {}; this.style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; } };
    this.classList = {
      list: () => (this.attrs.class || "").split(/\s+/).filter(x => x),
      contains(c) { return this.list().includes(c); },
      add: (...c) => { this.attrs.class = [...new Set([...this.classList.list(), ...c])].join(" "); },
      remove: (...c) => { this.attrs.class = this.classList.list().filter(x => !c.includes(x)).join(" "); },
      replace: (a, b) => { const l = this.classList.list(), had = l.includes(a); this.attrs.class = [...new Set(l.map(x => x === a ? b : x))].join(" "); return had; },
      item: i => this.classList.list()[i] ?? null,
      get length() { return this.list().length; },
      [Symbol.iterator]() { return this.list()[Symbol.iterator](); },
      toString: () => this.attrs.class || "",
      toggle: (c, on = !this.classList.contains(c)) => { this.classList[on ? "add" : "remove"](c); return on; },
    };
    this.dataset = new Proxy({}, {
      get: (_, k) => this.attrs["data-" + dashed(String(k))],
      set: (_, k, v) => { this.attrs["data-" + dashed(k)] = String(v); return true; },
      has: (_, k) => "data-" + dashed(String(k)) in this.attrs,
      deleteProperty: (_, k) => delete this.attrs["data-" + dashed(k)],
      ownKeys: () => Object.keys(this.attrs).filter(a => a.startsWith("data-")).map(a => camel(a.slice(5))),
      getOwnPropertyDescriptor: (_, k) => ({ enumerable: true, configurable: true, value: this.attrs["data-" + dashed(k)] }),
    });
  }
  get nodeType() { return 1; }
  get tagName() { return this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  getAttribute(a) { return a in this.attrs ? this.attrs[a] : null; }
  setAttribute(a, v) { this.attrs[a.toLowerCase()] = String(v); }
  hasAttribute(a) { return a in this.attrs; }
  removeAttribute(a) { delete this.attrs[a]; }
  toggleAttribute(a, on = !(a in this.attrs)) { if (on) this.attrs[a] ??= ""; else delete this.attrs[a]; return on; }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  get innerHTML() { return this.childNodes.map(n => n.html()).join(""); }
  set innerHTML(s) { this.replaceChildren(); parse(this.ownerDocument, this, s === null ? "" : String(s)); }
  html() {
    const a = Object.entries(this.attrs).map(([k, v]) => ` ${k}="${escape(v).replace(/"/g, "&quot;")}"`).join("");
    return `<${this.localName}${a}>` + (VOID.has(this.localName) ? "" : (RAW.has(this.localName) ? this.textContent : this.innerHTML) + `</${this.localName}>`);
  }
  get outerHTML() { return this.html(); }
  insertAdjacentHTML(where, s) {
    const f = new Fragment(this.ownerDocument);
    parse(this.ownerDocument, f, String(s));
    this.insertAdjacentElement(where, f);
  }
  insertAdjacentText(where, s) { this.insertAdjacentElement(where, new Text(this.ownerDocument, String(s))); }
  getAttributeNames() { return Object.keys(this.attrs); }
  insertAdjacentElement(where, f) {
    if (where === "beforeend") this.appendChild(f);
    else if (where === "afterbegin") this.insertBefore(f, this.firstChild);
    else if (where === "beforebegin") this.parentNode.insertBefore(f, this);
    else this.parentNode.insertBefore(f, this.nextSibling);
    return f;
  }
  matches(sel) { return sel.split(",").some(s => complex(this, s.trim())); }
  closest(sel) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(sel)) return n; return null; }
  focus() {}
  blur() {}
  scrollIntoView() {}
  click() { if (!this.disabled) this.dispatchEvent(new Ev("click", { bubbles: true, cancelable: true })); }
}
for (const [prop, attr] of [["id", "id"], ["className", "class"], ["title", "title"], ["name", "name"], ["type", "type"], ["label", "label"]])
  Object.defineProperty(Element.prototype, prop, { get() { return this.attrs[attr] || ""; }, set(v) { this.attrs[attr] = String(v); }, configurable: true });
for (const prop of ["disabled", "hidden"])
  Object.defineProperty(Element.prototype, prop, { get() { return prop in this.attrs; }, set(v) { if (v) this.attrs[prop] = ""; else delete this.attrs[prop]; } });

class Option extends Element {
  constructor(doc) { super(doc, "option"); this.chosen = false; }
  get text() { return this.textContent.trim().replace(/\s+/g, " "); }
  set text(s) { this.textContent = s; }
  get value() { return "value" in this.attrs ? this.attrs.value : this.text; }
  set value(v) { this.attrs.value = String(v); }
  get select() { for (let n = this.parentNode; n; n = n.parentNode) if (n instanceof Select) return n; return null; }
  get index() { return this.select ? this.select.options.indexOf(this) : 0; }
  get selected() { return this.select ? this.select.current() === this : this.chosen; }
  set selected(v) { if (this.select && v) this.select.choose(this); else this.chosen = !!v; }
}

class Select extends Element {
  constructor(doc) { super(doc, "select"); }
  get options() {
    const o = this.all().filter(e => e instanceof Option);
    o.add = (x, before) => this.add(x, before);
    o.item = i => o[i] || null;
    return o;
  }
  get length() { return this.options.length; }
  set length(n) { for (const o of this.options.slice(n)) o.remove(); }
  get selectedOptions() { const c = this.current(); return c ? [c] : []; }
  choose(o) { for (const x of this.options) x.chosen = x === o; this.none = !o; }
  current() {
    const o = this.options, c = o.filter(x => x.chosen);
    if (c.length) return c[c.length - 1];
    if (this.none) return null;
    return o.find(x => "selected" in x.attrs) || o.find(x => !x.disabled) || null;
  }
  grown() { if (this.none && !this.options.length) this.none = false; }
  get value() { const c = this.current(); return c ? c.value : ""; }
  set value(v) { this.choose(this.options.find(o => o.value === String(v)) || null); }
  get selectedIndex() { const c = this.current(); return c ? this.options.indexOf(c) : -1; }
  set selectedIndex(i) { this.choose(this.options[i] || null); }
  add(o, before = null) { if (!this.options.length) this.none = false; this.insertBefore(o, typeof before === "number" ? this.options[before] || null : before); }
  remove(i) { if (i === undefined) super.remove(); else if (this.options[i]) this.options[i].remove(); }
}

class Field extends Element {
  get value() { return this.typed ?? this.attrs.value ?? (this.localName === "textarea" ? this.textContent : ""); }
  set value(v) { this.typed = String(v); }
  get checked() { return this.ticked ?? "checked" in this.attrs; }
  set checked(v) { this.ticked = !!v; }
}

function make(doc, tag) {
  tag = tag.toLowerCase();
  return tag === "select" ? new Select(doc) : tag === "option" ? new Option(doc) : tag === "input" || tag === "textarea" ? new Field(doc, tag) : new Element(doc, tag);
}

function simple(e, s) {
  const parts = s.match(/^[\w*-]+|#[\w-]+|\.[\w-]+|\[[^\]]+\]|:[\w-]+(\([^)]*\))?/g);
  if (!parts || parts.join("") !== s) throw new Error("selector not understood: " + s);
  return parts.every(p => {
    if (p[0] === "#") return e.id === p.slice(1);
    if (p[0] === ".") return e.classList.contains(p.slice(1));
    if (p[0] === "[") {
      const m = /^\[([\w-]+)(?:([~^$*|]?)=(?:"([^"]*)"|'([^']*)'|([^\]]*)))?\]$/.exec(p);
      if (!m) throw new Error("selector not understood: " + s);
      const a = e.getAttribute(m[1]), v = m[3] ?? m[4] ?? m[5];
      if (a === null || v === undefined) return a !== null;
      return m[2] === "^" ? a.startsWith(v) : m[2] === "$" ? a.endsWith(v) : m[2] === "*" ? a.includes(v) : a === v;
    }
    if (p === ":checked") return e instanceof Option ? e.selected : !!e.checked;
    if (p === ":disabled") return !!e.disabled;
    if (p === ":first-child") return e.parentNode.children[0] === e;
    if (p === ":last-child") return e.parentNode.lastElementChild === e;
    if (p[0] === ":") throw new Error("selector not understood: " + s);
    return p === "*" || e.localName === p.toLowerCase();
  });
}
function complex(e, sel) {
  const steps = sel.replace(/\s*>\s*/g, " >").split(/\s+/);
  const last = steps.pop();
  if (!simple(e, last.replace(/^>/, ""))) return false;
  if (!steps.length) return true;
  const rest = steps.join(" ");
  if (last[0] === ">") return e.parentNode instanceof Element && complex(e.parentNode, rest);
  for (let n = e.parentNode; n instanceof Element; n = n.parentNode) if (complex(n, rest)) return true;
  return false;
}

function parse(doc, root, src) {
  const stack = [root];
  const top = () => stack[stack.length - 1];
  let i = 0;
  const text = s => { if (s) top().appendChild(new Text(doc, decode(s))); };
  while (i < src.length) {
    const k = src.indexOf("<", i);
    if (k < 0) { text(src.slice(i)); break; }
    if (src.startsWith("<!--", k)) {
      text(src.slice(i, k));
      const e = src.indexOf("-->", k);
      top().appendChild(new Comment(doc, src.slice(k + 4, e < 0 ? src.length : e)));
      i = e < 0 ? src.length : e + 3;
      continue;
    }
    const m = /^<(?:!\w[^>]*|(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?|\s+|\/(?!>))*)(\/?))>/.exec(src.slice(k));
    if (!m) { text(src.slice(i, k + 1)); i = k + 1; continue; }
    text(src.slice(i, k));
    i = k + m[0].length;
    if (!m[2]) continue;
    const tag = m[2].toLowerCase();
    if (m[1]) {
      for (let j = stack.length - 1; j > 0; j--) if (stack[j].localName === tag) { stack.length = j; break; }
      continue;
    }
    if (tag === "option" && top().localName === "option") stack.pop();
    const e = make(doc, tag);
    for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attrs[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? "");
    top().appendChild(e);
    if (VOID.has(tag)) continue;
    if (RAW.has(tag)) {
      const end = src.slice(i).search(new RegExp(`</${tag}\\s*>`, "i"));
      const body = end < 0 ? src.slice(i) : src.slice(i, i + end);
      if (body) e.appendChild(new Text(doc, tag === "script" || tag === "style" ? body : decode(body)));
      i = end < 0 ? src.length : i + end + /^<\/\w+\s*>/.exec(src.slice(i + end))[0].length;
      continue;
    }
    stack.push(e);
  }
}

class Document extends Node {
  constructor(environment) { super(null); this.environment = environment; this.readyState = "loading"; }
  get nodeType() { return 9; }
  get defaultView() { return this.environment.window; }
  get forms() { return this.getElementsByTagName("form"); }
  get scripts() { return this.getElementsByTagName("script"); }
  get activeElement() { return this.body; }
  get documentElement() { return this.children[0]; }
  get body() { return this.querySelector("body"); }
  get head() { return this.querySelector("head"); }
  get title() { const t = this.querySelector("title"); return t ? t.textContent : ""; }
  set title(s) { const t = this.querySelector("title"); if (t) t.textContent = s; }
  getElementById(id) { return this.all().find(e => e.id === id) || null; }
  createElement(t) { return make(this, t); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  createComment(s) { return new Comment(this, String(s)); }
  createEvent() { const e = new Ev(""); e.initEvent = (t, b, c) => Object.assign(e, { type: t, bubbles: b, cancelable: c }); return e; }
}

module.exports = { Document, Element, Select, Option, Text, Fragment, Node, Ev, Target, parse, make };
