"use strict";
// Runs scripts of user actions and server answers on the demo's page (index.html); writes what the page shows.
// A line of input: {sid, texts: {key: text}, ev: [{c, ...}]}; keys are doc:CAR, patch:CAR:P and applied:CAR:P.
const fs = require("fs"), vm = require("vm"), readline = require("readline");
const dom = require("./dom.js");

const file = process.env.VERIF_PAGE;
const source = fs.readFileSync(file, "utf8");
process.on("unhandledRejection", () => {});

// a text up to white space and the spelling of its strings
function norm(s) {
  return s.replace(/"(?:[^"\\]|\\.)*"|\s+|-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?/g, t => {
    if (t[0] === '"') { try { return JSON.stringify(JSON.parse(t)); } catch { return t; } }
    if (/^\s/.test(t)) return "";
    return /^-?\d+$/.test(t) ? BigInt(t).toString() : " " + Number(t) + " ";
  });
}

class Page {
  constructor(texts) {
    this.texts = texts;
    this.keys = new Map(Object.entries(texts).map(([k, t]) => [norm(t), k]));
    this.open = [];      // requests without an answer
    this.timers = [];
    this.errors = 0;
    const page = this;
    const document = this.document = new dom.Document(this);
    const win = this.window = new dom.Target();
    win.env = () => page;
    const store = () => { const m = new Map(); return { getItem: k => m.has(String(k)) ? m.get(String(k)) : null, setItem: (k, v) => m.set(String(k), String(v)), removeItem: k => m.delete(String(k)), clear: () => m.clear() }; };
    let timer = 0;
    const later = (f, ...a) => { const id = ++timer; this.timers.push({ id, f: typeof f === "function" ? () => f(...a) : () => this.run(f) }); return id; };
    const cancel = id => { this.timers = this.timers.filter(t => t.id !== id); };
    const location = new URL("http://localhost:8080/");
    Object.assign(win, {
      document, location, console: new Proxy({}, { get: () => () => {} }), fetch: (u, o) => this.fetch(u, o),
      setTimeout: (f, _, ...a) => later(f, ...a), clearTimeout: cancel, setInterval: () => ++timer, clearInterval: () => {},
      requestAnimationFrame: f => later(f, 0), queueMicrotask, AbortController, AbortSignal, URL, URLSearchParams, TextDecoder, TextEncoder, structuredClone,
      alert: () => {}, confirm: () => true, prompt: () => null, localStorage: store(), sessionStorage: store(), performance: { now: () => 0 },
      navigator: { userAgent: "verif" }, history: { pushState() {}, replaceState() {} }, DOMException,
      Event: dom.Ev, CustomEvent: dom.Ev, Node: dom.Node, Element: dom.Element, HTMLElement: dom.Element, HTMLSelectElement: dom.Select, HTMLOptionElement: dom.Option,
      Option: function (text = "", value, def, sel) { const o = dom.make(document, "option"); if (text !== "") o.text = text; if (value !== undefined) o.value = value; if (sel) o.chosen = true; return o; },
    });
    for (const f of ["addEventListener", "removeEventListener", "dispatchEvent"]) win[f] = win[f].bind(win);
    win.window = win.self = win.globalThis = win;
    this.context = vm.createContext(win);
    dom.parse(document, document, source);
  }
  call(f) { try { const r = f(); if (r && typeof r.then === "function") r.then(undefined, () => {}); return r; } catch (e) { this.fault(e); } }
  fault(e) { this.errors++; if (process.env.VERIF_DEBUG) process.stderr.write(String(e && e.stack || e) + "\n"); }
  run(code) { return this.call(() => vm.runInContext(code, this.context, { timeout: 10000 })); }
  inline(el, code, ev) {
    this.window.__el = el; this.window.__ev = ev;
    const r = this.run(`(function (event) { ${code}\n }).call(__el, __ev)`);
    if (r === false) ev.preventDefault();
  }
  fetch(url, opts = {}) {
    return new Promise((resolve, reject) => {
      const u = new URL(String(url && url.url || url), "http://localhost:8080/"), q = u.searchParams;
      const car = q.get("car") ?? "", patch = q.get("patch") ?? "";
      const key = u.pathname === "/patch" ? `applied:${car}:${patch}` : u.pathname === "/update" ? (patch ? `patch:${car}:${patch}` : `doc:${car}`) : u.pathname;
      const rq = { key, reject: e => { this.open = this.open.filter(x => x !== rq); reject(e); } };
      rq.answer = () => {
        this.open = this.open.filter(x => x !== rq);
        const body = this.texts[key] ?? "";
        const res = { ok: true, status: 200, statusText: "OK", url: u.href, redirected: false, type: "basic", headers: new Map([["content-type", "text/plain"]]),
          text: async () => body, json: async () => JSON.parse(body), clone: () => res,
          arrayBuffer: async () => new TextEncoder().encode(body).buffer };
        resolve(res);
      };
      const abort = () => rq.reject(new DOMException("aborted", "AbortError"));
      if (opts.signal) { if (opts.signal.aborted) return abort(); opts.signal.addEventListener("abort", abort); }
      this.open.push(rq);
    });
  }
  async rest() {
    for (let k = 0; k < 100; k++) {
      await new Promise(r => setImmediate(r));
      if (!this.timers.length) { if (k) return; continue; }
      const t = this.timers.shift();
      this.call(t.f);
    }
  }
  async load() {
    for (const s of this.document.querySelectorAll("script")) if (!s.hasAttribute("src")) this.run(s.textContent);
    await this.rest();
    this.document.readyState = "interactive";
    this.document.dispatchEvent(new dom.Ev("DOMContentLoaded", { bubbles: true }));
    this.document.readyState = "complete";
    this.window.dispatchEvent(new dom.Ev("load"));
  }
  // an element of the page by its id, or by its kind and place
  el(id) {
    const [tag, i] = { carSelect: ["select", 0], patchSelect: ["select", 1], snapshotSelect: ["select", 2], appendSnapshotBtn: ["button", 0],
      view: ["code", 0], patch: ["code", 1], result: ["code", 2], snapshotView: ["code", 3] }[id];
    return this.document.getElementById(id) || this.document.getElementsByTagName(tag)[i];
  }
  pick(id, v) {
    const s = this.el(id);
    if (s.value === v || s.disabled || !s.options.some(o => o.value === v && !o.disabled)) return;
    s.value = v;
    s.dispatchEvent(new dom.Ev("input", { bubbles: true }));
    s.dispatchEvent(new dom.Ev("change", { bubbles: true }));
  }
  shown(id) {
    const t = norm(this.el(id).textContent);
    return t === "" ? "" : this.keys.get(t) ?? "?";
  }
  see() {
    const snaps = this.el("snapshotSelect");
    return { car: this.el("carSelect").value, patch: this.el("patchSelect").value, view: this.shown("view"), pbox: this.shown("patch"),
      result: this.shown("result"), label: this.el("appendSnapshotBtn").textContent.trim(), names: snaps.options.map(o => o.value),
      texts: snaps.options.map(o => o.text), shown: snaps.value, snap: this.shown("snapshotView"), pend: this.open.map(r => r.key) };
  }
}

async function run(script) {
  const page = new Page(script.texts), ev = [];
  for (let e of script.ev) {
    let done = { c: e.c };
    const open = page.open.length;
    if (e.c === "load") await page.load();
    else if (e.c === "car" || e.c === "patch") { done.v = e.v; page.pick(e.c + "Select", e.v); }
    else if (e.c === "press") page.el("appendSnapshotBtn").click();
    else if (e.c === "show") {
      const o = page.el("snapshotSelect").options;
      done.v = o.length ? o[e.i % o.length].value : "";
      if (o.length) page.pick("snapshotSelect", done.v);
    } else if (e.c === "answer" || e.c === "fail") {
      done.key = "";
      if (open) {
        const rq = page.open[e.i % open];
        done.key = rq.key;
        if (e.c === "answer") rq.answer(); else rq.reject(new TypeError("Failed to fetch"));
      }
    } else if (e.c === "settle") {
      for (let k = 0; k < 200 && page.open.length; k++) { page.open[e.i % page.open.length].answer(); await page.rest(); }
    }
    await page.rest();
    Object.assign(done, { out: "ok", l: 1 }, { o: page.see() });
    ev.push(done);
  }
  // every saved snapshot is looked at in the end
  for (const name of page.el("snapshotSelect").options.map(o => o.value)) {
    page.pick("snapshotSelect", name);
    await page.rest();
    ev.push({ c: "show", v: name, out: "ok", l: 1, o: page.see() });
  }
  const s = page.el("carSelect"), p = page.el("patchSelect");
  return { sid: script.sid, cars: s.options.map(o => o.value), patches: p.options.map(o => o.value), ev };
}

(async () => {
  const step = process.env.VERIF_STEP;
  for await (const line of readline.createInterface({ input: process.stdin })) {
    if (!line) continue;
    const script = JSON.parse(line);
    if (step) process.stderr.write("STEP page\n");
    process.stdout.write(JSON.stringify(await run(script)) + "\n");
  }
})();
