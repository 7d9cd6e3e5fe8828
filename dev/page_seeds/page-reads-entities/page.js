"use strict";
// Loads index.html with a small document object model; requests are answered at once by text(path, car, patch).
const fs = require("fs"), vm = require("vm"), path = require("path");
const dom = require("./dom.js");
exports.open = async function (text) {
  const env = { call: f => { try { const r = f(); if (r && r.then) r.then(undefined, () => {}); return r; } catch (e) { console.error(e); } } };
  const document = new dom.Document(env), win = new dom.Target();
  win.env = () => env;
  env.document = document; env.window = win;
  env.inline = (el, code) => env.call(() => vm.runInContext(code, ctx));
  Object.assign(win, { document, console, setTimeout, clearTimeout, URL, URLSearchParams, Option: class { constructor(t, v) { const o = dom.make(document, "option"); o.text = t; if (v !== undefined) o.value = v; return o; } },
    Event: dom.Ev, fetch: async u => { const x = new URL(u, "http://h/"), t = text(x.pathname, x.searchParams.get("car"), x.searchParams.get("patch") || ""); return { ok: true, status: 200, text: async () => t, json: async () => JSON.parse(t) }; } });
  for (const f of ["addEventListener", "removeEventListener", "dispatchEvent"]) win[f] = win[f].bind(win);
  win.window = win.self = win;
  const ctx = vm.createContext(win);
  dom.parse(document, document, fs.readFileSync(path.join(process.cwd(), "index.html"), "utf8"));
  const rest = async () => { for (let i = 0; i < 20; i++) await new Promise(r => setImmediate(r)); };
  for (const s of document.querySelectorAll("script")) vm.runInContext(s.textContent, ctx);
  document.dispatchEvent(new dom.Ev("DOMContentLoaded", { bubbles: true }));
  win.dispatchEvent(new dom.Ev("load"));
  await rest();
  const all = t => document.getElementsByTagName(t);
  return {
    boxes: () => all("code").map(c => c.textContent), press: async () => { all("button")[0].click(); await rest(); },
    pick: async (i, v) => { const s = all("select")[i]; s.value = v; s.dispatchEvent(new dom.Ev("change", { bubbles: true })); await rest(); },
    picked: i => all("select")[i].value, listed: i => all("select")[i].options.map(o => o.value),
  };
};
