// Runs the page's own script on a small document model and reports what it shows.
// Input (stdin): {drawing, script, states}; output: one view per state.
"use strict";
const vm = require("vm");
const job = JSON.parse(require("fs").readFileSync(0, "utf8"));

// Collections are no arrays: those by class or tag have no forEach, none has map.
class Collection {
  constructor(list) { list.forEach((e, i) => { this[i] = e; }); Object.defineProperty(this, "length", { value: list.length }); }
  item(i) { return this[i] || null; }
  namedItem(id) { return Array.from(this).find((e) => e.id === id) || null; }
  *[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this[i]; }
}
class NodeList extends Collection {
  forEach(f, self) { Array.from(this).forEach((e, i) => f.call(self, e, i, this)); }
  entries() { return Array.from(this).entries(); }
  keys() { return Array.from(this).keys(); }
  values() { return Array.from(this).values(); }
}
class Style {
  setProperty(name, value) { this[name] = value; }
  removeProperty(name) { delete this[name]; }
  getPropertyValue(name) { return this[name] || ""; }
}

class Element {
  constructor([tag, attributes, text, children], parent) {
    this.tagName = tag;
    this.parentNode = parent;
    this.attributes = Object.assign({}, attributes);
    this.ownText = text;
    this.kids = children.map((c) => new Element(c, this));
    this.style = new Style();
  }
  get children() { return new Collection(this.kids); }
  get childNodes() { return new NodeList(this.kids); }
  get id() { return this.attributes.id || ""; }
  get classList() {
    const list = (this.attributes["class"] || "").split(/\s+/).filter((x) => x);
    const self = this;
    return {
      contains: (n) => list.includes(n),
      add: (n) => { if (!list.includes(n)) self.attributes["class"] = list.concat([n]).join(" "); },
      remove: (n) => { self.attributes["class"] = list.filter((x) => x !== n).join(" "); },
    };
  }
  // elements of a drawing: className is an object, there is no innerText
  get className() {
    const self = this;
    return { get baseVal() { return self.attributes["class"] || ""; }, set baseVal(v) { self.attributes["class"] = v; } };
  }
  get parentElement() { return this.parentNode; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { return this.children[this.children.length - 1] || null; }
  get childElementCount() { return this.children.length; }
  getAttributeNS(space, name) { return this.getAttribute(name); }
  setAttributeNS(space, name, value) { this.setAttribute(name, value); }
  replaceChildren(...parts) { this.innerHTML = parts.join(""); }
  matches(selector) { let top = this; while (top.parentNode) top = top.parentNode; return Array.from(top.querySelectorAll(selector)).includes(this); }
  closest(selector) { let at = this; while (at && !at.matches(selector)) at = at.parentNode; return at; }
  getAttribute(name) { return name in this.attributes ? this.attributes[name] : null; }
  hasAttribute(name) { return name in this.attributes; }
  removeAttribute(name) { delete this.attributes[name]; }
  setAttribute(name, value) { this.attributes[name] = String(value); }
  get innerHTML() { return this.kids.length ? this.kids.map((c) => c.innerHTML).join("") : this.ownText; }
  set innerHTML(value) { this.kids = []; this.ownText = value === null ? "" : String(value); }
  get textContent() { return this.innerHTML; }
  set textContent(value) { this.innerHTML = value; }
  walk(visit) { for (const c of this.kids) { visit(c); c.walk(visit); } }
  collect(test) { const out = []; this.walk((e) => { if (test(e)) out.push(e); }); return out; }
  // lookups by id exist on every svg element
  getElementById(id) { return this.collect((e) => e.id === String(id))[0] || null; }
  getElementsByClassName(name) { return new Collection(this.collect((e) => e.classList.contains(name))); }
  getElementsByTagName(name) { return new Collection(this.collect((e) => name === "*" || e.tagName === name)); }
  querySelectorAll(selector) {
    // lists of compound selectors: tag, #id, .class, [attr], [attr=value]; descendants
    const groups = selector.split(",").map((s) => s.trim().split(/\s+/));
    const one = (e, compound) => {
      const parts = compound.match(/[#.]?[\w-]+|\[[^\]]*\]|\*/g);
      return parts.every((p) => {
        if (p === "*") return true;
        if (p[0] === "#") return e.id === p.slice(1);
        if (p[0] === ".") return e.classList.contains(p.slice(1));
        if (p[0] === "[") {
          const m = p.slice(1, -1).match(/^([\w-]+)(?:([\^$*]?=)["']?([^"']*)["']?)?$/);
          const v = e.getAttribute(m[1]);
          if (v === null || !m[2]) return v !== null;
          return m[2] === "=" ? v === m[3] : m[2] === "^=" ? v.startsWith(m[3]) :
            m[2] === "$=" ? v.endsWith(m[3]) : v.includes(m[3]);
        }
        return e.tagName === p;
      });
    };
    return new NodeList(this.collect((e) => groups.some((g) => {
      if (!one(e, g[g.length - 1])) return false;
      let at = e.parentNode;
      for (let i = g.length - 2; i >= 0; i--) {
        while (at && !one(at, g[i])) at = at.parentNode;
        if (!at) return false;
        at = at.parentNode;
      }
      return true;
    })));
  }
  querySelector(selector) { return this.querySelectorAll(selector)[0] || null; }
}

const document = new Element(["#document", {}, "", [job.drawing]], null);
document.body = document.documentElement = document.children[0];
document.addEventListener = (name, f) => { if (/DOMContentLoaded|readystatechange/.test(name)) f(); };
document.readyState = "complete";
const handlers = {};
const socket = { on: (name, f) => { (handlers[name] = handlers[name] || []).push(f); }, emit: () => {} };
socket.addEventListener = socket.on;
// the page can be open under any address; its messages come from where the page came from
const location = new URL("http://table.example:18374/");
const io = (url) => {
  const where = url === undefined || typeof url === "object" ? location : new URL(String(url), location);
  if (where.host !== location.host || where.pathname !== "/") throw new Error("the script listens to " + where + " instead of its own server");
  return socket;
};
io.connect = io;
const window = { location, document, addEventListener: document.addEventListener };
const context = vm.createContext({
  document, window, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
  io, location, URL, setTimeout: (f) => f(), requestAnimationFrame: (f) => f(),
});
window.io = context.io;
new vm.Script(job.script).runInContext(context);
if (!handlers.config || !handlers.config.length) throw new Error("the script does not listen for config events");

const need = (id) => {
  const e = document.getElementById(id);
  if (!e) throw new Error("no element " + id);
  return e;
};
// an inline style beats the attribute
const look = (e, name) => (e.style[name] !== undefined && e.style[name] !== "" ? e.style[name] : e.getAttribute(name));
let hidden = [];
const seen = (e) => {
  for (let at = e; at; at = at.parentNode) {
    if (look(at, "display") === "none" || /^(hidden|collapse)$/.test(look(at, "visibility")) || /^0(\.0*|%)?$/.test(look(at, "opacity"))) hidden.push(e.id);
  }
  return e;
};
const card = (id) => {
  const e = seen(need(id));
  const t = e.getElementsByClassName("card-text")[0];
  return {
    text: t.innerHTML, fill: look(e.getElementsByClassName("card-background")[0], "fill"),
    color: look(t, "fill"), stroke: look(t, "stroke"),
  };
};
function view() {
  hidden = [];
  const n = document.getElementsByClassName("player").length;
  const out = { stacks: [], commits: [], cards: [], buttons: [], backgrounds: [], board: [] };
  for (let i = 0; i < n; i++) {
    out.stacks.push(seen(need("chips-text-" + i)).innerHTML);
    out.commits.push(seen(need("street-commit-text-" + i)).innerHTML);
    out.buttons.push(look(need("button-background-" + i), "fill"));
    out.backgrounds.push(look(need("player-background-" + i), "fill"));
    const held = [];
    for (let j = 0; document.getElementById(`card-${i}-${j}`); j++) held.push(card(`card-${i}-${j}`));
    out.cards.push(held);
  }
  for (let k = 1; document.getElementById("card-community-" + k); k++) out.board.push(card("card-community-" + k));
  out.deck = card("card-community-0");
  out.pot = seen(need("pot-text")).innerHTML;
  out.hidden = hidden;
  return out;
}

const views = [];
for (const state of job.states) {
  const text = JSON.stringify(state);
  try {
    for (const f of handlers.config) f(vm.runInContext("(" + text + ")", context));
    views.push(view());
  } catch (e) {
    views.push({ error: String(e && e.stack || e) });
  }
}
process.stdout.write(JSON.stringify(views));
