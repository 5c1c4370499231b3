// A small document: elements, attributes, styles, listeners and simple selectors, enough for d3 and for react.js
const SVG = "http://www.w3.org/2000/svg";
class Target {
  constructor() { this.listeners = []; }
  addEventListener(t, f, c) { if (!this.listeners.some((l) => l[0] === t && l[1] === f)) this.listeners.push([t, f, c]); }
  removeEventListener(t, f) { this.listeners = this.listeners.filter((l) => !(l[0] === t && l[1] === f)); }
  fire(t, e) { for (const [n, f] of this.listeners.slice()) if (n === t) f.call(this, e); }
}
// groups of compound selectors (tags, classes, ids, :not of these) joined by descendant and child combinators
const simple = (s) => {
  const m = s.match(/^([\w-]*|\*)((?:[.#][\w-]+|:not\([^()]*\))*)$/);
  if (!m) throw new Error("selector " + s);
  const tests = (m[2].match(/[.#][\w-]+|:not\([^()]*\)/g) || []).map((t) => (t[0] === "." ? (n) => n.classes.includes(t.slice(1)) : t[0] === "#" ? (n) => n.attrs.id === t.slice(1) : ((f) => (n) => !f(n))(simple(t.slice(5, -1).trim()))));
  return (n) => (!m[1] || m[1] === "*" || m[1] === n.tagName) && tests.every((f) => f(n));
};
const known = new Map();
const parse = (css) => {
  if (!known.has(css)) known.set(css, css.split(",").map((s) => s.trim().replace(/\s*>\s*/g, " >").split(/\s+/).map((k) => [k[0] === ">", simple(k.replace(/^>/, ""))])));
  return known.get(css);
};
const fits = (n, chain, i) => {
  if (!n.classes || !chain[i][1](n)) return false;
  if (i === 0) return true;
  for (let p = n.parentNode; p; p = p.parentNode) { if (fits(p, chain, i - 1)) return true; if (chain[i][0]) return false; }
  return false;
};
class Node_ extends Target {
  constructor(tag, uri) {
    super();
    this.tagName = this.nodeName = tag; this.namespaceURI = uri; this.ownerDocument = document_; this.nodeType = 1;
    this.attrs = {}; this.childNodes = []; this.parentNode = null; this.text = null;
    const st = (this.styles = {});
    this.style = { setProperty: (k, v) => { st[k] = v; }, removeProperty: (k) => { delete st[k]; }, getPropertyValue: (k) => st[k] };
  }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  removeAttribute(k) { delete this.attrs[k]; }
  removeAttributeNS(ns, k) { delete this.attrs[k]; }
  hasAttribute(k) { return k in this.attrs; }
  get classes() { return (this.attrs.class || "").split(/\s+/).filter(Boolean); }
  get classList() {
    const n = this, set = (l) => { n.attrs.class = l.join(" "); };
    return { contains: (c) => n.classes.includes(c), add: (...c) => set([...new Set([...n.classes, ...c])]), remove: (...c) => set(n.classes.filter((k) => !c.includes(k))),
      toggle: (c, f = !n.classes.includes(c)) => { set(f ? [...new Set([...n.classes, c])] : n.classes.filter((k) => k !== c)); return f; } };
  }
  get parentElement() { return this.parentNode; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) + 1] || null; }
  get previousSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) - 1] || null; }
  get firstElementChild() { return this.firstChild; }
  hasChildNodes() { return this.childNodes.length > 0; }
  append(...l) { for (const k of l) this.appendChild(k); }
  get children() { return this.childNodes; }
  insertBefore(n, b) {
    if (n.parentNode) n.parentNode.removeChild(n);
    const i = b ? this.childNodes.indexOf(b) : this.childNodes.length;
    this.childNodes.splice(i, 0, n); n.parentNode = this; return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) { this.childNodes = this.childNodes.filter((k) => k !== n); n.parentNode = null; return n; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...l) { for (const k of this.childNodes.slice()) this.removeChild(k); for (const k of l) this.appendChild(k); }
  focus() {}
  set innerHTML(t) { if (t !== "") throw new Error("innerHTML"); this.replaceChildren(); }
  set textContent(t) { this.replaceChildren(); this.text = t; }
  get textContent() { return (this.text === null ? "" : String(this.text)) + this.childNodes.map((k) => k.textContent).join(""); }
  matches(css) { return parse(css).some((c) => fits(this, c, c.length - 1)); }
  closest(css) { for (let n = this; n; n = n.parentNode) if (n.matches(css)) return n; return null; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  all() { return this.childNodes.reduce((a, k) => a.concat([k], k.all()), []); }
  querySelectorAll(css) { return this.all().filter((n) => n.matches(css)); }
  querySelector(css) { return this.querySelectorAll(css)[0] || null; }
  compareDocumentPosition() { return 4; }
}
const document_ = { createElementNS: (u, t) => new Node_(t, u), createElement: (t) => new Node_(t, SVG), createTextNode: (t) => { const n = new Node_("#text", SVG); n.text = t; return n; } };
document_.documentElement = new Node_("html", SVG);
const window_ = new Target();
window_.document = document_;
document_.defaultView = window_;
module.exports = { Node_, document_, window_, SVG };
