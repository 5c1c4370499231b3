// A small React: class and function components, hooks, refs, keyed children, batched updates, commits in the order of React
const { Node_, document_, SVG } = require("./document.js");
const Fragment = Symbol("fragment");
let owner = null, current = null, depth = 0;
let dirty = new Set(), commits = [];
const flat = (c, o = []) => { for (const k of Array.isArray(c) ? c : [c]) if (Array.isArray(k)) flat(k, o); else o.push(k === undefined || typeof k === "boolean" ? null : k); return o; };

function createElement(type, props, ...children) {
  if (type === undefined || type === null) throw new Error("Element type is invalid");
  const { key, ref, ...p } = props || {};
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  if (type.defaultProps) for (const k in type.defaultProps) if (p[k] === undefined) p[k] = type.defaultProps[k];
  return { $el: true, type, key: key === undefined || key === null ? null : String(key), ref: ref === undefined ? null : ref, props: p, owner };
}
const isValidElement = (e) => !!(e && e.$el);
class Component {
  constructor(props) { this.props = props; this.refs = {}; }
  setState(u, cb) { this.__inst.pending.push(u); if (cb) this.__inst.callbacks.push(cb); enqueue(this.__inst); }
  forceUpdate(cb) { this.__inst.force = true; if (cb) this.__inst.callbacks.push(cb); enqueue(this.__inst); }
}
Component.prototype.isReactComponent = {};
class PureComponent extends Component {}
PureComponent.prototype.isPure = true;
const same = (a, b) => { const k = Object.keys(a || {}), l = Object.keys(b || {}); return k.length === l.length && k.every((i) => Object.is(a[i], (b || {})[i])); };

function enqueue(inst) { if (inst.gone) return; dirty.add(inst); if (depth === 0) flush(); }
function batch(f) { depth++; try { return f(); } finally { depth--; if (depth === 0) flush(); } }
function flush() {
  let n = 0;
  depth++;
  try {
    while (dirty.size || commits.length) {
      if (++n > 60) throw new Error("too many nested updates");
      const list = [...dirty].sort((a, b) => a.level - b.level);
      for (const i of list) if (dirty.has(i) && !i.gone) update(i, i.el);
      const c = commits; commits = [];
      for (const f of c) if (f.layout) f.run();
      for (const f of c) if (!f.layout) f.run();
    }
  } finally { depth--; dirty = new Set(); commits = []; }
}
const later = (run, layout = true) => commits.push({ run, layout });

const same_type = (i, el) => i && el !== null && i.el !== null && (typeof el !== "object" ? i.kind === "text" : i.kind !== "text" && i.el.type === el.type && i.el.key === el.key);
function mount(el, level) {
  const i = { el, level, children: [], node: null, gone: false, pending: [], callbacks: [], hooks: [], force: false };
  if (el === null) { i.kind = "empty"; return i; }
  if (typeof el !== "object") { i.kind = "text"; i.node = document_.createTextNode(String(el)); return i; }
  if (!el.$el) throw new Error("Objects are not valid as a React child");
  const t = el.type;
  if (typeof t === "string") { i.kind = "host"; i.node = new Node_(t, SVG); host(i, {}); }
  else if (t === Fragment) { i.kind = "fragment"; kids(i, el.props.children); }
  else if (typeof t === "function" && t.prototype && t.prototype.isReactComponent) {
    i.kind = "class";
    const c = (i.comp = new t(el.props, t.contextType && t.contextType.value));
    c.props = el.props; c.__inst = i; c.context = t.contextType ? t.contextType.value : {}; c.refs = c.refs || {};
    if (c.state === undefined) c.state = null;
    derive(t, c);
    kids(i, render(c, () => c.render()));
    later(() => { if (c.componentDidMount) c.componentDidMount(); });
  } else { i.kind = "function"; kids(i, call(i)); }
  refs(i, null);
  return i;
}
const derive = (t, c) => { if (t.getDerivedStateFromProps) { const s = t.getDerivedStateFromProps(c.props, c.state); if (s) c.state = { ...c.state, ...s }; } };
function render(o, f) { const w = owner; owner = o; try { return f(); } finally { owner = w; } }
function call(i) {
  const c = current; current = { i, n: 0 };
  const t = i.el.type;
  const f = t.render || t.type || t;
  try { return t.render ? f(i.el.props, i.el.ref) : f(i.el.props); } finally { current = c; }
}
function refs(i, old) {
  const r = i.el.ref;
  if (r === null || i.el.type.render) return;
  const v = i.comp || i.node;
  if (old === r) return;
  later(() => { if (typeof r === "function") r(v); else if (typeof r === "string") i.el.owner.refs[r] = v; else r.current = v; });
}
function host(i, prev) {
  const p = i.el.props, n = i.node;
  n.__props = p;
  for (const k of new Set([...Object.keys(prev), ...Object.keys(p)])) {
    if (k === "children" || /^on[A-Z]/.test(k)) continue;
    if (k === "className") { if (prev[k] !== p[k]) { if (p[k]) n.attrs.class = String(p[k]); else delete n.attrs.class; } }
    else if (k === "style") { for (const s in prev.style || {}) delete n.styles[s]; Object.assign(n.styles, p.style || {}); }
    else if (p[k] === undefined || p[k] === null) { if (prev[k] !== undefined) delete n.attrs[k]; }
    else if (prev[k] !== p[k] && typeof p[k] !== "object" && typeof p[k] !== "function") n.attrs[k] = String(p[k]);
  }
  kids(i, p.children);
  const now = i.children.reduce((a, k) => a.concat(nodes(k)), []), was = i.managed || [];
  for (const k of was) if (!now.includes(k) && k.parentNode === n) n.removeChild(k);
  if (now.length !== was.length || now.some((k, j) => was[j] !== k)) for (const k of now) n.appendChild(k);
  i.managed = now;
}
const nodes = (i) => (i.node ? [i.node] : i.children.reduce((a, k) => a.concat(nodes(k)), []));
function kids(i, children) {
  const list = children === undefined ? [] : flat(children), old = i.children, used = new Set();
  i.children = list.map((el, j) => {
    const key = el && typeof el === "object" ? el.key : null;
    let o = key !== null ? old.find((k) => k.el && k.el.key === key && !used.has(k)) : old[j];
    if (o && used.has(o)) o = null;
    if (o && key === null && o.el && o.el.key) o = null;
    if (el === null && o && o.kind === "empty") { used.add(o); return o; }
    if (same_type(o, el)) { used.add(o); update(o, el); return o; }
    const n = mount(el, i.level + 1);
    n.parent = i;
    return n;
  });
  for (const o of old) if (!used.has(o)) unmount(o);
}
function unmount(i) {
  i.gone = true;
  dirty.delete(i);
  if (i.kind === "class" && i.comp.componentWillUnmount) i.comp.componentWillUnmount();
  for (const h of i.hooks) if (h.clean) { h.clean(); h.clean = null; }
  for (const k of i.children) unmount(k);
  if (i.el && i.el.ref && typeof i.el.ref === "object") i.el.ref.current = null;
}
function update(i, el) {
  const prev = i.el;
  const pendingUpdate = dirty.delete(i) || i.pending.length || i.force;
  if (i.kind === "text") { if (prev !== el) { i.el = el; i.node.text = String(el); } return; }
  if (prev === el && !pendingUpdate) return below(i);
  i.el = el;
  if (i.kind === "host") host(i, prev.props);
  else if (i.kind === "fragment") kids(i, el.props.children);
  else if (i.kind === "class") {
    const c = i.comp, props = c.props, state = c.state;
    let next = state;
    for (const u of i.pending.splice(0)) { const d = typeof u === "function" ? u(next, el.props) : u; if (d !== null && d !== undefined) next = { ...next, ...d }; }
    if (el.type.getDerivedStateFromProps) { const s = el.type.getDerivedStateFromProps(el.props, next); if (s) next = { ...next, ...s }; }
    let go = true;
    if (!i.force) {
      if (c.shouldComponentUpdate) go = c.shouldComponentUpdate(el.props, next) !== false;
      else if (c.isPure) go = !(same(props, el.props) && same(state, next));
    }
    i.force = false;
    c.props = el.props; c.state = next;
    const cb = i.callbacks.splice(0);
    if (go) {
      const out = render(c, () => c.render());
      kids(i, out);
      const snap = c.getSnapshotBeforeUpdate ? c.getSnapshotBeforeUpdate(props, state) : undefined;
      later(() => { if (c.componentDidUpdate && !i.gone) c.componentDidUpdate(props, state, snap); });
    } else below(i);
    for (const f of cb) later(() => f.call(c));
  } else if (i.kind === "function") {
    const memo = i.el.type.compare;
    if (memo && !pendingUpdate && memo(prev.props, el.props)) return below(i);
    kids(i, call(i));
  }
  refs(i, prev.ref);
  lift(i);
}
// a component's own update may change the elements its parent element holds
function lift(i) {
  if (i.kind === "host") return;
  let p = i.parent;
  while (p && p.kind !== "host") p = p.parent;
  if (!p) return;
  const n = p.node, now = p.children.reduce((a, k) => a.concat(nodes(k)), []), was = p.managed || [];
  if (now.length === was.length && now.every((k, j) => was[j] === k)) return;
  for (const k of was) if (!now.includes(k) && k.parentNode === n) n.removeChild(k);
  for (const k of now) n.appendChild(k);
  p.managed = now;
}
function below(i) { for (const k of i.children) if (k.el !== null) { if (dirty.has(k)) update(k, k.el); else below(k); } }

const hook = (make) => { const { i } = current, n = current.n++; if (n >= i.hooks.length) i.hooks.push(make(i)); return i.hooks[n]; };
const changed = (a, b) => a === undefined || b === undefined || a.length !== b.length || a.some((v, k) => !Object.is(v, b[k]));
function useReducer(red, init, f) {
  const h = hook((i) => { const s = { value: f ? f(init) : typeof init === "function" && red === basic ? init() : init }; s.set = (a) => { const v = s.red(s.value, a); if (!Object.is(v, s.value)) { s.value = v; enqueue(i); } }; return s; });
  h.red = red;
  return [h.value, h.set];
}
const basic = (s, a) => (typeof a === "function" ? a(s) : a);
const useState = (v) => useReducer(basic, v);
const useRef = (v) => hook(() => ({ ref: { current: v } })).ref;
const useMemo = (f, d) => { const h = hook(() => ({})); if (!("value" in h) || changed(h.deps, d)) { h.value = f(); h.deps = d; } return h.value; };
const useCallback = (f, d) => useMemo(() => f, d);
const effect = (layout) => (f, d) => {
  const i = current.i, h = hook(() => ({}));
  if (!h.was || changed(h.deps, d)) { h.was = true; h.deps = d; later(() => { if (i.gone) return; if (h.clean) h.clean(); const r = f(); h.clean = typeof r === "function" ? r : null; }, layout); }
};
const createContext = (v) => { const c = { value: v }; c.Provider = (p) => { c.value = p.value; return p.children; }; c.Consumer = (p) => p.children(c.value); return c; };
const memo = (t, c) => { const m = (p) => createElement(t, p); m.compare = c || same; return m; };
const forwardRef = (f) => { const t = () => null; t.render = f; return t; };
let ids = 0;
const useId = () => useState(() => ":r" + ids++ + ":")[0];
const useImperativeHandle = (ref, f, d) => effect(true)(() => { if (typeof ref === "function") ref(f()); else if (ref) ref.current = f(); }, d);
const useSyncExternalStore = (subscribe, get) => { const [, again] = useReducer((n) => n + 1, 0); effect(true)(() => subscribe(again), [subscribe]); return get(); };
const lazy = () => { throw new Error("no lazy components here"); };
const React = { StrictMode: Fragment, Suspense: Fragment, Profiler: Fragment, version: "17.0.2", useId, useImperativeHandle, useSyncExternalStore, lazy, useInsertionEffect: effect(true), useDebugValue: () => {}, useDeferredValue: (v) => v, useTransition: () => [false, batch], startTransition: batch, createFactory: (t) => (...a) => createElement(t, ...a), createElement, isValidElement, Component, PureComponent, Fragment, useState, useReducer, useRef, useMemo, useCallback, useEffect: effect(false), useLayoutEffect: effect(true), useContext: (c) => c.value,
  createContext, memo, forwardRef, createRef: () => ({ current: null }), Children: { map: (c, f) => flat(c === undefined ? [] : c).map(f), toArray: (c) => flat(c === undefined ? [] : c).filter((k) => k !== null), forEach: (c, f) => flat(c).forEach(f), count: (c) => flat(c).length, only: (c) => c }, cloneElement: (e, p) => ({ ...e, props: { ...e.props, ...p } }) };
function into(el, node) {
  return batch(() => {
    let r = node.__root;
    if (r) update(r, createElement(Fragment, null, el));
    else { r = node.__root = mount(createElement(Fragment, null, el), 0); }
    const now = nodes(r);
    for (const k of node.childNodes.slice()) if (!now.includes(k)) node.removeChild(k);
    for (const k of now) if (k.parentNode !== node) node.appendChild(k);
    return r.children[0] && r.children[0].comp;
  });
}
const find = (c) => (c instanceof Node_ ? c : c && c.__inst ? nodes(c.__inst)[0] || null : null);
const gone = (node) => { if (!node.__root) return false; batch(() => unmount(node.__root)); node.__root = null; node.replaceChildren(); return true; };
const ReactDOM = { render: into, findDOMNode: find, unmountComponentAtNode: gone, unstable_batchedUpdates: batch, flushSync: (f) => f(), createRoot: (n) => ({ render: (e) => into(e, n), unmount: () => gone(n) }) };

// react-hyperscript and @macrostrat/hyper
function h(type, ...rest) {
  if (Array.isArray(type)) return createElement(Fragment, null, ...type);
  let props = {};
  const plain = (x) => x !== null && typeof x === "object" && !Array.isArray(x) && !x.$el;
  if (rest.length && (plain(rest[0]) || rest[0] === null || rest[0] === undefined)) props = rest.shift() || {};
  if (typeof type === "string") {
    const cls = (type.match(/\.[\w-]+/g) || []).map((s) => s.slice(1)), id = (type.match(/#[\w-]+/) || [])[0];
    type = (type.match(/^[\w-]+/) || ["div"])[0];
    const cn = [...cls, ...(props.className ? [props.className] : [])].join(" ");
    props = { ...props, ...(cn ? { className: cn } : {}), ...(id ? { id: id.slice(1) } : {}) };
  }
  return rest.length ? createElement(type, props, ...(rest.length === 1 && Array.isArray(rest[0]) ? rest[0] : rest)) : createElement(type, props);
}
h.if = (c) => (...a) => (c ? h(...a) : null);
module.exports = { React, ReactDOM, h, batch };
