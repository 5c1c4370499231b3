// Drives the notebook interface and the web application of /repo's frontend, in a small document with a small React.
// argv[2]: repository; stdin: JSON list of cases; stdout: JSON list of results
const path = require("path");
const fs = require("fs");
const Module = require("module");
const { Node_, document_, window_, SVG } = require("./document.js");
const { React, ReactDOM, h, batch } = require("./react.js");
const NM = "/opt/veriftools/node/node_modules";
const esbuild = require(path.join(NM, "esbuild"));
const repo = process.argv[2];
const packages = path.join(repo, "frontend/packages");
const lib = path.join(packages, "attitude/lib");
console.log = console.warn = () => {};
global.document = document_;
global.window = window_;
const D3 = require(path.join(lib, "d3v4+jetpack.js"));
new Function("exports", "module", "define", fs.readFileSync(path.join(lib, "d3-selection-multi.min.js"), "utf8")).call({ d3: D3 });

// -- stand-ins for the libraries that are not here ----------------------------
const COLOURS = ["teal", "red", "black", "white", "gray", "dodgerblue"];
const chroma = (c) => {
  if (typeof c !== "string" || !(COLOURS.includes(c) || /^#[0-9a-f]{3,6}$/i.test(c))) throw new Error("colour");
  return { alpha: (a) => ({ css: () => c + "/" + a, hex: () => c }), darken: (a) => ({ css: () => c + "-" + a, hex: () => c + "-" + a }), css: () => c, hex: () => c, name: () => c };
};
chroma.valid = (c) => { try { chroma(c); return true; } catch (e) { return false; } };
chroma.default = chroma;
const hosted = (tag) => { const f = ({ children, ...p }) => h(tag, { ...p, given: p }, children === undefined ? [] : [].concat(children)); return f; };
class Tabs extends React.Component {
  constructor(p) { super(p); this.state = { selected: p.defaultSelectedTabId }; }
  render() {
    const { children, renderActiveTabPanelOnly, selectedTabId, onChange, className } = this.props;
    const tabs = React.Children.toArray(children).filter((k) => k.type === Tab);
    const sel = selectedTabId !== undefined ? selectedTabId : this.state.selected !== undefined ? this.state.selected : tabs.length && tabs[0].props.id;
    return h("tabs", { className }, tabs.map((t) => h("tab", { id: t.props.id, key: t.props.id, onClick: () => { this.setState({ selected: t.props.id }); if (onChange) onChange(t.props.id, sel); } },
      !renderActiveTabPanelOnly || t.props.id === sel ? [t.props.panel] : [])));
  }
}
const Tab = () => null;
Tabs.Expander = Tab.Expander = () => null;
const blueprint = { FocusStyleManager: { onlyShowFocusOnTabs() {} }, Tabs, Tab, Card: hosted("div"), Switch: hosted("switch"), Checkbox: hosted("switch"), Button: hosted("button"), ButtonGroup: hosted("div"), Label: hosted("label"), NumericInput: hosted("numeric"), Popover2: hosted("popover") };
const through = ({ children }) => (children === undefined ? null : children);
const store = new Map();
const useStoredState = (key, initial, check = null) => {
  const [v, set] = React.useState(() => { const s = store.has(key) ? JSON.parse(store.get(key)) : undefined; return s !== undefined && (check === null || check(s)) ? s : initial; });
  const put = (n) => { store.set(key, JSON.stringify(n)); set(() => n); };
  return [v, put, () => put(initial)];
};
// react-datasheet: cells that are drawn with the renderers it is given
class ReactDataSheet extends React.Component {
  render() {
    const { data, valueRenderer, rowRenderer, sheetRenderer, attributesRenderer, onCellsChanged, className } = this.props;
    const rows = data.map((cells, r) => h(rowRenderer || "tr", { key: "r" + r, row: r, cells }, cells.map((cell, c) => {
      const v = valueRenderer(cell, r, c);
      return h("td", { key: "c" + c, ...(attributesRenderer ? attributesRenderer(cell, r, c) : {}), className: "value" }, v === null || v === undefined ? [] : [String(v)]);
    })));
    return h("datasheet", { onCellsChanged, grid: data }, [h(sheetRenderer || "table", { data, className: "data-grid " + (className || "") }, rows)]);
  }
}
const update = (o, spec) => {
  if ("$set" in spec) return spec.$set;
  if ("$apply" in spec) return spec.$apply(o);
  if (typeof spec === "function") return spec(o);
  let n = o;
  if (spec.$push) n = [...n, ...spec.$push];
  if (spec.$unshift) n = [...spec.$unshift, ...n];
  if (spec.$merge) n = { ...n, ...spec.$merge };
  if (spec.$splice) { n = [...n]; for (const a of spec.$splice) n.splice(...a); }
  if (spec.$unset) { n = { ...n }; for (const k of spec.$unset) delete n[k]; }
  for (const k of Object.keys(spec)) if (k[0] !== "$") { const v = update(n[k], spec[k]); if (v !== n[k] || !(k in n)) { if (n === o) n = Array.isArray(o) ? [...o] : { ...o }; n[k] = v; } }
  return n;
};
const rad = Math.PI / 180;
const mul = ([a, b, c, d], [e, f, g, i]) => [a * e - b * f - c * g - d * i, a * f + b * e + c * i - d * g, a * g - b * i + c * e + d * f, a * i + b * g - c * f + d * e];
const names = (...l) => l.map((x) => (!x ? "" : typeof x === "string" ? x : Array.isArray(x) ? names(...x) : Object.keys(x).filter((k) => x[k]).join(" "))).filter(Boolean).join(" ");
const es = (o, d) => Object.assign(d === undefined ? {} : d, o, { __esModule: true, default: d });
global.__libs = {
  d3: D3, react: es(React, React), "react-dom": es(ReactDOM, ReactDOM), "react-dom/client": ReactDOM, "react-hyperscript": es({}, h), "@macrostrat/hyper": es({ hyperStyled: () => h }, h),
  "@blueprintjs/core": blueprint, "@blueprintjs/popover2": blueprint, "chroma-js": es({ valid: chroma.valid }, chroma), uuid: { __esModule: true, v4: () => "0a-" + global.__uid++, default: { v4: () => "0a-" + global.__uid++ } },
  underscore: require(path.join(NM, "underscore")), mathjs: require(path.join(lib, "math.js")), quaternion: class Q {}, classnames: es({}, names), "react-copy-to-clipboard": { CopyToClipboard: hosted("clipboard") },
  "react-datasheet": es({ DataEditor: hosted("editor") }, ReactDataSheet), "immutability-helper": es({}, (o, s) => update(o, s)), "react-color": { SketchPicker: hosted("picker") },
  "@macrostrat/ui-components": { useStoredState, ErrorBoundary: through }, "kld-intersections": { Shapes: {}, Intersection: {} }, "kld-path-parser": { PathParser: class {} }, "kld-intersections/lib/PathHandler": class {},
  "attitude/src/versor": { versor_fromAxisAngle: ([l, p], a) => { const c = Math.cos(a * rad / 2), s = Math.sin(a * rad / 2); return [c, s * Math.cos(p * rad) * Math.cos(l * rad), s * Math.cos(p * rad) * Math.sin(l * rad), s * Math.sin(p * rad)]; }, versor_multiply: mul },
  // rows are the directions that the axes are turned into
  "attitude/src/matrix": { versor_toRotationMatrix: (q) => [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]].map((v) => mul(mul(q, v), [q[0], -q[1], -q[2], -q[3]]).slice(1)) },
};
global.__uid = 0;
global.__libs.d3 = Object.defineProperty(Object.assign({}, D3), "event", { get: () => D3.event, enumerable: true });
// few points for the graticule, which is looked at elsewhere
global.__libs.d3.geoGraticule = () => D3.geoGraticule().precision(15);
const ALIAS = { "@attitude/core": "attitude", "@attitude/notebook-ui": "notebook-ui", "@attitude/plots": "plots" };
const multi = (p) => {
  const m = p.match(/^d3-(?:selection-multi|jetpack)\/(?:src\/)?(?:(selection|transition)\/)?(\w+)(?:\.js)?$/);
  return m && m[2] !== "index" ? `module.exports = global.__libs.d3.${m[1] || "selection"}.prototype.${m[2]};` : "module.exports = {};";
};
const plugin = {
  name: "standins",
  setup(b) {
    b.onResolve({ filter: /\.(styl|css)$/ }, () => ({ path: "empty", namespace: "virtual" }));
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.kind === "entry-point") return undefined;
      const m = a.path.match(/^(@attitude\/[\w-]+)(?:\/src)?(\/.*)?$/);
      if (m && ALIAS[m[1]]) { const f = path.join(packages, ALIAS[m[1]], "src", m[2] || "/index"); return { path: [f, f + ".ts", f + ".tsx", f + "/index.ts"].find((k) => fs.existsSync(k) && fs.statSync(k).isFile()) }; }
      if (/^d3-(selection-multi|jetpack)/.test(a.path)) return { path: a.path, namespace: "virtual" };
      if (/^d3(-|$)/.test(a.path)) return { path: "d3", namespace: "virtual" };
      if (/^(core-js|regenerator-runtime)/.test(a.path)) return { path: "empty", namespace: "virtual" };
      return { path: a.path, namespace: "virtual" };
    });
    b.onLoad({ filter: /.*/, namespace: "virtual" }, (a) => {
      if (a.path in global.__libs) return { contents: `module.exports = global.__libs[${JSON.stringify(a.path)}];`, loader: "js" };
      if (/^d3-/.test(a.path)) return { contents: multi(a.path), loader: "js" };
      return { contents: a.path === "empty" ? "module.exports = {};" : `throw new Error("no stand-in for ${a.path}");`, loader: "js" };
    });
  },
};
async function load(entry) {
  const r = await esbuild.build({ stdin: { contents: entry, resolveDir: packages, loader: "ts" }, bundle: true, write: false, platform: "node", format: "cjs", logLevel: "silent", plugins: [plugin], tsconfigRaw: {} });
  const m = new Module("/bundle.js");
  m.paths = [];
  m._compile(r.outputFiles[0].text, "/bundle.js");
  return m.exports;
}

const texts = (n) => n.textContent;
const geo = (p, d) => { const g = D3.geoPath().projection(p).pointRadius(2); return d === undefined ? undefined : g(d); };
// inclination of the centre of each ring, and how far the ring is from it
const cap = (f) => (f && f.geometry ? f.geometry.coordinates : []).map(([ring]) => {
  const v = ring.map(([l, p]) => [Math.cos(p * rad) * Math.cos(l * rad), Math.cos(p * rad) * Math.sin(l * rad), Math.sin(p * rad)]);
  const c = [0, 1, 2].map((i) => v.reduce((t, q) => t + q[i], 0)), n = Math.hypot(...c);
  const a = v.map((q) => Math.atan2(Math.hypot(q[1] * c[2] - q[2] * c[1], q[2] * c[0] - q[0] * c[2], q[0] * c[1] - q[1] * c[0]) / n, (q[0] * c[0] + q[1] * c[1] + q[2] * c[2]) / n) / rad);
  return [Math.acos(c[2] / n) / rad, Math.max(...a), Math.min(...a)];
});
const drawing = (svg, turn, all) => {
  // which drawings there are of which data, and whether every path is the projection of its datum
  const group = (n) => ({ uid: n.__data__ && n.__data__.uid, row: n.__data__ && n.__data__.strike, of: n.parentNode.attrs.class, in: n.classes.includes("in-group"), is: n.classes.includes("is-group"), kind: n.classes.includes("plane") ? "plane" : "pole",
    parts: n.childNodes.map((k) => ({ class: k.attrs.class, fill: k.attrs.fill, stroke: k.attrs.stroke, style: { ...k.styles }, drawn: k.attrs.d !== undefined && k.attrs.d !== "null" })) });
  return { groups: svg.querySelectorAll("g.plane,g.normal").map(group), containers: (svg.querySelector("g.data") || { childNodes: [] }).childNodes.map((k) => k.attrs.class),
    labels: svg.querySelectorAll("g.label").map((n) => n.__data__.name + "/" + n.styles.display), stale: turn ? svg.querySelectorAll("path").filter((n) => all || n.attrs.class !== "graticule").filter((n) => n.__data__ !== undefined && (n.attrs.d === undefined ? "null" : n.attrs.d) !== String(geo(turn, n.__data__))).length : 0 };
};

(async () => {
  const cases = JSON.parse(fs.readFileSync(0, "utf8"));
  const N = cases.some((c) => c.fn === "notebook") ? await load('export * from "./notebook-ui/src/index"; export * as core from "./attitude/src/index";') : null;
  const W = cases.some((c) => c.fn === "webapp") ? await load('export * from "./webapp/src/app"; export * as core from "./attitude/src/index"; export * as sheet from "./webapp/src/sheet";') : null;
  let nets = [];
  // the stereonets that are made are remembered, to know their projections
  for (const M of [N, W]) if (M) { const p = D3.geoAzimuthalEqualArea; global.__libs.d3.geoAzimuthalEqualArea = () => { const q = p(); nets.push(q); return q; }; }

  const notebook = (c) => {
    window_.listeners = []; nets = [];
    const root = new Node_("div", SVG), seen = [];
    const data = c.data;
    const props = (d) => ({ attitudes: d, stereonetPrecision: c.precision === undefined ? 0 : c.precision, ...(c.props || {}) });
    const show = (d) => { if (c.create) N.createUI(root, d); else ReactDOM.render(h(N.AttitudeUI, props(d)), root); };
    show(data);
    const act = (k) => batch(k);
    const li = (uid) => root.querySelectorAll("li").find((n) => n.textContent === uid && n.__props.onClick);
    const button = (t) => root.querySelectorAll("button").find((n) => n.textContent === t);
    const press = (n) => { if (!n) return "absent"; if (n.__props.disabled) return "disabled"; act(() => n.__props.onClick({ preventDefault() {}, stopPropagation() {} })); return "done"; };
    const looks = [];
    const observe = () => {
    const svg = root.querySelector("svg.stereonet"), panel = root.querySelector("div.plane-desc");
    const items = root.querySelectorAll("li").filter((n) => n.__props.onClick);
    return { list: items.map((n) => ({ uid: n.textContent, selected: n.classes.includes("selected"), hovered: n.classes.includes("hovered"), style: n.__props.style || {} })),
      buttons: root.querySelectorAll("button").map((n) => [n.textContent, !!n.__props.disabled]), switches: root.querySelectorAll("switch").map((n) => [n.__props.label, !!n.__props.checked]),
      clipboard: root.querySelectorAll("clipboard").map((n) => n.__props.given.text), panel: panel.textContent, numbers: panel.querySelectorAll("li").map(texts), id: (panel.querySelector("span.id") || { textContent: null }).textContent,
      nets: root.querySelectorAll("svg.stereonet").length, rotate: nets[0].rotate(), drawing: drawing(svg, nets[0], !c.each), roots: root.childNodes.length };
    };
    if (c.each) looks.push(observe());
    for (const [ev, ...a] of c.events) {
      let r = "done";
      if (ev === "click") { const n = li(a[0]); if (n) act(() => n.__props.onClick({})); else r = "absent"; }
      else if (ev === "over") { const n = li(a[0]); if (n) act(() => n.__props.onMouseOver({})); else r = "absent"; }
      else if (ev === "enter") {
        const g = root.querySelectorAll(a[1]).find((n) => n.__data__.uid === a[0] && n.parentNode.attrs.class !== "hovered"), p = g && g.querySelector("path.error");
        if (p) p.fire("mouseenter", {}); else r = "absent";
      } else if (ev === "leave") root.childNodes[0].fire("mouseleave", {});
      else if (ev === "arrive") root.childNodes[0].fire("mouseenter", {});
      else if (ev === "press") r = press(button(a[0]));
      else if (ev === "zoom") r = press(button("Show only selection") || button("Show all data"));
      else if (ev === "switch") { const n = root.querySelectorAll("switch").find((k) => k.__props.label === a[0]); if (n) act(() => n.__props.onChange({ target: { checked: !n.__props.checked }, currentTarget: { checked: !n.__props.checked } })); else r = "absent"; }
      else if (ev === "drag") { const s = root.querySelector("svg.stereonet"); s.fire("mousedown", { pageX: 0, pageY: 0, preventDefault() {} }); window_.fire("mousemove", { pageX: a[0], pageY: a[1] }); window_.fire("mouseup", { pageX: a[0], pageY: a[1] }); }
      else if (ev === "data") show(a[0].map((d) => data.find((o) => o.uid === d.uid) || d));
      else if (ev === "replace") { if (root.querySelectorAll("li").some((n) => n.classes.includes("selected") || n.classes.includes("hovered")) || root.querySelector("span.id")) r = "absent"; else show(a[0]); }
      else throw new Error(ev);
      seen.push(r);
      if (c.each) looks.push(observe());
    }
    if (!c.each) looks.push(observe());
    return { seen, looks };
  };
  const webapp = (c) => {
    window_.listeners = []; nets = []; store.clear();
    for (const [k, v] of c.stored || []) store.set(k, JSON.stringify(v));
    let root = new Node_("div", SVG);
    const show = () => ReactDOM.render(h(W.App), root);
    show();
    const grids = [], seen = [];
    const sheet = () => root.querySelector("datasheet");
    const press = (t) => { const n = root.querySelectorAll("button").find((k) => k.textContent === t); batch(() => n.__props.onClick({ preventDefault() {} })); };
    const looks = [];
    const observe = () => {
    const rows = sheet().querySelectorAll("tr").filter((r) => r.querySelectorAll("td.value").length);
    const svg = root.querySelector("svg");
    return { rows: rows.map((r) => r.querySelectorAll("td.value").map((t) => [t.textContent, t.attrs["data-status"]])), index: rows.map((r) => r.querySelectorAll("td.index").map(texts)),
      header: sheet().querySelectorAll("td.header-cell").map(texts), svgs: root.querySelectorAll("svg").map((s) => s.attrs.class), drawing: drawing(svg, nets[nets.length - 1], !c.each), shapes: svg.querySelectorAll("g.normal").map((n) => n.__data__), caps: svg.querySelectorAll("g.normal").map((n) => cap(n.childNodes[0] && n.childNodes[0].__data__)),
      clip: nets[nets.length - 1].clipAngle(), rotate: nets[nets.length - 1].rotate(), angle: root.querySelectorAll("numeric").map((n) => n.__props.given.value) };
    };
    if (c.each) looks.push(observe());
    for (const [ev, ...a] of c.events) {
      const before = sheet().__props.grid, given = JSON.stringify(before);
      if (ev === "edit") batch(() => sheet().__props.onCellsChanged(a[0].map(([row, col, value]) => ({ cell: before[row][col], row, col, value }))));
      else if (ev === "more") press("Add more rows");
      else if (ev === "reset") press("Reset data");
      else if (ev === "tab") { const n = root.querySelectorAll("tab").find((k) => k.attrs.id === a[0]); batch(() => n.__props.onClick()); }
      else if (ev === "angle") { const n = root.querySelector("numeric"); if (n) batch(() => n.__props.onValueChange(a[0], String(a[0]))); }
      else if (ev === "hover") { for (const n of root.querySelectorAll("path.error")) n.fire("mouseenter", {}); }
      else if (ev === "reload") { ReactDOM.unmountComponentAtNode(root); root = new Node_("div", SVG); nets = []; window_.listeners = []; show(); }
      else throw new Error(ev);
      seen.push(JSON.stringify(before) === given);
      if (c.each) looks.push(observe());
    }
    if (!c.each) looks.push(observe());
    return { untouched: seen.every((x) => x), looks };
  };
  const out = cases.map((c) => {
    const given = JSON.stringify(c);
    try {
      const value = (c.fn === "notebook" ? notebook : webapp)(c);
      return { value, modified: given !== JSON.stringify(c) };
    } catch (e) {
      return { error: String((e && e.stack) || e) };
    }
  });
  process.stdout.write(JSON.stringify(out));
})().catch((e) => { console.error(e && (e.stack || e)); process.exit(1); });
