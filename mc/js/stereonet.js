// Runs histories of calls and mouse events on the stereonets of /repo's frontend, in a small document.
// argv[2]: repository; stdin: JSON list of cases; stdout: JSON list of results
const path = require("path");
const fs = require("fs");
const Module = require("module");
const NM = "/opt/veriftools/node/node_modules";
const esbuild = require(path.join(NM, "esbuild"));
const repo = process.argv[2];
const src = path.join(repo, "frontend/packages/attitude/src");
const lib = path.join(repo, "frontend/packages/attitude/lib");
console.log = () => {};

const { Node_, document_, window_, SVG } = require("./document.js");
global.document = document_;
global.window = window_;

const D3 = require(path.join(lib, "d3v4+jetpack.js"));
new Function("exports", "module", "define", fs.readFileSync(path.join(lib, "d3-selection-multi.min.js"), "utf8")).call({ d3: D3 });
global.__D3 = D3;

const virtual = {
  d3: "module.exports = global.__D3;",
  mathjs: `module.exports = require(${JSON.stringify(path.join(lib, "math.js"))});`,
  quaternion: "module.exports = class Q {};",
  "chroma-js": `const f = (c) => { if (typeof c !== "string" || !c || c === "nocolour") throw new Error("colour"); return { alpha: (a) => ({ css: () => c + "/" + a }), darken: (a) => ({ css: () => c + "-" + a }), css: () => c }; }; module.exports = f;`,
  uuid: "let i = 0; module.exports = { v4: () => '0a-' + i++ };",
  underscore: `module.exports = require(${JSON.stringify(path.join(NM, "underscore"))});`,
  "attitude/src/matrix": "module.exports = {versor_toRotationMatrix: () => { throw new Error('absent'); }};",
  "attitude/src/versor": "module.exports = {versor_fromAxisAngle: () => { throw new Error('absent'); }, versor_multiply: () => { throw new Error('absent'); }};",
};
const multi = (p) => {
  const m = p.match(/^d3-(?:selection-multi|jetpack)\/(?:src\/)?(?:(selection|transition)\/)?(\w+)(?:\.js)?$/);
  return m && m[2] !== "index" ? `module.exports = global.__D3.${m[1] || "selection"}.prototype.${m[2]};` : "module.exports = {};";
};
const plugin = {
  name: "standins",
  setup(b) {
    b.onResolve({ filter: /\.styl$/ }, () => ({ path: "empty", namespace: "virtual" }));
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.path in virtual) return { path: a.path, namespace: "virtual" };
      if (/^d3-(selection-multi|jetpack)/.test(a.path)) return { path: a.path, namespace: "virtual" };
      if (a.path.startsWith("d3-")) return { path: "d3", namespace: "virtual" };
      return a.kind === "entry-point" ? undefined : { path: a.path, external: true };
    });
    b.onResolve({ filter: /^\//, namespace: "virtual" }, (a) => ({ path: a.path, external: true }));
    b.onLoad({ filter: /.*/, namespace: "virtual" }, (a) => ({ contents: virtual[a.path] || multi(a.path), loader: "js" }));
  },
};

(async () => {
  const r = await esbuild.build({
    stdin: { contents: 'export * from "./stereonet"; export * as functions from "./functions"; export * as math from "./math";', resolveDir: src, loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", logLevel: "silent", plugins: [plugin],
  });
  const m = new Module("/bundle.js");
  m.paths = [];
  m._compile(r.outputFiles[0].text, "/bundle.js");
  const S = m.exports;

  const kind = (f) => (typeof f === "function" ? "function" : f);
  // what a user of one stereonet can see
  const observe = (s, full) => {
    const f = s.net, p = f.projection();
    const o = { rotate: p.rotate(), scale: p.scale(), translate: p.translate(), clip: p.clipAngle(), size: f.size(), margin: f.margin(), clipAngle: f.clipAngle(), turned: f.rotate(), centre: kind(f.center()),
      inner: f.innerSize(), calls: s.calls.slice(), heard: s.heard, prevented: s.prevented, clips: f.clip(), data: f.data() === s.data, uid: f.uid(),
      step: [f.graticule().stepMinor(), f.graticule().stepMajor()], init: f.node() != null };
    if (!o.init) return o;
    o.at = f.centerPosition();
    const q = p;
    const g = D3.geoPath().projection(q).pointRadius(2);
    o.element = [s.el.attrs.width, s.el.attrs.height];
    o.paths = s.el.querySelectorAll("path").map((n) => {
      const want = n.__data__ === undefined ? null : g(n.__data__);
      const up = (k) => (k ? [k.attrs.class].concat(up(k.parentNode === s.el ? null : k.parentNode)) : []);
      return { ok: (n.attrs.d === undefined ? null : n.attrs.d) === (want === null || want === undefined ? (n.attrs.d === undefined ? null : "null") : want), where: up(n), fill: n.attrs.fill, stroke: n.attrs.stroke, drawn: n.attrs.d !== undefined };
    });
    o.grid = s.el.querySelectorAll("path.graticule").every((n) => n.attrs.d === g(f.graticule()()));
    const lab = s.el.querySelectorAll("g.label");
    o.labels = lab.map((n) => ({ name: n.__data__.name, text: n.querySelector("text").text, display: n.styles.display, transform: n.querySelector("text").attrs.transform, anchor: n.querySelector("text").attrs["text-anchor"], at: q(n.__data__.geometry.coordinates) }));
    const geo = (c) => s.el.querySelectorAll(c).map((n) => ({ fill: (n.querySelector("path.error") || { attrs: {} }).attrs.fill, stroke: (n.querySelector("path.nominal") || { attrs: {} }).attrs.stroke,
      colour: n.__data__.color, group: n.parentNode.attrs.class, kids: n.childNodes.map((k) => k.attrs.class), own: n.childNodes.map((k) => (k.__data__ && k.__data__.data ? k.__data__.data.color : null)),
      shapes: full ? n.childNodes.map((k) => k.__data__.geometry) : undefined }));
    o.planes = geo("g.plane");
    o.poles = geo("g.normal");
    const use = s.el.querySelectorAll("use").map((n) => n.attrs["href"] || n.attrs["xlink:href"]);
    const ids = s.el.all().filter((n) => n.attrs.id).map((n) => n.attrs.id);
    o.refs = use.every((u) => ids.includes(String(u).slice(1)));
    o.ids = ids;
    // axis labels, with where they are in the element
    if (full === "texts") {
      const move = (n) => { const m = (n.attrs.transform || "").match(/translate\(\s*([^\s,)]+)[\s,]*([^\s,)]*)\s*\)/); return m ? [Number(m[1]), Number(m[2] || 0)] : [0, 0]; };
      const at = (n) => { let x = Number(n.attrs.x || 0), y = Number(n.attrs.y || 0); for (let k = n; k && k !== s.el; k = k.parentNode) { const [a, b] = move(k); x += a; y += b; } return [x, y]; };
      o.texts = s.el.querySelectorAll("text").filter((n) => !n.closest("g.label")).map((n) => ({ text: n.textContent, at: at(n), anchor: n.attrs["text-anchor"] || n.styles["text-anchor"] || null,
        along: n.querySelectorAll("textPath").map((k) => [k.attrs.href || k.attrs["xlink:href"], k.attrs.startOffset]) }));
      o.directions = s.directions.map((c) => p(c));
    }
    o.interior = s.el.childNodes.filter((k) => k.matches("g.interior")).map((k) => k.attrs["clip-path"] || null);
    return o;
  };
  const run = (c) => {
    window_.listeners = [];
    const nets = c.nets.map((o) => ({ net: S.Stereonet(o), el: new Node_("svg", SVG), calls: [], heard: 0, prevented: 0, given: [], data: null, directions: c.directions || [] }));
    const chained = [], added = [];
    if (c.precision !== undefined) for (const n of nets) n.net.projection().precision(c.precision);
    for (const [i, ev, ...a] of c.events) {
      const s = nets[i], f = s.net;
      const chain = (v) => chained.push(v === f);
      if (ev === "init") D3.select(s.el).call(f);
      else if (ev === "size") chain(f.size(a[0]));
      else if (ev === "margin") { chain(f.margin(a[0])); chain(f.size(f.size())); }
      else if (ev === "clipAngle") chain(f.clipAngle(a[0]));
      else if (ev === "clip") chain(f.clip(a[0]));
      else if (ev === "center") chain(f.center(a[0]));
      else if (ev === "graticule") chain(f.graticule(a[0], a[1]));
      else if (ev === "data") { s.data = a[0]; chain(f.data(a[0])); }
      else if (ev === "scale") chain(f.scale(a[0]));
      else if (ev === "rotate") f.rotate(a[0]);
      else if (ev === "refresh") f.refresh();
      else if (ev === "draw") f.draw();
      else if (ev === "listen") f.on("rotate.mine", function () { s.heard += this === f ? 1 : 100; });
      else if (ev === "call") chain(f.call((n, x, y) => { s.calls.push([n === f, x, y, f.node() != null]); }, a[0], "second"));
      else if (ev === "vertical" || ev === "horizontal") a.length ? f[ev](a[0]) : f[ev]();
      else if (ev === "twice") { f.vertical(a[0]); f.vertical(a[0]); }
      else if (ev === "labels") f.call(S.globalLabels(a[0]));
      else if (ev === "planes" || ev === "ellipses") {
        const o = Object.assign({}, a[1]);
        if (o.color === "own") o.color = (d) => d.color;
        s.given.push(...a[0]);
        const sel = Object.keys(o).length ? f[ev](a[0], o) : f[ev](a[0]);
        added.push(sel.size());
      } else if (ev === "down") s.el.fire("mousedown", { pageX: a[0], pageY: a[1], preventDefault: () => s.prevented++ });
      else if (ev === "move") window_.fire("mousemove", { pageX: a[0], pageY: a[1], preventDefault() {} });
      else if (ev === "up") window_.fire("mouseup", { pageX: a[0], pageY: a[1], preventDefault() {} });
      else throw new Error(ev);
    }
    return { end: nets.map((n) => observe(n, c.full)), chained: chained.every((x) => x), added };
  };
  const cert = (c) => {
    const f = S.opacityByCertainty((d) => d.color, c.accessor ? "path.error" : null);
    const set = [];
    for (const [k, v] of c.settings || []) {
      const val = k === "angularError" ? (d) => d[v] : k === "alphaScale" ? D3.scaleLinear().domain(v[0]).range(v[1]).clamp(true) : v;
      set.push(f[k](val) === f);
      const got = f[k]();
      set.push(k === "domain" ? JSON.stringify(got) === JSON.stringify(v) : got === val);
    }
    const n = new Node_("g", SVG), e = n.appendChild(new Node_("path", SVG)), o = n.appendChild(new Node_("path", SVG));
    e.setAttribute("class", "error"); o.setAttribute("class", "nominal");
    return { values: c.planes.map((p) => { f.call(n, p, 0); const t = c.accessor ? e : n; return [t.attrs.fill, t.attrs.stroke]; }), others: [o.attrs, c.accessor ? n.attrs : e.attrs], set: set.every((x) => x) };
  };
  const cases = JSON.parse(fs.readFileSync(0, "utf8"));
  const out = cases.map((c) => {
    const given = JSON.stringify(c);
    try {
      const value = c.fn === "certainty" ? cert(c) : run(c);
      return { value, modified: given !== JSON.stringify(c) };
    } catch (e) {
      return { error: String((e && e.stack) || e) };
    }
  });
  process.stdout.write(JSON.stringify(out));
})().catch((e) => { console.error(e && (e.stack || e)); process.exit(1); });
