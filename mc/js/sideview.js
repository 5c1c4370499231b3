// Bundles the side view of /repo's frontend and evaluates calls on it.
// argv[2]: repository; stdin: JSON list of {fn, args...}; stdout: JSON list of results
const path = require("path");
const fs = require("fs");
const Module = require("module");
const NM = "/opt/veriftools/node/node_modules";
const esbuild = require(path.join(NM, "esbuild"));
const repo = process.argv[2];
const src = path.join(repo, "frontend/packages/attitude/src");
const lib = path.join(repo, "frontend/packages/attitude/lib");
const d3file = JSON.stringify(path.join(lib, "d3v4+jetpack.js"));

const { Node_, document_, window_, SVG } = require("./document.js");
global.document = document_;
global.window = window_;
const D3 = require(JSON.parse(d3file));
new Function("exports", "module", "define", fs.readFileSync(path.join(lib, "d3-selection-multi.min.js"), "utf8")).call({ d3: D3 });
global.__D3 = D3;
const virtual = {
  d3: "module.exports = global.__D3;",
  mathjs: `module.exports = require(${JSON.stringify(path.join(lib, "math.js"))});`,
  // rotation about an axis, as a matrix for column vectors
  quaternion: `class Q { constructor(a, t) { this.a = a; this.t = t; } static fromAxisAngle(a, t) { return new Q(a, t); }
    toMatrix() { const n = Math.hypot(...this.a), [x, y, z] = this.a.map((i) => i / n), c = Math.cos(this.t), s = Math.sin(this.t), k = 1 - c;
      return [[c + x * x * k, x * y * k - z * s, x * z * k + y * s], [y * x * k + z * s, c + y * y * k, y * z * k - x * s], [z * x * k - y * s, z * y * k + x * s, c + z * z * k]]; } }
    module.exports = Q;`,
  "chroma-js": `module.exports = (c) => { if (!c) throw new Error("colour"); return { alpha: (a) => ({ css: () => c + "/" + a }) }; };`,
  uuid: "let i = 0; module.exports = { v4: () => 'u' + i++ };",
  underscore: `module.exports = require(${JSON.stringify(path.join(NM, "underscore"))});`,
  "attitude/src/matrix": "module.exports = {versor_toRotationMatrix: () => { throw new Error('absent'); }};",
  "attitude/src/versor": "module.exports = {versor_fromAxisAngle: () => { throw new Error('absent'); }, versor_multiply: () => { throw new Error('absent'); }};",
};

const multi = (p) => {
  const m = p.match(/^d3-(?:selection-multi|jetpack)\/(?:src\/)?(?:(selection|transition)\/)?(\w+)(?:\.js)?$/);
  return m && m[2] !== "index" ? `module.exports = global.__D3.${m[1] || "selection"}.prototype.${m[2]};` : "module.exports = {};";
};
const plugin = {
  name: "standins",
  setup(b) {
    b.onResolve({ filter: /\.styl$/ }, (a) => ({ path: "empty", namespace: "virtual" }));
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.path in virtual) return { path: a.path, namespace: "virtual" };
      if (/^d3-(selection-multi|jetpack)/.test(a.path)) return { path: a.path, namespace: "virtual" };
      if (a.path.startsWith("d3-")) return { path: "d3", namespace: "virtual" };
      return a.kind === "entry-point" ? undefined : { path: a.path, external: true };
    });
    b.onResolve({ filter: /^\//, namespace: "virtual" }, (a) => ({ path: a.path, external: true }));
    b.onLoad({ filter: /.*/, namespace: "virtual" }, (a) => ({ contents: virtual[a.path] || multi(a.path), loader: "js" }));
  },
};

const mknode = (tag) => new Node_(tag, SVG);
const dump = (n) => ({ tag: n.tagName, attrs: n.attrs, classes: n.classes, kids: n.childNodes.map(dump) });

(async () => {
  const r = await esbuild.build({
    stdin: { contents: 'export * from "./hyperbola"; export { opacityByCertainty } from "./stereonet";', resolveDir: src, loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", logLevel: "silent", plugins: [plugin],
  });
  const m = new Module("/bundle.js");
  m.paths = [];
  m._compile(r.outputFiles[0].text, "/bundle.js");
  const S = m.exports;
  const scale = (s) => D3.scaleLinear().domain(s[0]).range(s[1]);
  const plane = (p) => {
    const o = new S.PlaneData(p.data, p.mean === undefined ? null : p.mean);
    if (p.offset) o.offset = p.offset;
    if (p.group) o.group = plane(p.group);
    return o;
  };
  const OPS = {
    plane: (c) => {
      const p = plane(c.plane);
      return { mean: p.mean, centered: p.centered, lengths: p.lengths, axes: p.axes, color: p.color, dip: p.dip(), apparent: c.azimuths.map((a) => p.apparentDip(a)) };
    },
    fix: (c) => c.angles.map(S.fixAngle),
    trace: (c) => {
      const got = [];
      const f = S.digitizedLine(c.viewpoint, (d) => { got.push(d); return "line"; });
      if (c.frame) f.axes(c.frame);
      const n = mknode("path");
      f.call(n, plane(c.plane));
      return { data: got, d: n.attrs.d };
    },
    transform: (c) => S.createTransform(c.viewpoint, scale(c.x), scale(c.y))(plane(c.plane)),
    nominal: (c) => {
      const f = S.apparentDip(c.viewpoint, scale(c.x), scale(c.y));
      if (c.width) f.width(c.width);
      const n = mknode("line");
      f.call(n, plane(c.plane));
      return n.attrs;
    },
    bands: (c) => {
      // one node drawn for several viewpoints in turn
      const n = mknode("g");
      const p = plane(c.plane);
      return c.views.map((v) => {
        const f = S.hyperbolicErrors(v, c.frame, scale(c.x), scale(c.y));
        if (c.width) f.width(c.width);
        if (c.nominal) f.nominal(true);
        if (c.scaled === false) f.scaleErrorAngles(false);
        if (c.alpha) f.alphaScale(D3.scaleLinear().domain(c.alpha[0]).range(c.alpha[1]).clamp(true));
        D3.select(n).datum(p);
        f.call(n, p);
        return JSON.parse(JSON.stringify({ node: dump(n), z: p.__z }));
      });
    },
    opacity: (c) => {
      const f = S.opacityByCertainty((d) => d.color);
      const n = mknode("path");
      return c.planes.map((p) => { f.call(n, p, 0); return JSON.parse(JSON.stringify(n.attrs)); });
    },
  };
  const cases = JSON.parse(fs.readFileSync(0, "utf8"));
  const out = cases.map((c) => {
    const given = () => JSON.stringify([c.plane, c.planes, c.frame, c.x, c.y]);
    const before = given();
    try {
      const value = OPS[c.fn](c);
      return { value, modified: before !== given() };
    } catch (e) {
      return { error: String((e && e.stack) || e) };
    }
  });
  process.stdout.write(JSON.stringify(out));
})().catch((e) => {
  process.stderr.write(String((e && e.stack) || e));
  process.exit(3);
});
