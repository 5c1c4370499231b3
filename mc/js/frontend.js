// Bundles the TypeScript sources of /repo and evaluates calls on them.
// argv[2]: repository; stdin: JSON list of {fn, args...}; stdout: JSON list of results
const path = require("path");
const fs = require("fs");
const Module = require("module");
const NM = "/opt/veriftools/node/node_modules";
const esbuild = require(path.join(NM, "esbuild"));
const repo = process.argv[2];
const src = path.join(repo, "frontend/packages/attitude/src");
const d3file = path.join(repo, "frontend/packages/attitude/lib/d3v4+jetpack.js");

const virtual = {
  d3: `const d3 = require(${JSON.stringify(d3file)});
    module.exports = Object.assign({}, d3, { select: (n) => n.__selection });`,
  "d3-array": `module.exports = require(${JSON.stringify(d3file)});`,
  "d3-selection-multi": "",
  underscore: `module.exports = require(${JSON.stringify(path.join(NM, "underscore"))});`,
  "attitude/src/matrix": "module.exports = {versor_toRotationMatrix: () => { throw new Error('absent'); }};",
  "attitude/src/versor": "module.exports = {versor_fromAxisAngle: () => { throw new Error('absent'); }, versor_multiply: () => { throw new Error('absent'); }};",
};

const plugin = {
  name: "standins",
  setup(b) {
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (a.path in virtual) return { path: a.path, namespace: "virtual" };
      if (a.path.startsWith("d3-")) return { path: "d3", namespace: "virtual" };
      return a.kind === "entry-point" ? undefined : { path: a.path, external: true };
    });
    b.onResolve({ filter: /^\//, namespace: "virtual" }, (a) => ({ path: a.path, external: true }));
    b.onLoad({ filter: /.*/, namespace: "virtual" }, (a) => ({ contents: virtual[a.path], loader: "js" }));
  },
};

const recorder = () => {
  // Just enough of a d3 selection: remembers what was appended
  const log = [];
  const mk = (rec) => ({
    append(tag) {
      const r = { tag, attrs: {}, classes: {} };
      log.push(r);
      return mk(r);
    },
    datum(d) { rec.datum = d; return this; },
    attr(k, v) { rec.attrs[k] = v; return this; },
    classed(k, v) { rec.classes[k] = v; return this; },
  });
  return { selection: mk({ attrs: {}, classes: {} }), log };
};

const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));

(async () => {
  const r = await esbuild.build({
    stdin: { contents: 'export * as math from "./math"; export * as functions from "./functions"; export * as util from "./util";', resolveDir: src, loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", logLevel: "silent", plugins: [plugin],
  });
  const m = new Module("/bundle.js");
  m.paths = [];
  m._compile(r.outputFiles[0].text, "/bundle.js");
  const { math, functions, util } = m.exports;
  const d3 = require(d3file);

  const OPS = {
    curve: (c) => math[c.name](c.cov, c.axes, c.opts === null ? undefined : c.opts),
    combined: (c) => math.combinedErrors(c.cov, c.axes, c.opts === null ? undefined : c.opts),
    norm: (c) => math.norm(c.v),
    cart2sph: (c) => c.vs.map(math.cart2sph(c.opts === null ? undefined : c.opts)),
    transpose: (c) => math.transpose(c.axes),
    convolve: (c) => math.convolveAxes(c.axes, c.sv),
    deconvolve: (c) => math.deconvolveAxes(c.axes),
    roundtrip: (c) => math.deconvolveAxes(math.convolveAxes(c.axes, c.sv)),
    surface: (c) => {
      const e = math.combinedErrors(c.cov, c.axes, c.opts);
      const keep = clone(e);
      const f = functions.errorSurface(e, c.base);
      return { curves: keep, surface: f, nominal: functions.nominalPlane(e, c.base), inside: c.test.map((p) => d3.geoContains(f, p)), onband: keep.nominal.map((p) => d3.geoContains(f, p)) };
    },
    ellipse: (c) => {
      const fn = functions.errorEllipse(c.opts);
      const fns = Array.isArray(fn) ? fn : [fn];
      return fns.map((g) => {
        const f = g(c.props);
        return { feature: f, inside: c.test.map((p) => d3.geoContains(f, p)), single: Array.isArray(fn) ? false : true };
      });
    },
    plane: (c) => {
      const rec = recorder();
      functions.plane(c.opts).call({ __selection: rec.selection }, c.props);
      return rec.log;
    },
    sequence: (c) => {
      // one options object shared by all steps, as the stereonet does
      const opts = c.opts;
      return c.steps.map((s) => {
        if (s.kind === "ellipse") return clone(functions.errorEllipse(opts)(s.props));
        const rec = recorder();
        functions.plane(opts).call({ __selection: rec.selection }, s.props);
        return clone(rec.log);
      });
    },
    centroidAverage: (c) => util.computeCentroidAverage(c.planes),
    centroidExtrema: (c) => util.computeCentroidExtrema(c.planes),
    cloneOptions: (c) => util.cloneOptions(c.obj, c.props),
  };

  const cases = JSON.parse(fs.readFileSync(0, "utf8"));
  const out = cases.map((c) => {
    const before = JSON.stringify([c.cov, c.axes, c.props, c.v, c.vs, c.planes, c.sv, c.base, c.steps]);
    try {
      const value = OPS[c.fn](c);
      return { value, modified: before !== JSON.stringify([c.cov, c.axes, c.props, c.v, c.vs, c.planes, c.sv, c.base, c.steps]) };
    } catch (e) {
      return { error: String((e && e.stack) || e) };
    }
  });
  process.stdout.write(JSON.stringify(out));
})().catch((e) => {
  process.stderr.write(String((e && e.stack) || e));
  process.exit(3);
});
