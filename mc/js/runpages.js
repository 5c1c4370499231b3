// Runs page fragments the way a browser would run their scripts.
// stdin: JSON list of {ids: [...], scripts: [...]}; stdout: JSON list of {calls: [{element, data}], error}
const vm = require("vm");
const pages = JSON.parse(require("fs").readFileSync(0, "utf8"));
const tag = (v) => {
  if (typeof v === "number" && !Number.isFinite(v)) return { __number__: String(v) };
  if (v === undefined) return { __undefined__: true };
  if (Array.isArray(v)) return v.map(tag);
  if (v !== null && typeof v === "object") {
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, tag(x)]));
  }
  return v;
};
const out = pages.map((p) => {
  const calls = [];
  let error = null;
  const elements = {};
  p.ids.forEach((i) => (elements[i] = { id: i }));
  const byId = (i) => elements[i] || null;
  const document = {
    querySelector: (s) => (/^#[A-Za-z_][A-Za-z0-9_-]*$/.test(s) ? byId(s.slice(1)) : null),
    getElementById: byId,
  };
  const sandbox = { document, attitudeUI: (el, data) => calls.push({ element: el && el.id, data: JSON.parse(JSON.stringify(tag(data))) }) };
  sandbox.window = sandbox;
  const ctx = vm.createContext(sandbox);
  try {
    for (const s of p.scripts) vm.runInContext(s, ctx);
  } catch (e) {
    error = String(e);
  }
  return { calls, error };
});
process.stdout.write(JSON.stringify(out));
