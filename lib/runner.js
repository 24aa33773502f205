"use strict";
// Executes one (property, seed, plan) and minimises failing plans.
const { Rng } = require("../sim/rng");
const path = require("node:path");

function load(id) { return require(path.join(__dirname, "..", "props", id + ".js")); }
const seedFor = (base, id, i) => `${base}:${id}:${i}`;
function genPlan(prop, seed, i, tier) { const r = new Rng(seed + "/plan"); return JSON.parse(JSON.stringify(prop.gen(r, i, tier))); }

/** @return {violations:[{rule,msg}], digest, shape, events, simMs, faults, probes, cases, nontrivial} */
async function exec(prop, code, seed, plan, o = {}) {
  const out = { violations: [], digest: "", shape: "", events: 0, simMs: 0, faults: {}, probes: {}, ops: 0, worlds: [] };
  const ctx = {
    code, seed, plan: JSON.parse(JSON.stringify(plan)), trace: !!o.trace, out,
    violate(rule, msg) { if (!out.violations.some((v) => v.rule === rule)) out.violations.push({ rule, msg: String(msg).slice(0, 2000) }); },
    probe(n, k = 1) { out.probes[n] = (out.probes[n] || 0) + k; },
    /** account for a finished world */
    done(w, sim) {
      if (w.simError) throw w.simError;
      out.digest += (out.digest ? "+" : "") + w.digest(); out.shape += w.shapeDigest();
      out.events += w.events; out.simMs += w.now;
      for (const [k, v] of Object.entries(w.faults)) out.faults[k] = (out.faults[k] || 0) + v;
      for (const [k, v] of Object.entries(w.probes)) out.probes[k] = (out.probes[k] || 0) + v;
      for (const v of w.violations) ctx.violate(v.rule || "invariant", v.msg);
      if (sim) out.ops += sim.ops.length;
      if (o.trace) out.worlds.push(w.trace);
    },
  };
  try { await prop.run(ctx); } catch (e) {
    // thrown by the code under test where the property's scenario allows no exception?
    const top = String(e && e.stack).split("\n").find((l) => /^\s+at /.test(l) && !/node:internal|<anonymous>\)$/.test(l));
    if (!top || !top.includes("/sim-dist/")) throw e;
    ctx.violate("unexpected-exception", `${e.message} ${top.trim()}`);
    out.digest ||= "exception";
  }
  return out;
}

function* shrinks(plan, prop) {
  const clone = () => JSON.parse(JSON.stringify(plan));
  if (prop.shrink) yield* prop.shrink(plan);
  for (const k of ["clients", "faults", "late"]) {
    const n = (plan[k] || []).length;
    if (n > 3) for (const half of [0, 1]) { const c = clone(); c[k] = c[k].filter((_, i) => (i < n / 2) === (half === 0)); yield c; }
    for (let i = 0; i < n; i++) { const c = clone(); c[k].splice(i, 1); yield c; }
  }
  for (const [ci, cl] of (plan.clients || []).entries()) {
    const n = (cl.ops || []).length;
    if (n > 1) for (let i = 0; i < n; i++) { const c = clone(); c.clients[ci].ops.splice(i, 1); yield c; }
  }
  for (const [ci, cl] of (plan.clients || []).entries()) for (const [oi, op] of (cl.ops || []).entries()) {
    for (const k of ["gap", "opts", "bg"]) if (op[k]) { const c = clone(); delete c.clients[ci].ops[oi][k]; yield c; }
    for (const k of ["tags"]) if (op[k] && Object.keys(op[k]).length > 1) for (const t of Object.keys(op[k])) { const c = clone(); delete c.clients[ci].ops[oi][k][t]; if (!op.tok || JSON.stringify(c.clients[ci].ops[oi][k]).includes(op.tok)) yield c; }
    if (op.edits && op.edits.length > 1) for (let j = 0; j < op.edits.length; j++) { const c = clone(); c.clients[ci].ops[oi].edits.splice(j, 1); if (!op.tok || JSON.stringify(c.clients[ci].ops[oi].edits).includes(op.tok)) yield c; }
  }
  const simple = { chunking: "whole", latency: 0, gapMs: 0, serviceMs: [1, 1], bootMs: [5, 5] };
  if (plan.net && JSON.stringify(plan.net) !== JSON.stringify(simple)) { const c = clone(); c.net = simple; yield c; for (const k of Object.keys(simple)) if (JSON.stringify(plan.net[k]) !== JSON.stringify(simple[k])) { const d = clone(); d.net[k] = simple[k]; yield d; } }
  if (plan.timerLateness) { const c = clone(); c.timerLateness = 0; yield c; }
  for (const [fi, f] of (plan.faults || []).entries()) if (f.on === "time" && f.at > 1) { const c = clone(); c.faults[fi].at = Math.floor(f.at); if (c.faults[fi].at !== f.at) yield c; }
}

async function minimise(prop, code, seed, plan, rule, budgetMs = 45000) {
  const t0 = Date.now();
  let cur = plan, tried = 0, progress = true;
  const seen = new Set([JSON.stringify(plan)]);
  while (progress && Date.now() - t0 < budgetMs) {
    progress = false;
    for (const cand of shrinks(cur, prop)) {
      if (Date.now() - t0 > budgetMs || tried > 1500) break;
      const k = JSON.stringify(cand);
      if (seen.has(k)) continue;
      seen.add(k); tried++;
      let r;
      try { r = await exec(prop, code, seed, cand); } catch { continue; }
      if (r.violations.some((v) => v.rule === rule)) { cur = cand; progress = true; break; }
    }
  }
  return { plan: cur, tried };
}
module.exports = { load, seedFor, genPlan, exec, minimise };
