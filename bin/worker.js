"use strict";
// One simulation worker: receives the compiled code and a share of the seeds.
const R = require("../lib/runner");
let prop, code, base, tier;
const keys = new Map();
const add = (a, b) => { for (const [k, v] of Object.entries(b)) a[k] = (a[k] || 0) + v; };
process.on("message", async (m) => {
  try {
    if (m.init) { ({ id: prop, code, base, tier } = m.init); prop = R.load(prop); process.send({ ready: true }); return; }
    if (m.run) {
      const agg = { runs: 0, reruns: 0, mismatches: [], events: 0, simMs: 0, ops: 0, faults: {}, probes: {}, shapes: [], digests: {}, fails: [], samples: [] };
      for (const i of m.run) {
        process.send({ at: i });
        const seed = R.seedFor(base, prop.id, i);
        const plan = R.genPlan(prop, seed, i, tier);
        const r = await R.exec(prop, code, seed, plan);
        agg.runs++; agg.events += r.events; agg.simMs += r.simMs; agg.ops += r.ops;
        add(agg.faults, r.faults); add(agg.probes, r.probes);
        const nontrivial = prop.nontrivial ? prop.nontrivial(r, plan) : r.ops > 0;
        agg.shapes.push(nontrivial ? r.shape : "-" + r.shape);
        if (i < 16 || i % 50 === 0) {
          const r2 = await R.exec(prop, code, seed, plan);
          agg.reruns++;
          if (r2.digest !== r.digest) agg.mismatches.push(i);
          if (i < 16) agg.digests[i] = r.digest;
        }
        if (i < 2) agg.samples.push({ seed, plan, ops: r.ops, events: r.events, simMs: Math.round(r.simMs), faults: r.faults, probes: r.probes, digest: r.digest });
        if (r.violations.length) { agg.fails.push({ i, seed, plan, violations: r.violations }); if (agg.fails.length >= 3) break; }
      }
      process.send({ done: agg });
    }
    if (m.minimise) {
      const { seed, plan, rule } = m.minimise;
      const r = await R.minimise(prop, code, seed, plan, rule);
      const f = await R.exec(prop, code, seed, r.plan, { trace: true });
      process.send({ minimised: { plan: r.plan, tried: r.tried, violations: f.violations, digest: f.digest, trace: f.worlds } });
    }
    if (m.exec) { const f = await R.exec(prop, code, m.exec.seed, m.exec.plan); process.send({ executed: { violations: f.violations, digest: f.digest } }); }
  } catch (e) { process.send({ error: String(e && e.stack || e) }); }
});
