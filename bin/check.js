#!/usr/bin/env node
"use strict";
// check.js <property>: seeded search over schedules and faults. See DESIGN.md.
const fs = require("node:fs"), path = require("node:path"), os = require("node:os"), cp = require("node:child_process");
const ROOT = path.join(__dirname, "..");
const id = process.argv[2];
const tier = process.argv.includes("--thorough") || process.env.VERIF_TIER === "thorough" && !process.argv.includes("--quick") ? "thorough" : "quick";
const base = /^\d+$/.test(process.env.VERIF_SEED || "") ? Number(process.env.VERIF_SEED) : 1;
const t0 = Date.now();
const { compileRepo } = require("../sim/build");
const R = require("../lib/runner");
const prop = R.load(id);
const findings = JSON.parse(fs.readFileSync(path.join(ROOT, "known_findings.json"), "utf8"));

(async () => {
  let code;
  try { code = compileRepo(); } catch (e) { console.error("cannot compile /repo: " + e.message); process.exit(2); }
  const W = Number(process.env.SIM_WORKERS) || Math.max(2, Math.min(8, os.cpus().length));
  const total = Number(process.env.SIM_RUNS) || prop.runs[tier];
  const capMs = Number(process.env.SIM_CAP_MS) || (tier === "quick" ? 300e3 : 3 * 3600e3);
  const agg = { runs: 0, reruns: 0, mismatches: [], events: 0, simMs: 0, ops: 0, faults: {}, probes: {}, fails: [], samples: [] };
  const shapes = new Set(); let trivial = 0;
  const digests = {};
  const CH = tier === "quick" ? 25 : 200;
  let next = 0, errors = [];
  const stuckMs = 90e3;
  const workers = [];
  const spawn = () => new Promise((res) => {
    const w = cp.fork(path.join(__dirname, "worker.js"), { execArgv: ["--max-old-space-size=2500"], stdio: ["ignore", "inherit", "inherit", "ipc"], serialization: "advanced" });
    w.ask = (m) => new Promise((r) => { w.reply = r; w.beat = Date.now(); w.send(m); });
    w.on("message", (m) => { w.beat = Date.now(); if (m.at != null) { w.at = m.at; return; } const f = w.reply; w.reply = null; if (f) f(m); });
    w.on("exit", (c, s) => { w.gone = true; const f = w.reply; w.reply = null; if (f) f({ exited: c ?? s, at: w.at }); });
    workers.push(w);
    w.ask({ init: { id, code, base, tier } }).then(() => res(w));
  });
  const watchdog = setInterval(() => { for (const w of workers) if (w.reply && w.at != null && !w.minimising && Date.now() - w.beat > stuckMs) { w.stuck = true; w.kill("SIGKILL"); } }, 2000);
  const stuck = [];
  const drive = async () => {
    let w = await spawn();
    while (next < total && Date.now() - t0 < capMs && agg.fails.length === 0 && errors.length === 0 && stuck.length === 0) {
      const idx = []; while (idx.length < CH && next < total) idx.push(next++);
      const m = await w.ask({ run: idx });
      if (m.error) { errors.push(m.error); break; }
      if (m.exited !== undefined) { if (w.stuck) stuck.push(m.at); else errors.push("worker died: " + m.exited); break; }
      const a = m.done;
      agg.runs += a.runs; agg.reruns += a.reruns; agg.mismatches.push(...a.mismatches); agg.events += a.events; agg.simMs += a.simMs; agg.ops += a.ops;
      for (const k of ["faults", "probes"]) for (const [n, v] of Object.entries(a[k])) agg[k][n] = (agg[k][n] || 0) + v;
      for (const s of a.shapes) if (s[0] === "-") trivial++; else shapes.add(s);
      Object.assign(digests, a.digests);
      agg.samples.push(...a.samples); agg.fails.push(...a.fails);
    }
  };
  await Promise.all(Array.from({ length: W }, drive));
  // the same seed must give the same execution in another process
  let cross = 0;
  const fresh = async () => { const alive = workers.find((x) => !x.gone); return alive ?? spawn(); };
  if (!errors.length && !stuck.length && !agg.fails.length) {
    const w = await fresh();
    for (const i of Object.keys(digests).slice(0, 8)) {
      const seed = R.seedFor(base, id, i);
      const m = await w.ask({ exec: { seed, plan: R.genPlan(prop, seed, Number(i), tier) } });
      if (m.error) { errors.push(m.error); break; }
      if (!m.executed) break;
      cross++;
      if (m.executed.digest !== digests[i]) agg.mismatches.push("x" + i);
    }
  }
  let exit = 0, lines = [];
  const repDir = path.join(ROOT, "replays");
  fs.mkdirSync(repDir, { recursive: true });
  if (stuck.length) {
    const seed = R.seedFor(base, id, stuck[0]);
    const rep = path.join(repDir, `${id}-${base}-${stuck[0]}.json`);
    fs.writeFileSync(rep, JSON.stringify({ property: id, seed, violations: [{ rule: "event-loop-blocked", msg: "the host's event loop never became idle (no progress for " + stuckMs / 1000 + " s of real time)" }], plan: R.genPlan(prop, seed, stuck[0], tier) }, null, 1));
    lines.push(`VIOLATION property=${id} replay=${rep}`); exit = 1;
  } else if (agg.fails.length) {
    agg.fails.sort((a, b) => a.i - b.i);
    const f = agg.fails[0];
    const rule = f.violations[0].rule;
    const w = await fresh();
    w.minimising = true;
    const m = await w.ask({ minimise: { seed: f.seed, plan: f.plan, rule } });
    const min = m.minimised ?? { plan: f.plan, violations: f.violations, tried: 0, note: m.error || "minimiser died" };
    const w2 = await spawn();
    const again = await w2.ask({ exec: { seed: f.seed, plan: min.plan } });
    const exact = !!again.executed && again.executed.digest === min.digest && again.executed.violations.some((v) => v.rule === rule);
    const rep = path.join(repDir, `${id}-${base}-${f.i}.json`);
    fs.writeFileSync(rep, JSON.stringify({ property: id, seed: f.seed, rule, violations: min.violations, digest: min.digest, replayedExactly: exact, shrinkSteps: min.tried, original: f.violations, plan: min.plan, trace: min.trace }, null, 1));
    for (const v of min.violations) console.log(`${id} ${v.rule}: ${v.msg}`);
    console.log(`seed ${f.seed}; minimised in ${min.tried} runs; replays exactly in another process: ${exact}`);
    lines.push(`VIOLATION property=${id} replay=${rep}`); exit = 1;
  } else if (errors.length) { console.error("simulator error: " + errors[0]); exit = 2; }
  // known findings: demonstrated on every run, never a violation
  if (exit === 0) for (const f of findings.filter((x) => x.property === id && x.status === "known")) {
    const w = await fresh();
    const m = await w.ask({ exec: { seed: f.seed, plan: f.plan } });
    const hit = m.executed && m.executed.violations.some((v) => v.rule === f.rule);
    if (hit) lines.push(`KNOWN-FINDING: property=${id} ${f.what}`);
    else console.log(`note: known finding no longer reproduces: property=${id} ${f.what}`);
  }
  clearInterval(watchdog);
  for (const w of workers) if (!w.gone) w.kill();
  const wall = (Date.now() - t0) / 1000;
  const ev = {
    property: id, tier, seed: base, level: "exploration",
    coverage: {
      evaluations: agg.runs, distinct_nontrivial: shapes.size,
      rule: prop.rule + " Distinct: different order of API calls, spawns, commands, exits, signals, file operations and settlements (times ignored). Non-trivial: " + (prop.nontrivialRule || "at least one API call was made") + ".",
      samples: agg.samples.slice(0, 2),
      runs_per_hour: Math.round(agg.runs / wall * 3600), seeds: `${base}:${id}:0..${agg.runs - 1}`,
      simulated_time_s: Math.round(agg.simMs / 1000), events: agg.events, api_calls: agg.ops,
      faults_injected: agg.faults, probes: agg.probes, trivial_runs: trivial,
      determinism: { replayed_in_process: agg.reruns, replayed_in_other_process: cross, mismatches: agg.mismatches.length },
      components: prop.components || { real: ["/repo/src (compiled from the working tree with its own tsconfig)", "batch-cluster", "luxon", "he", "tz-lookup", "node:stream", "node:events", "node:string_decoder", "ExifTool's Filter() (perl) on the library's filter expression"], simulated: ["ExifTool child processes", "child_process", "timers and clocks", "fs", "os", "process", "randomness"] },
    },
    assumptions: prop.assumptions || [], wall_s: wall, violations: exit === 1 ? 1 : 0,
  };
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(ROOT, "evidence", id + ".json"), JSON.stringify(ev, null, 1));
  if (agg.mismatches.length) console.log("warning: nondeterministic runs " + agg.mismatches.join(","));
  console.log(`${id} ${tier}: ${agg.runs}/${total} runs, ${shapes.size} distinct non-trivial, ${agg.ops} calls, ${Math.round(agg.simMs / 1000)} simulated s, ${wall.toFixed(1)} s`);
  for (const l of lines) console.log(l);
  process.exit(exit);
})().catch((e) => { console.error(e); process.exit(2); });
