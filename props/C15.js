"use strict";
// A read's result depends on the file and the options in force, and on nothing
// else: not on the schedule, chunking, clock, host time zone, other calls,
// other instances, earlier settings or earlier files. Oracle: the same read,
// alone, in a fresh process on a differently configured machine.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen"), R = require("../lib/rich");
const { Sim, startClients, invoke } = require("../sim/scenario");
const { activate } = require("../sim/world");

const WALL = [Date.UTC(2026, 2, 1, 12), Date.UTC(2026, 2, 29, 0, 30), Date.UTC(2026, 2, 29, 1, 30), Date.UTC(2026, 2, 8, 7, 10), Date.UTC(2026, 9, 25, 0, 40), Date.UTC(2024, 1, 29, 23, 59, 58), Date.UTC(2037, 11, 31, 23, 59, 59), Date.UTC(1999, 11, 31, 23, 59, 59), Date.UTC(2021, 2, 28, 1, 0), Date.UTC(2021, 6, 1)];
const ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "America/St_Johns"];
/** the instants a result's date-times denote on this host, now (zoneless ones from a fresh copy: the object caches its first answer) */
function instants(v, walls, at = "", out = {}) {
  if (v && typeof v === "object" && v.constructor?.name === "ExifDateTime") { if (!R.luxonUnsure(v, walls)) out[at] = (v.hasZone ? v : v.constructor.fromJSON(v.toJSON())).toMillis(); }
  else if (v && typeof v === "object" && !(v instanceof Uint8Array)) for (const k of Object.keys(v)) instants(v[k], walls, at + "." + k, out);
  return out;
}
module.exports = { WALL, ZONES,
  id: "C15", runs: { quick: 1500, thorough: 120000 },
  rule: "Seeded plan: 2-5 photos (some taken next to each other on both sides of a time-zone border) with rich date, zone, GPS, structure and malformed-text metadata; 1-3 instances; concurrent reads with varied options through a pool with random chunking, latency, recycling, crashes, stalls and clock jumps, at a random wall-clock time and host time zone, in 1-3 phases between which global settings change; every resolved read is compared with the same read done alone in a fresh process with another clock, zone and schedule.",
  nontrivialRule: "at least one resolved read was compared", nontrivial: (r) => (r.probes["compared"] || 0) > 0,
  gen(r) {
    const nf = 2 + r.int(4);
    const files = {}, near = r.bool(0.4) ? r.pick(R.BORDERS) : undefined;
    for (let i = 0; i < nf; i++) files[`/photos/r${i}` + r.pick([".jpg", ".mp4", ".heic"])] = { photo: R.richPhoto(r, "tk" + i, near) };
    const nInst = r.weighted([[3, 1], [2, 2], [1, 3]]);
    const insts = Array.from({ length: nInst }, () => ({ ...G.opts(r), taskTimeoutMillis: r.pick([2000, 30000]), ...R.readOpts(r, r.bool(0.5) ? 0 : r.int(4)) }));
    const nPh = r.weighted([[3, 1], [2, 2], [1, 3]]);
    const phases = Array.from({ length: nPh }, (_, i) => ({
      settings: i === 0 && r.bool(0.6) ? {} : R.settings(r),
      clients: Array.from({ length: 1 + r.int(3) }, () => ({ ops: Array.from({ length: 1 + r.int(3) }, () => { const kind = r.pick(["read", "read", "read", "readRaw"]); let opts = r.bool(0.5) ? R.readOpts(r) : undefined; if (opts && kind === "readRaw") opts = Object.fromEntries(Object.entries(opts).filter(([k]) => R.RAW_KEYS.has(k))); return { kind, file: r.pick(Object.keys(files)), opts, inst: r.int(nInst), gap: r.bool(0.6) ? 0 : r.float() * 300, bg: r.bool(0.4) }; }) })),
    }));
    return { net: G.net(r), timerLateness: r.pick([0, 15]), wallBase: r.pick(WALL), tz: r.pick(ZONES), refWall: r.pick(WALL), refTz: r.pick(ZONES), insts, files, phases, clients: phases.flatMap((p) => p.clients), faults: r.bool(0.4) ? [] : G.faults(r, { span: 8, cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage|errorReply/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) }) };
  },
  *shrink(plan) {
    const cl = () => JSON.parse(JSON.stringify(plan));
    const fix = (p) => { p.clients = p.phases.flatMap((x) => x.clients); return p; };
    for (let i = 0; i < plan.phases.length; i++) { if (plan.phases.length > 1) { const c = cl(); c.phases.splice(i, 1); yield fix(c); } const c = cl(); if (Object.keys(c.phases[i].settings).length) { c.phases[i].settings = {}; yield c; } }
    for (let i = 0; i < plan.phases.length; i++) for (let j = 0; j < plan.phases[i].clients.length; j++) { const c = cl(); c.phases[i].clients.splice(j, 1); yield fix(c); for (let k = 0; k < plan.phases[i].clients[j].ops.length; k++) { const d = cl(); d.phases[i].clients[j].ops.splice(k, 1); yield fix(d); } }
    for (const f of Object.keys(plan.files)) for (const t of Object.keys(plan.files[f].photo.tags)) { const c = cl(); delete c.files[f].photo.tags[t]; yield c; }
    for (let i = 0; i < plan.insts.length; i++) for (const k of Object.keys(plan.insts[i])) { const c = cl(); delete c.insts[i][k]; yield c; }
    for (const k of ["tz", "refTz"]) if (plan[k] !== "UTC") { const c = cl(); c[k] = "UTC"; yield c; }
    if (plan.wallBase !== plan.refWall) { const c = cl(); c.wallBase = c.refWall; yield c; }
  },
  async run(ctx) {
    const { plan } = ctx;
    const walls = [plan.wallBase, plan.refWall];
    const tz0 = process.env.TZ;
    try {
      process.env.TZ = plan.tz;
      const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
      const w = sim.w;
      const host = sim.host(1);
      const lib = host.main();
      const insts = plan.insts.map((x) => new lib.ExifTool(R.live(x)));
      w.setFaults(plan.faults);
      const got = [];
      for (const [pi, ph] of plan.phases.entries()) {
        R.applySettings(lib, ph.settings);
        let live = ph.clients.length;
        const recs = [];
        for (const c of ph.clients) (async () => {
          for (const op of c.ops) {
            if (op.gap > 0) await sim.sleep(op.gap);
            const rec = sim.call({ ...op, phase: pi }, () => invoke(insts[op.inst] ?? insts[0], { ...op, opts: R.live(op.opts) }), host);
            recs.push(rec);
            rec.done.then(() => { if (rec.ok) rec.norm = R.strip(rec.value, walls), rec.instants = instants(rec.value, walls); });
            if (!op.bg) await rec.done;
          }
          live--;
        })();
        const res = await w.run({ until: () => live === 0 && recs.every((x) => x.settled != null), maxTime: w.now + P.bound(plan), maxEvents: 300000 });
        if (res !== "until") ctx.violate("stuck", `reads are pending after ${Math.round(w.now)} ms`);
        // (before the settings change: which zones are accepted follows them)
        for (const x of recs) if (x.ok) { const now = instants(x.value, walls); if (!O.eq(now, x.instants)) ctx.violate("result-changed-later", `${x.kind}(${x.file}): the same result's instants: ${O.diff(now, x.instants)}`); }
        got.push(...recs);
      }
      await P.finish(ctx, { w, sim, insts });
      // the same results must be seen when examined again later
      for (const x of got) if (x.ok && !O.eq(R.strip(x.value, walls), x.norm)) ctx.violate("result-changed-later", `${x.kind}(${x.file}): ${O.diff(R.strip(x.value, walls), x.norm)}`);
      process.env.TZ = plan.refTz;
      const refs = new Map();
      for (const x of got) {
        if (!x.ok) { if (plan.faults.length === 0) ctx.violate("read-failed", `${x.kind}(${x.file}) rejected without any fault: ${x.message}`); continue; }
        const merged = { ...(plan.insts[x.inst] ?? plan.insts[0]) };
        for (const k of Object.keys(G.opts({ pick: (a) => a[0] }))) delete merged[k];
        const key = JSON.stringify([x.kind, x.file, merged, x.opts, plan.phases[x.phase].settings]);
        if (!refs.has(key)) refs.set(key, await R.refRead(ctx, { key: refs.size, kind: x.kind, file: x.file, entry: plan.files[x.file], opts: merged, callOpts: x.opts, settings: plan.phases[x.phase].settings, wallBase: plan.refWall, walls }));
        const ref = refs.get(key);
        ctx.probe("compared");
        if (!ref.ok) ctx.violate("only-busy-read-succeeds", `${x.kind}(${x.file}, ${O.S(x.opts ?? {})}) alone: ${ref.message}`);
        else if (!O.eq(x.norm, ref.value)) ctx.violate("depends-on-environment", `${x.kind}(${x.file}, ${O.S({ ...merged, ...x.opts })}) differs from the same read done alone (first) : ${O.diff(ref.value, x.norm)}`);
      }
    } finally { if (tz0 === undefined) delete process.env.TZ; else process.env.TZ = tz0; }
  },
};
