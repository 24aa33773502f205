"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { VERSION } = require("../sim/exif");

function checkResponses(ctx, S) {
  const { sim, w } = S;
  const perFile = new Map();
  for (const rec of sim.ops) {
    if (rec.kind === "version" && rec.ok && rec.value !== VERSION) ctx.violate("version-value", `version() → ${O.S(rec.value)}, ExifTool said ${VERSION}`);
    if (rec.ok !== true) continue;
    if (!["read", "readRaw", "buffer"].includes(rec.kind)) continue;
    const cmds = O.commandsOf(w, rec).filter((c) => O.answered(c) && O.within(c, rec, 1));
    if (cmds.length === 0) { ctx.violate("no-answer", `${rec.kind}(${rec.file}) resolved to ${O.S(rec.value)} but ExifTool never answered a matching command`); continue; }
    const key = rec.kind + " " + rec.file + " " + (rec.tag ?? "");
    const e = perFile.get(key) ?? { n: 0, cmds: new Set() };
    e.n++; for (const c of O.commandsOf(w, rec)) if (O.answered(c)) e.cmds.add(c.seq);
    perFile.set(key, e);
    let why = null;
    for (const c of cmds) {
      why = rec.kind === "buffer" ? bufferMismatch(rec, c) : O.readMismatch(rec.kind, rec.value, c, { msgs: false });
      if (why == null) break;
    }
    if (why != null) ctx.violate("wrong-answer", `${rec.kind}(${rec.file}): ${why}`);
    if (cmds.some((c) => c.out && c.out.includes("{ready}"))) ctx.probe("sentinel-text-in-value");
  }
  for (const [k, e] of perFile) if (e.n > e.cmds.size) ctx.violate("answer-shared", `${e.n} calls of "${k}" resolved, but ExifTool answered only ${e.cmds.size} such commands`);
}
function bufferMismatch(rec, c) {
  const p = O.parseOut(c);
  if (!p) return "resolved although the output is not JSON";
  const k = Object.keys(p.json).find((x) => x.toLowerCase() === rec.tag.toLowerCase());
  if (k == null) return "resolved although " + rec.tag + " is absent";
  const want = p.json[k].replace(/^base64:/, "");
  if (!Buffer.isBuffer(rec.value)) return "not a Buffer: " + O.S(rec.value);
  return rec.value.toString("base64") === want ? null : `got ${rec.value.length} bytes ${rec.value.toString("base64").slice(0, 60)}, ExifTool sent ${want.slice(0, 60)}`;
}
/** with no faults and generous timeouts, a valid request gets its answer */
function checkValidResolve(ctx, S) {
  const { sim, w, plan } = { ...S, plan: ctx.plan };
  if (plan.faults.length) return;
  for (const rec of sim.ops) {
    if (rec.ok !== false) continue;
    if (plan.insts[rec.inst ?? 0].taskTimeoutMillis < 30000) continue;
    const f = plan.files[rec.file];
    const good = rec.kind === "version" || (f && f.photo);
    if (!good) continue;
    if (["read", "readRaw", "version"].includes(rec.kind) || (rec.kind === "buffer" && f.photo.bin[rec.tag] != null && !f.photo.tampered)) {
      ctx.violate("valid-request-rejected", `${rec.kind}(${rec.file ?? ""}) rejected without any fault: ${rec.message}`);
    }
  }
}
module.exports = {
  id: "C01", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: 1-10 concurrent clients, 1-2 instances, small pool limits, tag text with sentinels/multi-byte/control characters, random chunking of the pipes, command/spawn/time faults.",
  gen(r, i) {
    return P.genPool(r, { mix: [[6, "read"], [5, "readRaw"], [2, "write"], [2, "buffer"], [1, "version"], [1, "extract"], [1, "edit"]], calm: 0.35, missing: 0.08, nasty: 0.5,
      invalidUtf8: true, opts: (q) => (q.bool(0.5) ? { taskTimeoutMillis: 30000, spawnTimeoutMillis: 30000 } : {}) });
  },
  async run(ctx) {
    const S = await P.runPool(ctx);
    checkResponses(ctx, S);
    checkValidResolve(ctx, S);
    await P.finish(ctx, S);
  },
  checkResponses,
};
