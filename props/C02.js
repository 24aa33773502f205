"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
function checkAtMostOnce(ctx, S) {
  const { sim, w } = S;
  for (const rec of sim.ops) {
    if (!O.MUT.has(rec.kind)) continue;
    const cmds = rec.own ? w.commands.filter((c) => !c.first && c.args.includes(rec.file)) : O.commandsOf(w, rec);
    const same = sim.ops.filter((x) => x.kind === rec.kind && x.tok === rec.tok && x.file === rec.file);
    const lim = rec.kind !== "deleteAll" ? same.length : sim.ops.filter((x) => x.kind === "deleteAll" && x.file === rec.file && O.eq(x.opts?.retain ?? [], rec.opts?.retain ?? [])).length;
    if (cmds.length > lim) ctx.violate("executed-twice", `${rec.kind}(${rec.file}) #${rec.id} was executed ${cmds.length} times (ordinals ${cmds.map((c) => c.ordinal + (c.fault ? ":" + c.fault : "")).join(", ")})`);
    // identical calls are still that many calls
    const done = same.filter((x) => x.ok === true).length, answers = cmds.filter((c) => O.answered(c)).length;
    if (same.length > 1) ctx.probe("identical-calls");
    if (rec.kind !== "deleteAll" && done > answers) ctx.violate("resolved-without-execution", `${done} of ${same.length} calls ${rec.kind}(${rec.file}) resolved, ExifTool executed and answered ${answers}`);
    if (rec.ok === true && lim === 1 && cmds.length !== 1) ctx.violate("resolved-without-execution", `${rec.kind}(${rec.file}) resolved but ExifTool executed ${cmds.length} commands for it`);
    if (rec.ok === true && lim === 1 && cmds.length === 1 && !O.answered(cmds[0])) ctx.violate("resolved-without-answer", `${rec.kind}(${rec.file}) resolved before ExifTool answered`);
    if (cmds.length === 1 && cmds[0].fault && rec.ok === false) ctx.probe("mutation-failed-by:" + cmds[0].fault);
    if (rec.ok === false && cmds.some((c) => c.effects.some((e) => e.kind === "update" || e.kind === "create"))) ctx.probe("rejected-after-effect");
  }
  // at most one file effect per call
  const adds = new Map();
  for (const c of w.commands) for (const e of c.effects) if (e.kind === "update" || e.kind === "create") adds.set(c.seq, (adds.get(c.seq) || 0) + 1);
  for (const [s, n] of adds) if (n > 1) ctx.violate("many-effects", `command ${s} modified ${n} files`);
}
module.exports = {
  id: "C02", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: concurrent clients whose calls are mostly write/editTags/deleteAllTags with unique content; crash, hang, torn-reply, error-reply, spawn and timing faults aimed at the commands; 0-3 retries configured; closeChildProcesses() amid the calls; 60 s of simulated time after the last settlement.",
  nontrivialRule: "a modifying call was made and a fault fired", nontrivial: (r) => r.ops > 0 && Object.keys(r.faults).length > 0,
  gen(r) {
    const plan = P.genPool(r, { mix: [[6, "write"], [5, "edit"], [2, "deleteAll"], [2, "read"], [1, "rewrite"], [1, "closeChildren"]], calm: 0.05, missing: 0.05, minor: 0.1, bad: 0.08, faults: { cmds: r.weighted([[1, 1], [3, 2], [3, 4]]) },
      opts: (q) => ({ taskRetries: q.pick([1, 1, 2, 3, 5, 0]), taskTimeoutMillis: q.pick([300, 1000, 5000]) }) });
    for (const c of plan.clients) for (const op of [...c.ops]) if (O.MUT.has(op.kind) && op.kind !== "deleteAll" && r.bool(0.15)) r.pick(plan.clients).ops.push({ ...op, gap: r.bool(0.7) ? 0 : op.gap });
    // calls whose content carries no token have a file of their own
    let n = 0;
    for (const c of plan.clients) for (const op of c.ops) if (op.kind === "closeChildren") op.graceful = r.bool(), op.bg = true, delete op.file;
    for (const c of plan.clients) for (const op of c.ops) if (op.kind === "write" && r.bool(0.25)) {
      op.file = "/photos/only" + ++n + ".jpg"; op.own = true;
      plan.files[op.file] = { photo: G.photo(r, "own" + n) };
      op.tags = r.pick([{}, { Title: null }, { Title: null, Keywords: null }, { Rating: 3 }, { Rating: null, "Orientation#": 6 }, { GPSLatitude: 1.5, GPSLongitude: -2.5 }, { GPSAltitude: null }, { "Keywords+": ["7", "8"] }, { Subject: [] }]);
    }
    return plan;
  },
  async run(ctx) {
    const S = await P.runPool(ctx, { tail: 60000 });
    checkAtMostOnce(ctx, S);
    await P.finish(ctx, S);
    checkAtMostOnce(ctx, S);
  },
};
