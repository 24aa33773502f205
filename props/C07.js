"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
module.exports = {
  id: "C07", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: concurrent reads of files that make ExifTool print warnings and errors (in the JSON, on stderr, both, duplicated, multi-line, multi-byte), of missing and unreadable files, interleaved with writes that warn; stderr and stdout chunks interleave randomly within what the pipes allow; crashes, retries, slow commands.",
  nontrivialRule: "some answer carried a warning or error", nontrivial: (r) => (r.probes["messages"] || 0) > 0,
  gen(r) {
    const p = P.genPool(r, { mix: [[6, "read"], [5, "readRaw"], [2, "write"], [1, "buffer"], [1, "extract"]], calm: 0.5, missing: 0.2, bad: 0.12, warnings: 0.5, errors: 0.25, stderr: 0.6,
      faults: { cmdKinds: [...G.CMD_FAULTS.filter(([, f]) => !/noise/.test(String(f))), [5, (q) => ({ kind: "warn", text: (q.bool() ? "Warning: " : "Error: ") + q.pick(["Extra é漢字", "Truncated mdat", "[minor] Unknown"]) + " " + q.int(1000) + "\n" })]], timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) },
      opts: (q) => ({ ignoreMinorErrors: q.bool(0.6), taskTimeoutMillis: 30000, taskRetries: q.int(3) }) });
    let k = 0;
    for (const [path, f] of Object.entries(p.files)) if (f.photo && f.photo.stderr) {
      const n = 1 + (r.bool(0.02) ? 60 + r.int(400) : r.bool(0.15) ? r.int(60) : r.int(3)), long = r.bool(0.05) ? " at length".repeat(r.int(400)) : ""; let s = "";
      for (let i = 0; i < n; i++) s += r.pick(["Warning: ", "Warning: [minor] ", "Error: "]) + r.pick(["Problem", "Bad IFD", "漢字 é", "Undefined offset"]) + long + " " + ++k + " - " + path + "\n";
      if (r.bool(0.3)) s += s.split("\n")[0] + "\n";
      f.photo.stderr = s;
    }
    for (const c of p.clients) for (const op of c.ops) if (/^read/.test(op.kind) && r.bool(0.3)) op.opts = { ignoreMinorErrors: r.bool() };
    for (const c of p.clients) for (const op of c.ops) if (/^read/.test(op.kind) && r.bool(0.2)) op.opts = { ...op.opts, readArgs: r.pick([["-G"], ["-fast", "-G1"], ["-g"], ["-g1", "-fast"], [], ["-n"]]) };
    return p;
  },
  async run(ctx) {
    const S = await P.runPool(ctx);
    const { sim, w } = S;
    for (const rec of sim.ops) {
      if (rec.kind !== "read" && rec.kind !== "readRaw") continue;
      const cmds = O.commandsOf(w, rec).filter((c) => O.answered(c) && O.within(c, rec, 1));
      const name = `${rec.kind}(${rec.file}) #${rec.id}`;
      if (rec.ok === true) {
        if (!Array.isArray(rec.value.errors) || !Array.isArray(rec.value.warnings)) { ctx.violate("no-lists", `${name}: errors ${O.S(rec.value.errors)}, warnings ${O.S(rec.value.warnings)} are not both arrays`); continue; }
        const whys = cmds.map((c) => {
          const e = O.expectedReadMsgs(c);
          if (e.errors.length + e.warnings.length) ctx.probe("messages");
          if (!O.eq([...rec.value.errors].sort(), [...e.errors].sort())) return `errors ${O.S(rec.value.errors)}, ExifTool said ${O.S(e.errors)} for this request`;
          if (!O.eq([...rec.value.warnings].sort(), [...e.warnings].sort())) return `warnings ${O.S(rec.value.warnings)}, ExifTool said ${O.S(e.warnings)} for this request`;
          return null;
        });
        if (whys.length && !whys.includes(null)) ctx.violate("messages-differ", `${name}: ${whys[0]}`);
      } else if (rec.ok === false && ctx.plan.faults.length === 0) {
        const last = cmds[cmds.length - 1];
        if (!last) { ctx.violate("rejected-unasked", `${name} rejected with "${rec.message}" and no ExifTool answer`); continue; }
        const errs = O.lines(last.err).filter(O.isErr);
        if (O.parseOut(last)) ctx.violate("rejected-although-answered", `${name} rejected with "${rec.message}" although ExifTool returned tags`);
        else if (errs.length && !rec.message.includes(errs[0].replace(/^Error: /, ""))) ctx.violate("error-text-lost", `${name} rejected with "${rec.message}", ExifTool said ${O.S(errs)}`);
        ctx.probe("messages");
      }
    }
    await P.finish(ctx, S);
  },
};
