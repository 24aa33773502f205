"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
// every attempt reaches ExifTool as one command, so attempts can be counted
const CLEAN = [
  [3, () => ({ kind: "crashBefore" })], [3, () => ({ kind: "hang" })], [2, () => ({ kind: "hangAfterEffect" })], [3, () => ({ kind: "crashAfterEffect" })],
  [2, (r) => ({ kind: "crashMidOutput", keep: r.float() * 0.9 })], [2, () => ({ kind: "crashBeforeReady" })], [3, (r) => ({ kind: "errorReply", text: "Error: Transient trouble " + r.int(1e6) + " (Input/output error)\n" })], [2, () => ({ kind: "garbage" })], [1, () => ({ kind: "stubbornHang" })],
];
const KINDS = new Set(["read", "readRaw", "extract", "rewrite", "buffer"]);
const rawField = (out, tag) => { try { return JSON.parse(out)[0][tag]; } catch { return undefined; } };
/** did ExifTool's answer to this attempt make the call succeed? true/false, or null when the call must not be retried */
function verdict(rec, c) {
  if (!O.answered(c)) return false;
  if (rec.kind === "read" || rec.kind === "readRaw") return O.parseOut(c) != null;
  if (rec.kind === "rewrite") return O.reportedSuccess(c) && O.statusOf(c).created === 1;
  if (rec.kind === "buffer") { // an answer without the payload is final: with or without an error, both are known to happen
    const v = rawField(c.out, rec.tag);
    return typeof v === "string" && v.startsWith("base64:") ? true : O.lines(c.err).some(O.isErr) || c.fault === "garbage" ? undefined : null;
  }
  const s = O.statusOf(c);
  if (O.lines(c.err).some(O.isErr)) return false;
  if (!/output files created/.test(c.out)) return false;
  return s.output === 1 ? true : null; // payload missing: final
}
module.exports = {
  id: "C03", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: concurrent reads, extractions and rewrites on distinct files; faults strike the 1st..k-th attempt of chosen calls (crash, hang, error reply, garbage, torn output); taskRetries 0-4.",
  nontrivialRule: "some attempt failed", nontrivial: (r) => (r.probes["attempt-failed"] || 0) > 0,
  gen(r) {
    const n = r.bool(0.006) ? 100 + r.int(120) : r.bool(0.2) ? 6 + r.int(10) : 1 + r.int(6);
    const chain = r.pick([0, 0.3, 0.8]); // how often a call waits for an earlier one
    const files = {};
    const clients = [];
    let seq = 0;
    for (let i = 0; i < n; i++) {
      const kind = r.weighted([[4, "read"], [3, "readRaw"], [3, "extract"], [2, "rewrite"], [2, "buffer"], [1, "write"]]);
      const path = "/photos/p" + i + ".jpg";
      const ph = G.photo(r, "orig" + i);
      const tag = r.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw"]);
      if (r.bool(0.7)) ph.bin[tag] = Buffer.from("payload" + i).toString("base64"); else delete ph.bin[tag];
      if (r.bool(0.95)) files[path] = { photo: ph };
      const op = P.genOp(r, kind, { [path]: 1 }, "tok" + ++seq + "q", { missing: 0, file: path });
      if (op.tag) op.tag = tag;
      if (clients.length && r.bool(chain)) r.pick(clients).ops.push(op); else clients.push({ ops: [op] });
    }
    const faults = [];
    const density = r.pick([0.2, 0.5, 0.8, 1]);
    for (let k = 1; k <= n * (r.bool(0.15) ? 10 : 5); k++) if (r.bool(density)) faults.push({ on: "cmd", n: k, ...r.weighted(CLEAN)(r) });
    return { net: { ...G.net(r), serviceMs: r.pick([[0, 2], [1, 12]]), bootMs: [1, 30] }, timerLateness: r.pick([0, 0, 10]), files, clients, faults,
      insts: [{ ...G.opts(r), taskRetries: r.bool(0.15) ? 5 + r.int(5) : r.int(5), taskTimeoutMillis: r.pick([800, 3000]), maxTasksPerProcess: r.pick([2, 500]), healthCheckIntervalMillis: 0, minDelayBetweenSpawnMillis: r.pick([0, 50]) }] };
  },
  async run(ctx) {
    const S = await P.runPool(ctx, { tail: 20000 });
    const { sim, w } = S;
    const max = 1 + ctx.plan.insts[0].taskRetries;
    for (const rec of sim.ops) {
      const cmds = O.commandsOf(w, rec).sort((a, b) => a.seq - b.seq);
      const name = `${rec.kind}(${rec.file}) with taskRetries=${max - 1}`;
      if (O.MUT.has(rec.kind)) continue;
      if (cmds.length > max) ctx.violate("too-many-attempts", `${name}: ${cmds.length} attempts`);
      if (rec.ok === true && cmds.length === 0) ctx.violate("resolved-without-attempt", name);
      if (!KINDS.has(rec.kind)) continue;
      const vs = cmds.map((c) => verdict(rec, c));
      for (const v of vs) if (v !== true) ctx.probe("attempt-failed");
      const firstGood = vs.indexOf(true), final = vs.indexOf(null);
      if (firstGood >= 0 && cmds.length > firstGood + 1) ctx.violate("retried-after-success", `${name}: attempt ${firstGood + 1} succeeded, but ${cmds.length} attempts were made`);
      if (final >= 0 && cmds.length > final + 1) ctx.violate("retried-missing-payload", `${name}: attempt ${final + 1} showed that the payload is missing, but ${cmds.length} attempts were made`);
      if (rec.ok === true && vs[vs.length - 1] !== true) ctx.violate("resolved-by-failed-attempt", `${name}: resolved to ${O.S(rec.value)} although the last attempt failed (${cmds[cmds.length - 1]?.fault})`);
      if (rec.ok === false) {
        if (firstGood >= 0) ctx.violate("rejected-after-success", `${name}: rejected with ${rec.message} although attempt ${firstGood + 1} succeeded`);
        else if (final < 0 && cmds.length < max && vs[vs.length - 1] !== undefined) ctx.violate("gave-up-early", `${name}: rejected with "${rec.message}" after ${cmds.length} of ${max} attempts (${cmds.map((c) => c.fault ?? "-").join(",")})`);
        const last = cmds[cmds.length - 1];
        if (last && O.answered(last) && last.fault === "errorReply") {
          const want = last.err.trim().replace(/^Error: /, "");
          if (!rec.message.includes(want)) ctx.violate("wrong-error", `${name}: rejected with "${rec.message}", last attempt failed with "${want}"`);
        }
      }
      if (cmds.length > 1) ctx.probe("retries:" + (cmds.length - 1));
    }
    await P.finish(ctx, S);
  },
};
