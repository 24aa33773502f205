"use strict";
// The library never keeps an idle node process alive, never lets it die under
// a pending call, and leaves no child behind when it exits.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
module.exports = {
  id: "C12", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: a script makes calls (also through the default instance, tag descriptions, with retries, timeouts and slow start-ups), sometimes shuts down or disposes explicitly, and then either runs out of work or calls process.exit() at a random instant; the simulated event loop tracks every referenced timer, pipe, child and file operation; children may hang, ignore SIGTERM or the exit command, or die.",
  nontrivialRule: "the host exited with at least one child alive or the loop drained after at least one call", nontrivial: (r) => (r.probes["natural-exit"] || 0) + (r.probes["exit-with-live-child"] || 0) > 0,
  gen(r) {
    const p = P.genPool(r, { calm: 0.3, insts: 1 + r.int(2), mix: [...P.MIXED, [1, "closeChildren"]], bg: 0.5, faults: { times: r.int(3), spawns: r.int(3), timeKinds: G.TIME_FAULTS.filter(([, f]) => /stall|kill|freeze|epipe/.test(String(f))) },
      opts: (q) => ({ checkPerl: q.bool(), taskTimeoutMillis: q.pick([500, 5000, 30000]), asyncDisposalTimeoutMs: q.pick([5000, 20000]), disposalTimeoutMs: q.pick([1000, 3000, 60000]) }) });
    for (const c of p.clients) for (const op of c.ops) if (op.kind === "closeChildren") op.graceful = r.bool();
    p.defaultInst = r.bool(0.25);
    p.descriptions = r.bool(0.15);
    p.net.stubbornExit = r.bool(0.2);
    p.finale = r.weighted([[5, null], [1, "end"], [1, "asyncDispose"], [1, "dispose"]]);
    p.exitAt = r.weighted([[3, null], [2, r.float() * 400], [1, r.float() * 4000]]);
    return p;
  },
  async run(ctx) {
    const { plan } = ctx;
    let idleSince = null;
    const S = await P.runPool(ctx, {
      before({ sim, host, insts, lib, w }) {
        if (plan.defaultInst) insts.push(lib.exiftool), sim.call({ kind: "version", inst: insts.length - 1 }, () => lib.exiftool.version(), host);
        if (plan.descriptions) { const td = new lib.TagDescriptions(insts[0]); sim.call({ kind: "descriptions" }, () => td.preload(), host); }
        // while a call is pending, something must keep the process alive
        w.invariants.push(() => {
          if (host.dead) return;
          const pend = sim.ops.find((x) => x.settled == null && x.kind !== "dispose");
          if (pend && host.held().length === 0) ctx.violate("exits-under-pending-call", `${pend.kind}(${pend.file ?? ""}) is pending at ${w.now.toFixed(1)} ms, but nothing keeps the process alive`);
        });
        if (plan.exitAt != null) w.after(plan.exitAt, () => { if (host.dead) return; if (w.children.some((c) => !c.dead)) ctx.probe("exit-with-live-child"); host.exit(0); }, "process.exit");
      },
    });
    const { sim, host, insts, w, outcome, lim } = S;
    if (!host.dead && plan.exitAt != null) await w.run({ until: () => host.dead, maxTime: w.now + plan.exitAt + 10 });
    const alive = () => w.children.filter((c) => !c.dead && !c.signals.some((s) => s.sig === "SIGKILL" || s.sig === 9));
    if (!host.dead) {
      if (outcome !== "until") ctx.violate("stuck", "calls are pending: " + sim.ops.filter((x) => x.settled == null).map((x) => x.kind));
      w.faultsOff = true;
      if (plan.finale) {
        const recs = insts.map((et) => sim.call({ kind: plan.finale }, () => (plan.finale === "end" ? et.end() : plan.finale === "dispose" ? et[Symbol.dispose]() : et[Symbol.asyncDispose]()), host));
        await w.run({ until: () => recs.every((x) => x.settled != null), maxTime: w.now + 120000 });
        for (const x of recs) if (x.settled == null) ctx.violate("stuck", plan.finale + " never settles");
      }
      // the script is done: the loop has to drain by itself
      const t = w.now;
      // (a child that hangs while starting, or in a health check, is given up on after its own time-out)
      const hang = plan.faults.length || plan.net.stubbornExit ? Math.max(plan.defaultInst ? 30000 : 0, ...plan.insts.map((x) => Math.max(x.spawnTimeoutMillis, x.taskTimeoutMillis))) + 5000 : 0;
      const allow = 3000 + hang + (plan.finale === "dispose" && hang ? Math.max(...plan.insts.map((x) => x.disposalTimeoutMs ?? 1000)) : 0);
      const r1 = await w.run({ until: () => host.held().length === 0, maxTime: t + allow });
      if (host.held().length) ctx.violate("keeps-process-alive", `${allow} ms after the last call settled${plan.finale ? " and " + plan.finale + " finished" : ""}, the process is kept alive by ${host.held().join(", ")}`);
      ctx.probe("natural-exit");
      ctx.probe("drain-ms<" + (w.now - t < 1 ? 1 : w.now - t < 300 ? 300 : w.now - t < 3000 ? 3000 : 10000));
      // node: beforeExit may schedule more work; then exit
      const b = w.now;
      for (let i = 0; i < 5; i++) {
        w.enter(() => host.process.emit("beforeExit", 0));
        await w.run({ until: () => host.held().length === 0, maxTime: b + 90000 });
        if (host.held().length) { ctx.violate("hangs-at-exit", `beforeExit work keeps the process alive for ${Math.round(w.now - b)} ms: ${host.held().join(", ")}`); break; }
        if (i > 0) break;
      }
      host.exit(0);
    }
    await w.run({ until: () => false, maxTime: w.now + 10000, maxEvents: 50000 });
    for (const c of alive()) ctx.violate("orphan", `the process exited${plan.exitAt != null ? " (process.exit)" : ""}, but its child ${c.pid} is still running (signals: ${c.signals.map((s) => s.sig).join(",") || "none"})`);
    for (const u of w.uncaught) ctx.violate(u.kind, `${u.msg}\n${u.stack}`);
    ctx.done(w, sim);
  },
};
