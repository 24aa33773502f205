"use strict";
// Shutdown is a barrier: when end() or asynchronous disposal resolves, no
// child of the instance is left to run, nothing is pending, nothing restarts.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { invoke } = require("../sim/scenario");
const ownerOf = (s) => Number(s.opts.env?.SIM_INST ?? -1);
const KINDS = [[5, "read"], [3, "readRaw"], [3, "write"], [1, "edit"], [1, "extract"], [1, "buffer"], [1, "rewrite"], [2, "version"]];
module.exports = {
  id: "C11", runs: { quick: 5000, thorough: 400000 }, ownerOf,
  rule: "Seeded plan: 1-3 instances with calls queued, running, starting up and being retried; 1-4 shutdown calls (end graceful or not, asynchronous and synchronous disposal, closeChildProcesses) at random instants, overlapping, on a random instance; children that are booting, busy, hung, ignoring SIGTERM or the exit command, or slow to die; failed spawns, stalls, asynchronous path lookups; calls keep arriving during and after shutdown.",
  nontrivialRule: "an instance was shut down while it had a live child", nontrivial: (r) => (r.probes["shutdown-with-live-child"] || 0) > 0,
  gen(r) {
    const nInst = r.weighted([[3, 1], [3, 2], [1, 3]]);
    const p = P.genPool(r, { insts: nInst, calm: 0.35, mix: KINDS, bg: 0.6, perClient: (q) => 1 + q.int(4), bad: 0, missing: 0.02, errors: 0, minor: 0,
      faults: { cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage|errorReply|enospc/.test(String(f))), spawns: r.int(3), times: r.int(2), timeKinds: G.TIME_FAULTS.filter(([, f]) => /stall|kill|freeze/.test(String(f))) },
      opts: (q) => ({ taskTimeoutMillis: q.pick([800, 5000, 30000]), disposalTimeoutMs: q.pick([100, 1000]), asyncDisposalTimeoutMs: q.pick([50, 300, 5000]), checkPerl: q.bool() }) });
    p.slowPath = r.weighted([[3, 0], [1, 200], [1, 3000]]);
    if (r.bool(0.5)) p.net.serviceMs = [50, 700];
    p.net.bootMs = r.pick([[1, 5], [5, 40], [20, 140], [100, 900]]);
    p.net.stubbornExit = r.bool(0.25);
    const n = 1 + r.int(4);
    p.late = Array.from({ length: n }, (_, i) => ({ at: r.bool(0.2) ? 0 : r.float() * r.pick([60, 400, 1500, 4000]), inst: i === 0 ? 0 : r.int(nInst), kind: r.weighted([[5, "end"], [3, "asyncDispose"], [1.5, "dispose"], [1, "closeChildren"]]), graceful: r.weighted([[5, true], [3, false], [2, undefined]]) }));
    p.after = Array.from({ length: 1 + r.int(3) }, () => ({ kind: r.pick(["read", "version", "write", "extract", "readRaw", "edit", "deleteAll", "buffer", "rewrite"]), delay: r.pick([0, 1, 300, 5000]) }));
    return p;
  },
  async run(ctx) {
    const { plan } = ctx;
    const ENDS = new Set(["end", "asyncDispose", "dispose"]);
    const shut = new Map(); // inst -> {called, resolved}
    let post = [], fired = 0;
    const calls = [], killed = (c) => c.signals.some((s) => s.sig === "SIGKILL" || s.sig === 9);
    const S = await P.runPool(ctx, {
      makeOpts: (x, host, lib) => { const i = plan.insts.findIndex((y) => y === x); const o = { ...x, exiftoolEnv: { SIM_INST: String(i) } }; if (plan.slowPath) o.exiftoolPath = async () => { await new Promise((r) => host.T.setTimeout(r, plan.slowPath)); return "/sim/node_modules/exiftool-vendored.pl/bin/exiftool"; }; return o; },
      before({ sim, host, insts, w }) {
        const childrenOf = (i) => w.spawns.filter((s) => s.pid != null && ownerOf(s) === i).map((s) => s.child);
        for (const l of plan.late) w.after(l.at, () => {
          fired++;
          const et = insts[l.inst];
          if (et == null) return;
          const st = shut.get(l.inst) ?? {};
          if (ENDS.has(l.kind) && st.called == null) { st.called = w.now; shut.set(l.inst, st); if (childrenOf(l.inst).some((c) => !c.dead)) ctx.probe("shutdown-with-live-child"); }
          const found = l.kind === "closeChildren" ? et.pids : [];
          const rec = sim.call({ kind: l.kind, inst: l.inst, graceful: l.graceful, shutdown: true }, () => invoke(et, l), host);
          if (ENDS.has(l.kind) && et.ended !== true) ctx.violate("not-ended", `ended is ${et.ended} right after ${l.kind}()`);
          if (l.kind === "closeChildren") {
            calls.push({ l, at: w.now });
            rec.done.then(() => {
              if (!rec.ok) return void ctx.violate("shutdown-rejects", `closeChildProcesses(${l.graceful}) of instance ${l.inst}: ${rec.message}`);
              for (const c of found.map((x) => w.pids.get(x))) if (c && !c.dead && !killed(c)) ctx.violate("child-left-running", `closeChildProcesses(${l.graceful ?? ""}) of instance ${l.inst} resolved, but child ${c.pid} is still running and was not killed`);
              if (found.length) ctx.probe("closed-children");
            });
          }
          if (l.kind === "dispose" || l.kind === "closeChildren") return;
          rec.done.then(() => {
            const name = `${l.kind}(${l.kind === "end" ? l.graceful : ""}) of instance ${l.inst}`;
            if (!rec.ok) { ctx.violate("shutdown-rejects", `${name}: ${rec.message}`); return; }
            st.resolved ??= w.now;
            for (const c of childrenOf(l.inst)) {
              if (!c.dead && !killed(c)) ctx.violate("child-left-running", `${name} resolved, but child ${c.pid} is still running and was not killed (signals: ${c.signals.map((s) => s.sig).join(",") || "none"})`);
              if (!c.dead && killed(c)) ctx.probe("resolved-while-kill-pending");
            }
            for (const [k, a] of plan.after.entries()) w.after(a.delay, () => {
              const op = { ...P.genOp(w.rng.fork("after", k), a.kind, plan.files, "late" + k + "x" + l.inst, { missing: 0 }), inst: l.inst };
              const rec2 = sim.call({ ...op, afterEnd: true, inst: l.inst }, () => invoke(et, op), host);
              post.push(rec2);
            }, "call-after-end");
          });
        }, "shutdown");
      },
      tail: 30000,
    });
    const { sim, w, lim, outcome, insts } = S;
    await w.run({ until: () => fired === plan.late.length && sim.allSettled(), maxTime: w.now + lim, maxEvents: 200000 });
    await w.run({ until: () => false, maxTime: w.now + 10000, maxEvents: 100000 });
    await w.run({ until: () => sim.allSettled(), maxTime: w.now + lim, maxEvents: 200000 });
    for (const rec of sim.ops) if (rec.settled == null) ctx.violate("never-settles", `${rec.kind}(${rec.file ?? ""}) #${rec.id} of instance ${rec.inst} invoked at ${rec.invoked.toFixed(0)} ms is pending at ${w.now.toFixed(0)} ms`);
    for (const rec of post) {
      if (rec.ok) ctx.violate("accepted-after-end", `${rec.kind}() resolved to ${O.S(rec.value)} although the instance had been shut down`);
      if (rec.ok === false && !(rec.error instanceof Error)) ctx.violate("rejects-with-non-error", O.S(rec.error));
      if (O.commandsOf(w, rec).some((c) => c.at >= rec.invoked && ownerOf(w.spawns[c.child - 1]) === rec.inst)) ctx.violate("executed-after-end", `${rec.kind}(${rec.file}) made after shutdown reached ExifTool`);
    }
    // a call made once the shutdown has begun is refused as well
    for (const rec of sim.ops) { const st = shut.get(rec.inst ?? 0); if (st && !rec.shutdown && rec.invoked > st.called + 1e-9 && rec.ok === true) ctx.violate("accepted-during-end", `${rec.kind}(${rec.file ?? ""}) was called ${(rec.invoked - st.called).toFixed(1)} ms after shutdown began, and resolved`); }
    for (const [i, st] of shut) {
      if (st.resolved == null) { if (insts[i]) ctx.probe("only-sync-disposal"); }
      else for (const s of w.spawns) if (ownerOf(s) === i && s.at > st.resolved + 1e-9) ctx.violate("spawn-after-end", `instance ${i} started a process ${(s.at - st.resolved).toFixed(1)} ms after its shutdown had resolved`);
      for (const s of w.spawns) if (ownerOf(s) === i && s.pid != null && !s.child.dead && !s.child.signals.some((x) => x.sig === "SIGKILL" || x.sig === 9)) ctx.violate("orphan", `child ${s.pid} of instance ${i} is alive ${(w.now - st.called).toFixed(0)} ms after shutdown began`);
      if (st.resolved != null && insts[i].pids.length) { const live = insts[i].pids.filter((p) => { const c = w.pids.get(p); return c && !c.dead && !c.signals.length; }); if (live.length) ctx.violate("pids-after-end", `pids is ${O.S(live)} after shutdown`); }
      if (insts[i].pendingTasks !== 0) ctx.violate("pending-after-end", `pendingTasks is ${insts[i].pendingTasks} after shutdown`);
    }
    // a graceful end() lets a command that is being executed finish
    const closes = calls.filter((x) => x.l.graceful !== false && plan.late.filter((l) => l.inst === x.l.inst).length === 1).map((x) => [x.l.inst, { called: x.at }]);
    for (const [i, st] of [...shut, ...closes]) {
      const mine = plan.late.filter((l) => l.inst === i), o = plan.insts[i];
      // (the grace of a disposal is the time its caller allows)
      const grace = Math.min(1000, ...mine.map((l) => (l.kind === "dispose" ? o.disposalTimeoutMs : l.kind === "asyncDispose" ? o.asyncDisposalTimeoutMs : 1000)));
      if (mine.some((l) => /end|close/.test(l.kind) && l.graceful === false) || (shut.has(i) && mine.some((l) => l.kind === "closeChildren")) || plan.faults.some((f) => f.on === "time") || plan.insts[i].taskTimeoutMillis < 5000) continue;
      for (const c of w.commands) {
        if (c.first || c.fault || ownerOf(w.spawns[c.child - 1]) !== i || c.at >= st.called - 1 || (c.readyAt != null && c.readyAt <= st.called)) continue;
        if (c.args.length === 1 && c.args[0] === "-ver") continue;
        const kill = w.spawns[c.child - 1].child.signals.find((x) => x.from != null && x.at < st.called + grace && (c.readyAt == null || x.at < c.readyAt));
        ctx.probe("ended-while-executing");
        if (kill) ctx.violate("graceful-end-interrupts", `a command that began ${(st.called - c.at).toFixed(1)} ms before a graceful shutdown was interrupted by ${kill.sig} after ${(kill.at - st.called).toFixed(1)} ms: ${O.S(c.args)}`);
      }
    }
    // other instances do not notice
    const benign = plan.faults.every((f) => (f.on === "cmd" && f.kind === "slow" && f.ms <= 400) || (f.on === "spawn" && f.kind === "stubborn") || f.kind === "wallJump");
    for (const [i, o] of plan.insts.entries()) {
      if (shut.has(i)) continue;
      for (const s of w.spawns) if (ownerOf(s) === i && s.pid != null && benign && !plan.late.some((l) => l.inst === i)) {
        const bad = s.child.signals.filter((x) => x.from != null);
        if (bad.length && o.maxTasksPerProcess >= 500 && o.taskTimeoutMillis >= 5000 && o.spawnTimeoutMillis >= 30000) ctx.violate("other-instance-killed", `a child of instance ${i}, which was not shut down, received ${bad.map((x) => x.sig)}`);
      }
      if (insts[i].ended) ctx.violate("other-instance-ended", `instance ${i} is ended although nobody shut it down`);
      for (const rec of sim.ops) if ((rec.inst ?? 0) === i && rec.ok === false && benign && o.taskTimeoutMillis >= 5000 && o.spawnTimeoutMillis >= 30000 && ["read", "readRaw", "version"].includes(rec.kind) && (rec.kind === "version" || plan.files[rec.file]) && !plan.late.some((l) => l.inst === i)) ctx.violate("other-instance-failed", `${rec.kind}(${rec.file ?? ""}) of instance ${i}, which was not shut down, rejected: ${rec.message}`);
    }
    // closing child processes is not the end
    const closed = plan.late.find((l) => l.kind === "closeChildren" && !shut.has(l.inst));
    if (closed && insts[closed.inst]) {
      w.faultsOff = true;
      // (a child that an earlier fault left hung while idle is only noticed by the call it is given: each may cost one attempt)
      let rec, tries = 1 + w.spawns.filter((s) => ownerOf(s) === closed.inst && s.pid != null && !s.child.dead).length;
      do {
        rec = sim.call({ kind: "version", inst: closed.inst, again: true }, () => insts[closed.inst].version(), S.host);
        await w.run({ until: () => rec.settled != null, maxTime: w.now + 120000 });
      } while (rec.ok === false && --tries > 0);
      if (rec.ok !== true) ctx.violate("dead-after-close", `version() after closeChildProcesses: ${rec.settled == null ? "never settles" : rec.message}`);
    }
    for (const u of w.uncaught) ctx.violate(u.kind, `${u.msg}\n${u.stack}`);
    await P.finish(ctx, S);
  },
};
