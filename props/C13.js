"use strict";
// The limits an application sets on the pool hold in every schedule.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { ownerOf } = require("./C11");
module.exports = {
  id: "C13", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: bursts of up to 40 calls on 1-2 instances (and the default instance on machines with 1-64 cores) with small limits on processes, tasks per process, process age, spawn spacing and time-outs; slow, hanging, crashing and recycled children, stalls; every process start, command start and reply is compared with the limits.",
  nontrivialRule: "a limit was reached", nontrivial: (r) => Object.keys(r.probes).some((k) => /^(at-max|recycled|timed-out)/.test(k)),
  gen(r) {
    const p = P.genPool(r, { calm: 0.4, insts: 1 + r.int(2), clients: r.weighted([[2, 2], [3, 6], [2, 12]]), bg: 0.7, mix: [[5, "read"], [3, "readRaw"], [2, "write"], [1, "buffer"], [1, "version"], [1, "extract"], [1, "edit"]], bad: 0, errors: 0,
      faults: { cmdKinds: [...G.CMD_FAULTS.filter(([, f]) => !/noise|garbage|errorReply|enospc/.test(String(f))), [4, (q) => ({ kind: "slow", ms: q.pick([300, 450, 480, 520, 900, 1900, 2100]) })], [4, () => ({ kind: "hang" })]], spawns: r.int(2), times: r.int(2), timeKinds: G.TIME_FAULTS.filter(([, f]) => /kill|freeze/.test(String(f))) },
      opts: (q) => ({ maxProcs: q.pick([1, 2, 3, 4]), maxTasksPerProcess: q.pick([1, 2, 3, 5, 500]), taskTimeoutMillis: q.pick([500, 2000, 30000]), spawnTimeoutMillis: q.pick([2000, 30000]) }) });
    if (r.bool(0.3)) p.net.serviceMs = [30, 350];
    if (r.bool(0.2)) { p.insts.forEach((x) => { x.spawnTimeoutMillis = 2000; x.taskTimeoutMillis = 2000; x.maxProcAgeMillis = r.pick([2000, 4000]); }); for (const c of p.clients) for (const op of c.ops) op.gap = r.float() * 2500; }
    p.host = { cpus: r.pick([1, 2, 4, 6, 16, 64]) };
    if (r.bool(0.15)) { p.insts = [r.bool() ? {} : { taskRetries: 0 }]; p.clients.forEach((c) => c.ops.forEach((o) => { o.inst = 0; })); p.burst = r.bool() ? 12 : 0; }
    if (r.bool(0.08)) { // plenty of work, nothing in its way
      p.burst = 40; p.plenty = true; p.faults = []; p.clients = []; p.timerLateness = 0; p.net = { ...p.net, serviceMs: [200, 300], bootMs: [1, 30], latency: 0.2, gapMs: 0 };
      p.insts = [r.bool(0.3) ? {} : { maxProcs: 1 + r.int(6), minDelayBetweenSpawnMillis: 0, taskTimeoutMillis: 30000, maxTasksPerProcess: r.pick([20, 500]) }];
      if (p.insts[0].maxProcs == null) { p.host.cpus = r.pick([1, 4, 6, 16]); p.burst = 90; } // (by default it takes 1.5 s to start each)
    }
    return p;
  },
  async run(ctx) {
    const { plan } = ctx;
    const cores = plan.host?.cpus ?? 16;
    const eff = plan.insts.map((x) => ({ maxProcs: Math.ceil(cores / 4), maxTasksPerProcess: 500, taskTimeoutMillis: 30000, spawnTimeoutMillis: 30000, minDelayBetweenSpawnMillis: 1500, ...x }));
    const S = await P.runPool(ctx, {
      makeOpts: (x) => ({ ...x, exiftoolEnv: { SIM_INST: String(plan.insts.indexOf(x)) } }),
      before({ sim, host, insts, w }) {
        if (plan.burst) for (let k = 0; k < plan.burst; k++) sim.call({ kind: "readRaw", file: Object.keys(plan.files)[0], inst: 0, tok: "b" + k }, () => insts[0].readRaw(Object.keys(plan.files)[0]), host);
        w.invariants.push(() => {
          for (const [i, o] of eff.entries()) {
            // usable children: started, not told to exit, not signalled, not dead
            let usable = 0;
            for (const s of w.spawns) if (s.pid != null && ownerOf(s) === i && !s.child.dead && s.child.prog.toldAt == null && s.child.signals.length === 0 && !s.child.stdin.destroyed && !s.child.stdin.writableEnded) usable++;
            if (usable === o.maxProcs) ctx.out.probes["at-maxProcs"] = 1;
            if (usable > o.maxProcs) ctx.violate("too-many-processes", `instance ${i} has ${usable} usable child processes at ${w.now.toFixed(1)} ms, maxProcs is ${o.maxProcs}`);
          }
        });
      },
      tail: 5000,
    });
    const { sim, w } = S;
    // nothing in the way but slowness within the time-out
    const calm = plan.faults.length === 0, slack0 = plan.net.serviceMs[1] + 250 + plan.timerLateness * 4;
    const mild = plan.faults.every((f) => f.on === "cmd" && f.kind === "slow" && eff.every((o) => f.ms + slack0 < o.taskTimeoutMillis));
    for (const x of w.overlaps || []) ctx.violate("two-commands-at-once", `child ${x.pid} was sent ${O.S(x.args)} before it had answered the previous command`);
    const per = new Map();
    for (const c of w.commands) { if (c.first || (c.args.length === 1 && c.args[0] === "-ver")) continue; per.set(c.child, (per.get(c.child) || 0) + 1); }
    for (const [ord, n] of per) {
      const i = ownerOf(w.spawns[ord - 1]), max = eff[i].maxTasksPerProcess;
      if (n > max) ctx.violate("too-many-tasks", `one child executed ${n} commands, maxTasksPerProcess is ${max}`);
      if (n === max) ctx.probe("recycled-by-tasks");
    }
    const bySpawn = new Map();
    for (const s of w.spawns) { const i = ownerOf(s); (bySpawn.get(i) ?? bySpawn.set(i, []).get(i)).push(s); }
    for (const [i, o] of eff.entries()) {
      const sp = bySpawn.get(i) ?? [];
      if (o.maxProcAgeMillis) for (const c of w.commands) if (!c.first && ownerOf(w.spawns[c.child - 1]) === i && c.at - w.spawns[c.child - 1].at > o.maxProcAgeMillis + 50 + 2 * plan.net.latency + plan.timerLateness * 3) ctx.violate("too-old", `a command was started on a child that is ${Math.round(c.at - w.spawns[c.child - 1].at)} ms old, maxProcAgeMillis is ${o.maxProcAgeMillis}`);
      // with plenty of work, the pool is used
      if (plan.plenty && plan.net.serviceMs[0] >= 200 && plan.burst >= (plan.insts[0].maxProcs == null ? 90 : 40)) {
        const ev = w.commands.filter((c) => !c.first).flatMap((c) => [[c.at, 1], [c.readyAt ?? c.at, -1]]).sort((x, y) => x[0] - y[0] || x[1] - y[1]);
        let n = 0, peak = 0;
        for (const [, d] of ev) peak = Math.max(peak, (n += d));
        if (peak < o.maxProcs) ctx.violate("pool-underused", `${plan.burst} concurrent calls of 200 ms and more, maxProcs ${o.maxProcs}, but at most ${peak} commands ran at the same time`);
        ctx.probe("at-maxProcs:plenty");
      }
    }
    // time-outs
    for (const c of w.commands) {
      if (c.first || (c.args.length === 1 && c.args[0] === "-ver")) continue;
      const s = w.spawns[c.child - 1], o = eff[ownerOf(s)], child = s.child;
      const hung = c.fault && /hang|stubborn/i.test(c.fault);
      if (!hung || child.dead && child.diedAt < c.at + o.taskTimeoutMillis) continue;
      ctx.probe("timed-out");
      const slack = 400 + plan.timerLateness * 4 + plan.net.latency;
      const kill = child.signals.find((x) => x.from != null);
      const told = Math.min(child.prog.toldAt ?? Infinity, kill ? kill.at : Infinity, child.dead ? child.diedAt : Infinity);
      if (told > c.at + o.taskTimeoutMillis + slack && w.now > c.at + o.taskTimeoutMillis + slack) ctx.violate("hung-child-kept", `child ${child.pid} has not answered ${O.S(c.args, 120)} since ${c.at.toFixed(0)} ms, taskTimeoutMillis is ${o.taskTimeoutMillis}, but nothing was done until ${told === Infinity ? "the end" : told.toFixed(0) + " ms"}`);
    }
    for (const rec of sim.ops) {
      if (rec.settled == null) { ctx.violate("never-settles", `${rec.kind}(${rec.file ?? ""})`); continue; }
      if (rec.ok !== false || !/^[^({]*(timeout|timed out)/i.test(rec.message)) continue;
      const o = eff[rec.inst ?? 0];
      const took = rec.settled - rec.invoked;
      if (took < Math.min(o.taskTimeoutMillis, o.spawnTimeoutMillis) - 2) ctx.violate("timed-out-early", `${rec.kind}(${rec.file ?? ""}) was rejected with "${rec.message}" after ${took.toFixed(0)} ms; taskTimeoutMillis is ${o.taskTimeoutMillis}`);
    }
    if (mild) for (const rec of sim.ops) {
      const o = eff[rec.inst ?? 0];
      if (rec.ok === false && ["read", "readRaw", "version"].includes(rec.kind) && (rec.kind === "version" || plan.files[rec.file]) && plan.net.serviceMs[1] < o.taskTimeoutMillis - 100 && (o.taskTimeoutMillis >= 30000 || plan.net.gapMs === 0 || plan.net.chunking === "whole" && o.taskTimeoutMillis >= 2000) && plan.net.bootMs[1] < o.spawnTimeoutMillis - 200) ctx.violate("answered-call-rejected", `${rec.kind}(${rec.file ?? ""}) was rejected although ExifTool answered every command in time: ${rec.message}`);
    }
    await P.finish(ctx, S);
  },
};
