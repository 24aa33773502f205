"use strict";
// What an instance says about itself (pids, counts, ended, life-cycle events)
// is what the simulated machine shows.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { ownerOf } = require("./C11");
const sum = (o) => Object.values(o).reduce((a, b) => a + b, 0);
module.exports = {
  id: "C23", runs: { quick: 3000, thorough: 300000 },
  rule: "Seeded plan: 1-2 instances under concurrent calls, slow, crashing, hanging and unstartable children, stalls, recycling and closeChildProcesses(); at random moments, also when end() comes amid work, and again when everything is quiet and after end(), pids, spawnedProcs, busyProcs, pendingTasks, childEndCounts(), ended and the life-cycle events (with listeners removed at random moments) are compared with the simulated process table and the calls in flight.",
  nontrivialRule: "a non-empty report was compared", nontrivial: (r) => (r.probes["pids-compared"] || 0) > 0,
  gen(r) {
    const p = P.genPool(r, { calm: 0.45, insts: 1 + r.int(2), clients: r.weighted([[2, 2], [3, 5], [1, 12]]), bg: 0.6, missing: 0.02, bad: 0,
      faults: { cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => /kill|freeze|stall/.test(String(f))) },
      opts: (q) => ({ maxProcs: q.pick([1, 2, 3]), maxTasksPerProcess: q.pick([1, 2, 5, 500]) }) });
    if (r.bool(0.5)) p.net.serviceMs = [30, 350];
    if (r.bool(0.2)) { const c = r.pick(p.clients); c.ops.splice(r.int(c.ops.length + 1), 0, { kind: "closeChildren", graceful: r.bool(), inst: r.int(p.insts.length), gap: r.float() * 600 }); }
    const span = r.pick([800, 3000, 12000]);
    p.samples = Array.from({ length: 4 + r.int(10) }, () => r.float() * span);
    p.unlisten = Array.from({ length: p.insts.length }, () => r.float() * span);
    p.endGraceful = r.bool();
    if (r.bool(0.3)) p.endAt = p.insts.map(() => (r.bool(0.7) ? r.float() * span : null)); // while there is work
    return p;
  },
  *shrink(plan) {
    const cl = () => JSON.parse(JSON.stringify(plan));
    for (let i = 0; i < plan.samples.length; i++) { const c = cl(); c.samples.splice(i, 1); yield c; }
  },
  async run(ctx) {
    const { plan } = ctx;
    const calmPlan = plan.faults.length === 0 && !plan.clients.some((c) => c.ops.some((o) => o.kind === "closeChildren"));
    const seen = plan.insts.map(() => ({ start: [], end: [], off: [], offAt: null, spawned: 0, ends: 0, beforeEnd: 0, ended: 0 }));
    const ofInst = (w, i) => w.spawns.filter((s) => s.pid != null && ownerOf(s) === i);
    const look = (S, when, quiet) => {
      const { w, insts, sim } = S;
      for (const [i, et] of insts.entries()) {
        const calm = calmPlan && !seen[i].endCalled;
        const x = seen[i], mine = ofInst(w, i), max = plan.insts[i].maxProcs, at = `instance ${i} ${when} (${w.now.toFixed(1)} ms)`;
        const pids = et.pids, busy = et.busyProcs, pend = et.pendingTasks, spawned = et.spawnedProcs, ends = sum(et.childEndCounts());
        for (const [k, v] of Object.entries({ busyProcs: busy, pendingTasks: pend, spawnedProcs: spawned, childEndCounts: ends })) if (!Number.isInteger(v)) ctx.violate(k, `${at}: ${k} is ${O.S(v)}`);
        const open = sim.ops.filter((o) => (o.inst ?? 0) === i && o.settled == null && o.kind !== "closeChildren").length;
        if (!Array.isArray(pids) || new Set(pids).size !== pids.length) ctx.violate("pids", `${at}: pids is ${O.S(pids)}`);
        for (const pid of pids) {
          const s = mine.find((y) => y.pid === pid);
          if (!s) ctx.violate("pids", `${at}: pids names ${pid}, which it never started`);
          else if (s.child.reaped && s.child.diedAt < w.now) ctx.violate("pids", `${at}: pids names ${pid}, which is gone since ${s.child.diedAt.toFixed(1)} ms`);
        }
        if (pids.length > max) ctx.violate("pids", `${at}: ${pids.length} pids, maxProcs is ${max}`);
        if (pids.length) ctx.probe("pids-compared");
        const working = mine.filter((s) => !s.child.dead && s.child.signals.length === 0 && s.child.prog.toldAt == null && w.commands.some((c) => c.child === w.spawns.indexOf(s) + 1 && !c.first && !(c.args.length === 1 && c.args[0] === "-ver") && !c.responded && c.at < w.now));
        for (const s of working) if (calm && !pids.includes(s.pid)) ctx.violate("pids", `${at}: child ${s.pid} is executing a command, but pids is ${O.S(pids)}`);
        if (calm && busy < working.length) ctx.violate("busyProcs", `${at}: busyProcs is ${busy}, but ${working.length} children are executing commands`);
        if (busy > max || busy < 0) ctx.violate("busyProcs", `${at}: busyProcs is ${busy} with ${open} calls open and maxProcs ${max}`);
        const old = sim.ops.filter((o) => (o.inst ?? 0) === i && o.settled == null && o.kind !== "closeChildren" && w.now - o.invoked > 2000).length;
        if (pend > open + (quiet ? 0 : max) || pend < 0) ctx.violate("pendingTasks", `${at}: pendingTasks is ${pend}, but only ${open} calls are open`);
        if (calm && sim.ops.every((o) => o.ok !== false) && pend < old - max) ctx.violate("pendingTasks", `${at}: pendingTasks is ${pend}, but ${old} calls wait and only ${max} can be in progress`);
        if (spawned < x.spawned) ctx.violate("spawnedProcs", `${at}: spawnedProcs fell from ${x.spawned} to ${spawned}`);
        const tried = w.spawns.filter((s) => ownerOf(s) === i).length; // (starts that failed may count)
        if (spawned > tried) ctx.violate("spawnedProcs", `${at}: spawnedProcs is ${spawned}, ${mine.length} processes were started`);
        if (ends < x.ends) ctx.violate("childEndCounts", `${at}: childEndCounts() sum fell from ${x.ends} to ${ends}`);
        if (ends > spawned) ctx.violate("childEndCounts", `${at}: ${ends} ended children of ${spawned}`);
        x.spawned = spawned; x.ends = ends;
        if (et.ended !== (x.endCalled === true)) ctx.violate("ended", `${at}: ended is ${et.ended}`);
        if (quiet) {
          const live = mine.filter((s) => !s.child.dead).map((s) => s.pid);
          if (busy !== 0 && calm && plan.insts[i].healthCheckIntervalMillis === 0) ctx.violate("busyProcs", `${at}: busyProcs is ${busy} with nothing to do`);
          if (pend !== 0) ctx.violate("pendingTasks", `${at}: pendingTasks is ${pend} with nothing to do`);
          if (spawned < mine.length) ctx.violate("spawnedProcs", `${at}: spawnedProcs is ${spawned}, ${mine.length} processes were started`);
          // (a child stopped without a signal, and one that has only just died, are not noticed at once)
          if (calm && !O.eq([...pids].sort(), live.sort())) ctx.violate("pids", `${at}: pids is ${O.S(pids)}, running are ${O.S(live)}`);
          if (calm && ends !== mine.length - live.length) ctx.violate("childEndCounts", `${at}: ${ends} ended children reported, ${mine.length - live.length} ended`);
        }
      }
    };
    let S0;
    const E = {};
    const S = await P.runPool(ctx, {
      makeOpts: (x) => ({ ...x, exiftoolEnv: { SIM_INST: String(plan.insts.indexOf(x)) } }),
      before(S1) {
        S0 = S1; const { insts, w } = S1;
        for (const [i, et] of insts.entries()) {
          const x = seen[i];
          const L = (p) => x.start.push(p.pid), E = (p) => x.end.push(p.pid), off = (p) => { x.off.push(w.now); };
          et.on("childStart", L); et.on("childEnd", E); et.on("childEnd", off); et.on("childStart", off);
          et.on("beforeEnd", () => x.beforeEnd++); et.on("end", () => x.ended++);
          w.after(plan.unlisten[i], () => { et.off("childEnd", off); et.off("childStart", off); x.offAt = w.now; }, "unlisten");
        }
        const fin = E.fin = insts.map(() => false);
        E.endNow = (i) => { const et = insts[i], x = seen[i]; if (x.endCalled) return; if (et.ended) ctx.violate("ended", "ended before end()"); x.endCalled = true; Promise.resolve(et.end(plan.endGraceful)).then(() => (fin[i] = true), () => (fin[i] = true)); if (!et.ended) ctx.violate("ended", "ended is false right after end()"); };
        for (const [i, at] of (plan.endAt ?? []).entries()) if (at != null) w.after(at, () => { ctx.probe("ended-at-work"); E.endNow(i); }, "end");
        for (const at of plan.samples) w.after(at, () => look(S0, "at a sample"), "look");
      },
      tail: 12000,
    });
    const { w, insts, sim } = S;
    if (sim.ops.every((o) => o.settled != null)) look(S, "when quiet", true);
    // end
    w.faultsOff = true;
    const fin = E.fin;
    for (const i of insts.keys()) E.endNow(i);
    await w.run({ until: () => fin.every(Boolean), maxTime: w.now + 120000 });
    await w.run({ until: () => false, maxTime: w.now + 3000 });
    look(S, "after end()", false);
    for (const [i, et] of insts.entries()) {
      const x = seen[i], mine = ofInst(w, i).map((s) => s.pid);
      if (!fin[i]) continue;
      if (et.pids.length) ctx.violate("pids", `after end(): pids is ${O.S(et.pids)}`);
      if (et.pendingTasks || et.busyProcs) ctx.violate("pendingTasks", `after end(): ${et.pendingTasks} pending, ${et.busyProcs} busy`);
      if (et.spawnedProcs < mine.length) ctx.violate("spawnedProcs", `after end(): spawnedProcs is ${et.spawnedProcs}, ${mine.length} processes were started`);
      if (sum(et.childEndCounts()) !== mine.length) ctx.violate("childEndCounts", `after end(): ${O.S(et.childEndCounts())}, ${mine.length} processes were started`);
      if (!O.eq([...x.start].sort(), [...mine].sort())) ctx.violate("childStart", `childStart events for ${O.S(x.start)}, started were ${O.S(mine)}`);
      if (!O.eq([...x.end].sort(), [...mine].sort())) ctx.violate("childEnd", `childEnd events for ${O.S(x.end)}, started were ${O.S(mine)}`);
      if (x.offAt != null && x.off.some((t) => t > x.offAt)) ctx.violate("off", `a listener removed with off() at ${x.offAt.toFixed(1)} ms was called at ${x.off.find((t) => t > x.offAt).toFixed(1)} ms`);
      const must = x.start.length && w.spawns.filter((s) => s.pid != null && ownerOf(s) === i && s.at < (x.offAt ?? Infinity) - 1).length;
      if (must && x.off.length === 0 && calmPlan && plan.endAt?.[i] == null) ctx.violate("on", "a listener added with on() was not called");
      if (x.beforeEnd !== 1 || x.ended !== 1) ctx.violate("end-events", `beforeEnd was emitted ${x.beforeEnd} times, end ${x.ended} times`);
    }
    ctx.done(w, sim);
  },
};
