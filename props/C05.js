"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { Sim, startClients, invoke, libs } = require("../sim/scenario");
const { EXIFTOOL, PERL } = require("../sim/host");
module.exports = {
  id: "C05", runs: { quick: 3000, thorough: 200000 },
  rule: "Seeded plan: a fault period (crashes, hangs, failed and dying spawns, perl or ExifTool missing or not executable, file-system lookups failing, process factory throwing) with calls in flight, then faults stop and the installation is repaired; a fresh series of calls follows on the same instance.",
  nontrivialRule: "a fault fired", nontrivial: (r) => Object.keys(r.faults).length > 0,
  gen(r) {
    const p = P.genPool(r, { insts: 1, calm: 0, minor: 0, bad: 0, missing: 0.02, bg: 0.6, faults: { cmds: r.int(6), spawns: r.int(5), spawnSpan: 6, times: r.int(5) }, opts: (q) => ({ taskTimeoutMillis: q.pick([500, 2000]), spawnTimeoutMillis: q.pick([1500, 4000]), checkPerl: q.bool(0.7), maxTasksPerProcess: q.pick([2, 500]) }) });
    p.broken = r.weighted([[4, null], [2, "perl-missing"], [1, "perl-noexec"], [2, "exiftool-missing"], [2, "exiftool-noexec"], [1, "vendor-lookup"], [1, "path-fn-throws"], [1, "access-EIO"]]);
    p.outage = r.pick([50, 1000, 8000, 40000]);
    p.recovery = Array.from({ length: 6 }, (_, i) => ({ kind: r.pick(["read", "readRaw", "version", "read", "write", "describe"]), i }));
    if (r.bool(0.3)) p.clients.push({ ops: Array.from({ length: 1 + r.int(3) }, () => ({ kind: "describe", what: r.pick(["all", "preload", "one"]), gap: r.float() * 500, bg: r.bool() })) });
    if (r.bool(0.2)) p.faults.push({ on: "spawn", n: "all", ...r.pick([{ kind: "errno", code: "EAGAIN" }, { kind: "errno", code: "EMFILE" }, { kind: "die" }, { kind: "badperl" }, { kind: "throw" }, { kind: "hang" }]) });
    if (r.bool(0.15)) p.faults.push({ on: "cmd", n: "all", ...r.pick([{ kind: "crashBefore" }, { kind: "errorReply" }, { kind: "hang" }, { kind: "crashAfterReady" }]) });
    if (r.bool(0.15)) p.late = true;
    return p;
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const w = sim.w, d = sim.disk;
    const b = plan.broken;
    const saved = new Map();
    const take = (p) => { saved.set(p, d.files.get(p)); d.files.delete(p); };
    const noexec = (p) => { const n = d.files.get(p); saved.set(p, { ...n }); n.mode = 0o644; };
    if (b === "perl-missing") take(PERL);
    if (b === "perl-noexec") noexec(PERL);
    if (b === "exiftool-missing" || b === "vendor-lookup") take(EXIFTOOL);
    if (b === "exiftool-noexec") noexec(EXIFTOOL);
    if (b === "access-EIO") d.hook = (op, p) => (!w.faultsOff && (op === "access" || op === "exists") ? { code: "EIO" } : undefined);
    if (b) w.fired("installation:" + b);
    const host = sim.host(1);
    const lib = host.main();
    const o = { ...plan.insts[0] };
    if (b === "path-fn-throws") o.exiftoolPath = () => { if (!w.faultsOff) { w.fired("exiftoolPath-throws"); throw new Error("lookup failed"); } return EXIFTOOL; };
    // with a shebang fallback decided while perl was missing, perl must still be findable later
    const et = new lib.ExifTool(o);
    libs.set(et, lib);
    w.setFaults(plan.faults);
    startClients(sim, plan, [et], host);
    await w.run({ until: () => false, maxTime: plan.outage, maxEvents: 100000 });
    // faults stop
    w.faultsOff = true; d.hook = null;
    Object.assign(host.net, { chunking: "few", gapMs: 0.5, serviceMs: [1, 20], bootMs: [20, 140] }); // slow children stop being slow
    for (const [p, n] of saved) d.files.set(p, n);
    const t0 = w.now;
    const bad = w.children.filter((c) => !c.reaped).length; // alive, or dead and not yet noticed
    const inFlight = sim.ops.filter((x) => x.settled == null);
    const o1 = plan.insts[0];
    const per = (1 + o1.taskRetries) * (o1.taskTimeoutMillis + o1.spawnTimeoutMillis + o1.minDelayBetweenSpawnMillis + 8000);
    // 1. everything still pending settles
    const all = () => sim.ops.every((x) => x.settled != null);
    await w.run({ until: all, maxTime: t0 + 40000 + per * (sim.ops.length + 2) + plan.clients.reduce((n, c) => n + c.ops.reduce((m, x) => m + (x.gap || 0) + per, 0), 0), maxEvents: 300000 });
    for (const x of sim.ops) if (x.settled == null) ctx.violate("stuck-after-faults", `${x.kind}(${x.file ?? ""}) is still pending ${Math.round(w.now - t0)} ms after faults stopped`);
    // 2. fresh calls succeed: each failure must be explained by a child that was already broken
    let fails = 0, done = false;
    const file = Object.keys(plan.files)[0];
    const results = [];
    (async () => {
      for (let i = 0; i < 12 + bad && results.filter((x) => x.ok).length < plan.recovery.length; i++) {
        const kind = plan.recovery[results.filter((x) => x.ok).length].kind;
        const op = { kind, file: kind === "version" ? undefined : file };
        if (kind === "write") op.tags = { Label: "after" + i };
        const rec = sim.call({ ...op, recovery: true }, () => invoke(et, op), host);
        await rec.done;
        results.push(rec);
        if (rec.ok === false) fails++;
        if (fails > bad + 1) break;
      }
      done = true;
    })();
    await w.run({ until: () => done, maxTime: w.now + per * (20 + bad) + 60000, maxEvents: 300000 });
    if (!done) { const last = sim.ops[sim.ops.length - 1]; ctx.violate("no-recovery", `after faults stopped (${b ?? "no installation fault"}), ${last.kind} does not settle within the limit`); }
    else if (fails > bad) ctx.violate("no-recovery", `after faults stopped (${b ?? "no installation fault"}), ${fails} fresh calls failed though at most ${bad} children were broken: ${results.filter((x) => !x.ok).map((x) => x.kind + ": " + x.message).slice(-2).join(" | ")}`);
    if (fails > 0) ctx.probe("fresh-call-hit-broken-child");
    for (const x of results) if (x.ok && x.kind === "readRaw" && x.value.SourceFile !== file) ctx.violate("wrong-answer-after-recovery", O.S(x.value));
    for (const u of w.uncaught) ctx.violate(u.kind, u.msg + "\n" + u.stack);
    if (inFlight.length) ctx.probe("in-flight-at-stop", inFlight.length);
    await P.finish(ctx, { w, sim, insts: [et] });
  },
};
