"use strict";
// Results saved as JSON outlive the process that read them.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen"), R = require("../lib/rich");
const { Sim, invoke } = require("../sim/scenario");
const { WALL, ZONES } = require("./C15"), { bad } = require("./C22");

const isDate = (v) => v && typeof v === "object" && /^Exif(DateTime|Date|Time)$/.test(v.constructor?.name);
/** what a user can ask the date and time values of a result, one line per value */
function facts(v, walls, at = "", out = []) {
  if (isDate(v)) {
    const c = v.constructor.name, f = [c];
    for (const k of ["year", "month", "day", "hour", "minute", "second", "millisecond", "millis", "rawValue", "zone", "zoneName", "hasZone", "inferredZone", "tzoffsetMinutes", "isValid"]) f.push(k + "=" + v[k]);
    if (c !== "ExifTime") f.push(String(v), v.toISOString(), v.toExifString());
    if (c === "ExifDateTime" && v.hasZone) f.push(v.toMillis());
    out.push(at + ": " + (R.luxonUnsure(v, walls) ? c + " " + v.rawValue : f.join(" ")));
  } else if (v && typeof v === "object" && !(v instanceof Uint8Array)) for (const k of Object.keys(v)) facts(v[k], walls, at + "." + k, out);
  return out;
}
/** tags that can be written from a read value */
const WRITABLE = ["CreateDate", "DateTimeOriginal", "ModifyDate", "MetadataDate", "GPSDateStamp", "GPSTimeStamp", "DateCreated", "TimeCreated", "DateTimeDigitized", "Rating", "Title", "Description", "Subject"];
module.exports = {
  id: "C20", runs: { quick: 3000, thorough: 120000 },
  rule: "Seeded plan: a process reads 1-4 photos with rich date, time-zone, GPS, structure, binary and malformed-text metadata under varied options, schedules and faults, saving each result as JSON on the simulated disk, and is killed at a random moment or exits; a second process, in another host time zone and at another clock time, restores every saved result, compares it with what the first process saw and with its own read of the file, saves it again, and writes restored and fresh values to two copies of a photo.",
  nontrivialRule: "a result with a date, time or binary value was restored", nontrivial: (r) => (r.probes["restored-rich"] || 0) > 0,
  gen(r) {
    const files = {}, n = 1 + r.int(4);
    for (let i = 0; i < n; i++) files["/photos/j" + i + r.pick([".jpg", ".mp4"])] = { photo: R.richPhoto(r, "tk" + i, r.bool(0.2) ? r.pick(R.BORDERS) : undefined) };
    for (const f of Object.values(files)) if (r.bool(0.3)) {
      const t = f.photo.tags, v = () => (r.bool(0.25) ? { __bytes: Buffer.from([r.pick([0x80, 0xe9, 0xff])]).toString("base64") } : bad(r, "m"));
      for (const k of r.sample(G.STR_TAGS, 1 + r.int(7))) t[G.key(k)] = v();
      if (r.bool(0.4)) t[G.key(r.pick(G.LIST_TAGS))] = Array.from({ length: 1 + r.int(6) }, (_, i) => (r.bool(0.6) ? v() : "ok" + i));
      if (r.bool(0.3)) t["XMP-xmpMM:History"] = Array.from({ length: 1 + r.int(3) }, () => ({ Action: r.bool() ? v() : "saved", Changed: r.bool() ? v() : "/" }));
    }
    files["/photos/copyA.jpg"] = { photo: { tags: {}, bin: {} } }; files["/photos/copyB.jpg"] = { photo: { tags: {}, bin: {} } };
    const names = Object.keys(files).filter((f) => !/copy/.test(f));
    const opts = R.readOpts(r, r.int(4));
    const ops = Array.from({ length: 1 + r.int(5) }, () => { const kind = r.weighted([[5, "read"], [1, "readRaw"]]); let o = r.bool(0.4) ? R.readOpts(r) : undefined; if (o && kind === "readRaw") o = Object.fromEntries(Object.entries(o).filter(([k]) => R.RAW_KEYS.has(k))); return { kind, file: r.pick(names), opts: o, gap: r.bool(0.5) ? 0 : r.float() * 300 }; });
    return { net: G.net(r), timerLateness: r.pick([0, 15]), wallBase: r.pick(WALL), tz: r.pick(ZONES), tz2: r.pick(ZONES), wallJump: r.pick([0, 1, 86400e3 * 45, 86400e3 * 190, -86400e3 * 300, 86400e3 * 3000]), pool: { ...G.opts(r), taskTimeoutMillis: 30000, spawnTimeoutMillis: 30000 }, opts, settings: r.bool(0.7) ? {} : R.settings(r), files,
      late: ops, crashAt: r.bool(0.5) ? r.float() * 1500 : null, keep: r.bool(0.5),
      faults: r.bool(0.5) ? [] : G.faults(r, { span: 6, cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage|errorReply/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise|wallJump/.test(String(f))) }) };
  },
  *shrink(plan) {
    const cl = () => JSON.parse(JSON.stringify(plan));
    for (const f of Object.keys(plan.files)) for (const t of Object.keys(plan.files[f].photo.tags)) { const c = cl(); delete c.files[f].photo.tags[t]; yield c; }
    for (const k of Object.keys(plan.opts)) { const c = cl(); delete c.opts[k]; yield c; }
    for (const [i, op] of plan.late.entries()) if (op.opts) { const c = cl(); delete c.late[i].opts; yield c; }
    for (const k of ["tz", "tz2"]) if (plan[k] !== "UTC") { const c = cl(); c[k] = "UTC"; yield c; }
    for (const k of ["crashAt", "wallJump"]) if (plan[k]) { const c = cl(); c[k] = k === "crashAt" ? null : 0; yield c; }
    if (Object.keys(plan.settings).length) { const c = cl(); c.settings = {}; yield c; }
  },
  async run(ctx) {
    const { plan } = ctx;
    const walls = [plan.wallBase, plan.wallBase + plan.wallJump];
    const tz0 = process.env.TZ;
    try {
      process.env.TZ = plan.tz;
      const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
      const w = sim.w;
      const A = sim.host(1), libA = A.main();
      R.applySettings(libA, plan.settings);
      const etA = new libA.ExifTool({ ...plan.pool, ...R.live(plan.opts) });
      w.setFaults(plan.faults);
      if (plan.crashAt != null) w.after(plan.crashAt, () => A.crash(), "host-crash");
      const saved = [];
      let live = plan.late.length;
      for (const op of plan.late) (async () => {
        if (op.gap > 0) await sim.sleep(op.gap);
        if (A.dead) { live--; return; }
        const rec = sim.call({ ...op, op }, () => invoke(etA, { ...op, opts: R.live(op.opts) }), A);
        rec.done.then(() => {
          live--;
          if (rec.ok !== true || A.dead) return;
          const text = JSON.stringify(rec.value, null, plan.keep ? 2 : 0);
          const at = "/cache/" + rec.id + ".json";
          sim.disk.put(at, Buffer.from(text));
          saved.push({ rec, at, norm: R.strip(rec.value, walls), facts: facts(rec.value, walls) });
        });
      })();
      await w.run({ until: () => A.dead || live === 0, maxTime: 60000 + P.bound({ insts: [plan.pool], clients: [{ ops: plan.late }], faults: plan.faults }), maxEvents: 300000 });
      if (!A.dead) { if (plan.keep) A.crash(); else { let e = false; Promise.resolve(etA.end(false)).finally(() => (e = true)); await w.run({ until: () => e, maxTime: w.now + 60000 }); A.exit(0); } }
      await w.run({ until: () => false, maxTime: w.now + 5000 });
      // another process, elsewhere, later
      w.faultsOff = true; w.wallOffset += plan.wallJump; process.env.TZ = plan.tz2;
      const B = sim.host(2), lib = B.main();
      R.applySettings(lib, plan.settings);
      const et = new lib.ExifTool({ ...R.live(plan.opts), maxProcs: 2 });
      const call = async (d, f) => { const rec = sim.call(d, f, B); await w.run({ until: () => rec.settled != null, maxTime: w.now + 90000 }); if (rec.settled == null) ctx.violate("stuck", `${d.kind} pending`); return rec; };
      for (const s of saved) {
        const name = `${s.rec.kind}(${s.rec.file}, ${O.S({ ...plan.opts, ...s.rec.op.opts })})`;
        const text = sim.disk.get(s.at).data.toString();
        const back = lib.parseJSON(text);
        if (s.facts.length || /"_ctor"/.test(text)) ctx.probe("restored-rich");
        const n2 = R.strip(back, walls);
        if (!O.eq(n2, s.norm)) { ctx.violate("restored-differs", `${name} saved as JSON and restored: ${O.diff(n2, s.norm)}`); continue; }
        const f2 = facts(back, walls);
        const d = s.facts.findIndex((x, i) => x !== f2[i]);
        if (d >= 0 || f2.length !== s.facts.length) ctx.violate("restored-answers-differ", `${name} restored as ${f2[d]}, was ${s.facts[d]}`);
        for (const [k, v] of Object.entries(back)) if (isDate(v) && !(v instanceof lib[v.constructor.name])) ctx.violate("restored-class", `${name}: ${k} is not the library's ${v.constructor.name}`);
        if (!O.eq(JSON.parse(JSON.stringify(back)), JSON.parse(text))) ctx.violate("saved-again-differs", `${name} saved, restored and saved again: ${O.diff(JSON.parse(JSON.stringify(back)), JSON.parse(text))}`);
        if (s.rec.kind !== "read") continue;
        const fresh = await call({ kind: "read", file: s.rec.file }, () => invoke(et, { kind: "read", file: s.rec.file, opts: R.live(s.rec.op.opts) }));
        if (fresh.ok !== true) { if (fresh.settled != null) ctx.violate("read-failed", `${name} rejected: ${fresh.message}`); continue; }
        // what is written from a restored value is what is written from a fresh one
        const keys = Object.keys(back).filter((k) => WRITABLE.includes(k) && fresh.value[k] != null && !(isDate(back[k]) && R.luxonUnsure(back[k], walls)));
        for (const k of keys.slice(0, 3)) {
          const a = await call({ kind: "write", file: "/photos/copyA.jpg" }, () => et.write("/photos/copyA.jpg", { [k]: back[k] }));
          const b = await call({ kind: "write", file: "/photos/copyB.jpg" }, () => et.write("/photos/copyB.jpg", { [k]: fresh.value[k] }));
          if (a.ok !== b.ok) ctx.violate("restored-write", `${k}: writing the restored value ${O.S(back[k])} ${a.ok ? "succeeds" : "fails: " + a.message}, the fresh one ${b.ok ? "succeeds" : "fails: " + b.message}`);
          const get = (f) => { const t = require("../sim/exif").decodePhoto(sim.disk.get(f).data).tags; return t; };
          if (!O.eq(get("/photos/copyA.jpg"), get("/photos/copyB.jpg"))) ctx.violate("restored-write", `${k}: writing the restored value ${O.S(back[k])} stores ${O.S(get("/photos/copyA.jpg"))}, the fresh one ${O.S(get("/photos/copyB.jpg"))}`);
          else if (a.ok) ctx.probe("restored-written");
        }
      }
      await P.finish(ctx, { w, sim, insts: [et] });
    } finally { if (tz0 === undefined) delete process.env.TZ; else process.env.TZ = tz0; }
  },
};
