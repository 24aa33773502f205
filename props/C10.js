"use strict";
// Every call runs with exactly its own options: per-call over instance over
// defaults, and nothing a call does changes the caller's objects, the
// instance, the defaults, or any other call.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen"), R = require("../lib/rich");
const { Sim, invoke } = require("../sim/scenario");

const FIELDS = {
  read: ["adjustTimeZoneIfDaylightSavings", "backfillTimezones", "defaultVideosToUTC", "geolocation", "geoTz", "ignoreMinorErrors", "ignoreZeroZeroLatLon", "imageHashType", "includeImageDataMD5", "inferTimezoneFromDatestamps", "inferTimezoneFromDatestampTags", "inferTimezoneFromTimeStamp", "keepUTCTime", "numericTags", "preferTimezoneInferenceFromGps", "readArgs", "struct", "useMWG"],
  readRaw: ["readArgs", "ignoreMinorErrors", "useMWG"],
  write: ["useMWG", "struct", "ignoreMinorErrors", "writeArgs"], edit: ["useMWG", "struct", "ignoreMinorErrors", "writeArgs"],
  deleteAll: ["ignoreMinorErrors"], extract: ["ignoreMinorErrors", "forceWrite"], buffer: ["ignoreMinorErrors"], rewrite: ["ignoreMinorErrors"],
};
const DEF = { ignoreMinorErrors: true, useMWG: true, struct: 1, readArgs: ["-fast"], writeArgs: [], numericTags: ["*Duration*", "GPSAltitude", "GPSLatitude", "GPSLongitude", "GPSPosition", "GeolocationPosition", "Orientation"], imageHashType: false, geolocation: false, keepUTCTime: true, forceWrite: false };
const pool = ["maxProcs", "maxTasksPerProcess", "taskTimeoutMillis", "spawnTimeoutMillis", "taskRetries", "minDelayBetweenSpawnMillis", "onIdleIntervalMillis", "healthCheckIntervalMillis"];
const only = (o, ks) => Object.fromEntries(Object.entries(o ?? {}).filter(([k]) => ks.includes(k)));
function bag(r) {
  const o = R.readOpts(r, r.int(5));
  if (r.bool(0.3)) o.writeArgs = r.pick([["-overwrite_original"], ["-P"], ["-overwrite_original", "-P"], []]);
  if (r.bool(0.3)) o.useMWG = r.bool();
  if (r.bool(0.3)) o.ignoreMinorErrors = r.bool();
  if (r.bool(0.15)) o.forceWrite = r.bool();
  if (r.bool(0.1)) { delete o.imageHashType; o.includeImageDataMD5 = r.bool(0.8); }
  return o;
}
function freeze(o) { if (o && typeof o === "object" && !Object.isFrozen(o)) { Object.freeze(o); for (const v of Object.values(o)) freeze(v); } return o; }
/** comparable picture of a caller-owned value; functions by identity */
function snap(v, fns = []) {
  if (typeof v === "function") { let i = fns.indexOf(v); if (i < 0) i = fns.push(v) - 1; return "fn" + i; }
  if (Array.isArray(v)) return v.map((x) => snap(x, fns));
  if (Buffer.isBuffer(v)) return "buf" + v.toString("hex");
  if (v instanceof RegExp) return String(v);
  if (v && typeof v === "object") return { $k: v.constructor && v.constructor.name, ...Object.fromEntries(Object.entries(v).map(([k, x]) => [k, snap(x, fns)])) };
  return v === undefined ? "undef" : v;
}
/** what the effective options demand of the ExifTool command line */
function demand(kind, eff, args) {
  const has = (x) => args.includes(x);
  const api = (n) => { let r; for (let i = 0; i < args.length - 1; i++) if (args[i] === "-api") { const [k, ...v] = args[i + 1].split("="); if (k.toLowerCase() === n.toLowerCase()) r = v.length ? v.join("=") : true; } return r; };
  const seq = (want) => { let i = 0; for (const a of args) if (i < want.length && a === want[i]) i++; return i === want.length; };
  const mwg = args.some((a, i) => a === "-use" && args[i + 1] === "MWG");
  const minor = has("-ignoreMinorErrors") || has("-m");
  const bad = [];
  if (minor !== (eff.ignoreMinorErrors === true)) bad.push(`ignoreMinorErrors is ${eff.ignoreMinorErrors}, minor errors are ${minor ? "" : "not "}ignored`);
  if (["read", "readRaw", "write", "edit"].includes(kind) && mwg !== !!eff.useMWG) bad.push(`useMWG is ${eff.useMWG}, MWG is ${mwg ? "" : "not "}in use`);
  if (["read", "readRaw"].includes(kind) && !seq(eff.readArgs)) bad.push(`readArgs are ${O.S(eff.readArgs)}`);
  if (["read", "readRaw"].includes(kind)) for (const f of ["-fast", "-fast2", "-G", "-n"]) if (has(f) && !eff.readArgs.includes(f)) bad.push(`readArgs are ${O.S(eff.readArgs)}, but ${f} was sent`);
  if (["write", "edit"].includes(kind) && !seq(eff.writeArgs)) bad.push(`writeArgs are ${O.S(eff.writeArgs)}`);
  if (["write", "edit"].includes(kind)) for (const f of ["-overwrite_original", "-P"]) if (has(f) && !eff.writeArgs.includes(f)) bad.push(`writeArgs are ${O.S(eff.writeArgs)}, but ${f} was sent`);
  if (kind === "read") {
    const st = api("struct");
    if (String(st ?? 0) !== String(eff.struct)) bad.push(`struct is ${eff.struct}, ${st} was sent`);
    const nums = args.filter((a) => /^-[\w*?]+#$/.test(a)).map((a) => a.slice(1, -1)).sort();
    if (!O.eq(nums, [...eff.numericTags].sort())) bad.push(`numericTags are ${O.S(eff.numericTags)}, ${O.S(nums)} were requested`);
    const hash = api("imagehashtype");
    if ((hash ?? false) !== (eff.imageHashType ?? false)) bad.push(`imageHashType is ${eff.imageHashType}, ${hash} was sent`);
    if (!!api("geolocation") !== (eff.geolocation === true)) bad.push(`geolocation is ${eff.geolocation}`);
    if (!!api("keepUTCTime") !== (eff.keepUTCTime === true)) bad.push(`keepUTCTime is ${eff.keepUTCTime}`);
  }
  if (["write", "edit"].includes(kind) && String(api("struct")) !== String(eff.struct)) bad.push(`struct is ${eff.struct}, ${api("struct")} was sent`);
  if (kind === "extract" && has("-W!") !== (eff.forceWrite === true)) bad.push(`forceWrite is ${eff.forceWrite}`);
  if (kind === "deleteAll") { const kept = args.filter((a) => /^-[\w:#-]+<[\w:#-]+$/.test(a) && a !== "-FileName<FileName"); const want = (eff.retain ?? []).map((t) => `-${t}<${t}`); if (!O.eq([...new Set(kept)].sort(), [...new Set(want)].sort())) bad.push(`tags to retain are ${O.S(eff.retain ?? [])}, ${O.S(kept)} was sent`); }
  if (kind === "rewrite" && has("-F") !== (eff.allowMakerNoteRepair === true)) bad.push(`allowMakerNoteRepair is ${eff.allowMakerNoteRepair}`);
  return bad;
}
/** what a modification carries, as the caller's objects stood when it was made */
function contents(x, args) {
  const bad = [], t = x.tagsO ?? {};
  if (t.Subject && !args.includes("-Subject=" + t.Subject.join("\x1f"))) bad.push(`Subject was ${O.S(t.Subject)}`);
  if (t.RegionInfo && !args.some((a) => a.startsWith("-RegionInfo=") && a.includes(t.RegionInfo.RegionList[0].Name))) bad.push(`the region was ${O.S(t.RegionInfo.RegionList[0].Name)}`);
  for (const e of x.editsO ?? []) if (!args.includes(`-${e.tag}+=${e.value}`)) bad.push(`${e.value} was to be added to ${e.tag}`);
  return bad;
}
/** a deprecated option counts where it was given */
const modern = (o) => { const x = { ...o }; if (x.includeImageDataMD5 != null && x.imageHashType == null) x.imageHashType = x.includeImageDataMD5 ? "MD5" : false; delete x.includeImageDataMD5; return x; };

/** a caller that uses the objects it passed for something else, once it has made its call */
function reuse(c) {
  const turn = (v) => { if (Array.isArray(v)) { for (const x of v) turn(x); v.push("CHANGED"); } else if (v && typeof v === "object") for (const k of Object.keys(v)) { if (v[k] && typeof v[k] === "object") turn(v[k]); else v[k] = "CHANGED"; } };
  if (c.tags) { for (const k of Object.keys(c.tags)) { if (c.tags[k] && typeof c.tags[k] === "object") turn(c.tags[k]); else c.tags[k] = "CHANGED"; } c.tags.Copyright = "CHANGED"; }
  if (c.edits) { for (const e of c.edits) if (e.value !== undefined) e.value = "CHANGED"; c.edits.push({ tag: "XMP:Subject", operation: "add", value: "CHANGED" }); }
  const o = c.opts;
  if (!o) return;
  if (o.retain) o.retain.push("CHANGED");
  if (o.writeArgs && c.kind !== "deleteAll") o.writeArgs.push("-CHANGED");
  for (const k of ["ignoreMinorErrors", "useMWG", "forceWrite", "geolocation", "keepUTCTime", "allowMakerNoteRepair"]) if (k in o) o[k] = !o[k];
  for (const k of ["numericTags", "readArgs", "writeArgs"]) if (k in o) o[k] = ["-CHANGED"];
  if ("struct" in o) o.struct = o.struct === 1 ? 2 : 1;
}

module.exports = {
  id: "C10", runs: { quick: 2500, thorough: 150000 },
  rule: "Seeded plan: a few option, tag and edit objects (some deeply frozen) shared between concurrent read/readRaw/write/editTags/deleteAllTags/extract/rewrite calls on 1-3 instances with different options, in both call styles, through a faulty pool with retries; some results are vandalised by their receivers, others are kept and must not change; some callers put their objects to other use right after the call, or change them between calls. Each command is compared with the options in force, each read with the same read when all options are given to the instance and when all are given to the call; caller objects, instance options and exported defaults are compared with snapshots.",
  nontrivialRule: "at least one command was compared with the options in force", nontrivial: (r) => (r.probes["command"] || 0) > 0,
  gen(r) {
    const files = {};
    const nf = 1 + r.int(3);
    for (let i = 0; i < nf; i++) files[`/photos/r${i}.jpg`] = { photo: R.richPhoto(r, "tk" + i) };
    for (let i = 0; i < 2; i++) { files[`/photos/w${i}.jpg`] = { photo: G.photo(r, "w" + i, { bin: true }) }; files[`/photos/w${i}.jpg`].photo.bin.ThumbnailImage ??= Buffer.from("thumb" + i).toString("base64"); }
    const nInst = r.weighted([[2, 1], [3, 2], [1, 3]]);
    const insts = Array.from({ length: nInst }, () => ({ ...G.opts(r), taskTimeoutMillis: r.pick([2000, 30000]), ...(r.bool(0.7) ? bag(r) : {}) }));
    const bags = Array.from({ length: 1 + r.int(4) }, () => ({ o: bag(r), frozen: r.bool() }));
    let seq = 0;
    const tagObjs = Array.from({ length: 1 + r.int(3) }, () => ({ o: r.bool(0.12) ? {} : { Title: "T" + ++seq, ...(r.bool(0.5) ? { GPSLatitude: 12.5, GPSLongitude: -33.25 } : {}), ...(r.bool(0.3) ? { GPSAltitude: -5 } : {}), ...(r.bool(0.4) ? { Subject: ["a" + seq, "b"] } : {}), ...(r.bool(0.3) ? { Rating: 3 } : {}), ...(r.bool(0.2) ? { RegionInfo: { AppliedToDimensions: { W: 10, H: 10, Unit: "pixel" }, RegionList: [{ Name: "n" + seq, Type: "Face" }] } } : {}), ...(r.bool(0.2) ? { Artist: null } : {}) }, frozen: r.bool() }));
    const editObjs = Array.from({ length: 1 + r.int(2) }, () => ({ o: Array.from({ length: 1 + r.int(2) }, () => ({ tag: r.pick(P.LIST_KEYS), operation: "add", value: "e" + ++seq })), frozen: r.bool() }));
    const retains = [{ o: ["Title", "Copyright"], frozen: r.bool() }, { o: ["XMP-xmp:Rating", "Artist"], frozen: r.bool() }, { o: [], frozen: r.bool() }];
    const clients = Array.from({ length: 1 + r.int(4) }, () => ({ ops: Array.from({ length: 1 + r.int(4) }, () => {
      const kind = r.weighted([[6, "read"], [3, "readRaw"], [4, "write"], [2, "edit"], [2, "deleteAll"], [2, "extract"], [1, "buffer"], [1, "rewrite"]]);
      const op = { kind, inst: r.int(nInst), gap: r.bool(0.6) ? 0 : r.float() * 300, bg: r.bool(0.5), n: ++seq };
      op.file = /^read/.test(kind) ? r.pick(Object.keys(files).filter((f) => f.includes("/r"))) : r.pick(Object.keys(files).filter((f) => f.includes("/w")));
      if (r.bool(0.65)) op.bag = r.int(bags.length);
      if (r.bool(0.4)) op.keep = true;
      if (r.bool(0.2)) op.alter = true; // the caller changes the object it shares with earlier calls, then calls
      if (r.bool(0.2)) op.reuse = r.weighted([[3, 0], [1, 1], [1, 20 + r.float() * 200]]); // the caller uses its objects for something else after the call
      if (["read", "readRaw", "write"].includes(kind) && r.bool(0.15)) op.legacy = kind === "write" ? r.pick([["-P"], ["-overwrite_original"]]) : r.pick([["-fast2"], ["-G", "-fast"], []]);
      if (kind === "write") op.tagObj = r.int(tagObjs.length);
      if (kind === "edit") op.editObj = r.int(editObjs.length);
      if (kind === "deleteAll" && r.bool(0.6)) op.retain = r.int(retains.length);
      if (kind === "extract" || kind === "buffer") op.tag = "ThumbnailImage";
      if (kind === "extract" || kind === "rewrite") op.dest = "/out/d" + op.n + ".jpg";
      if (kind === "rewrite" && r.bool(0.4)) op.amr = r.bool();
      return op;
    }) }));
    // the same call again: its receiver gets a result of its own
    for (const c of clients) for (const op of [...c.ops]) if (/^read/.test(op.kind) && r.bool(0.25)) r.pick(clients).ops.push({ ...op, n: ++seq, keep: r.bool(), gap: r.bool() ? 0 : r.float() * 300 });
    return { net: G.net(r), timerLateness: r.pick([0, 15]), insts, bags, tagObjs, editObjs, retains, files, clients, faults: r.bool(0.4) ? [] : G.faults(r, { span: 8, cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) }) };
  },
  *shrink(plan) {
    const cl = () => JSON.parse(JSON.stringify(plan));
    for (let i = 0; i < plan.insts.length; i++) for (const k of Object.keys(plan.insts[i])) { const c = cl(); delete c.insts[i][k]; yield c; }
    for (let i = 0; i < plan.bags.length; i++) for (const k of Object.keys(plan.bags[i].o)) { const c = cl(); delete c.bags[i].o[k]; yield c; }
    for (const f of Object.keys(plan.files)) for (const t of Object.keys(plan.files[f].photo.tags)) { const c = cl(); delete c.files[f].photo.tags[t]; yield c; }
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const w = sim.w, host = sim.host(1), lib = host.main();
    const defaults = {};
    for (const [k, v] of Object.entries(lib)) if (v && typeof v === "object" && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype) && k !== "exiftool") defaults[k] = v;
    const fns = [];
    const owned = []; // [name, object, snapshot]
    const own = (name, o, frozen) => { owned.push([name, o, JSON.stringify(snap(o, fns))]); return frozen ? freeze(o) : o; };
    const instOpts = plan.insts.map((x, i) => own("the options object of instance " + i, { ...R.live(x), exiftoolEnv: { SIM_INST: String(i) } }, i % 2 === 1));
    for (const [k, v] of Object.entries(defaults)) own("exported " + k, v, false);
    const insts = instOpts.map((o) => new lib.ExifTool(o));
    insts.forEach((et, i) => own(`options of instance ${i}`, et.options, false));
    const bags = plan.bags.map((b, i) => Object.fromEntries(Object.entries(FIELDS).map(([kind, ks]) => [kind, own(`call options ${i}`, only(R.live(JSON.parse(JSON.stringify(b.o))), ks), b.frozen)])));
    const tagObjs = plan.tagObjs.map((b, i) => own(`tags object ${i}`, JSON.parse(JSON.stringify(b.o)), b.frozen));
    const editObjs = plan.editObjs.map((b, i) => own(`edits ${i}`, JSON.parse(JSON.stringify(b.o)), b.frozen));
    const retains = plan.retains.map((b, i) => own(`retain list ${i}`, [...b.o], b.frozen));
    // what the caller's objects hold at the moment, in plan terms; callers may change their own objects between calls
    const now = { bags: plan.bags.map((b) => Object.fromEntries(Object.entries(FIELDS).map(([k, ks]) => [k, JSON.parse(JSON.stringify(only(b.o, ks)))]))), tags: JSON.parse(JSON.stringify(plan.tagObjs.map((b) => b.o))), edits: JSON.parse(JSON.stringify(plan.editObjs.map((b) => b.o))), retains: plan.retains.map((b) => [...b.o]) };
    const redo = (o) => { const e = owned.find((x) => x[1] === o); e[2] = JSON.stringify(snap(o, fns)); };
    const alter = (op) => {
      const both = (live, model, f) => { f(live); f(model); redo(live); ctx.probe("altered-between-calls"); };
      const b = op.bag != null && plan.bags[op.bag] && !plan.bags[op.bag].frozen ? bags[op.bag][op.kind] : null;
      if (b) both(b, now.bags[op.bag][op.kind], (o) => {
        for (const k of ["ignoreMinorErrors", "useMWG"]) if (k in o) o[k] = !o[k];
        if (plan.faults.length === 0 && o.numericTags) o.numericTags.push("ISO" + op.n);
        if (o.writeArgs && !o.writeArgs.includes("-P")) o.writeArgs.push("-P");
      });
      if (op.tagObj != null && plan.tagObjs[op.tagObj] && !plan.tagObjs[op.tagObj].frozen) both(tagObjs[op.tagObj], now.tags[op.tagObj], (o) => { if (o.Title) o.Title = "A" + op.n; if (o.Subject) o.Subject.push("s" + op.n); if (o.RegionInfo) o.RegionInfo.RegionList[0].Name = "r" + op.n; });
      if (op.editObj != null && plan.editObjs[op.editObj] && !plan.editObjs[op.editObj].frozen) both(editObjs[op.editObj], now.edits[op.editObj], (o) => { o[0].value = "f" + op.n; });
      if (op.retain != null && plan.retains[op.retain] && !plan.retains[op.retain].frozen) both(retains[op.retain], now.retains[op.retain], (o) => { o.push(["Headline", "City", "Label"][op.n % 3]); });
    };
    w.setFaults(plan.faults);
    const clone = (v) => { try { return R.strip(v); } catch { return null; } };
    const vandal = (v, d = 0) => { if (!v || typeof v !== "object" || d > 3) return; try { if (Array.isArray(v)) { for (const x of v) vandal(x, d + 1); v.push("vandal"); } else for (const k of Object.keys(v)) { if (Object.getPrototypeOf(v[k] ?? 0) === Object.prototype || Array.isArray(v[k])) vandal(v[k], d + 1); } if (!Array.isArray(v)) v.vandal = "x"; } catch { /* frozen is fine */ } };
    let live = plan.clients.length;
    for (const c of plan.clients) (async () => {
      for (const op of c.ops) {
        if (op.gap > 0) await sim.sleep(op.gap);
        const et = insts[op.inst] ?? insts[0];
        if (op.alter) alter(op);
        const asked = JSON.parse(JSON.stringify({ bagO: op.bag != null && plan.bags[op.bag] ? now.bags[op.bag][op.kind] : {}, tagsO: now.tags[op.tagObj], editsO: now.edits[op.editObj], retainO: now.retains[op.retain] }));
        let opts = op.bag != null && bags[op.bag] ? bags[op.bag][op.kind] : undefined;
        if (op.kind === "deleteAll" && op.retain != null) opts = { ...opts, retain: retains[op.retain] };
        if (op.kind === "rewrite" && op.amr != null) opts = { ...opts, allowMakerNoteRepair: op.amr };
        const t = tagObjs[op.tagObj], e = editObjs[op.editObj], mine = op.reuse != null;
        const copy = (v) => (Array.isArray(v) ? v.map(copy) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, copy(x)])) : v);
        if (mine && opts) opts = ["write", "edit", "deleteAll"].includes(op.kind) ? copy(opts) : { ...opts };
        const call = { ...op, opts, args2: op.legacy ? own("legacy args", [...op.legacy], true) : undefined, tags: mine ? copy(t) : t, edits: mine ? copy(e) : e };
        const rec = sim.call({ ...op, ...asked, opts, i: op.inst < insts.length ? op.inst : 0 }, () => invoke(et, call), host);
        rec.done.then(() => { if (rec.ok && rec.value && typeof rec.value === "object" && !Buffer.isBuffer(rec.value)) { rec.norm = clone(rec.value); if (!op.keep) vandal(rec.value); } });
        if (mine) { const go = () => reuse(call); if (op.reuse === 0) go(); else if (op.reuse === 1) queueMicrotask(go); else w.after(op.reuse, go, "caller-reuses"); }
        if (!op.bg) await rec.done;
      }
      live--;
    })();
    const res = await w.run({ until: () => live === 0 && sim.allSettled(), maxTime: P.bound(plan), maxEvents: 400000 });
    if (res !== "until") ctx.violate("stuck", `calls are pending after ${Math.round(w.now)} ms`);
    for (const [name, o, s] of owned) { const now = JSON.stringify(snap(o, fns)); if (now !== s) ctx.violate("object-modified", `${name} was modified: ${O.diff(JSON.parse(s), JSON.parse(now))}`); }
    for (const x of sim.ops) if (x.keep && x.norm) { ctx.probe("kept"); if (!O.eq(clone(x.value), x.norm)) ctx.violate("result-modified", `what ${x.kind}(${x.file}) resolved to changed later, without its receiver touching it: ${O.diff(clone(x.value), x.norm)}`); }
    const cmds = w.commands.slice();
    await P.finish(ctx, { w, sim, insts });
    // which options were in force for each call
    const force = (rec) => { const bagO = rec.bagO; const e = { ...DEF, ...modern(plan.insts[rec.i]), ...modern(bagO) }; if (rec.legacy) e[rec.kind === "write" ? "writeArgs" : "readArgs"] = rec.legacy; if (rec.kind === "deleteAll") delete e.writeArgs; e.retain = rec.retainO; if (rec.amr != null) e.allowMakerNoteRepair = rec.amr; return e; };
    const matches = (c, rec) => { const a = c.args.filter((x) => x !== "-ignoreMinorErrors"); if (a[a.length - 1] !== rec.file) return false; if (c.owner !== rec.i) return false; const asg = a.some((x) => /^-[^=<]+[-+]?=/.test(x) || /^-\w+</.test(x)), W = a.some((x) => x === "-W" || x === "-W!"), T = a.includes("-tagsfromfile");
      switch (rec.kind) { case "extract": return W && a.includes(rec.dest); case "rewrite": return T && a.includes(rec.dest); case "buffer": return !W && a.includes("-b"); case "deleteAll": return a.includes("-all=") && !T; case "write": return asg && !T && a.some((x) => x === (rec.tagsO.Title ? "-Title=" + rec.tagsO.Title : "-FileName<FileName")) && !a.includes("-all="); case "edit": return asg && !T && a.some((x) => x === `-${rec.editsO[0].tag}+=${rec.editsO[0].value}`); case "read": return !asg && !W && a.includes("-json") && a.includes("-all") && !a.includes("-b"); case "readRaw": return !asg && !W && !a.includes("-all") && a.includes("-json") && !a.includes("-b"); } };
    for (const c of cmds) c.owner = Number(w.spawns[c.child - 1].env?.SIM_INST ?? w.spawns[c.child - 1].opts?.env?.SIM_INST ?? 0);
    for (const c of cmds) if (c.args.some((a) => a.includes("CHANGED"))) { ctx.violate("reused-object", `a caller put its objects to other use after its call was made, and ExifTool got ${O.S(c.args, 600)}`); break; }
    if (plan.clients.some((c) => c.ops.some((x) => x.reuse != null))) ctx.probe("caller-reuse");
    for (const c of cmds) {
      if (c.first || (c.args.length === 1 && c.args[0] === "-ver")) continue;
      const cand = sim.ops.filter((x) => x.syncThrow !== true && matches(c, x) && c.at >= x.invoked - 0.5 && (x.settled == null || c.at <= x.settled + 0.5));
      if (!cand.length) continue;
      ctx.probe("command");
      for (const x of cand) x.sent = true;
      const why = cand.map((x) => [...demand(x.kind, force(x), c.args), ...contents(x, c.args)]);
      if (!why.some((b) => b.length === 0)) ctx.violate("options-not-obeyed", `${cand[0].kind}(${cand[0].file}, ${O.S(cand[0].bagO)}) on an instance with ${O.S(only(plan.insts[cand[0].i], FIELDS[cand[0].kind]))}: ${why[0].join("; ")}; sent ${O.S(c.args, 600)}`);
    }
    for (const x of sim.ops) if (x.ok && ["write", "edit", "deleteAll"].includes(x.kind) && !x.sent) ctx.violate("request-not-sent", `${x.kind}(${x.file}) of ${O.S(x.tagsO ?? x.editsO ?? x.retainO)} resolved, but ExifTool was never asked for that`);
    // the same read with the options given elsewhere
    const refs = new Map();
    for (const x of sim.ops) {
      if (x.kind !== "read" && x.kind !== "readRaw") { if (x.ok === false && plan.faults.length === 0 && !["extract", "rewrite", "buffer"].includes(x.kind)) ctx.violate("call-failed", `${x.kind}(${x.file}) rejected without any fault: ${x.message}`); continue; }
      if (!x.ok) { if (plan.faults.length === 0) ctx.violate("call-failed", `${x.kind}(${x.file}) rejected without any fault: ${x.message}`); continue; }
      const merged = only({ ...modern(only(plan.insts[x.i], FIELDS.read)), ...modern(x.bagO), ...(x.legacy ? { readArgs: x.legacy } : {}) }, FIELDS[x.kind]);
      const key = JSON.stringify([x.kind, x.file, merged]);
      if (!refs.has(key)) {
        const m = { key: refs.size, kind: x.kind, file: x.file, entry: plan.files[x.file] };
        refs.set(key, [await R.refRead(ctx, { ...m, opts: merged }), await R.refRead(ctx, { ...m, opts: {}, callOpts: merged })]);
      }
      for (const [j, ref] of refs.get(key).entries()) {
        ctx.probe("compared");
        if (!ref.ok) ctx.violate("call-failed", `${x.kind}(${x.file}, ${O.S(merged)}) alone: ${ref.message}`);
        else if (!O.eq(x.norm, ref.value)) ctx.violate("wrong-options-in-force", `${x.kind}(${x.file}) with ${O.S(only(plan.insts[x.i], FIELDS.read))} on the instance and ${O.S(x.bagO)} on the call differs from the same read with ${O.S(merged)} all given to the ${j ? "call" : "instance"}: ${O.diff(ref.value, x.norm)}`);
      }
    }
  },
};
