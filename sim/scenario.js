"use strict";
// Plays a plan: {net, host, opts, insts, files, clients, faults, ...}. A plan is
// plain JSON; together with the seed it determines the execution completely.
const { World, activate } = require("./world");
const { Disk } = require("./disk");
const { Host, baseDisk } = require("./host");
const { encodePhoto } = require("./exif");

class Sim {
  constructor(code, seed, plan, o = {}) {
    this.code = code; this.seed = seed; this.plan = plan;
    this.w = new World(seed, { trace: o.trace, wallBase: plan.wallBase, timerLateness: plan.timerLateness });
    activate(this.w);
    this.disk = new Disk(this.w);
    baseDisk(this.disk, plan.disk || {});
    for (const [p, f] of Object.entries(plan.files || {})) this.putFile(p, f);
    if (plan.bulk) this.disk.bulk = plan.bulk;
    this.ops = [];
    this.opSeq = 0;
  }
  putFile(p, f) {
    if (f == null) return;
    if (f.empty) this.disk.put(p, Buffer.alloc(0));
    else if (f.corrupt) this.disk.put(p, Buffer.from("not a photo"));
    else this.disk.put(p, encodePhoto({ tags: {}, bin: {}, ...f.photo }), f.readonly ? 0o444 : 0o644);
  }
  host(id = 1, extra = {}) { return new Host(this.w, { code: this.code, disk: this.disk, id, net: this.plan.net, platform: this.plan.net?.platform, ...(this.plan.host || {}), ...extra }); }
  sleep(ms) { return new Promise((r) => this.w.after(ms, r, "client-wake")); }
  /** invoke one public API call and record its history entry */
  call(desc, fn, host) {
    const w = this.w;
    const rec = { id: ++this.opSeq, ...desc, invoked: w.now, invokedSeq: w.events, settled: null, ok: undefined };
    this.ops.push(rec);
    w.note("call", rec.id, desc.kind, desc.file ?? "");
    let p;
    try { p = fn(); } catch (e) { rec.syncThrow = true; p = Promise.reject(e); }
    rec.done = Promise.resolve(p).then(
      (v) => { if (host && host.dead) return; rec.settled = w.now; rec.settledSeq = w.events; rec.ok = true; rec.value = v; w.note("ok", rec.id); },
      (e) => { if (host && host.dead) return; rec.settled = w.now; rec.settledSeq = w.events; rec.ok = false; rec.error = e; rec.message = e && e.message != null ? String(e.message) : String(e); w.note("err", rec.id, rec.message); });
    return rec;
  }
  allSettled() { return this.ops.every((o) => o.settled != null); }
}

const libs = new WeakMap(), descs = new WeakMap();
/** tag descriptions belong to an instance */
function descriptionsOf(et, opts) {
  if (!descs.has(et)) { const T = libs.get(et).TagDescriptions; descs.set(et, new T(et, opts)); }
  return descs.get(et);
}
/** invoke op on instance */
function invoke(et, op) {
  const o = op.opts;
  switch (op.kind) {
    case "raw": return et[op.method](...op.params.map((x) => (x === "$undefined" ? undefined : x === "$cycle" ? cycle() : x)));
    case "describe": { const d = descriptionsOf(et, o); return op.what === "all" ? d.getAll() : op.what === "preload" ? d.preload() : d.getAsync(op.tag ?? "Zed"); }
    case "read": return op.args2 !== undefined ? et.read(op.file, op.args2, o) : o !== undefined ? et.read(op.file, o) : et.read(op.file);
    case "readRaw": return op.args2 !== undefined ? et.readRaw(op.file, op.args2, o) : o !== undefined ? et.readRaw(op.file, o) : et.readRaw(op.file);
    case "write": return op.args2 !== undefined ? et.write(op.file, op.tags, op.args2, o) : o !== undefined ? et.write(op.file, op.tags, o) : et.write(op.file, op.tags);
    case "edit": return o !== undefined ? et.editTags(op.file, op.edits, o) : et.editTags(op.file, op.edits);
    case "deleteAll": return o !== undefined ? et.deleteAllTags(op.file, o) : et.deleteAllTags(op.file);
    case "extract": return op.tag === "ThumbnailImage" && op.via ? et.extractThumbnail(op.file, op.dest, o) : op.tag === "PreviewImage" && op.via ? et.extractPreview(op.file, op.dest, o) : op.tag === "JpgFromRaw" && op.via ? et.extractJpgFromRaw(op.file, op.dest, o) : et.extractBinaryTag(op.tag, op.file, op.dest, o);
    case "buffer": return o !== undefined ? et.extractBinaryTagToBuffer(op.tag, op.file, o) : et.extractBinaryTagToBuffer(op.tag, op.file);
    case "rewrite": return o !== undefined ? et.rewriteAllTags(op.file, op.dest, o) : et.rewriteAllTags(op.file, op.dest);
    case "version": return et.version();
    case "task": return op.fn(et);
    case "end": return et.end(op.graceful);
    case "closeChildren": return et.closeChildProcesses(op.graceful);
    case "dispose": return et[Symbol.dispose]();
    case "asyncDispose": return et[Symbol.asyncDispose]();
    default: throw new Error("unknown op " + op.kind);
  }
}

/** run clients over instances; each client is a list of ops, sequential unless op.bg */
function startClients(sim, plan, instances, host) {
  const clients = plan.clients || [];
  let live = clients.length;
  for (const [ci, c] of clients.entries()) {
    (async () => {
      for (const [oi, op] of c.ops.entries()) {
        if (op.gap > 0) await sim.sleep(op.gap);
        if (host.dead) break;
        const et = instances[op.inst ?? 0];
        const rec = sim.call({ ...op, client: ci, idx: oi, op }, () => invoke(et, materialise(op)), host);
        if (!op.bg) await rec.done;
      }
      live--;
    })();
  }
  return () => live === 0 && sim.allSettled();
}
function cycle() { const a = { City: "x" }; a.CountryName = a; return { LocationCreated: a }; }
function materialise(op) { return op.mat ? op.mat(op) : JSON.parse(JSON.stringify(op)); }

module.exports = { libs, Sim, invoke, startClients };
