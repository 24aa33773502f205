"use strict";
// The general scenario: several clients use one or more ExifTool instances
// concurrently while the planned faults happen.
const G = require("../sim/gen");
const { Sim, startClients, invoke, libs } = require("../sim/scenario");

const MIXED = [[6, "read"], [4, "readRaw"], [4, "write"], [2, "edit"], [1, "deleteAll"], [2, "extract"], [2, "buffer"], [1, "rewrite"], [1, "version"]];
const LIST_KEYS = ["XMP-dc:Subject", "IPTC:Keywords", "XMP-lr:HierarchicalSubject", "XMP-digiKam:TagsList", "XMP-iptcExt:PersonInImage"];

/** text that write() stores verbatim: no HTML entities, no leading blank (documented limits) */
function plainText(r, tok, nasty = 0.4) {
  let s = G.text(r, tok, nasty);
  s = s.replace(/&(#?\w+);/g, "&$1 ;").replace(/\u001f/g, "");
  if (r.bool(0.05)) s = r.pick([" ", "  ", "\t ", "\n"]) + s;
  return s === "" ? tok || "x" : s;
}
function editText(r, tok) { const s = G.text(r, tok, 0.5).replace(/[\u0000-\u0008\u000b-\u001f]/g, "_"); return s === "" ? "x" : s; }

/** file names that look like something else in a message or reply */
const ODD = [(i) => "warning: old " + i, (i) => i + " Warning: x", (i) => "nothing to write " + i, (i) => "Nothing to do." + i, (i) => "errors " + i, (i) => "Error: " + i, (i) => "漢字 é" + i, (i) => "a&amp;b" + i, (i) => "-dash" + i, (i) => "x {ready} " + i, (i) => "#h " + i + " ", (i) => i + " 1 image files updated"];
/** one operation. tok is unique to it, and appears in what it writes. */
function genOp(r, kind, files, tok, o = {}) {
  const paths = Object.keys(files);
  const file = o.file ?? (r.bool(o.missing ?? 0.04) ? (r.bool(o.oddNames ?? 0.2) ? "/photos/none " + r.pick(ODD)(r.int(2)) + ".jpg" : "/photos/none" + r.int(3) + ".jpg") : r.pick(paths));
  const op = { kind, tok };
  if (kind !== "version") op.file = file;
  const g = r.weighted([[4, 0], [3, 1], [2, 2]]);
  op.gap = r.bool(0.006) ? r.float() * 200000 : g === 0 ? 0 : g === 1 ? r.float() * 30 : r.float() * 600;
  switch (kind) {
    case "write": {
      op.tags = {};
      for (const t of r.sample(G.STR_TAGS, 1 + r.int(3))) op.tags[t] = plainText(r, tok, o.nasty);
      if (r.bool(0.4)) { const t = r.pick(G.LIST_TAGS); op.tags[t] = Array.from({ length: 1 + r.int(4) }, (_, i) => plainText(r, tok + "-" + i, o.nasty)); }
      if (r.bool(0.3)) op.tags.Rating = r.int(6);
      if (r.bool(0.25)) op.tags[r.pick(G.STR_TAGS.filter((t) => !(t in op.tags)))] = null;
      break;
    }
    case "edit": {
      op.edits = [];
      const n = 1 + r.int(3);
      for (let i = 0; i < n; i++) op.edits.push({ tag: r.pick(LIST_KEYS), operation: r.bool(0.75) ? "add" : "remove", value: editText(r, tok + "-" + i) });
      break;
    }
    case "deleteAll": op.opts = { retain: r.sample(G.STR_TAGS, r.int(3)) }; if (op.opts.retain.length === 0) delete op.opts; break;
    case "extract": op.tag = r.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw"]); op.via = r.bool(); op.dest = "/out/" + tok + ".jpg"; break;
    case "buffer": op.tag = r.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw"]); break;
    case "rewrite": op.dest = "/out/" + tok + ".rw.jpg"; break;
  }
  return op;
}
function genFiles(r, n, o = {}) {
  const files = {};
  for (let i = 0; i < n; i++) {
    const p = "/photos/" + (r.bool(o.oddNames ?? 0.2) ? r.pick(ODD)(i) : "p" + i) + (o.ext || ".jpg");
    const ph = G.photo(r, "orig" + i, o);
    if (r.bool(o.warnings ?? 0.15)) ph.warning = r.pick(["[minor] Bad thing ", "IPTCDigest is not current ", "Truncated "]) + i;
    if (r.bool(o.stderr ?? 0.15)) ph.stderr = "Warning: Oddness " + i + " - " + p + "\n";
    if (r.bool(o.errors ?? 0.05)) ph.error = "Problem " + i;
    if (r.bool(o.writeWarnings ?? 0.1)) ph.writeWarning = r.bool(0.8) ? "[minor] Fixed something " + i : Array.from({ length: 2 + r.int(30) }, (_, k) => "[minor] Fixed thing " + k + (r.bool(0.1) ? " at length".repeat(40) : "") + " of " + i);
    if (r.bool(o.minor ?? 0.05)) ph.minorError = "Maker notes could not be parsed " + i;
    files[p] = { photo: ph };
    if (r.bool(o.bad ?? 0.04)) files[p] = r.pick([{ empty: true }, { corrupt: true }, { photo: ph, readonly: true }]);
  }
  return files;
}
function genPool(r, o = {}) {
  const nf = o.files ?? 1 + r.int(5);
  const files = genFiles(r, nf, o);
  const nInst = o.insts ?? (r.bool(0.2) ? 2 : 1);
  const insts = Array.from({ length: nInst }, () => ({ ...G.opts(r), ...(o.opts ? o.opts(r) : {}) }));
  const nc = o.clients ?? r.weighted([[1, 1], [3, 2], [3, 4], [2, 6], [1, 10]]);
  let seq = 0;
  const long = r.bool(o.long ?? 0.006); // hundreds of calls: what only shows after many
  const clients = Array.from({ length: nc }, () => {
    const n = long ? 20 + r.int(60) : o.perClient ? o.perClient(r) : 1 + r.int(4);
    return { ops: Array.from({ length: n }, () => { const op = genOp(r, r.weighted(o.mix ?? MIXED), files, "tok" + ++seq + "q", o); op.inst = r.int(nInst); if (r.bool(o.bg ?? 0.3)) op.bg = true; return op; }) };
  });
  if (long && r.bool()) for (const c of clients) for (const op of c.ops) op.bg = true, op.gap = 0; // all at once
  const total = clients.reduce((n, c) => n + c.ops.length, 0);
  const faults = o.noFaults || r.bool(o.calm ?? 0.2) ? [] : G.faults(r, { span: Math.max(4, total + 2), spawnSpan: 3 + nInst * 2, ...(o.faults || {}) });
  const net = G.net(r);
  if (long) { if (net.chunking === "bytes") net.chunking = "few"; if (net.serviceMs[1] > 60) net.serviceMs = [1, 12]; }
  const plan = { net, timerLateness: r.pick([0, 0, 1, 15]), insts, files, clients, faults };
  return plan;
}
/** simulated time by which everything must have settled */
function bound(plan) {
  const ops = (plan.clients || []).reduce((n, c) => n + c.ops.length, 0);
  const gaps = (plan.clients || []).reduce((n, c) => n + c.ops.reduce((m, x) => m + (x.gap || 0), 0), 0);
  let per = 0;
  for (const i of plan.insts) per = Math.max(per, (1 + (i.taskRetries ?? 1)) * ((i.taskTimeoutMillis ?? 30000) + (i.spawnTimeoutMillis ?? 30000) + (i.minDelayBetweenSpawnMillis ?? 1500) + 8000));
  const f = (plan.faults || []).reduce((n, x) => n + (x.ms || 0) + (x.at || 0) + 35000, 0);
  return 60000 + gaps + f + ops * per;
}
/** @return {sim, host, lib, insts, outcome} after all calls settled or the bound passed */
async function runPool(ctx, o = {}) {
  const { plan } = ctx;
  const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
  const host = sim.host(1, o.host);
  const w = sim.w;
  const lib = host.main();
  const insts = plan.insts.map((x) => new lib.ExifTool(o.makeOpts ? o.makeOpts(x, host, lib) : { ...x }));
  for (const et of insts) libs.set(et, lib);
  if (o.before) o.before({ sim, host, lib, insts, w });
  w.setFaults(plan.faults);
  const done = startClients(sim, plan, insts, host);
  const lim = bound(plan);
  const calls = plan.clients.reduce((n, c) => n + c.ops.length, 0), gaps = plan.clients.reduce((n, c) => n + c.ops.reduce((m, x) => m + (x.gap || 0), 0), 0);
  const outcome = await w.run({ until: done, maxTime: lim, maxEvents: 400000 + 5000 * calls + gaps });
  const res = { sim, host, lib, insts, w, outcome, lim };
  if (o.tail) await w.run({ until: () => false, maxTime: w.now + o.tail, maxEvents: 100000 });
  return res;
}
/** end all instances so that nothing of this run survives it */
async function finish(ctx, S) {
  const { w, insts, sim } = S;
  w.faultsOff = true;
  let left = insts.length;
  for (const et of insts) (async () => et.end(false))().then(() => left--, () => left--);
  await w.run({ until: () => left === 0, maxTime: w.now + 120000 });
  ctx.done(w, sim);
}
module.exports = { genPool, genFiles, genOp, runPool, finish, bound, MIXED, plainText, editText, LIST_KEYS, startClients, invoke };
