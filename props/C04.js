"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const U = "$undefined";
/** calls with arguments that TypeScript would refuse */
function oddCall(r) {
  const f = "/photos/p0.jpg";
  return { kind: "raw", gap: r.bool() ? 0 : r.float() * 300, ...r.pick([
    { method: "read", params: [r.pick([U, null, 5, {}, [], ""])] }, { method: "readRaw", params: [r.pick([U, null, 5, {}, ""])] }, { method: "read", params: [f, r.pick([null, 5, "x", true])] }, { method: "readRaw", params: [f, U, null] }, { method: "read", params: [f, { numericTags: r.pick(["Duration", ["bad name\n"], [null], [5]]) }] }, { method: "read", params: [f, { imageHashType: "CRC" }] }, { method: "read", params: [f, { readArgs: r.pick([["-a\nb"], [null], [5], "x"]) }] },
    { method: "write", params: [r.pick([U, null, 5])] }, { method: "write", params: [f, r.pick([U, null, 5, "x", [1]])] }, { method: "write", params: [f, "$cycle"] }, { method: "write", params: [f, { Title: "x" }, r.pick([null, 5, "-x", ["a\nb"], [null]])] }, { method: "write", params: [f, { "": "x" }] },
    { method: "editTags", params: [f, r.pick([U, null, 5, "x", {}, [null], [[]], [5]])] }, { method: "editTags", params: [U, [{ tag: "IPTC:Keywords", operation: "add", value: "x" }]] }, { method: "editTags", params: [f, [{ tag: "IPTC:Keywords", operation: "add", value: "x" }], null] },
    { method: "deleteAllTags", params: [r.pick([U, null, 5])] }, { method: "deleteAllTags", params: [f, r.pick([null, 5, { retain: 5 }, { retain: null }, { retain: [null] }, { retain: "Title" }])] },
    { method: "extractBinaryTag", params: r.pick([[U, f, "/out/a"], ["ThumbnailImage", U, "/out/b"], ["ThumbnailImage", f, U], ["ThumbnailImage", f, ""], ["ThumbnailImage", f, "/photos/p0.jpg/x"], ["ThumbnailImage", f, "/out/c", null]]) }, { method: "extractThumbnail", params: r.pick([[], [f], [f, null], [null, "/out/d"]]) }, { method: "extractPreview", params: [f, 5] }, { method: "extractJpgFromRaw", params: [] },
    { method: "extractBinaryTagToBuffer", params: r.pick([[], [U, f], ["ThumbnailImage"], ["ThumbnailImage", null], [5, f], ["ThumbnailImage", f, null]]) }, { method: "rewriteAllTags", params: r.pick([[], [f], [U, "/out/e"], [f, null], [f, "/out/f", null]]) },
  ]) };
}
/** loggers as documented: an object, with some of the methods, or a function that returns one */
const LOGGERS = {
  object: (ctx) => Object.fromEntries(["trace", "debug", "info", "warn", "error"].map((k) => [k, () => ctx.probe("logged")])),
  partial: (ctx) => ({ debug() {}, info() {}, warn: () => ctx.probe("logged"), error() {} }),
  class: (ctx) => new (class { #n = 0; trace() { this.#n++; } debug() { this.#n++; } info() { this.#n++; } warn() { this.#n++; } error() { this.#n++; ctx.probe("logged"); } })(),
  function: (ctx) => () => LOGGERS.object(ctx),
  empty: () => ({}),
};
function checkSettled(ctx, S) {
  const { sim, w, lim, outcome } = S;
  for (const rec of sim.ops) {
    if (rec.settled == null) ctx.violate("never-settles", `${rec.kind}(${rec.file ?? ""}) #${rec.id} invoked at ${rec.invoked.toFixed(0)} ms is still pending at ${w.now.toFixed(0)} ms (limit ${lim.toFixed(0)}, run ended: ${outcome})`);
    if (rec.syncThrow && rec.kind !== "dispose") ctx.violate("throws-synchronously", `${rec.kind}(${rec.file ?? ""}) threw instead of returning a promise: ${rec.message}`);
    if (rec.ok === false && !(rec.error instanceof Error)) ctx.violate("rejects-with-non-error", `${rec.kind} rejected with ${O.S(rec.error)}`);
  }
  for (const u of w.uncaught) ctx.violate(u.kind, `${u.kind} at ${u.at.toFixed(1)} ms: ${u.msg}\n${u.stack}`);
}
module.exports = {
  id: "C04", runs: { quick: 6000, thorough: 400000 },
  rule: "Seeded plan: mixed calls (including end, disposal and closeChildProcesses during use), every fault kind of the simulator, liveness limit computed from the plan.",
  nontrivialRule: "a fault fired", nontrivial: (r) => r.ops > 0 && Object.keys(r.faults).length > 0,
  gen(r) {
    const p = P.genPool(r, { calm: 0.05, missing: 0.1, bad: 0.1, mix: [...P.MIXED, ...(r.bool(0.4) ? [[1, "end"], [1, "asyncDispose"], [0.5, "dispose"], [1, "closeChildren"]] : [])], faults: { times: r.int(4), spawns: r.int(3) } });
    for (const c of p.clients) for (const op of c.ops) if (op.kind === "end" || op.kind === "closeChildren") op.graceful = r.bool();
    if (r.bool(0.15)) { p.clients.push({ ops: [{ kind: "write", file: "/photos/p0.jpg", tags: { "bad\ntag": "x" }, gap: 0 }, { kind: "edit", file: "/photos/p0.jpg", edits: [], gap: 0 }, { kind: "read", file: "bad\nname.jpg", gap: 0 }, { kind: "deleteAll", file: "/photos/p0.jpg", opts: { retain: ["-x\n"] }, gap: 0 }, { kind: "extract", tag: "a\nb", file: "/photos/p0.jpg", dest: "/out/x", gap: 0 }] }); }
    if (r.bool(0.25)) p.clients.push({ ops: Array.from({ length: 1 + r.int(4) }, () => oddCall(r)) });
    if (r.bool(0.15)) p.clients.push({ ops: Array.from({ length: 1 + r.int(3) }, () => ({ kind: "describe", what: r.pick(["all", "preload", "one"]), gap: r.float() * 500, inst: 0 })) });
    if (r.bool(0.1)) p.disk = { perl: false };
    for (const x of p.insts) if (r.bool(0.15)) x.log = r.pick(["object", "object", "partial", "class", "function", "empty"]);
    return p;
  },
  async run(ctx) {
    const S = await P.runPool(ctx, { tail: 40000, makeOpts: ({ log, ...x }) => (log ? { ...x, logger: LOGGERS[log](ctx) } : x) });
    checkSettled(ctx, S);
    await P.finish(ctx, S);
    checkSettled(ctx, S);
  },
  checkSettled,
};
