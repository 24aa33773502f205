"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
function checkTruth(ctx, S) {
  const { sim, w, insts } = S;
  const calm = ctx.plan.faults.length === 0;
  for (const rec of sim.ops) {
    if (!O.MUT.has(rec.kind)) continue;
    const cmds = O.commandsOf(w, rec).filter((c) => O.within(c, rec, 1));
    const c = cmds[0];
    const name = `${rec.kind}(${rec.file}) #${rec.id}`;
    const unique = rec.kind !== "deleteAll" || cmds.length === 1;
    if (rec.ok === true) {
      const good = cmds.filter((x) => O.answered(x) && O.reportedSuccess(x));
      if (good.length === 0) { ctx.violate("success-not-reported", `${name} resolved to ${O.S(rec.value)} but ExifTool said ${c ? O.S(c.out) + " / " + O.S(c.err) + (O.answered(c) ? "" : " (incomplete)") : "nothing"}`); continue; }
      const why = good.map((g) => resultMismatch(rec, g));
      if (!why.includes(null)) ctx.violate("wrong-result", `${name}: ${why[0]}`);
    } else if (rec.ok === false && unique && c && O.answered(c) && calm && ctx.plan.insts[rec.inst ?? 0].taskTimeoutMillis >= 5000) {
      if (O.reportedSuccess(c)) ctx.violate("rejected-although-done", `${name} rejected with "${rec.message}", ExifTool said ${O.S(c.out)} ${O.S(c.err)}`);
      const errs = O.lines(c.err).filter(O.isErr);
      if (errs.length && !errs.some((e) => rec.message.includes(e.replace(/^Error: /, "")))) ctx.violate("error-text-lost", `${name} rejected with "${rec.message}", ExifTool said ${O.S(errs)}`);
      ctx.probe("error-reported");
    }
    if (c && O.answered(c) && O.lines(c.err).some(O.isWarn)) ctx.probe("write-warning");
  }
}
function resultMismatch(rec, c) {
  const s = O.statusOf(c), v = rec.value;
  for (const k of ["created", "updated", "unchanged"]) if (v?.[k] !== s[k]) return `${k}: ${O.S(v?.[k])}, ExifTool said ${s[k]}`;
  const want = O.uniq(O.lines(c.err).filter(O.isWarn));
  const got = v.warnings ?? [];
  if (c.fault === "garbage" && got.length === 0) return `no sign of ExifTool's unintelligible answer ${O.S(c.out)}`;
  for (const x of want) if (!got.includes(x)) return `warning lost: ${x} (got ${O.S(got)})`;
  for (const x of got) if (!want.includes(x) && !x.startsWith("Unexpected output from ExifTool")) return `warning "${x}" was not printed by ExifTool for this call`;
  return null;
}
module.exports = {
  id: "C06", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: concurrent write/editTags/deleteAllTags on good, missing, read-only, empty, corrupt, XMP and minor-error files with valid, invalid and no-op values, on whole directories of up to 25 files, and with output elsewhere; warnings and errors in replies, random stderr/stdout interleaving, crash/hang/error/full-disk faults.",
  nontrivialRule: "a modifying call was made", nontrivial: (r) => r.ops > 0,
  gen(r) {
    const p = P.genPool(r, { mix: [[7, "write"], [3, "edit"], [2, "deleteAll"], [2, "read"]], calm: 0.6, missing: 0.12, minor: 0.2, bad: 0.15, writeWarnings: 0.3, faults: { cmdKinds: [...G.CMD_FAULTS.filter(([, f]) => !/noise/.test(String(f))), [4, (q) => ({ kind: "enospc" })], [3, (q) => ({ kind: "warn", text: "Warning: Extra " + q.int(1000) + "\n" })], [3, (q) => ({ kind: "errorReply", out: q.pick(["", "    0 image files updated\n    1 files weren't updated due to errors\n"]) })]], timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) },
      opts: (q) => ({ ignoreMinorErrors: q.bool(0.6), taskTimeoutMillis: q.pick([1000, 30000, 30000]) }) });
    for (const c of p.clients) for (const op of c.ops) {
      if (op.kind === "write") {
        if (r.bool(0.15)) op.tags[r.pick(["Rating", "Orientation", "CreateDate", "NoSuchTag", "GPSLatitude"])] = "bogus" + op.tok;
        if (r.bool(0.1)) op.tags = { [r.pick(["NoSuchTag", "AlsoNot"])]: op.tok };
        if (r.bool(0.1)) { op.file = "/photos/new" + r.int(4) + ".xmp"; }
        if (r.bool(0.1)) op.file = "/nodir" + r.int(2) + "/new.xmp";
        if (r.bool(0.08)) for (let i = 3 + r.int(8); i > 0; i--) op.tags["NoSuchTag" + i] = op.tok; // many warnings
        if (r.bool(0.2)) op.opts = { ignoreMinorErrors: r.bool() };
        if (r.bool(0.15)) op.opts = { ...op.opts, writeArgs: ["-overwrite_original"] };
      }
      if (op.kind === "deleteAll" && r.bool(0.2)) op.opts = { ...op.opts, ignoreMinorErrors: r.bool() };
    }
    // whole directories, and output elsewhere (both counted by ExifTool)
    if (r.bool(0.35)) {
      const n = r.weighted([[1, 0], [2, 3], [3, 12], [1, 25]]), warns = r.bool(0.4), bad = r.bool(0.5) ? 0 : 0.1;
      for (let i = 0; i < n; i++) { const photo = G.photo(r, "m" + i, {}); if (warns && r.bool(0.7)) photo.writeWarning = "[minor] Mended " + i; p.files[`/photos/many/m${i}.jpg`] = r.bool(bad) ? r.pick([{ empty: true }, { corrupt: true }, { photo, readonly: true }]) : { photo }; }
      for (const c of p.clients) for (const op of c.ops) if (O.MUT.has(op.kind) && r.bool(0.4)) op.file = "/photos/many";
    }
    if (p.files["/photos/many/m0.jpg"] && r.bool(0.2)) p.bulk = { "/photos/many": r.pick([998, 9998, 65535, 99998, 123456, 1000000]) };
    for (const c of p.clients) for (const op of c.ops) if (op.kind === "write" && r.bool(0.08)) op.opts = { ...op.opts, writeArgs: ["-o", r.pick(["/out/", "/out/new " + op.tok + "/sub/"]) + op.tok + ".jpg"] };
    return p;
  },
  async run(ctx) {
    const S = await P.runPool(ctx);
    checkTruth(ctx, S);
    await P.finish(ctx, S);
  },
};
