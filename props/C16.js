"use strict";
// Extracted payloads and rewritten files are complete and exact, and appear
// where the caller asked; nothing is overwritten without permission.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { decodePhoto } = require("../sim/exif");

const TAGS = ["ThumbnailImage", "PreviewImage", "JpgFromRaw"];
const NAMES = ["plain", "with space", "ünïcode 漢", "-dash", "#hash", "a=b", "quote'\"s", "semi;colon", "100%", "x%20y", "$HOME", "a&b", "tab\tname", "@file", "[1]", "{ready}"];
const payload = (r, tok) => {
  const n = r.weighted([[3, 0], [12, 40], [9, 2000], [3, 40000], [1, 150000]]);
  const head = Buffer.from(tok + "\0\xff\xd8{ready}\n\r\n", "latin1");
  const b = Buffer.alloc(n === 0 && r.bool(0.3) ? 0 : head.length + n);
  for (let i = 0; i < b.length; i++) b[i] = i < head.length ? head[i] : (i * 31 + n) & 255;
  return b.toString("base64");
};
module.exports = {
  id: "C16", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: concurrent extractBinaryTag / extractThumbnail / extractPreview / extractJpgFromRaw / extractBinaryTagToBuffer / rewriteAllTags calls from and to odd paths, missing and pre-existing destinations and directories, missing payloads, binary payloads up to 150 kB (with \"{ready}\" inside), overwrite permission given per call, per instance or not, with child crashes before, during and after the write, hangs, error replies, full disks, recycling and failing directory creation; the disk is compared with the stored payloads.",
  nontrivialRule: "at least one call resolved", nontrivial: (r) => (r.probes["resolved"] || 0) > 0,
  gen(r) {
    const files = {};
    const nf = 1 + r.int(4);
    for (let i = 0; i < nf; i++) {
      const p = `/photos/${r.pick(NAMES)} s${i}.jpg`;
      const ph = G.photo(r, "o" + i, { bin: false });
      ph.bin = {};
      for (const t of TAGS) if (r.bool(0.6)) ph.bin[t] = payload(r, `o${i}${t}`);
      if (r.bool(0.15)) ph.stderr = "Warning: Oddness " + i + " - " + p + "\n";
      if (r.bool(0.2)) ph.makerNotesBroken = true;
      files[p] = r.bool(0.08) ? r.pick([{ empty: true }, { corrupt: true }]) : { photo: ph };
    }
    const nInst = r.bool(0.3) ? 2 : 1;
    const insts = Array.from({ length: nInst }, () => ({ ...G.opts(r), ...(r.bool(0.2) ? { forceWrite: r.bool(0.7) } : {}), ...(r.bool(0.2) ? { ignoreMinorErrors: r.bool() } : {}) }));
    let seq = 0;
    const shared = ["/out/shared one.jpg", "/out/shared2.jpg"];
    const pre = {};
    const clients = Array.from({ length: 1 + r.int(4) }, () => ({ ops: Array.from({ length: 1 + r.int(4) }, () => {
      const kind = r.weighted([[5, "extract"], [4, "buffer"], [2, "rewrite"]]);
      const op = { kind, inst: r.int(nInst), file: r.bool(0.06) ? "/photos/absent.jpg" : r.pick(Object.keys(files)), gap: r.bool(0.6) ? 0 : r.float() * 300, bg: r.bool(0.5) };
      if (kind !== "rewrite") { op.tag = r.pick(TAGS); op.via = r.bool(); const cased = (t) => r.pick([t.toLowerCase(), t.toUpperCase(), t[0].toLowerCase() + t.slice(1)]); if (!op.via && r.bool(0.25)) op.tag = cased(op.tag); }
      if (kind !== "buffer") {
        op.dest = r.bool(0.15) ? r.pick(shared) : r.pick(["/out/", "/out/new dir/sub/", "rel/", "/out/a/"]) + r.pick(NAMES) + " d" + ++seq + ".jpg";
        if (r.bool(0.2)) pre[op.dest] = 1;
        if (kind === "extract" && r.bool(0.35)) op.opts = { forceWrite: r.bool(0.7) };
        if (kind === "rewrite" && r.bool(0.4)) op.opts = { allowMakerNoteRepair: r.bool() };
      }
      if (r.bool(0.1)) op.opts = { ...op.opts, ignoreMinorErrors: r.bool() };
      return op;
    }) }));
    const fsFaults = r.bool(0.8) ? [] : [{ op: "mkdir", n: 1 + r.int(4), code: r.pick(["EACCES", "ENOSPC", "EROFS"]) }];
    return { net: G.net(r), timerLateness: r.pick([0, 0, 15]), insts, files, clients, pre: Object.keys(pre), fsFaults, faults: r.bool(0.3) ? [] : G.faults(r, { span: 10, cmdKinds: [...G.CMD_FAULTS, [4, () => ({ kind: "crashMidWrite" })]] }) };
  },
  async run(ctx) {
    const { plan } = ctx;
    const keep = (d) => Buffer.from("precious " + d);
    const writes = []; // every host- or child-side change of a destination
    const S = await P.runPool(ctx, { before({ sim }) {
      for (const d of plan.pre) sim.disk.put(O.abs(d), keep(d));
      const n = {};
      sim.disk.hook = (op, p) => { n[op] = (n[op] || 0) + 1; return plan.fsFaults.find((f) => f.op === op && f.n === n[op]); };
      const put = sim.disk.put.bind(sim.disk);
      sim.disk.put = (p, data, mode) => { writes.push({ p, data: Buffer.isBuffer(data) ? data : Buffer.from(String(data)), at: sim.w.now }); return put(p, data, mode); };
    } });
    const { sim, w } = S;
    // (a slow reply can exceed a 500 ms time-out)
    const calm = (rec) => plan.faults.length === 0 && (plan.insts[rec.inst]?.taskTimeoutMillis ?? 30000) > 500;
    for (const rec of sim.ops) {
      if (rec.settled == null) { ctx.violate("never-settles", `${rec.kind}(${rec.file})`); continue; }
      const ent = plan.files[rec.file], ph = ent && ent.photo;
      const want = ph && rec.tag && Object.entries(ph.bin).find(([k]) => k.toLowerCase() === rec.tag.toLowerCase());
      const bytes = want && Buffer.from(want[1], "base64");
      const what = `${rec.kind}(${O.S({ tag: rec.tag, file: rec.file, dest: rec.dest, opts: rec.opts })})`;
      if (rec.kind === "buffer") {
        if (rec.ok) {
          ctx.probe("resolved");
          if (!Buffer.isBuffer(rec.value)) ctx.violate("not-a-buffer", what + ": " + typeof rec.value);
          else if (!bytes) ctx.violate("payload-from-nowhere", `${what} resolved to ${rec.value.length} bytes, but there is no such payload`);
          else if (!rec.value.equals(bytes)) ctx.violate("wrong-bytes", `${what}: ${rec.value.length} bytes ${O.S(rec.value.subarray(0, 24).toString("latin1"))}…, stored are ${bytes.length} bytes`);
        } else if (bytes && calm(rec)) ctx.violate("payload-refused", `${what} rejected without any fault: ${rec.message}`);
        continue;
      }
      const dest = O.abs(rec.dest);
      if (/[\t]/.test(rec.dest) === false && /[\r\n\0]/.test(rec.dest)) continue;
      const alone = sim.ops.filter((x) => x.dest === rec.dest).length === 1;
      const preHad = plan.pre.includes(rec.dest);
      const force = rec.opts?.forceWrite ?? plan.insts[rec.inst]?.forceWrite ?? false;
      const node = sim.disk.get(dest);
      const mine = writes.filter((x) => x.p === dest && x.at >= rec.invoked - 0.01 && x.at <= rec.settled + 0.01);
      if (rec.ok) {
        ctx.probe("resolved");
        if (!node) { ctx.violate("output-missing", `${what} resolved, but the destination does not exist`); continue; }
        if (rec.kind === "extract") {
          if (!bytes) ctx.violate("payload-from-nowhere", `${what} resolved, but there is no such payload`);
          else if (!mine.some((x) => x.data.equals(bytes))) ctx.violate("output-not-written", `${what} resolved, but the payload was not written during the call`);
          else if (alone && !node.data.equals(bytes)) ctx.violate("wrong-bytes", `${what} resolved, but the destination holds ${node.data.length} bytes, the payload has ${bytes.length}`);
          if (alone && preHad && !force) ctx.violate("overwrote", `${what} replaced an existing file without permission`);
        } else {
          const p = decodePhoto(node.data);
          if (!ph) ctx.violate("payload-from-nowhere", `${what} resolved, but the source is not readable`);
          else if (alone) {
            if (!p || !O.eq(p.tags, JSON.parse(JSON.stringify(ph.tags)))) ctx.violate("wrong-bytes", `${what}: rewritten file has ${O.S(p && p.tags)}`);
            const repair = rec.opts?.allowMakerNoteRepair ?? false;
            if (p && ph.makerNotesBroken && p.makerNotes !== (repair ? "repaired" : "broken")) ctx.violate("wrong-repair", `${what}: maker notes are ${p.makerNotes}`);
            if (preHad) ctx.violate("overwrote", `${what} replaced an existing file`);
          }
        }
      } else if (alone) {
        // rejected: the destination is as before, or complete; it may be incomplete only if ExifTool died while writing it
        const torn = w.commands.some((c) => c.effects.some((e) => e.kind === "torn-extract" && e.dest === dest));
        if (node && !torn) {
          const before = preHad && node.data.equals(keep(rec.dest));
          const complete = rec.kind === "extract" ? bytes && node.data.equals(bytes) : ph && (() => { const p = decodePhoto(node.data); return p && O.eq(p.tags, JSON.parse(JSON.stringify(ph.tags))); })();
          if (!before && !complete) ctx.violate("half-done", `${what} rejected (${rec.message}), and left ${node.data.length} other bytes behind`);
        }
        if (preHad && !node) ctx.violate("destroyed", `${what} rejected, and the file that was there is gone`);
        if (preHad && !force && node && !node.data.equals(keep(rec.dest))) ctx.violate("overwrote", `${what} replaced an existing file without permission`);
        const fsf = plan.fsFaults.length > 0;
        if (calm(rec) && !fsf && ph && (rec.kind === "rewrite" || bytes) && (!preHad || (force && rec.kind === "extract"))) ctx.violate("payload-refused", `${what} rejected without any fault: ${rec.message}`);
      }
    }
    // destinations that may not be overwritten keep their first content
    for (const d of plan.pre) {
      const ops = sim.ops.filter((x) => x.dest === d);
      if (ops.every((x) => x.kind === "rewrite" || !(x.opts?.forceWrite ?? plan.insts[x.inst]?.forceWrite ?? false))) { const n = sim.disk.get(O.abs(d)); if (!n || !n.data.equals(keep(d))) ctx.violate("overwrote", `${d} was replaced without permission`); }
    }
    // sources and everything else are untouched
    const dests = new Set(sim.ops.map((x) => x.dest && O.abs(x.dest)).filter(Boolean));
    for (const x of writes) if (!dests.has(x.p) && !plan.pre.some((d) => O.abs(d) === x.p) && !/_exiftool_tmp$/.test(x.p)) ctx.violate("wrote-elsewhere", `${x.p} was written`);
    await P.finish(ctx, S);
  },
};
