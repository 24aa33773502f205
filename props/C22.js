"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");

/** bytes that are not UTF-8: single bytes of old charsets, cut and overlong sequences, surrogates, NULs inside */
const BAD = [[0xff], [0xe9], [0xdc, 0x4b], [0xe6, 0xbc], [0xf0, 0x9f, 0x98], [0xc0, 0xaf], [0xed, 0xa0, 0x80], [0x80], [0xd5, 0x00, 0xbd], [0xfe, 0x00, 0xff], [0xe2, 0x82, 0x00, 0xac], [0xf8, 0x88, 0x80, 0x80, 0x80], [0x93, 0x94]];
function bad(r, tok) {
  const parts = [];
  const n = 1 + r.int(4);
  for (let i = 0; i < n; i++) parts.push(Buffer.from(r.pick(["", "a", "é", "漢字", "😀", "{ready}\n", "\0", "\n", "\"", "\\", "s:", "b64:", "?", "\ufffd", tok, "x".repeat(r.int(40))])), Buffer.from(r.pick(BAD)));
  if (r.bool()) parts.push(Buffer.from(r.pick(["", "z", "ü", "\n", "\0\0", tok])));
  if (require("../sim/filter").isUtf8(Buffer.concat(parts))) parts.push(Buffer.from([0xff])); // two bad parts may make a good one
  return { __bytes: Buffer.concat(parts).toString("base64") };
}
const MARK = "__etvInvalidUtf8V1";
/** well-formed values that look like the library's private encoding, or like repaired text */
const good = (r, tok) => r.pick([() => "s:" + tok, () => "b64:/w==", () => MARK, () => "\ufffd" + tok, () => "a?b", () => `{"${MARK}":{"replacement":"s:x","rawBase64":"b64:/w=="}}`, () => G.text(r, tok, 0.5)])();
function lookalike(r) { return r.pick([{ [MARK]: "x" }, { [MARK]: { replacement: "s:x" } }, { [MARK]: { replacement: "x", rawBase64: "/w==" } }, { [MARK]: { replacement: "s:x", rawBase64: "b64:/w==", more: "1" } }, { [MARK]: { replacement: "s:x", rawBase64: "b64:/w==" }, other: "1" }, { Other: { replacement: "s:x", rawBase64: "b64:/w==" } }, { [MARK]: ["s:x", "b64:/w=="] }, { [MARK]: { replacement: "5", rawBase64: "b64:/w==" } }, { [MARK]: { replacement: "s:x", rawBase64: "7" } }, { [MARK]: { replacement: "s:x", rawBase64: ["b64:/w=="] } }, { [MARK]: { replacement: "s:x", rawBase64: "b65:/w==" } }, { [MARK]: { text: "s:x", rawBase64: "b64:/w==" } }]); }
function badPhoto(r, tok) {
  const ph = G.photo(r, tok, { nasty: 0.4 });
  const v = () => (r.bool(0.55) ? bad(r, tok) : good(r, tok));
  for (const t of r.sample(G.STR_TAGS, 1 + r.int(3))) ph.tags[G.key(t)] = bad(r, tok);
  if (r.bool(0.6)) ph.tags[G.key(r.pick(G.LIST_TAGS))] = Array.from({ length: 1 + r.int(12) }, v);
  const field = () => r.pick(["Action", "Changed", "SoftwareAgent", "0", "1", "Länge", "__proto__", "constructor", "length"]);
  const struct = (d) => { const o = Object.create(null); const n = 1 + r.int(3); for (let i = 0; i < n; i++) o[field()] = d > 0 && r.bool(0.25) ? (r.bool() ? struct(d - 1) : [v(), v(), struct(d - 1)].slice(r.int(3))) : v(); return o; };
  if (r.bool(0.5)) ph.tags["XMP-xmpMM:History"] = r.bool(0.7) ? Array.from({ length: 1 + r.int(3) }, () => struct(2)) : struct(2);
  if (r.bool(0.3)) ph.tags["XMP-x:Odd"] = r.pick([() => lookalike(r), () => [lookalike(r), lookalike(r)], () => ({ In: lookalike(r), Other: bad(r, tok) })])();
  if (r.bool(0.2)) ph.tags["GPS:GPSProcessingMethod"] = v();
  if (r.bool(0.15)) ph.tags["GPS:GPSLatitude"] = r.pick(["95", "12.5", "0"]), ph.tags["GPS:GPSLongitude"] = "8.25";
  if (r.bool(0.2)) ph.tags["ExifIFD:DateTimeOriginal"] = v();
  if (r.bool(0.1)) ph.tags["IFD0:HostComputer"] = "undef";
  if (r.bool(0.4)) ph.bin = { ...ph.bin, [r.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw"])]: Buffer.from(Array.from({ length: 1 + r.int(60) }, () => r.pick([0, 0xff, 0xd8, 0x41, r.int(256)]))).toString("base64") };
  return ph;
}
const FILTERS = ['Filter=Image::ExifTool::XMP::FixUTF8(\\$_,"X") # own', "Filter=1", "filter=s/x/x/", "Filter^=tr/q/q/", "Filter"];
function readArgs(r) {
  const a = r.pick([[], ["-fast"], ["-G"], ["-fast", "-G1"], ["-n"], ["-fast2", "-struct"].slice(0, 1)]).slice();
  if (r.bool(0.3)) { const n = 1 + r.int(2); for (let i = 0; i < n; i++) a.push(r.pick(["-api", "-api", "-API"]), r.weighted([[3, "Filter="], [1, "filter= "], [4, r.pick(FILTERS)], [2, "largefilesupport=1"]])); }
  return a;
}
/** does ExifTool end up with a filter of the caller's own? (the last one given counts; blank means none) */
function ownFilter(args) {
  let own = false;
  for (let i = 0; i + 1 < args.length; i++) if (args[i].toLowerCase() === "-api") { const m = /^filter\^?(?:=([^]*))?$/i.exec(args[i + 1]); if (m) own = m[1] == null || m[1].trim() !== ""; i++; }
  return own;
}
const repaired = (b64) => require("../sim/filter").repaired(Buffer.from(b64, "base64"));
const isU8 = (x) => Object.prototype.toString.call(x) === "[object Uint8Array]";
/** compares a byte tree with the expected one. @return null or what differs */
function bytesDiff(got, want, where) {
  if (typeof want === "string") return !isU8(got) ? `${where}: ${O.S(got)} is not a Uint8Array` : Buffer.from(got).toString("base64") === want ? null : `${where}: bytes ${Buffer.from(got).toString("hex")} instead of ${Buffer.from(want, "base64").toString("hex")}`;
  if (got == null || typeof got !== "object" || isU8(got)) return `${where}: ${O.S(got)} instead of bytes for ${Object.keys(want)}`;
  const a = Object.keys(got).sort(), b = Object.keys(want).sort();
  if (!O.eq(a, b)) return `${where}: bytes given for [${a}] but malformed are [${b}]`;
  for (const k of b) { const d = bytesDiff(Object.getOwnPropertyDescriptor(got, k)?.value, want[k], where + "." + k); if (d) return d; }
  return null;
}
function textDiff(v, want, where) {
  if (typeof want === "string") return v === repaired(want) ? null : `${where}: text ${O.S(v)} instead of ${O.S(repaired(want))}`;
  for (const k of Object.keys(want)) { const d = textDiff(v == null ? undefined : Object.getOwnPropertyDescriptor(v, k)?.value, want[k], where + "." + k); if (d) return d; }
  return null;
}
const copy = (t) => (typeof t === "string" ? t : Object.fromEntries(Object.entries(t).map(([k, x]) => [k, copy(x)])));
/** keys whose text read() may turn into something else */
const INTERPRETED = /when|date|time|subsec|creat|modif|^gps|^geolocation|:gps|valid$/i;
module.exports = {
  bad,
  id: "C22", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: photos whose strings, list items and structure fields hold malformed UTF-8 (single legacy bytes, cut, overlong and surrogate sequences, with NULs, sentinels and quotes around them) next to well-formed text that imitates the private encoding; read concurrently with read() and readRaw() under default, per-instance, per-call and positional readArgs with and without a caller's Filter, some through one array whose owner changes it between calls; chunking splits characters anywhere; crashes, hangs and retries.",
  nontrivialRule: "some answer held malformed text", nontrivial: (r) => (r.probes["malformed"] || 0) > 0,
  gen(r) {
    const p = P.genPool(r, { mix: [[6, "read"], [6, "readRaw"], [1, "buffer"], [1, "version"]], calm: 0.5, missing: 0.04, bad: 0, oddNames: 0.1,
      faults: { cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise|garbage|errorReply/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) },
      opts: (q) => ({ taskTimeoutMillis: 30000, spawnTimeoutMillis: 30000, ...(q.bool(0.4) ? { readArgs: readArgs(q) } : {}), ...(q.bool(0.5) ? { struct: q.pick([0, 1, 2, "undef"]) } : {}) }) });
    let i = 0;
    for (const f of Object.values(p.files)) if (f.photo) { const b = badPhoto(r, "m" + ++i); f.photo = { ...f.photo, ...b }; delete f.photo.error; if (r.bool(0.1)) f.photo.warning = bad(r, "w"); }
    for (const c of p.clients) for (const op of c.ops) if (/^read/.test(op.kind)) {
      if (r.bool(0.35)) op.opts = { readArgs: readArgs(r) };
      else if (r.bool(0.15)) op.args2 = readArgs(r);
      if (p.faults.length === 0 && r.bool(0.25)) op.ours = readArgs(r), op.opts = { readArgs: op.ours }, delete op.args2; // one array, whose contents its owner changes between calls
      if (op.kind === "read" && r.bool(0.3)) op.opts = { ...op.opts, struct: r.pick([0, 1, 2]) };
    }
    return p;
  },
  async run(ctx) {
    const ours = [];
    for (const c of ctx.plan.clients) for (const op of c.ops) if (op.ours) Object.defineProperty(op, "mat", { configurable: true, value: () => { ours.splice(0, ours.length, ...op.ours); ctx.probe("shared-readArgs"); return { ...JSON.parse(JSON.stringify(op)), opts: { ...op.opts, readArgs: ours } }; } });
    const S = await P.runPool(ctx);
    const { sim, w, lib } = S;
    for (const rec of sim.ops) {
      const name = `${rec.kind}(${rec.file}) #${rec.id}`;
      if (rec.kind !== "read" && rec.kind !== "readRaw") continue;
      if (rec.ok !== true) { if (rec.ok === false && ctx.plan.faults.length === 0 && ctx.plan.files[rec.file]?.photo) ctx.violate("valid-request-rejected", `${name} rejected without any fault: ${rec.message}`); continue; }
      const cmds = O.commandsOf(w, rec).filter((c) => O.answered(c) && O.within(c, rec, 1));
      if (!cmds.length) continue;
      const args = rec.op.args2 ?? rec.op.opts?.readArgs ?? ctx.plan.insts[rec.inst].readArgs ?? ["-fast"];
      const own = ownFilter(args);
      const whys = cmds.map((c) => {
        if (c.malformed) ctx.probe(own ? "own-filter" : "malformed");
        const v = rec.value;
        if (own) {
          if (v.invalidUtf8Bytes !== undefined) return `invalidUtf8Bytes ${O.S(v.invalidUtf8Bytes)} although the caller's own Filter did the filtering`;
          const p = JSON.parse(c.out)[0];
          for (const [k, x] of Object.entries(p)) if (rec.kind === "readRaw" && !["errors", "warnings"].includes(k) && !O.eq(v[k], x)) return `${k}: ${O.S(v[k])} although ExifTool (with the caller's own Filter) printed ${O.S(x)}`;
          return null;
        }
        for (const [k, n] of Object.entries(c.binSizes ?? {})) { ctx.probe("binary-size"); const got = v[k]?.bytes ?? Number(/^\(Binary data (\d+) bytes/.exec(v[k])?.[1]); if (got !== n) return `${k}: ${O.S(v[k])} although the payload has ${n} bytes`; }
        const want = c.malformed ? copy(c.malformed) : {};
        if (rec.kind === "read") for (const k of Object.keys(want)) if (!Object.hasOwn(v, k)) { if (!INTERPRETED.test(k)) return `${k} is missing from the result`; delete want[k]; }
        if (Object.keys(want).length === 0) { if (v.invalidUtf8Bytes !== undefined) return `invalidUtf8Bytes ${O.S(v.invalidUtf8Bytes)} although no text is malformed`; } else {
          const d = bytesDiff(v.invalidUtf8Bytes, want, "invalidUtf8Bytes"); if (d) return d;
          for (const k of Object.keys(want)) { if (rec.kind === "read" && INTERPRETED.test(k)) continue; const t = textDiff(v[k], want[k], k); if (t) return t; }
          const back = lib.parseJSON(JSON.stringify(v));
          const e = bytesDiff(back.invalidUtf8Bytes, want, "after JSON: invalidUtf8Bytes"); if (e) return e;
          ctx.probe("json-round-trip");
        }
        return O.readMismatch(rec.kind, v, c, { msgs: false });
      });
      if (!whys.includes(null)) ctx.violate("malformed-text", `${name} readArgs ${O.S(args)}: ${whys[0]}`);
    }
    await P.finish(ctx, S);
  },
};
