"use strict";
// Acknowledged modifications are exactly what the caller asked for; failed
// ones are all-or-nothing. Oracle: a small reference model of the documented
// meaning of write/editTags/deleteAllTags, folded over each file's history.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { Sim, invoke } = require("../sim/scenario");
const { decodePhoto } = require("../sim/exif");

const KEY = { ...Object.fromEntries(Object.entries(G.GROUP).map(([k, g]) => [k, g + ":" + k])), Rating: "XMP-xmp:Rating", "Orientation#": "IFD0:Orientation", "ISO": "ExifIFD:ISO", CreateDate: "ExifIFD:CreateDate", DateTimeOriginal: "ExifIFD:DateTimeOriginal", ModifyDate: "IFD0:ModifyDate",
  "XMP-dc:Title": "XMP-dc:Title", "EXIF:Artist": "IFD0:Artist", "XMP-lr:HierarchicalSubject": "XMP-lr:HierarchicalSubject", "IPTC:Keywords": "IPTC:Keywords",
  "Keywords+": "IPTC:Keywords", "Subject+": "XMP-dc:Subject", RegionInfo: "XMP-mwg-rs:RegionInfo", Collections: "XMP-mwg-coll:Collections", "History+": "XMP-xmpMM:History", LocationCreated: "XMP-iptcExt:LocationCreated" };
const LISTS = new Set([...G.LIST_TAGS, "XMP-lr:HierarchicalSubject", "IPTC:Keywords", "Keywords+", "Subject+"]);
const p2 = (n) => String(n).padStart(2, "0");
/** plan value -> what has to be stored (undefined = absent) */
function stored(k, v) {
  if (v === null) return undefined;
  if (Array.isArray(v)) { if (v.length === 0) return undefined; return v.map((x) => stored(k, x)); }
  if (v && v.$date) { const d = v.$date; return `${d[0]}:${p2(d[1])}:${p2(d[2])} ${p2(d[3])}:${p2(d[4])}:${p2(d[5])}` + (v.ms != null ? "." + String(v.ms).padStart(3, "0") : "") + (v.off != null ? (v.off < 0 ? "-" : "+") + p2(Math.floor(Math.abs(v.off) / 60)) + ":" + p2(Math.abs(v.off) % 60) : ""); }
  if (v && v.$day) { return v.$day.map((x, i) => (i ? p2(x) : String(x))).join(":"); }
  if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([a, b]) => [a, stored(a, b)]));
  if (typeof v === "boolean") return v ? "True" : "False";
  return String(v);
}
function model(photo, op) {
  const t = { ...photo.tags };
  if (op.kind === "deleteAll") {
    for (const k of Object.keys(t)) if (!(op.opts?.retain ?? []).some((r) => k === r || k.endsWith(":" + r))) delete t[k];
  } else if (op.kind === "edit") {
    for (const e of op.edits) {
      const cur = [].concat(t[e.tag] ?? []);
      let next;
      if (e.operation === "add") next = [...cur, e.value];
      else if (e.predicate) next = cur.filter((c) => !Object.entries(e.predicate).every(([k, x]) => c[k] === x));
      else next = cur.filter((c) => c !== e.value);
      if (next.length === 0) delete t[e.tag]; else if (e.operation === "add" || next.length < cur.length) t[e.tag] = next;
    }
  } else {
    for (const [k, v] of Object.entries(op.tags)) {
      if (/^GPS/.test(k)) continue;
      const key = KEY[k];
      if (key == null) throw new Error("C08 model: " + k);
      let x = stored(k, v);
      if ((LISTS.has(k) || k === "Collections" || k === "History+") && x !== undefined) x = [].concat(x);
      if (k.endsWith("+")) { if (x !== undefined) t[key] = [...[].concat(t[key] ?? []), ...x]; }
      else if (x === undefined) delete t[key];
      else t[key] = x;
    }
    const g = op.tags;
    for (const [k, neg, pos] of [["GPSLatitude", "S", "N"], ["GPSLongitude", "W", "E"], ["GPSAltitude", "1", "0"]]) {
      if (!(k in g)) continue;
      if (g[k] === null) { delete t["GPS:" + k]; delete t["GPS:" + k + "Ref"]; }
      else { t["GPS:" + k] = String(Math.abs(g[k])); t["GPS:" + k + "Ref"] = g[k] < 0 ? neg : pos; }
    }
  }
  return { ...photo, tags: t };
}
const canon = (p) => (p == null ? null : { bin: p.bin ?? {}, tags: Object.fromEntries(Object.entries(p.tags).sort(([a], [b]) => (a < b ? -1 : 1))) });

/** plan value -> API value */
function mat(lib, v) {
  if (Array.isArray(v)) return v.map((x) => mat(lib, x));
  if (v && v.$date) { const d = v.$date; return new lib.ExifDateTime(d[0], d[1], d[2], d[3], d[4], d[5], v.ms ?? undefined, v.off ?? undefined); }
  if (v && v.$day) return new lib.ExifDate(v.$day[0], v.$day[1], v.$day[2]);
  if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([a, b]) => [a, mat(lib, b)]));
  return v;
}
const structText = (r, tok) => P.plainText(r, tok, 0.5).replace(/[\u0000-\u001f]/g, " ") || "x";
/** list items; later ones are often variants of an earlier one that only an exact comparison tells apart */
const variant = (r, s) => r.pick([(x) => x, (x) => x.toUpperCase(), (x) => x.toLowerCase(), (x) => x + " ", (x) => x.normalize("NFD"), (x) => x + "x", (x) => [...x].slice(0, -1).join("") || x, (x) => x.replace(/ /g, "_"), (x) => x + x])(s);
function listVals(r, tok) {
  const out = [];
  const n = r.int(5);
  for (let j = 0; j < n; j++) {
    const prev = out.filter((x) => typeof x === "string");
    out.push(prev.length && r.bool(0.3) ? variant(r, r.pick(prev)) : r.bool(0.06) ? r.pick([0, 7, -3, 2.5, 1e-7, 0.1 + 0.2, 9007199254740991, -123456.789012345, 1e21, "0", "-", "null", "undefined"]) : P.plainText(r, tok + "." + j, 0.6));
  }
  return out;
}
function genTags(r, tok) {
  const t = {};
  const n = 1 + r.int(4);
  for (let i = 0; i < n; i++) {
    switch (r.int(12)) {
      case 0: case 1: case 2: t[r.pick(G.STR_TAGS)] = r.bool(0.03) ? P.plainText(r, tok, 0.6).repeat(1 + r.int(1500)) : r.bool(0.05) ? r.pick(["0", "false", "true", "null", "-", "=", "None", "1.50", "007", "+1", true, false, 0, -1]) : P.plainText(r, tok, 0.6); break;
      case 3: t[r.pick(G.LIST_TAGS)] = listVals(r, tok); break;
      case 4: t[r.pick(G.LIST_TAGS)] = P.plainText(r, tok, 0.6); break;
      case 5: t[r.pick([...G.STR_TAGS, ...G.LIST_TAGS, "Rating", "CreateDate", "RegionInfo", "Collections", "GPSLatitude", "GPSAltitude", "GPSLongitude"])] = null; break;
      case 6: t[r.pick(["Keywords+", "Subject+"])] = r.bool() ? P.plainText(r, tok, 0.6) : ((a) => [a, r.bool(0.3) ? variant(r, a) : P.plainText(r, tok + "b", 0.6)])(P.plainText(r, tok + "a", 0.6)); break;
      case 7: t[r.pick(["CreateDate", "DateTimeOriginal", "ModifyDate"])] = r.bool(0.8) ? { $date: [1990 + r.int(40), 1 + r.int(12), 1 + r.int(28), r.int(24), r.int(60), r.int(60)], ms: r.bool(0.4) ? r.int(1000) : null, off: r.bool(0.5) ? r.pick([0, 60, -300, 330, 345, -570, 840, -660]) : null } : { $day: [1990 + r.int(40), 1 + r.int(12), 1 + r.int(28)] }; break;
      case 8: {
        const c = (d) => (r.bool(0.08) ? r.pick([0, 0, 1, -1, d, -d, 1e-7, -1e-7]) : r.bool(0.2) ? (r.float() * 2 - 1) * d : Number(((r.float() * 2 - 1) * d).toFixed(r.int(7))));
        const k = r.pick(["both", "GPSLatitude", "GPSLongitude", "GPSAltitude", "both"]);
        const nz = (x) => (Object.is(x, -0) ? 0 : x);
        if (k === "both") { t.GPSLatitude = nz(c(90)); t.GPSLongitude = nz(c(180)); } else t[k] = nz(c(k === "GPSAltitude" ? 3000 : k === "GPSLatitude" ? 90 : 180));
        break;
      }
      case 9: t.Rating = r.int(6); if (r.bool()) t["Orientation#"] = r.pick([1, 3, 6, 8]); if (r.bool(0.3)) t.ISO = 100 * (1 + r.int(64)); break;
      case 10: t[r.pick(["XMP-dc:Title", "EXIF:Artist"])] = P.plainText(r, tok, 0.6); break;
      case 11: {
        const k = r.pick(["RegionInfo", "Collections", "History+", "LocationCreated"]);
        if (k === "RegionInfo") t[k] = { AppliedToDimensions: { W: 1 + r.int(4000), H: 1 + r.int(4000), Unit: "pixel" }, RegionList: Array.from({ length: 1 + r.int(3) }, (_, j) => ({ Name: structText(r, tok + "." + j), Type: "Face", Area: { X: r.int(100) / 100, Y: r.int(100) / 100, Unit: "normalized" } })) };
        else if (k === "Collections") t[k] = Array.from({ length: 1 + r.int(3) }, (_, j) => ({ CollectionName: structText(r, tok + "." + j), CollectionURI: "http://x/" + j + "?" + structText(r) }));
        else if (k === "History+") t[k] = r.bool() ? { Action: "edited", Parameters: structText(r, tok) } : [{ Action: "saved", InstanceID: structText(r, tok) }, { Action: "x" }];
        else { t[k] = { City: r.bool(0.1) ? "" : structText(r, tok), CountryName: r.bool(0.1) ? r.pick(["", "0", "-", "True"]) : structText(r) }; if (r.bool(0.4)) t[k].LocationId = Array.from({ length: 1 + r.int(3) }, (_, j) => structText(r, tok + "." + j)); }
        break;
      }
    }
  }
  // one write names a stored tag once
  const seen = new Set();
  for (const k of Object.keys(t)) { const s = /^GPS/.test(k) ? k : KEY[k]; if (seen.has(s)) delete t[k]; else seen.add(s); }
  return t;
}
function genEdits(r, tok, known) {
  const out = [];
  const n = 1 + r.int(4);
  for (let i = 0; i < n; i++) {
    const tag = r.pick([...(r.bool(0.7) ? P.LIST_KEYS : ADD_KEYS), "XMP-mwg-coll:Collections"]);
    const add = r.bool(0.6);
    if (r.bool(0.06)) { const v = known.length && r.bool(0.7) ? r.pick(known) : P.editText(r, tok + "." + i); out.push({ tag: r.pick(REMOVE_ONLY), operation: "remove", value: v }); continue; }
    if (tag === "XMP-mwg-coll:Collections") {
      const v = { CollectionName: known.length && r.bool(0.5) ? r.pick(known) : P.editText(r, tok + "." + i), CollectionURI: P.editText(r, "u" + tok) };
      known.push(v.CollectionName);
      out.push(add ? { tag, operation: "add", value: v } : { tag, operation: "remove", predicate: r.bool(0.6) ? { CollectionName: v.CollectionName } : v });
    } else {
      let v = known.length && r.bool(0.5) ? r.pick(known) : P.editText(r, tok + "." + i);
      if (r.bool(0.2)) v = variant(r, v);
      known.push(v);
      out.push({ tag, operation: add ? "add" : "remove", value: v });
    }
  }
  // add-then-remove of one value in one call is refused by the API
  return out.filter((e, i) => !out.slice(0, i).some((x) => x.operation === "add" && e.operation === "remove" && x.tag === e.tag && (e.predicate ? Object.entries(e.predicate).every(([k, v]) => x.value[k] === v) : x.value === e.value)));
}
const REMOVE_ONLY = ["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"];
const ADD_KEYS = [...P.LIST_KEYS, "IPTC:CatalogSets", "MIE-Doc:Keywords", "XMP-acdsee:Keywords", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const COLL = "XMP-mwg-coll:Collections";
/** edits of which one is refused according to the documentation, at any place among good ones */
function badEdits(r, tok) {
  const good = (i) => ({ tag: r.pick(P.LIST_KEYS), operation: "add", value: tok + "." + i });
  const tag = r.pick(ADD_KEYS);
  const text = () => { const c = r.pick(["\u0000", "\u0001", "\u0008", "\u000b", "\u000c", "\u000e", "\u001e", "\u001f", "\u001f", "\r", "\r\n", "\ud800", "\udbff", "\udc00", "\udfff", "\ufdd0", "\ufdef", "\ufffe", "\uffff", "\u{1fffe}", "\u{10ffff}", "\ude00\ud83d"]); return r.pick(["", "a", "\u{1f600}"]) + c + r.pick(["", "b", "\u{1f600}"]); };
  const v = tok + ".v";
  const bad = r.pick([
    () => [], () => [good(0), { tag, operation: r.pick(["add", "remove"]), value: text() }], () => [{ tag, operation: r.pick(["add", "remove"]), value: text() }, good(0)],
    () => [good(0), { tag, operation: r.pick(["add", "remove"]), value: "" }],
    () => [good(0), { tag: COLL, operation: "add", value: r.bool() ? { CollectionName: text(), CollectionURI: "u" } : { CollectionName: "n", CollectionURI: text() } }],
    () => [good(0), { tag: COLL, operation: "remove", predicate: r.bool() ? { CollectionName: text() } : { CollectionURI: text() } }],
    () => [{ tag, operation: "add", value: v }, ...Array.from({ length: r.int(3) }, (_, i) => good(i)), { tag, operation: "remove", value: v }],
    () => [{ tag: COLL, operation: "add", value: { CollectionName: v, CollectionURI: "u" } }, ...Array.from({ length: r.int(3) }, (_, i) => good(i)), { tag: COLL, operation: "remove", predicate: r.pick([{ CollectionName: v }, { CollectionURI: "u" }, { CollectionURI: "u", CollectionName: v }]) }],
    () => [good(0), { tag: r.pick(["XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName", "XMP-mwg-rs:RegionName", "XMP-xmpDM:Album"]), operation: "add", value: v }],
    () => [good(0), { tag: r.pick(["Keywords", "Subject", "XMP-dc:subject", "xmp-dc:Subject", "IPTC:", ":Keywords", "IPTC:Keywords ", "XMP-dc:Title", "XMP:Subject", "XMP-xmp:Rating", "XMP-dc:Subject+", "XMP-xmp:CreateDate"]), operation: r.pick(["add", "remove"]), value: v }],
    () => [good(0), { tag, operation: r.pick(["replace", "set", "", "Add", "toString"]), value: v }],
    () => [good(0), { tag: COLL, operation: "remove", predicate: {} }], () => [good(0), { tag: COLL, operation: "add", value: r.pick([{ CollectionName: v }, { CollectionURI: "u" }, {}, v, [v]]) }],
    () => [good(0), { tag: COLL, operation: "remove", value: v }], () => [good(0), { tag: COLL, operation: "add", value: { CollectionName: v, CollectionURI: "u", Other: "x" } }],
    () => [good(0), { tag, operation: "add", value: r.pick([[v], { a: 1 }, 5, null, true]) }], () => [good(0), { tag, operation: "add" }], () => [good(0), { tag, operation: "remove", predicate: { CollectionName: v } }],
    () => [good(0), { tag, operation: "add", value: v, predicate: { CollectionName: v } }], () => [good(0), null], () => [good(0), { operation: "add", value: v }],
  ])();
  return bad;
}
/** a bad call is only known to be bad as a whole: a minimised one is left out */
const badKey = (op) => JSON.stringify([op.tags, op.edits, op.opts]);
const BADTAGS = ["Bad Tag", "-Title", "Title\n-all=", "Title=x", "", "Ti\u0000tle", "a<b"];

module.exports = {
  id: "C08", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: each client owns files and performs a random sequence of write (strings with hostile text, numbers, lists, list appends, null, dates, GPS, structures), editTags (values and collections), deleteAllTags (with retain) and invalid calls, through a shared pool with child crashes, hangs, torn writes, error replies, full disks and recycling; after every settlement the stored photo is compared to a reference model.",
  nontrivialRule: "at least one acknowledged modification was compared", nontrivial: (r) => (r.probes["acknowledged"] || 0) > 0,
  gen(r) {
    const nInst = r.bool(0.15) ? 2 : 1;
    const insts = Array.from({ length: nInst }, () => ({ ...G.opts(r), taskTimeoutMillis: r.pick([1000, 5000, 30000]) }));
    const nc = r.weighted([[2, 1], [3, 2], [3, 4], [1, 8]]);
    const files = { "/photos/bystander.jpg": { photo: G.photo(r, "by") } };
    const clients = Array.from({ length: nc }, (_, c) => {
      const nf = 1 + r.int(2);
      for (let j = 0; j < nf; j++) if (j === 0 || r.bool(0.6)) files[`/photos/c${c}_${j}.jpg`] = { photo: { ...G.photo(r, `o${c}.${j}`), ...(r.bool(0.2) ? { writeWarning: "[minor] Fixed " + c } : {}) } };
      for (const f of Object.keys(files)) if (files[f] && files[f].photo && f.startsWith(`/photos/c${c}_`) && r.bool(0.3)) Object.assign(files[f].photo.tags, { "GPS:GPSLatitude": "12.5", "GPS:GPSLatitudeRef": "S", "GPS:GPSLongitude": "45.25", "GPS:GPSLongitudeRef": "W", "GPS:GPSAltitude": "7", "GPS:GPSAltitudeRef": "1" });
      for (const f of Object.keys(files)) if (files[f] && files[f].photo && f.startsWith(`/photos/c${c}_`) && r.bool(0.3)) { const k = r.pick(REMOVE_ONLY), v = () => P.editText(r, "ro" + c); files[f].photo.tags[k] = /Album/.test(k) ? v() : Array.from({ length: 1 + r.int(3) }, v); }
      if (r.bool(0.3)) files[`/photos/c${c}_x.xmp`] = null;
      const names = Object.keys(files).filter((f) => f.startsWith(`/photos/c${c}_`));
      const known = [];
      for (const f of names) for (const v of Object.values(files[f]?.photo?.tags ?? {})) known.push(...[].concat(v).filter((x) => typeof x === "string" && x.length < 200 && !/[\u0000-\u0008\u000b-\u001f]/.test(x) && x !== ""));
      const ops = Array.from({ length: 1 + r.int(7) }, (_, i) => {
        const kind = r.weighted([[6, "write"], [4, "edit"], [1, "deleteAll"], [2, "bad"], [1, "readRaw"]]);
        const tok = `t${c}x${i}`;
        const op = { kind, file: r.pick(names), inst: r.int(nInst), gap: r.bool(0.6) ? 0 : r.float() * 400 };
        if (kind === "write") { op.tags = r.bool(0.04) ? {} : r.bool(0.03) ? { [r.pick([...G.STR_TAGS, ...G.LIST_TAGS])]: r.pick([" ", "  "]) } : genTags(r, tok); if (r.bool(0.3)) op.opts = { writeArgs: ["-overwrite_original"] }; }
        if (kind === "edit") { op.edits = genEdits(r, tok, known); if (r.bool(0.2)) op.opts = { writeArgs: ["-overwrite_original"] }; }
        if (kind === "deleteAll") op.opts = { retain: r.sample([...G.STR_TAGS, ...G.LIST_TAGS, "Rating"], r.int(4)) };
        if (kind === "bad") { op.kind = r.pick(["write", "deleteAll", "edit"]); if (op.kind === "write") op.tags = { Title: tok, [r.pick(BADTAGS)]: "x" }; else if (op.kind === "deleteAll") op.opts = { retain: ["Title", r.pick(BADTAGS)] }; else if (r.bool(0.1)) { op.edits = [{ tag: "IPTC:Keywords", operation: "add", value: tok }]; op.opts = { writeArgs: r.pick([["-sep", ", "], ["-separator", ";"], ["-Sep", ","], ["-api", "NoDups=1"], ["-API", "Compact=1"], ["-overwrite_original", "-sep", ","]]) }; } else op.edits = badEdits(r, tok); op.bad = badKey(op); }
        if (O.MUT.has(kind) && insts[op.inst].maxProcs === 1 && files[op.file] && r.bool(0.25)) op.twins = 1 + r.int(2); // the same call, made more than once
        return op;
      });
      return { ops };
    });
    const total = clients.reduce((n, c) => n + c.ops.length, 0);
    if (r.bool(0.3)) { for (const x of insts) { x.taskTimeoutMillis = 30000; x.spawnTimeoutMillis = 30000; } return { net: G.net(r), timerLateness: r.pick([0, 0, 15]), insts, files, clients, faults: [] }; }
    return { net: G.net(r), timerLateness: r.pick([0, 0, 15]), insts, files, clients, faults: r.bool(0.1) ? [] : G.faults(r, { span: total + 2, cmds: 1 + r.int(4) }) };
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const w = sim.w, disk = sim.disk;
    const host = sim.host(1);
    const lib = host.main();
    const insts = plan.insts.map((x) => new lib.ExifTool({ ...x }));
    const photoAt = (f) => { const n = disk.get(f); if (!n) return null; const p = decodePhoto(n.data); return p == null ? { unreadable: n.data.toString().slice(0, 60) } : p; };
    const orig = Object.fromEntries([...disk.files].map(([k, v]) => [k, v.data]));
    const state = {};       // file -> photo as the model knows it
    const unsure = new Map(); // file -> states it may be in: a rejected call may or may not have happened
    const backup = new Set();
    for (const f of Object.keys(plan.files)) state[f] = photoAt(f);
    const is = (f, want) => { const got = photoAt(f); return got && got.unreadable ? false : O.eq(canon(got), canon(want)); };
    const show = (f, want) => { const got = photoAt(f); if (got == null || want == null) return `file is ${got == null ? "absent" : "present"}, expected ${want == null ? "absent" : "present"}`; if (got.unreadable) return "file is corrupt: " + got.unreadable; const a = canon(got), b = canon(want); return O.eq(a.tags, b.tags) ? "embedded binary data changed" : O.diff(a.tags, b.tags); };
    w.setFaults(plan.faults);
    let live = plan.clients.length;
    const calm = plan.faults.length === 0 && plan.insts.every((x) => x.taskTimeoutMillis >= 30000 && x.spawnTimeoutMillis >= 30000);
    for (const [ci, c] of plan.clients.entries()) (async () => {
      for (const op of c.ops) {
        if (op.gap > 0) await sim.sleep(op.gap);
        const f = op.file;
        if (unsure.has(f) && O.MUT.has(op.kind)) continue;
        if (op.bad && op.bad !== badKey(op)) continue;
        const before = state[f];
        const call = { ...op, tags: mat(lib, op.tags), edits: op.edits && JSON.parse(JSON.stringify(op.edits)), opts: op.opts && JSON.parse(JSON.stringify(op.opts)) };
        const rec = sim.call({ ...op, client: ci }, () => invoke(insts[op.inst], call), host);
        // identical calls made at once are still that many calls (one process executes them one after the other)
        const twins = before != null && !op.bad && plan.insts[op.inst].maxProcs === 1 ? Array.from({ length: op.twins ?? 0 }, () => sim.call({ ...op, client: ci }, () => invoke(insts[op.inst], { ...call, tags: mat(lib, op.tags), edits: op.edits && JSON.parse(JSON.stringify(op.edits)) }), host)) : [];
        await rec.done;
        for (const t of twins) await t.done;
        if (!O.MUT.has(op.kind)) continue;
        const name = `${op.kind}(${f}, ${O.S(op.tags ?? op.edits ?? op.opts ?? {}, 400)})`;
        if (op.bad) {
          if (rec.ok) ctx.violate("bad-call-accepted", `${name} resolved`);
          if (!is(f, before)) ctx.violate("bad-call-changed-file", `${name} was refused, but ${show(f, before)}`);
          continue;
        }
        const creating = before == null;
        const steps = [before];
        for (let i = 0; i <= twins.length; i++) steps.push(model(steps[i] ?? { tags: {}, bin: {} }, op));
        const after = steps[steps.length - 1];
        if (twins.length) ctx.probe("identical-calls");
        if ([rec, ...twins].every(({ ok, value: v }) => ok && v && v.created + v.updated + v.unchanged > 0)) {
          ctx.probe("acknowledged");
          const want = creating && Object.keys(after.tags).length === 0 && !photoAt(f) ? null : after;
          if (!is(f, want)) ctx.violate("stored-differs", `${name} was acknowledged, but ${show(f, want)}`);
          state[f] = photoAt(f);
          if (!creating && !op.opts?.writeArgs && !O.eq(canon(before), canon(after))) backup.add(f);
          if (backup.has(f) && !disk.get(f + "_original")) ctx.violate("no-backup", `${name}: no ${f}_original although -overwrite_original was not asked for`);
          if (op.opts?.writeArgs && !backup.has(f) && disk.get(f + "_original")) ctx.violate("unasked-backup", `${name}: -overwrite_original was ignored`);
          const s = disk.get(f + "_original");
          if (s && orig[f] && !decodePhoto(s.data)) ctx.violate("bad-backup", `${name}: ${f}_original is not a complete photo`);
        } else {
          ctx.probe("rejected");
          if ([rec, ...twins].some((x) => x.ok === false) && calm && (!creating || op.kind === "write")) ctx.violate("valid-call-refused", `${name} was rejected although nothing failed: ${rec.message}`);
          if (!steps.some((x) => is(f, x))) ctx.violate("partial-write", `${name} rejected ("${rec.message}"), and relative to before: ${show(f, before)}; relative to the requested state: ${show(f, after)}`);
          unsure.set(f, steps);
        }
      }
      live--;
    })();
    const lim = P.bound(plan);
    const outcome = await w.run({ until: () => live === 0, maxTime: lim, maxEvents: 400000 });
    if (outcome !== "until") ctx.violate("stuck", `calls are pending after ${Math.round(w.now)} ms: ${sim.ops.filter((x) => x.settled == null).map((x) => x.kind).join(", ")}`);
    await w.run({ until: () => false, maxTime: w.now + 20000, maxEvents: 100000 });
    for (const f of Object.keys(plan.files)) {
      const u = unsure.get(f);
      if (u) { if (!u.some((x) => is(f, x))) ctx.violate("partial-write", `${f}: ${show(f, u[0])}`); }
      else if (outcome === "until" && !is(f, state[f])) ctx.violate("changed-later", `${f} changed although no call asked for it: ${show(f, state[f])}`);
    }
    const own = new Set(Object.keys(plan.files).flatMap((f) => [f, f + "_original", f + "_exiftool_tmp"]));
    for (const f of disk.files.keys()) if (!own.has(f) && !orig[f]) ctx.violate("stray-file", `${f} was created`);
    for (const [f, d] of Object.entries(orig)) if (!(f in plan.files) && !(disk.get(f) && disk.get(f).data.equals(d))) ctx.violate("foreign-file", `${f} was changed`);
    await P.finish(ctx, { w, sim, insts });
  },
};
