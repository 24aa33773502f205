"use strict";
// Independent statements of what API results have to be, given what the
// (simulated) ExifTool was asked and answered.
const path = require("node:path").posix;
const { isDeepStrictEqual: eq } = require("node:util");
const S = (x, n = 300) => { let s; try { s = typeof x === "string" ? x : JSON.stringify(x, (k, v) => (typeof v === "bigint" ? String(v) : v)); } catch { s = String(x); } return s == null ? String(s) : s.length > n ? s.slice(0, n) + "…" : s; };
const abs = (f) => path.resolve("/sim/cwd", f);

const MUT = new Set(["write", "edit", "deleteAll"]);
const RETRIABLE = new Set(["read", "readRaw", "extract", "buffer", "rewrite"]);
/** commands that belong to an operation (by what they target and carry) */
function commandsOf(w, rec) {
  const file = rec.file != null ? abs(rec.file) : null;
  return w.commands.filter((c) => !c.first && isFor(c, rec, file));
}
function isFor(c, rec, file) {
  const a = c.args;
  const last = a[a.length - 1] === "-ignoreMinorErrors" ? a[a.length - 2] : a[a.length - 1];
  if (rec.kind === "version") return false; // indistinguishable from health checks
  if (last !== file) return false;
  const assigns = a.some((x) => /^-[^=<]+[-+]?=/.test(x) || /^-[^=<]+</.test(x));
  const W = a.some((x) => x === "-W" || x === "-W!"), T = a.includes("-tagsfromfile");
  switch (rec.kind) {
    case "write": case "edit": return assigns && !T && a.some((x) => /^-[^=<]+[-+]?=/.test(x) && x.includes(rec.tok));
    case "deleteAll": return !T && a.includes("-all=") && eq(a.filter((x) => /^-\w+<\w+$/.test(x) && x !== "-FileName<FileName"), (rec.opts?.retain ?? []).map((t) => `-${t}<${t}`));
    case "extract": return W && a.includes(rec.dest);
    case "rewrite": return T && a.includes(rec.dest);
    case "buffer": return !assigns && !W && a.includes("-b") && a.includes("-" + rec.tag);
    case "read": return !assigns && !W && !a.includes("-b") && a.includes("-json") && a.includes("-all");
    case "readRaw": return !assigns && !W && !a.includes("-b") && a.includes("-json") && !a.includes("-all");
    default: return false;
  }
}
/** decode the private wire form for malformed UTF-8 */
function wire(v) {
  const ks = Object.keys(v), x = ks.length === 1 && ks[0] === "__etvInvalidUtf8V1" ? v[ks[0]] : null;
  return x && typeof x === "object" && !Array.isArray(x) && Object.keys(x).sort().join() === "rawBase64,replacement" && typeof x.rawBase64 === "string" && x.rawBase64.startsWith("b64:") && typeof x.replacement === "string" && x.replacement.startsWith("s:") ? x : null;
}
/** @return [value, bytes | undefined]; entries, not assignment: a field may be called __proto__ */
function unwrap(v) {
  if (!v || typeof v !== "object") return [v];
  const x = !Array.isArray(v) && wire(v);
  if (x) return [x.replacement.slice(2), x.rawBase64.slice(4)];
  const es = Object.entries(v).map(([k, y]) => [k, unwrap(y)]);
  const b = es.filter(([, u]) => u[1] !== undefined).map(([k, u]) => [k, u[1]]);
  return [Array.isArray(v) ? es.map(([, u]) => u[0]) : Object.fromEntries(es.map(([k, u]) => [k, u[0]])), b.length ? Object.fromEntries(b) : undefined];
}
function parseOut(rec) {
  const out = typeof rec === "object" ? rec.out : rec;
  if (rec && rec.plain && rec.plainFor === out) return { json: JSON.parse(rec.plain)[0], bytes: { ...rec.malformed } };
  let j; try { j = JSON.parse(out)[0]; } catch { return null; } if (!j || typeof j !== "object") return null; const [json, bytes] = unwrap(j); return { json, bytes: bytes ?? {} };
}
function lines(s) { return String(s || "").split(/\r?\n/).map((x) => x.trim()).filter(Boolean); }
const isWarn = (l) => !/^Error: (?!nothing to (write|do)\b)/i.test(l) && (/\bwarning: /i.test(l) || /\bnothing to (write|do)\b/i.test(l));
const isErr = (l) => !isWarn(l) && /error|warning|Can't locate \S+ in @INC/i.test(l);
const uniq = (a) => [...new Set(a)];
function expectedReadMsgs(rec) {
  const p = parseOut(rec);
  const j = p ? p.json : {};
  const get = (k) => j[k] ?? j["ExifTool:" + k] ?? (typeof j.ExifTool === "object" ? j.ExifTool?.[k] : undefined);
  const d = { Error: get("Error"), Warning: get("Warning") };
  return { errors: uniq([d.Error, ...lines(rec.err).filter(isErr)].filter((x) => x != null && String(x).trim() !== "")), warnings: uniq([d.Warning, ...lines(rec.err).filter(isWarn)].filter((x) => x != null && String(x).trim() !== "")) };
}
const DERIVED = new Set(["errors", "warnings", "tz", "tzSource", "zone", "invalidUtf8Bytes"]);
const INTERPRETED = /when|date|time|subsec|creat|modif|^gps|^geolocation|:gps|valid$/i;
function toPlain(v) { return Buffer.isBuffer(v) || v instanceof Uint8Array ? Buffer.from(v).toString("base64") : Array.isArray(v) ? v.map(toPlain) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, toPlain(x)])) : v; }
/** does API value v match this command's output? @return null or reason */
function readMismatch(kind, v, rec, o = {}) {
  const p = parseOut(rec);
  if (!p) return "resolved although ExifTool's output is not JSON";
  const msgs = expectedReadMsgs(rec);
  if (kind === "readRaw") {
    const want = { ...p.json };
    const got = { ...v };
    for (const k of DERIVED) delete got[k];
    for (const k of DERIVED) delete want[k];
    if (!eq(got, want)) return "got " + diff(got, want);
  } else {
    for (const [k, want] of Object.entries(p.json)) {
      if (DERIVED.has(k) || INTERPRETED.test(k)) continue;
      const got = v[k];
      if (k.endsWith("ExifToolVersion")) { if (k === "ExifToolVersion" && got !== JSON.parse(JSON.stringify(String(want)))) return `ExifToolVersion ${S(got)} ≠ ${S(want)}`; continue; }
      if (typeof want === "string" && /^\(Binary data \d+ bytes/.test(want)) { if (!(got && got.bytes === Number(/\d+/.exec(want)[0]))) return `${k}: ${S(got)} ≠ ${want}`; continue; }
      if (typeof want === "string" && ["undef", "null", "undefined"].includes(want.trim())) continue;
      if (!eq(got, want)) return `${k}: got ${S(got)}, ExifTool said ${S(want)}`;
    }
    for (const k of Object.keys(v)) if (!DERIVED.has(k) && !(k in p.json) && !INTERPRETED.test(k)) return `${k}=${S(v[k])} is not in ExifTool's output`;
    for (const [k, want] of Object.entries(p.json)) if (INTERPRETED.test(k) && typeof want === "string" && v[k] != null && typeof v[k] === "object" && typeof v[k].rawValue === "string" && v[k].rawValue !== want) return `${k}: rawValue ${S(v[k].rawValue)} ≠ ${S(want)}`;
  }
  const gotBytes = v.invalidUtf8Bytes === undefined ? {} : toPlain(v.invalidUtf8Bytes);
  if (kind === "read") for (const k of Object.keys(p.bytes)) if (INTERPRETED.test(k) && !Object.hasOwn(v, k)) delete p.bytes[k];
  if (!eq(gotBytes, toPlain(p.bytes))) return `invalidUtf8Bytes: got ${S(gotBytes)}, expected ${S(p.bytes)}`;
  if (o.msgs !== false) {
    if (!eq([...(v.errors ?? [])].sort(), [...msgs.errors].sort())) return `errors: got ${S(v.errors)}, ExifTool said ${S(msgs.errors)}`;
    if (!eq([...(v.warnings ?? [])].sort(), [...msgs.warnings].sort())) return `warnings: got ${S(v.warnings)}, ExifTool said ${S(msgs.warnings)}`;
  }
  return null;
}
function diff(a, b) {
  for (const k of new Set([...Object.keys(a ?? {}), ...Object.keys(b ?? {})])) if (!eq(a?.[k], b?.[k])) return `${k}: ${S(a?.[k])} instead of ${S(b?.[k])}`;
  return "equal";
}
/** status counts ExifTool printed */
function statusOf(rec) {
  const r = { created: 0, updated: 0, unchanged: 0, failed: 0, output: 0 };
  for (const l of lines(rec.out)) {
    let m;
    if ((m = /^(\d+) image files created$/.exec(l))) r.created += +m[1];
    else if ((m = /^(\d+) image files updated$/.exec(l))) r.updated += +m[1];
    else if ((m = /^(\d+) image files unchanged$/.exec(l))) r.unchanged += +m[1];
    else if ((m = /^(\d+) files weren't updated due to errors$/.exec(l))) r.failed += +m[1];
    else if ((m = /^(\d+) output files created$/.exec(l))) r.output += +m[1];
  }
  return r;
}
/** did ExifTool report success for this (fully answered) command? */
function reportedSuccess(rec) { const s = statusOf(rec); return lines(rec.err).filter(isErr).length === 0 && s.failed === 0; }
const answered = (c) => c.responded === true;
const within = (c, rec, slack = 0.5) => c.at >= rec.invoked - slack && (rec.settled == null || c.readyAt == null || c.readyAt <= rec.settled + slack);
module.exports = { S, abs, MUT, RETRIABLE, commandsOf, isFor, parseOut, lines, isWarn, isErr, expectedReadMsgs, readMismatch, statusOf, reportedSuccess, answered, within, diff, eq, uniq, toPlain };
