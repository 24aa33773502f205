"use strict";
// ExifTool's -api Filter. The expressions the library passes are Perl code, so
// they are evaluated by the real thing: the vendored ExifTool's own Filter(),
// in one perl process per worker that is asked synchronously (a pure function
// of expression and bytes, hence no source of nondeterminism).
const fs = require("node:fs"), os = require("node:os"), path = require("node:path"), cp = require("node:child_process");
const { REPO } = require("./build");

/** ExifTool's idea of UTF-8: length of the valid sequence at i, or 0 */
function seq(b, i) {
  const c = b[i];
  if (c < 0x80) return 1;
  if (c < 0xc2 || c >= 0xf8) return 0;
  const n = c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
  for (let k = 1; k <= n; k++) if (!(b[i + k] >= 0x80 && b[i + k] <= 0xbf)) return 0;
  const d = b[i + 1];
  if (n === 2 && ((c === 0xe0 && (d & 0xe0) === 0x80) || (c === 0xed && (d & 0xe0) === 0xa0) || (c === 0xef && d === 0xbf && (b[i + 2] & 0xfe) === 0xbe))) return 0;
  if (n === 3 && ((c === 0xf0 && (d & 0xf0) === 0x80) || (c === 0xf4 && d > 0x8f) || c > 0xf4)) return 0;
  return n + 1;
}
const isUtf8 = (b) => { for (let i = 0; i < b.length; ) { const n = seq(b, i); if (!n) return false; i += n; } return true; };
/** every byte that does not belong to a valid sequence becomes `bad` */
function fixUtf8(b, bad) {
  const out = [], r = Buffer.from(bad);
  for (let i = 0; i < b.length; ) { const n = seq(b, i); if (n) { out.push(b.subarray(i, i + n)); i += n; } else { out.push(r); i++; } }
  return Buffer.concat(out).toString("utf8");
}
const noNul = (b) => Buffer.from(b.filter((x) => x !== 0));
/** the text ExifTool would print for these bytes, with `bad` for what is not UTF-8 */
const repaired = (b, bad = "\ufffd") => fixUtf8(noNul(b), bad);

let perl; // undefined: not tried; null: not available
function start() {
  const lib = path.join(REPO, "node_modules/exiftool-vendored.pl/bin/lib");
  let dir;
  try {
    if (!fs.existsSync(path.join(lib, "Image/ExifTool.pm"))) return null;
    dir = fs.mkdtempSync(path.join(os.tmpdir(), "simfilter-"));
    const a = path.join(dir, "a"), b = path.join(dir, "b");
    if (cp.spawnSync("mkfifo", [a, b]).status !== 0) return null;
    // O_RDWR never blocks: a perl that fails to start cannot hang us
    const wfd = fs.openSync(a, fs.constants.O_RDWR), rfd = fs.openSync(b, fs.constants.O_RDWR | fs.constants.O_NONBLOCK);
    const p = cp.spawn("perl", [path.join(__dirname, "filter.pl"), lib, a, b], { stdio: "ignore", env: { PATH: process.env.PATH, LANG: "C" } });
    p.on("error", () => {}); p.unref();
    process.on("exit", () => { try { p.kill("SIGKILL"); } catch {} });
    const s = { p, wfd, rfd, dir };
    if (ask(s, "1", [["v", Buffer.from("x")]], 20000)?.[0] !== "eA==") { p.kill("SIGKILL"); return null; }
    return s;
  } catch { return null; } finally { if (dir) fs.rmSync(dir, { recursive: true, force: true }); }
}
const nap = new Int32Array(new SharedArrayBuffer(4));
function ask(s, filter, items, ms) {
  const req = Buffer.from(Buffer.from(filter).toString("base64") + items.map(([k, b]) => " " + k + b.toString("base64")).join("") + "\n");
  const parts = [], buf = Buffer.alloc(65536), until = process.hrtime.bigint() + BigInt(ms) * 1000000n;
  let sent = 0;
  for (let spins = 0; ; ) {
    // at most a pipe-full ahead, so that neither side waits for the other
    if (sent < req.length) { sent += fs.writeSync(s.wfd, req, sent, Math.min(4096, req.length - sent)); continue; }
    let n = 0;
    try { n = fs.readSync(s.rfd, buf, 0, buf.length, null); } catch (e) { if (e.code !== "EAGAIN") throw e; }
    if (n > 0) { parts.push(Buffer.from(buf.subarray(0, n))); spins = 0; if (buf[n - 1] === 10) break; continue; }
    if (process.hrtime.bigint() > until) return null;
    if (++spins > 200) Atomics.wait(nap, 0, 0, 0.2);
  }
  return JSON.parse(Buffer.concat(parts).toString());
}
/** only code of the library's kind is run: no text that may be a caller's */
const runnable = (f) => /Image::ExifTool::/.test(f) && !/# own$/.test(f) && !/`|\b(system|exec|qx|open|unlink|rename|fork|kill|require|use|eval|rmdir|mkdir|syswrite|print)\b/.test(f);
const memo = new Map();
/** @param items [kind, Buffer] ... @return per item undefined | Buffer | { key: ... }, or null if this filter cannot be evaluated */
function evaluate(filter, items) {
  if (!runnable(filter)) return null;
  if (perl === undefined) perl = start();
  if (!perl) return null;
  let m = memo.get(filter);
  if (!m) memo.set(filter, (m = new Map()));
  if (m.size > 20000) m.clear();
  const keys = items.map(([k, b]) => k + b.toString("latin1"));
  const need = [...new Set(keys)].filter((k) => !m.has(k));
  for (let i = 0; i < need.length; i += 50) {
    const part = need.slice(i, i + 50), res = ask(perl, filter, part.map((k) => [k[0], Buffer.from(k.slice(1), "latin1")]), 60000);
    if (!res) throw new Error("the Filter expression did not return: " + filter.slice(0, 200));
    part.forEach((k, j) => m.set(k, decode(res[j])));
  }
  return keys.map((k) => m.get(k));
}
function decode(v) {
  if (v === null) return undefined;
  if (typeof v === "string") return Buffer.from(v, "base64");
  if (Array.isArray(v)) return v.map(decode);
  const o = Object.create(null);
  for (const [k, x] of Object.entries(v)) { const y = decode(x); if (y !== undefined) o[Buffer.from(k, "base64").toString("utf8")] = y; }
  return o;
}
module.exports = { evaluate, isUtf8, fixUtf8, repaired, runnable, available: () => (perl === undefined ? (perl = start()) : perl) != null };
