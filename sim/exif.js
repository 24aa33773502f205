"use strict";
// Simulated ExifTool 13.59 in `-stay_open True -@ -` mode. It reproduces the
// argument file syntax, stdout/stderr wording, {ready} framing, atomic
// temp+rename writes and exit behaviour that were recorded from the real tool
// (see DESIGN.md, "Calibration"). Its metadata store is the simulated disk.
const path = require("node:path").posix, Filter = require("./filter");
const VERSION = "13.59";

// name -> default group, shape
const TAGS = {
  Title: ["XMP-dc", "str"], Description: ["XMP-dc", "str"], Artist: ["IFD0", "str"], Copyright: ["IFD0", "str"],
  Headline: ["XMP-photoshop", "str"], Comment: ["File", "str"], UserComment: ["ExifIFD", "str"], Make: ["IFD0", "str"],
  Model: ["IFD0", "str"], Label: ["XMP-xmp", "str"], City: ["XMP-photoshop", "str"], Country: ["XMP-photoshop", "str"],
  Subject: ["XMP-dc", "list"], Keywords: ["IPTC", "list"], HierarchicalSubject: ["XMP-lr", "list"], TagsList: ["XMP-digiKam", "list"],
  Creator: ["XMP-dc", "list"], PersonInImage: ["XMP-iptcExt", "list"], CatalogSets: ["XMP-mediapro", "list"], People: ["XMP-mediapro", "list"],
  LastKeywordXMP: ["XMP-microsoft", "list"], RegionName: ["XMP-mwg-rs", "list"], RegionPersonDisplayName: ["XMP-MP", "list"], ACDSeeRegionName: ["XMP-acdsee-rs", "list"], Album: ["XMP-xmpDM", "str"],
  Rating: ["XMP-xmp", "num"], Orientation: ["IFD0", "int"], ISO: ["ExifIFD", "int"],
  CreateDate: ["ExifIFD", "date"], DateTimeOriginal: ["ExifIFD", "date"], ModifyDate: ["IFD0", "date"],
  OffsetTime: ["ExifIFD", "str"], OffsetTimeOriginal: ["ExifIFD", "str"], OffsetTimeDigitized: ["ExifIFD", "str"], TimeZone: ["XMP", "str"],
  GPSLatitude: ["GPS", "gps"], GPSLatitudeRef: ["GPS", "ref"], GPSLongitude: ["GPS", "gps"], GPSLongitudeRef: ["GPS", "ref"],
  GPSAltitude: ["GPS", "gps"], GPSAltitudeRef: ["GPS", "ref"], GPSPosition: ["Composite", "pos"],
  GPSDateStamp: ["GPS", "str"], GPSTimeStamp: ["GPS", "str"],
  Collections: ["XMP-mwg-coll", "structlist"], RegionInfo: ["XMP-mwg-rs", "struct"], LocationCreated: ["XMP-iptcExt", "struct"],
  TimeStamp: ["MakerNotes", "date"], Duration: ["QuickTime", "num"], DaylightSavings: ["Nikon", "str"], GeolocationTimeZone: ["ExifTool", "str"],
  MediaCreateDate: ["QuickTime", "date"], History: ["XMP-xmpMM", "structlist"],
};
const KNOWN_GROUPS = new Set([...Object.values(TAGS).map((x) => x[0]), "XMP", "EXIF", "IPTC", "MIE-Doc", "XMP-acdsee", "XMP-expressionmedia"]);
const TWO_ARG = new Set(["-charset", "-api", "-use", "-sep", "-tagsfromfile", "-out", "-o", "-w", "-w!", "-W", "-W!", "-d", "-lang", "-if", "-config", "-csvdelim", "-x", "-listitem", "-userparam"]);
const FLAGS = new Set(["-json", "-j", "-E", "-ex", "-b", "-binary", "-fast", "-fast2", "-G", "-n", "-m", "-ignoreMinorErrors", "-F", "-overwrite_original", "-overwrite_original_in_place", "-P", "-preserve", "-q", "-struct", "-a", "-u", "-ver", "-listx", "-stay_open"]);

const MAGIC = "SIMX1\n";
function encodePhoto(p) { return Buffer.from(MAGIC + JSON.stringify(p)); }
function decodePhoto(buf) {
  const s = buf.toString("utf8");
  if (!s.startsWith(MAGIC)) return null;
  try { return JSON.parse(s.slice(MAGIC.length)); } catch { return null; }
}

function unescapeHtml(s) {
  return s.replace(/&(#?\w+);/g, (all, e) => {
    if (e[0] === "#") { const n = /^#x([0-9a-f]+)$/i.test(e) ? parseInt(e.slice(2), 16) : /^#\d+$/.test(e) ? Number(e.slice(1)) : NaN; return Number.isFinite(n) && n <= 0x10ffff ? String.fromCodePoint(n) : all; }
    const t = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", eacute: "\u00e9", hellip: "\u2026", copy: "\u00a9" }[e];
    return t ?? all;
  });
}

/** what ExifTool stores of characters that XML (or UTF-8) cannot hold */
function storable(key, s) {
  s = s.replace(/[\ud800-\udbff][\udc00-\udfff]|[\ud800-\udfff\ufffe\uffff]/g, (m) => (m.length === 2 ? m : "???"));
  return key.startsWith("XMP") ? s.replace(/[\u0000-\u0008\u000b\u000c\u000e-\u001e]/g, ".") : s;
}
function storableDeep(key, v) {
  return typeof v === "string" ? storable(key, v).replace(/\u001f/g, ".") : Array.isArray(v) ? v.map((x) => storableDeep(key, x)) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([a, b]) => [a, storableDeep(key, b)])) : v;
}

/** ExifTool's serialized structure syntax (with | escapes); -E decodes once more per field */
function parseStruct(s, esc) {
  let i = 0;
  const fail = () => { throw new Error("bad struct"); };
  const ws = () => { while (i < s.length && /\s/.test(s[i])) i++; };
  const scalar = (stops) => {
    let r = "";
    while (i < s.length && !stops.includes(s[i])) { if (s[i] === "|" && i + 1 < s.length) { r += s[i + 1]; i += 2; } else r += s[i++]; }
    return esc ? unescapeHtml(r) : r;
  };
  const value = (stops) => {
    ws();
    if (s[i] === "{") {
      i++; const o = {};
      ws();
      if (s[i] === "}") { i++; return o; }
      for (;;) {
        ws();
        let k = ""; while (i < s.length && /[-\w:]/.test(s[i])) k += s[i++];
        ws(); if (s[i] !== "=" || k === "") fail(); i++;
        o[k] = value([",", "}"]);
        ws(); if (s[i] === ",") { i++; continue; } if (s[i] === "}") { i++; return o; } fail();
      }
    }
    if (s[i] === "[") {
      i++; const a = [];
      ws(); if (s[i] === "]") { i++; return a; }
      for (;;) { a.push(value([",", "]"])); ws(); if (s[i] === ",") { i++; continue; } if (s[i] === "]") { i++; return a; } fail(); }
    }
    return scalar(stops);
  };
  const v = value([]);
  ws();
  if (i !== s.length) fail();
  return v;
}

function fmtDate(s) { return s; }
function jsonScalar(v) {
  if (typeof v === "number") return String(v);
  const s = String(v);
  if (/^-?(\d|[1-9]\d{1,14})(\.\d{1,16})?(e[-+]?\d{1,3})?$/i.test(s)) return s;
  if (/^(true|false)$/i.test(s)) return s.toLowerCase();
  // ExifTool removes NUL and escapes control characters
  return '"' + s.replace(/\0/g, "").replace(/["\\\u0000-\u001f\u007f]/g, (c) => ({ '"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f" }[c] ?? "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0"))) + '"';
}
function jsonValue(v, ind, opt) {
  if (Array.isArray(v)) return "[" + v.map((x) => jsonValue(x, ind, opt)).join(",") + "]";
  if (v && typeof v === "object") {
    if (v.__bytes != null) { // malformed UTF-8
      const raw = Buffer.from(v.__bytes, "base64");
      if (opt.filter) return jsonValue({ __etvInvalidUtf8V1: { rawBase64: "b64:" + v.__bytes, replacement: "s:" + Filter.repaired(raw) } }, ind, opt);
      return jsonScalar(Filter.repaired(raw, opt.repl ?? "?"));
    }
    return "{\n" + Object.entries(v).map(([k, x]) => ind + "  " + JSON.stringify(k) + ": " + jsonValue(x, ind + "  ", opt)).join(",\n") + "\n" + ind + "}";
  }
  return jsonScalar(v);
}

/** the fields after the Filter expression, evaluated by ExifTool itself; null if it is not of the evaluated kind */
function filtered(fields, filter) {
  if (!Filter.runnable(filter)) return null;
  const items = [], put = [];
  const leaf = (v, kind, set) => {
    if (typeof v === "string") { if (/^[ !#-[\]-~]*$/.test(v)) return; items.push([kind, Buffer.from(v)]); } // plain ASCII is left alone by any sane filter
    else items.push([kind, Buffer.from(v.__bytes, "base64")]);
    put.push(set);
  };
  const walk = (v, kind, set) => {
    if (typeof v === "string" || (v && v.__bytes != null)) { leaf(v, kind, set); return v; }
    if (Array.isArray(v)) { const a = v.slice(); a.forEach((x, i) => { a[i] = walk(x, kind === "h" ? "h" : "a", (y) => { a[i] = y; }); }); return a; }
    if (v && typeof v === "object" && v.num == null) { const o = Object.create(null); for (const [k, x] of Object.entries(v)) { o[k] = x; o[k] = walk(x, "h", (y) => { o[k] = y; }); } return o; }
    return v;
  };
  const out = fields.map(([k, v]) => { const f = [k, v]; if (k !== "SourceFile") f[1] = walk(v, "v", (y) => { f[1] = y; }); return f; });
  const res = Filter.evaluate(filter, items);
  if (!res) return null;
  const text = (x) => (Buffer.isBuffer(x) ? (Filter.isUtf8(x) ? x.toString() : { __bytes: x.toString("base64") }) : Array.isArray(x) ? x.map(text) : Object.fromEntries(Object.entries(x).map(([k, y]) => [k, text(y)])));
  res.forEach((x, i) => put[i](x === undefined ? undefined : text(x)));
  return out.filter(([, v]) => v !== undefined);
}
/** where malformed bytes are in what is printed: path -> base64 */
/** -g: tags nested in their groups */
function nest(fields) {
  const out = [], groups = new Map();
  for (const [k, v] of fields) {
    const i = k.indexOf(":");
    if (i < 0) { out.push([k, v]); continue; }
    const g = k.slice(0, i);
    if (!groups.has(g)) { const x = { group: [] }; groups.set(g, x); out.push([g, x]); }
    groups.get(g).group.push([k.slice(i + 1), v]);
  }
  return out;
}
function malformedIn(fields) {
  const walk = (v) => {
    if (!v || typeof v !== "object") return undefined;
    if (v.__bytes != null) return v.__bytes;
    if (v.group) return malformedIn(v.group) ?? undefined;
    const r = Object.create(null); let any = false;
    for (const [k, x] of Object.entries(v)) { const y = walk(x); if (y !== undefined) { r[k] = y; any = true; } }
    return any ? r : undefined;
  };
  return walk(Object.fromEntries(fields)) ?? null;
}
function resolveTag(name) { // -> {key, shape} | null  (case-insensitive, like ExifTool)
  const parts = name.replace(/#$/, "").split(":");
  const bare = parts[parts.length - 1];
  const canon = Object.keys(TAGS).find((k) => k.toLowerCase() === bare.toLowerCase());
  if (!canon) return null;
  let group = TAGS[canon][0];
  if (parts.length > 1) {
    const g = parts[0];
    const hit = [...KNOWN_GROUPS].find((k) => k.toLowerCase() === g.toLowerCase());
    if (!hit) return null;
    group = hit === "EXIF" ? TAGS[canon][0] : hit === "XMP" ? (TAGS[canon][0].startsWith("XMP") ? TAGS[canon][0] : "XMP-x") : hit;
  }
  const key = group + ":" + canon;
  let shape = TAGS[canon][1];
  return { key, name: canon, shape };
}

class SimExif {
  constructor(child) {
    this.c = child; this.w = child.world; this.disk = child.host.disk;
    this.buf = Buffer.alloc(0); this.args = []; this.queue = []; this.busy = false;
    this.closing = false; this.booted = false; this.hung = false;
    this.ignoresTerm = false; this.slowToDie = false;
    this.nCmds = 0; this.paused = false; this.expectStay = false;
    this.dirty = null; // temp file being written
  }
  boot(fault) {
    const r = this.c.rng.fork("boot");
    let ms = 20 + r.float() * 120;
    const cfg = this.c.host.net;
    if (cfg.bootMs) ms = cfg.bootMs[0] + r.float() * (cfg.bootMs[1] - cfg.bootMs[0]);
    const k = fault && fault.kind;
    const argv = this.c.spawnargs.slice(1);
    if (/(^|\/)perl$/.test(this.c.spawnfile)) { // perl script args
      const n = this.disk.get(argv[0] ?? "");
      if (!n || !(n.mode & 0o444)) { this.hung = true; this.w.after(ms, () => { if (this.c.dead) return; this.c.out("stderr", Buffer.from(`Can't open perl script "${argv[0]}": No such file or directory\n`), this.w.now); this.w.after(2, () => this.c.die(2, null), "no-script"); }, "no-script"); return; }
    }
    if (!argv.some((a, i) => /^-stay_open$/i.test(a) && /^(1|true)$/i.test(argv[i + 1] ?? ""))) { this.hung = true; this.w.after(ms, () => this.c.die(0, null), "not-stay-open"); return; }
    if (k === "slow") { this.w.fired("boot-slow"); ms = fault.ms; }
    if (k === "hang") { this.w.fired("boot-hang"); this.hung = true; }
    if (k === "die") { this.w.fired("boot-die"); this.w.after(ms, () => this.c.die(fault.code ?? 2, null), "boot-die"); this.hung = true; return; }
    if (k === "badperl") {
      this.w.fired("boot-badperl");
      this.w.after(ms, () => { if (this.c.dead) return; this.c.out("stderr", Buffer.from("Can't locate File/RandomAccess.pm in @INC (you may need to install the File::RandomAccess module) (@INC contains: /usr/share/perl5) at exiftool line 9.\n"), this.w.now); this.w.after(5, () => this.c.die(2, null), "badperl-die"); }, "badperl");
      this.hung = true; return;
    }
    if (k === "stderr") { this.w.fired("boot-stderr"); this.w.after(ms * 0.5, () => { if (!this.c.dead) this.c.out("stderr", Buffer.from(fault.text), this.w.now); }, "boot-stderr"); }
    if (k === "stubborn") { this.w.fired("stubborn-child"); this.ignoresTerm = true; this.slowToDie = fault.slowKill === true; }
    this.w.after(ms, () => { this.booted = true; this.pump(); }, "booted " + this.c.pid);
  }
  receive(bytes) {
    this.buf = Buffer.concat([this.buf, bytes]);
    let i;
    while ((i = this.buf.indexOf(10)) >= 0) {
      const raw = this.buf.subarray(0, i); this.buf = this.buf.subarray(i + 1);
      this.line(raw.toString("utf8"));
    }
    this.pump();
  }
  eof() { this.sawEof = true; this.toldAt ??= this.w.now; }
  line(l) {
    // FilterArgfileLine
    if (/^#/.test(l)) return;
    l = l.replace(/^\s+/, "").replace(/[\x0d\x0a]+$/, "");
    l = l.replace(/^(-[-_0-9A-Z:]+#?)\s*([-+<]?=) ?/i, "$1$2");
    if (l === "") return;
    if (this.expectStay) { this.expectStay = false; if (/^(false|0)$/i.test(l)) { this.queue.push({ exit: true }); this.toldAt ??= this.w.now; } return; }
    if (/^-stay_open$/i.test(l)) { this.expectStay = true; return; }
    const m = /^-execute(\d*)$/i.exec(l);
    if (m) {
      if (this.queue.some((q) => !q.exit) || (this.busy && !this.closing && !(this.cur && this.cur.readyAt != null && this.cur.readyAt <= this.w.now))) (this.w.overlaps ||= []).push({ pid: this.c.pid, at: this.w.now, args: this.args });
      this.queue.push({ args: this.args, n: m[1] }); this.args = []; return;
    }
    this.args.push(l);
  }
  pump() {
    if (this.busy || !this.booted || this.hung || this.c.dead || this.queue.length === 0) return;
    const q = this.queue.shift();
    if (q.exit) {
      this.closing = true;
      const f = this.c.host.net.stubbornExit;
      if (f) { this.w.fired("ignores-exit-command"); return; }
      this.w.after(1 + this.c.rng.fork("exit").float() * 8, () => this.c.die(0, null), "exit-cmd " + this.c.pid);
      this.busy = true;
      return;
    }
    this.busy = true;
    this.exec(q);
  }
  onDeath() { this.queue = []; if (this.cur && !this.cur.done) this.cur.interrupted = true; }

  exec(q) {
    const w = this.w, c = this.c;
    const first = this.nCmds++ === 0;
    const seq = ++w.cmdSeq;
    const ordinal = first ? 0 : ++w.workSeq;
    const rec = { seq, ordinal, first, pid: c.pid, child: c.ordinal, host: c.host.id, at: w.now, args: q.args, effects: [], done: false, effectAt: null, readyAt: null };
    w.commands.push(rec);
    this.cur = rec;
    w.note("exec", c.pid, ordinal, q.args.join("\u0001"));
    const f = first ? null : w.faultFor("cmd", ordinal);
    rec.fault = f && f.kind;
    const r = c.rng.fork("cmd", this.nCmds);
    const svc = c.host.net.serviceMs;
    let dur = svc[0] + r.float() * (svc[1] - svc[0]);
    if (f && f.kind === "slow") { w.fired("cmd-slow"); dur += f.ms; }
    if (f && f.kind === "crashBefore") { w.fired("crash-before-effect"); w.after(r.float() * dur, () => c.die(null, "SIGSEGV"), "crash"); return; }
    if (f && f.kind === "hang") { w.fired("hang-before-effect"); this.hung = true; return; }
    if (f && f.kind === "stubbornHang") { w.fired("hang-ignoring-sigterm"); this.hung = true; this.ignoresTerm = true; return; }
    if (f && f.kind === "crashMidWrite") {
      w.fired("crash-mid-write");
      w.after(dur * 0.5, () => { if (c.dead) return; const t = q.args.filter((x) => x !== "-ignoreMinorErrors").pop(); if (t && this.disk.get(t)) { const wi = q.args.findIndex((x) => x === "-W" || x === "-W!"); if (wi >= 0) this.tornExtract(q.args, wi, t, r, rec); else this.disk.put(t + "_exiftool_tmp", Buffer.from("torn")); } c.die(null, "SIGKILL"); }, "crash-mid-write");
      return;
    }
    w.after(dur * 0.7, () => {
      if (c.dead) return;
      let res;
      if (f && f.kind === "errorReply") { w.fired("transient-error-reply"); res = { out: f.out ?? "", err: f.text ?? "Error: Error reading input file (Input/output error)\n" }; rec.effects.push({ kind: "fault" }); }
      else if (f && f.kind === "garbage") { w.fired("garbage-reply"); res = { out: f.text ?? "[{\n  \"SourceFile\": \"/x", err: "" }; }
      else if (f && f.kind === "enospc" && isWrite(q.args)) { w.fired("disk-full-on-write"); const t = q.args[q.args.length - 1]; res = { out: "    0 image files updated\n    1 files weren't updated due to errors\n", err: "Error: Error writing output file - " + t + "\n" }; }
      else {
        try { res = this.run(q.args, rec); } catch (e) { w.simError = e; throw e; }
        rec.effectAt = w.now;
      }
      if (f && f.kind === "warn") { w.fired("extra-warning"); res.err = (res.err || "") + f.text; rec.extraWarning = f.text; }
      if (f && f.kind === "crashAfterEffect") { w.fired("crash-after-effect"); c.die(null, "SIGKILL"); return; }
      if (f && f.kind === "hangAfterEffect") { w.fired("hang-after-effect"); this.hung = true; return; }
      rec.out = res.out; rec.err = res.err;
      w.after(dur * 0.3, () => { if (!c.dead) this.respond(rec, res, f, r); }, "respond " + c.pid);
    }, "work " + c.pid);
  }

  respond(rec, res, f, r) {
    const w = this.w, c = this.c;
    // perl on Windows ends its lines with CR LF
    const crlf = c.host.net.crlf === true, eol = (x) => (crlf && typeof x === "string" ? x.replace(/\r?\n/g, "\r\n") : x || "");
    if (crlf) w.probe("crlf-lines");
    const out = Buffer.from(eol(res.out || ""), "utf8"), err = Buffer.from(eol(res.err || ""), "utf8");
    const ready = Buffer.from(crlf ? "{ready}\r\n" : "{ready}\n");
    let body = out, fin = true, dieAfter = null;
    if (f && f.kind === "crashMidOutput") { w.fired("crash-mid-output"); body = out.subarray(0, Math.floor(out.length * (f.keep ?? 0.5))); fin = false; dieAfter = "SIGSEGV"; }
    if (f && f.kind === "crashBeforeReady") { w.fired("crash-before-ready"); fin = false; dieAfter = "SIGSEGV"; }
    if (f && f.kind === "hangMidOutput") { w.fired("hang-mid-output"); body = out.subarray(0, Math.floor(out.length * (f.keep ?? 0.5))); fin = false; this.hung = true; }
    if (f && f.kind === "tornReady") { w.fired("crash-mid-ready"); dieAfter = "SIGSEGV"; fin = "torn"; }
    const all = fin === true ? Buffer.concat([body, ready]) : fin === "torn" ? Buffer.concat([body, ready.subarray(0, 1 + r.int(6))]) : body;
    // stderr is flushed before {ready} is printed: whenever the host can read
    // {ready} it can also read all of stderr (same poll, either order)
    const mode = c.host.net.chunking;
    const chunks = split(all, mode, r.fork("chunks"));
    let t = w.now;
    // (a stderr chunk that is only whitespace does not occur: perl writes whole lines)
    const echunks = mergeBlank(split(err, mode === "whole" ? "whole" : "few", r.fork("echunks")));
    const gap = () => (r.bool(0.4) ? 0 : r.float() * c.host.net.gapMs);
    const outTimes = chunks.map(() => (t += gap()));
    const end = outTimes.length ? outTimes[outTimes.length - 1] : t;
    // first chunk holding a byte of {ready}
    let off = 0, ri = chunks.length - 1;
    for (let i = 0; i < chunks.length; i++) { if (off + chunks[i].length > body.length) { ri = i; break; } off += chunks[i].length; }
    const rt = chunks.length ? outTimes[ri] : t;
    let et = w.now;
    const eTimes = echunks.map(() => { et = Math.min(rt, et + (r.bool(0.5) ? 0 : r.float() * (rt - et))); return et; });
    const late = r.bool(0.5); // same poll, stderr second
    const emit = [];
    echunks.forEach((b, i) => emit.push([late && i === echunks.length - 1 ? rt : eTimes[i], late ? 1 : 0, "stderr", b]));
    chunks.forEach((b, i) => emit.push([outTimes[i], late ? 0 : 1, "stdout", b]));
    emit.sort((a, b) => a[0] - b[0] || a[1] - b[1]);
    // A batch of equal times is delivered in one poll phase; keep order stable
    for (const [at, , which, b] of emit) c.out(which, b, at);
    rec.readyAt = end; rec.responded = fin === true;
    if (f && f.kind === "noise") { w.fired("stdout-noise-after-ready"); c.out("stdout", Buffer.from(f.text ?? "unexpected\n"), end + (f.delay ?? 3)); }
    if (dieAfter) { w.at(end + 0.001, () => c.die(null, dieAfter), "die-after-output"); return; }
    if (f && f.kind === "crashAfterReady") { w.fired("crash-after-ready"); w.at(end + r.float() * 3, () => c.die(null, "SIGKILL"), "die-after-ready"); }
    rec.done = fin === true;
    w.at(Math.max(end, w.now), () => { this.busy = false; if (!this.hung) this.pump(); }, "next " + c.pid);
  }

  // ---------------------------------------------------------------- commands
  parse(args) {
    const o = { flags: new Set(), opts: [], reqs: [], assigns: [], copies: [], files: [], bad: [] };
    for (let i = 0; i < args.length; i++) {
      const a = args[i];
      let m;
      if (TWO_ARG.has(a) || TWO_ARG.has(a.toLowerCase()) && !/^-w!?$/i.test(a)) { o.opts.push([a, args[++i]]); }
      else if (FLAGS.has(a) || /^-fast\d*$/.test(a) || /^-[gG]\d*$/.test(a)) o.flags.add(a);
      else if (a === "-all:all" || a === "-unsafe" || a === "-icc_profile" || a === "-all" || a === "-*") o.reqs.push(a.slice(1));
      else if ((m = /^-([^=<]+?)([-+^]?)=([^]*)$/.exec(a))) o.assigns.push({ tag: m[1], op: m[2], val: m[3] });
      else if ((m = /^-([^=<]+)<([^]+)$/.exec(a))) o.copies.push({ dst: m[1], src: m[2] });
      else if (/^-[A-Za-z0-9_:*?]/.test(a)) o.reqs.push(a.slice(1));
      else if (a.startsWith("-")) o.bad.push(a);
      else o.files.push(a);
    }
    return o;
  }
  opt(o, name) { let r; for (const [k, v] of o.opts) if (k === name) r = v; return r; }
  api(o, name) { let r; for (const [k, v] of o.opts) if (k === "-api" && v != null) { const m = /^([^=^]+)\^?(?:=([^]*))?$/.exec(v); if (m && m[1].toLowerCase() === name.toLowerCase()) r = m[2] ?? "1"; } return r; }
  load(file) {
    const n = this.disk.get(file);
    if (!n) return { missing: true };
    if (n.data.length === 0) return { empty: true };
    const p = decodePhoto(n.data);
    return p ? { p } : { corrupt: true };
  }
  run(args, rec) {
    const o = this.parse(args);
    rec.parsed = o;
    if (o.flags.has("-ver")) return { out: (this.install.version ?? VERSION) + "\n", err: "" };
    if (o.flags.has("-listx")) return { out: this.listx(o), err: "" };
    if (o.files.length === 0) return { out: "", err: "No file specified\n" };
    const W = this.opt(o, "-W") ?? this.opt(o, "-W!");
    if (this.opt(o, "-tagsfromfile") != null) return this.rewrite(o, rec);
    if (W != null) return this.extract(o, rec, W, this.opt(o, "-W!") != null);
    if (o.assigns.length || o.copies.length) return this.write(o, rec);
    return this.read(o, rec);
  }
  /** the ExifTool this process runs: there may be several on the machine */
  get install() { const m = this.disk.installs; return (m && m[this.c.spawnargs.find((a) => m[a])]) ?? this.disk; }
  listx() { return this.install.listx ?? "<?xml version='1.0' encoding='UTF-8'?>\n<taginfo>\n</taginfo>\n"; }

  read(o, rec) {
    let out = "", err = "";
    let objs = [];
    for (const file of o.files) {
      const l = this.load(file);
      rec.effects.push({ kind: "read", file });
      if (l.missing) { err += "Error: File not found - " + file + "\n"; continue; }
      const filterArg = this.api(o, "Filter");
      rec.filterArg = filterArg;
      const ctx = { filter: filterArg != null && filterArg.includes("__etvInvalidUtf8V1"), repl: filterArg != null && /FixUTF8\(\\\$_,\s*"(.)"\)/.exec(filterArg)?.[1] || "?" };
      const fields = [["SourceFile", file]];
      const G = [...o.flags].some((x) => /^-[gG]/.test(x));
      const P = (g, k) => (G ? g + ":" + k : k);
      const minor = o.flags.has("-ignoreMinorErrors") || o.flags.has("-m");
      if (o.flags.has("-b") || o.flags.has("-binary")) {
        for (const t of o.reqs) {
          const hit = l.p && Object.keys(l.p.bin || {}).find((k) => k.toLowerCase() === t.toLowerCase());
          if (hit) fields.push([hit, "base64:" + l.p.bin[hit]]);
        }
        if (l.corrupt) fields.push(["Error", "File format error"]);
        if (l.empty) fields.push(["Error", "File is empty"]);
        if (l.p && l.p.stderr) err += l.p.stderr;
        objs.push(fields); rec.ctx = ctx;
        continue;
      }
      fields.push([P("ExifTool", "ExifToolVersion"), { num: VERSION }]);
      if (l.empty) fields.push([P("ExifTool", "Error"), "File is empty"]);
      else if (l.corrupt) fields.push([P("ExifTool", "Error"), "File format error"]);
      fields.push([P("File", "FileName"), path.basename(file)], [P("File", "Directory"), path.dirname(file)], [P("File", "FileSize"), (l.p ? this.disk.get(file).data.length : 0) + " bytes"]);
      if (l.p) {
        const p = l.p;
        fields.push([P("File", "MIMEType"), p.mime || "image/jpeg"]);
        if (p.warning && !(minor && typeof p.warning === "string" && /^\[minor\]/.test(p.warning))) fields.push([P("ExifTool", "Warning"), p.warning]);
        if (p.error) fields.push([P("ExifTool", "Error"), p.error]);
        if (p.stderr && !(minor && /\[minor\]/.test(p.stderr))) err += p.stderr;
        const struct = this.api(o, "struct") ?? "0";
        const want = o.reqs;
        const numeric = (name) => o.flags.has("-n") || want.some((q) => q.endsWith("#") && glob(q.slice(0, -1), name));
        const wantAll = want.length === 0 || want.includes("all") || want.includes("all:all");
        const wanted = (name) => wantAll || want.some((q) => glob(q.replace(/#$/, "").split(":").pop(), name));
        const seen = new Set();
        for (const [key, v] of Object.entries(p.tags)) {
          const [g, name] = [key.slice(0, key.lastIndexOf(":")), key.slice(key.lastIndexOf(":") + 1)];
          if (!wanted(name)) continue;
          const outName = P(g, name);
          if (seen.has(outName)) continue;
          seen.add(outName);
          if (v && typeof v === "object" && v.__bytes == null && (Array.isArray(v) ? v.length && typeof v[0] === "object" && v[0].__bytes == null : true) && struct === "0") {
            const flat = Object.create(null);
            for (const s of Array.isArray(v) ? v : [v]) for (const [k2, v2] of Object.entries(s)) (flat[name + k2[0].toUpperCase() + k2.slice(1)] ||= []).push(typeof v2 === "object" && v2.__bytes == null ? JSON.stringify(v2) : v2);
            for (const [k2, arr] of Object.entries(flat)) if (!seen.has(P(g, k2))) { seen.add(P(g, k2)); fields.push([P(g, k2), arr.length === 1 ? arr[0] : arr]); }
            continue;
          }
          fields.push([outName, this.show(name, v, numeric(name), p)]);
        }
        for (const [k, b64] of Object.entries(p.bin || {})) if (wanted(k)) {
          const size = (filterArg != null && Filter.evaluate(filterArg, [["b", Buffer.from(b64, "base64")]])?.[0] || Buffer.from(b64, "base64")).length;
          fields.push([P("File", k), "(Binary data " + size + " bytes, use -b option to extract)"]);
          (rec.binSizes ??= Object.create(null))[P("File", k)] = Buffer.from(b64, "base64").length;
        }
        if (this.api(o, "requesttags") && /imagedatahash/i.test(this.api(o, "requesttags"))) fields.push([P("File", "ImageDataHash"), "hash-" + (this.api(o, "imagehashtype") ?? "MD5") + "-" + file]);
        if (this.api(o, "geolocation") && p.tags["GPS:GPSLatitude"] != null) fields.push([P("ExifTool", "GeolocationCity"), "Simville"]);
      }
      objs.push(fields); rec.ctx = ctx;
    }
    const json = o.flags.has("-json") || o.flags.has("-j");
    if (objs.length && !json) { // ExifTool's plain format; raw payload bytes with -b
      const bin = o.flags.has("-b") || o.flags.has("-binary");
      const raw = objs.flatMap((fs) => fs.filter(([k]) => k !== "SourceFile").map(([k, v]) => (bin ? (/^base64:/.test(v) ? Buffer.from(String(v).slice(7), "base64") : Buffer.from(String(v))) : Buffer.from(k.padEnd(32) + ": " + (v && v.num ? v.num : String(typeof v === "object" ? (v.__bytes != null ? Filter.repaired(Buffer.from(v.__bytes, "base64"), "?") : [].concat(v).join(", ")) : v).replace(/[\u0000-\u001f\u007f]/g, ".")) + "\n"))));
      out = Buffer.concat(raw);
      if (!bin) out = out.toString();
    } else if (objs.length) {
      rec.malformed = malformedIn([...o.flags].some((x) => /^-g/.test(x)) ? nest(objs[0]) : objs[0]); rec.texts = objs[0];
      const print = (objs, opt) => "[" + objs.map((fs) => "{\n" + fs.map(([k, v]) => "  " + JSON.stringify(k) + ": " + (v && v.num ? v.num : v && v.group ? "{\n" + v.group.map(([k2, v2]) => "    " + JSON.stringify(k2) + ": " + (v2 && v2.num ? v2.num : jsonValue(v2, "    ", opt))).join(",\n") + "\n  }" : jsonValue(v, "  ", opt))).join(",\n") + "\n}").join(",\n") + "]\n";
      const grouped = (xs) => ([...o.flags].some((x) => /^-g/.test(x)) ? xs.map(nest) : xs);
      const after = rec.filterArg != null ? objs.map((fs) => filtered(fs, rec.filterArg)) : [null];
      if (after[0] && after.length === objs.length) {
        // what is printed, and (for the oracles) what was stored, apart from the wire form
        out = print(grouped(after), { repl: "?" });
        rec.plain = print(grouped(objs), { repl: "\ufffd" }); rec.plainFor = out;
      } else out = print(grouped(objs), rec.ctx);
    }
    return { out, err };
  }
  show(name, v, numeric, p) {
    if (Array.isArray(v) && v.length === 1 && (typeof v[0] !== "object" || v[0].__bytes != null)) return v[0];
    if (TAGS[name] && TAGS[name][1] === "gps") {
      const n = Number(v);
      if (typeof v === "object" || String(v).trim() === "" || !Number.isFinite(n)) return v;
      const ref = p.tags["GPS:" + name + "Ref"];
      const neg = ref === "S" || ref === "W" || ref === "1";
      if (numeric) return neg ? -n : n;
      if (name === "GPSAltitude") return n + " m " + (neg ? "Below" : "Above") + " Sea Level";
      const d = Math.floor(n), m = Math.floor((n - d) * 60), s = ((n - d) * 60 - m) * 60;
      return d + " deg " + m + "' " + s.toFixed(2) + '"' + (ref ? " " + ref : "");
    }
    if (name === "Orientation" && !numeric) return { 1: "Horizontal (normal)", 3: "Rotate 180", 6: "Rotate 90 CW", 8: "Rotate 270 CW" }[v] ?? "Unknown (" + v + ")";
    if (name === "Duration" && Number.isFinite(Number(v))) return numeric ? Number(v) : v + " s";
    return v;
  }
  assign(p, a, o, warn) {
    const esc = o.flags.has("-E") || o.flags.has("-ex");
    const sep = this.opt(o, "-sep");
    if (/^all$/i.test(a.tag) && a.op === "" && a.val === "") {
      for (const k of Object.keys(p.tags)) delete p.tags[k];
      return "all";
    }
    const t = resolveTag(a.tag);
    if (!t) { warn.push("Warning: Tag '" + a.tag + "' is not defined"); return null; }
    let val = a.val;
    const del = val === "" && a.op === "";
    if (del) { if (t.shape === "pos") { for (const k of ["GPS:GPSLatitude", "GPS:GPSLatitudeRef", "GPS:GPSLongitude", "GPS:GPSLongitudeRef"]) delete p.tags[k]; return t; } delete p.tags[t.key]; return t; }
    if (esc) val = unescapeHtml(val);
    val = storable(t.key, val);
    if (t.shape === "struct" || t.shape === "structlist") {
      let v;
      try { v = parseStruct(val, esc); } catch { warn.push("Warning: Invalid structure for " + t.key); return null; }
      v = storableDeep(t.key, v);
      if (typeof v !== "object") { warn.push("Warning: Improperly formed structure for " + t.key); return null; }
      if (typeof v.LocationId === "string") v.LocationId = [v.LocationId.replace(/[\x00-\x1f]/g, ".")];
      if (t.shape === "structlist" && !Array.isArray(v)) v = [v];
      if (a.op === "+") { const cur = [].concat(p.tags[t.key] ?? []); p.tags[t.key] = [...cur, ...v]; this.addQ.push(1); }
      else if (a.op === "-") { const cur = [].concat(p.tags[t.key] ?? []); const left = cur.filter((c) => !v.some((pr) => Object.entries(pr).every(([k, x]) => c[k] === x))); if (left.length) p.tags[t.key] = left; else delete p.tags[t.key]; }
      else p.tags[t.key] = v;
      return t;
    }
    if (t.shape === "list") {
      const vals = sep != null ? val.split(sep) : [val];
      const cur = [].concat(p.tags[t.key] ?? []);
      if (a.op === "+") p.tags[t.key] = [...cur, ...vals];
      else if (a.op === "-") { const left = cur.filter((x) => !vals.includes(x)); if (left.length) p.tags[t.key] = left; else delete p.tags[t.key]; }
      else p.tags[t.key] = vals;
      return t;
    }
    if (a.op === "-") { if (p.tags[t.key] === val) delete p.tags[t.key]; return t; }
    if (t.shape === "num" && !/^[-+]?\d*\.?\d+(e[-+]?\d+)?$/i.test(val)) { warn.push("Warning: Not a floating point number for " + t.key); return null; }
    if (t.shape === "int" && !/^[-+]?\d+(\.0*)?$/.test(val)) { warn.push("Warning: Not an integer for " + t.key); return null; }
    if (t.shape === "date" && !/\d{4}/.test(val)) { warn.push("Warning: Invalid date/time (use YYYY:mm:dd HH:MM:SS[.ss][+/-HH:MM|Z]) in " + t.key); return null; }
    if (t.shape === "gps") { const n = Number(val); if (!Number.isFinite(n)) { warn.push("Warning: Not a floating point number for " + t.key); return null; } p.tags[t.key] = String(Math.abs(n)); return t; }
    if (t.shape === "ref") {
      const alt = t.name === "GPSAltitudeRef";
      const n = Number(val);
      let r;
      if (val !== "" && Number.isFinite(n)) r = alt ? (n < 0 ? "1" : "0") : t.name === "GPSLatitudeRef" ? (n < 0 ? "S" : "N") : n < 0 ? "W" : "E";
      else r = alt ? (/^below/i.test(val) ? "1" : "0") : val[0].toUpperCase();
      p.tags[t.key] = r; return t;
    }
    if (t.shape === "pos") {
      const [la, lo] = val.split(",").map(Number);
      if (!Number.isFinite(la) || !Number.isFinite(lo)) { warn.push("Warning: Invalid GPSPosition"); return null; }
      p.tags["GPS:GPSLatitude"] = String(Math.abs(la)); p.tags["GPS:GPSLongitude"] = String(Math.abs(lo));
      p.tags["GPS:GPSLatitudeRef"] = la < 0 ? "S" : "N"; p.tags["GPS:GPSLongitudeRef"] = lo < 0 ? "W" : "E";
      return t;
    }
    p.tags[t.key] = val;
    return t;
  }
  write(o, rec) {
    let err = "", mk = "";
    const n$ = { dirs: 0, created: 0, updated: 0, same: 0, bad: 0 }, files = [];
    for (const f of o.files) {
      if (this.disk.files.has(f) || !this.disk.dirs.has(f)) { files.push(f); continue; }
      n$.dirs++;
      const bulk = this.disk.bulk?.[f]; if (bulk) { const k = o.assigns.length ? "updated" : "same"; n$[k] += bulk; rec.effects.push({ kind: "bulk", file: f }); } // more files than are worth simulating
      for (const p of [...this.disk.files.keys()].sort()) if (path.dirname(p) === f && /\.(jpe?g|xmp)$/i.test(p)) files.push(p);
    }
    for (const file of files) {
      const l = this.load(file);
      const fail = (e) => { err += e; n$.bad++; };
      const isXmp = /\.xmp$/i.test(file);
      const warn = [];
      this.addQ = [];
      const base = l.p ? JSON.parse(JSON.stringify(l.p)) : { mime: isXmp ? "application/rdf+xml" : "image/jpeg", tags: {}, bin: {} };
      const before = JSON.stringify(base.tags);
      const orig = JSON.parse(before);
      let ok = 0;
      // removals are applied before additions; plain assignments in order
      const seq = [...o.assigns.filter((a) => a.op === "-"), ...o.assigns.filter((a) => a.op !== "-")];
      for (const a of seq) if (this.assign(base, a, o, warn)) ok++;
      let copies = 0;
      for (const cp of o.copies) {
        if (/^FileName$/i.test(cp.dst)) { copies++; continue; }
        copies++;
        const s = resolveTag(cp.src), d = resolveTag(cp.dst);
        if (!s || !d) continue;
        for (const k of Object.keys(orig)) if (k === s.key || (!cp.src.includes(":") && k.endsWith(":" + s.name))) base.tags[cp.src.includes(":") ? d.key : k] = orig[k];
      }
      if (warn.length) err += warn.join("\n") + "\n";
      if (ok === 0 && copies === 0) return { out: "", err: err + "Nothing to do.\n" };
      if (l.missing && !isXmp) { fail("Error: File not found - " + file + "\n"); continue; }
      if (l.missing && !this.disk.dirs.has(path.dirname(file))) { fail("Error: Error creating file - " + file + "\n"); continue; }
      if (l.empty) { fail("Error: File is empty - " + file + "\n"); continue; }
      if (l.corrupt) { fail("Error: Not a valid JPG (looks more like a TXT) - " + file + "\n"); continue; }
      const n = this.disk.get(file);
      if (n && !(n.mode & 0o200)) { fail("Error: Error opening file for writing - " + file + "\n"); continue; }
      if (l.p && l.p.minorError) {
        if (!(o.flags.has("-ignoreMinorErrors") || o.flags.has("-m"))) { fail("Error: [minor] " + l.p.minorError + " - " + file + "\n"); continue; }
        err += "Warning: [minor] " + l.p.minorError + " - " + file + "\n";
      }
      if (l.p) for (const x of [].concat(l.p.writeWarning ?? [])) err += "Warning: " + x + " - " + file + "\n";
      const dest = this.opt(o, "-o");
      if (dest != null) {
        const d = path.resolve("/sim/cwd", fmtDest(dest, file));
        if (this.disk.get(d)) { fail("Error: '" + d + "' already exists - " + file + "\n"); continue; }
        mk = this.makeDir(d) || mk;
        this.commit(d, base, rec, "create"); n$.created++;
      } else if (l.missing) {
        this.commit(file, base, rec, "create"); n$.created++;
      } else if (JSON.stringify(base.tags) === before) {
        rec.effects.push({ kind: "unchanged", file });
        n$.same++;
      } else {
        if (!o.flags.has("-overwrite_original") && !this.disk.get(file + "_original")) this.disk.put(file + "_original", n.data);
        this.commit(file, base, rec, "update"); n$.updated++;
      }
    }
    const line = (n, t) => String(n).padStart(5) + " " + t + "\n", touched = n$.updated + n$.same + n$.bad;
    const out = (n$.dirs ? line(n$.dirs, "directories scanned") : "") + mk + (n$.created ? line(n$.created, "image files created") : "") + (touched ? line(n$.updated, "image files updated") : "") + (n$.same ? line(n$.same, "image files unchanged") : "") + (n$.bad ? line(n$.bad, "files weren't updated due to errors") : "") + (n$.dirs && !touched && !n$.created ? line(0, "image files read") : "");
    return { out, err };
  }
  commit(file, photo, rec, kind) {
    const n = this.disk.get(file);
    this.disk.put(file, encodePhoto(photo), n ? n.mode : 0o644);
    rec.effects.push({ kind, file });
    this.w.note(kind, file, JSON.stringify(photo.tags));
  }
  extract(o, rec, dest, force) {
    const src = o.files[o.files.length - 1];
    const l = this.load(src);
    rec.effects.push({ kind: "extract-attempt", file: src, dest });
    if (l.missing) return { out: "    1 files could not be read\n    0 output files created\n", err: "Error: File not found - " + src + "\n" };
    const tag = o.reqs[0];
    const hit = l.p && Object.keys(l.p.bin || {}).find((k) => k.toLowerCase() === String(tag).split(":").pop().toLowerCase());
    if (!hit) return { out: "    0 output files created\n", err: "" };
    dest = fmtDest(dest, src, hit);
    if (this.disk.get(dest) && !force) return { out: "    1 image files read\n    1 files could not be read\n    0 output files created\n", err: "Output file " + dest + " already exists for " + src + "\n" };
    const mk = this.makeDir(dest);
    this.disk.put(dest, Buffer.from(l.p.bin[hit], "base64"));
    rec.effects.push({ kind: "extract", file: src, dest });
    return { out: mk + "    1 output files created\n", err: (l.p.stderr || "") };
  }
  /** ExifTool makes missing output directories, and says so */
  makeDir(dest) { if (this.disk.dirs.has(path.dirname(dest))) return ""; this.w.probe("exiftool-mkdir"); this.disk.mkdirp(path.dirname(dest)); return "    1 directories created\n"; }
  /** the child dies while writing the extracted payload */
  tornExtract(args, wi, src, r, rec) {
    const l = this.load(src), tag = (this.parse(args).reqs[0] || "").toLowerCase();
    const hit = l.p && Object.keys(l.p.bin || {}).find((k) => k.toLowerCase() === tag);
    const dest = args[wi + 1];
    if (!hit || (this.disk.get(dest) && args[wi] === "-W")) return;
    const b = Buffer.from(l.p.bin[hit], "base64");
    this.disk.put(dest, b.subarray(0, r.int(b.length)));
    rec.effects.push({ kind: "torn-extract", file: src, dest });
  }
  rewrite(o, rec) {
    const src = o.files[o.files.length - 1];
    let dest = this.opt(o, "-out") ?? this.opt(o, "-o");
    const l = this.load(src);
    rec.effects.push({ kind: "rewrite-attempt", file: src, dest });
    if (l.missing) return { out: "    0 image files updated\n    1 files weren't updated due to errors\n", err: "Warning: Error opening file - " + src + "\nWarning: No writable tags set from " + src + "\nError: Error opening file - " + src + "\n" };
    dest = fmtDest(dest, src);
    if (l.empty || l.corrupt) return { out: "    0 image files updated\n    1 files weren't updated due to errors\n", err: "Error: File format error - " + src + "\n" };
    if (this.disk.get(dest)) return { out: "    0 image files updated\n    1 files weren't updated due to errors\n", err: "Error: '" + dest + "' already exists - " + src + "\n" };
    const mk = this.makeDir(dest);
    const p = JSON.parse(JSON.stringify(l.p));
    let err = "";
    if (p.makerNotesBroken) { if (!o.flags.has("-F")) { err = "Warning: [minor] Possibly incorrect maker notes offsets (fix by 4?) - " + src + "\n"; p.makerNotes = "broken"; } else p.makerNotes = "repaired"; }
    this.disk.put(dest, encodePhoto({ ...p, rewritten: true }));
    rec.effects.push({ kind: "rewrite", file: src, dest });
    return { out: mk + "    1 image files created\n", err };
  }
}
/** ExifTool expands %f, %20e, ... in output names, and has no escape for "%" */
function fmtDest(d, src, tag) { const ext = path.extname(src), base = path.basename(src, ext); return d.replace(/%[-+]?\d*(?:[.:]\d+)?[lu]?([dDfFeEcCtgsoi])/g, (m, k) => ({ d: path.dirname(src) + "/", D: path.dirname(src) + "/", f: base, e: ext.slice(1), E: ext.slice(1), F: base + ext, t: tag ?? "" })[k] ?? ""); }
function glob(pat, name) { return new RegExp("^" + pat.replace(/[.*+?^${}()|[\]\\]/g, (c) => (c === "*" ? ".*" : c === "?" ? "." : "\\" + c)) + "$", "i").test(name); }
function isWrite(args) { return args.some((a) => /^-[^=]+=/.test(a)); }
function mergeBlank(chunks) {
  const out = [];
  for (const c of chunks) if (out.length && (/^\s*$/.test(c.toString()) || /^\s*$/.test(out[out.length - 1].toString()))) out[out.length - 1] = Buffer.concat([out[out.length - 1], c]); else out.push(c);
  return out;
}
function split(buf, mode, r) {
  if (buf.length === 0) return [];
  if (mode === "whole") return [buf];
  if (mode === "bytes") { const out = []; const mx = Math.max(3, Math.ceil(buf.length / 60)); for (let i = 0; i < buf.length; ) { const n = 1 + r.int(mx); out.push(buf.subarray(i, i + n)); i += n; } return out; }
  const cuts = new Set(); const k = mode === "few" ? r.int(4) : 1 + r.int(8);
  for (let i = 0; i < k; i++) cuts.add(1 + r.int(Math.max(1, buf.length - 1)));
  if (mode === "edge") { for (let i = 0; i < 6; i++) cuts.add(Math.max(1, buf.length - 1 - r.int(10))); for (let i = 0; i < buf.length; i++) if (buf[i] >= 0xc0 && r.bool(0.4)) cuts.add(r.bool(0.8) ? i + 1 : i); const at = buf.indexOf("{ready}"); if (at >= 0) { cuts.add(at + 7); if (at > 0) cuts.add(at); } }
  const pts = [...cuts].filter((x) => x > 0 && x < buf.length).sort((a, b) => a - b);
  const out = []; let p = 0;
  for (const x of pts) { out.push(buf.subarray(p, x)); p = x; }
  out.push(buf.subarray(p));
  return out;
}
module.exports = { SimExif, encodePhoto, decodePhoto, resolveTag, unescapeHtml, parseStruct, TAGS, VERSION, MAGIC };
