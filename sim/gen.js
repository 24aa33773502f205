"use strict";
// Generators shared by the properties' scenario builders.
const WORDS = ["alpha", "beta", "gamma", "delta", "Berlin", "sunset", "x"];
const NASTY = ["{ready}", "{ready}\n", "é", "漢字かな", "😀👩‍👩‍👧", "ü{ready}", "a\nb", "line1\n-execute\n-ver", "-execute", "\t tab", "quote\"s", "back\\slash", "a&b", "&amp;", "&#38;", "<tag>", "a=b", "#hash", "a|b", "a,b", "[x]", "{k=v}", "%f%d", "{\"a\":1}", "[{", "}]", "base64:AAAA", "true", "False", "007", "1e5", "0", "-5", "undefd", "Error: nope", "Warning: hmm", "x\u00a0y", "\u2028", "Ω≈ç√", "1 image files updated", "0 output files created", "'", "`", "*?", "a;b", "x\ufeffy", "\ufeff"];
function text(r, tok, nasty = 0.5) {
  const parts = [];
  const n = 1 + r.int(3);
  for (let i = 0; i < n; i++) parts.push(r.bool(nasty) ? r.pick(NASTY) : r.pick(WORDS));
  if (tok) parts.splice(r.int(parts.length + 1), 0, tok);
  return parts.join(r.bool(0.8) ? " " : "");
}
const STR_TAGS = ["Title", "Description", "Artist", "Copyright", "Headline", "Comment", "UserComment", "Label", "City", "Country"];
const LIST_TAGS = ["Subject", "Keywords", "HierarchicalSubject", "TagsList", "Creator", "PersonInImage"];
const GROUP = { Title: "XMP-dc", Description: "XMP-dc", Artist: "IFD0", Copyright: "IFD0", Headline: "XMP-photoshop", Comment: "File", UserComment: "ExifIFD", Label: "XMP-xmp", City: "XMP-photoshop", Country: "XMP-photoshop", Subject: "XMP-dc", Keywords: "IPTC", HierarchicalSubject: "XMP-lr", TagsList: "XMP-digiKam", Creator: "XMP-dc", PersonInImage: "XMP-iptcExt" };
const key = (t) => GROUP[t] + ":" + t;
/** a stored photo with unique token text */
function photo(r, tok, o = {}) {
  const tags = {};
  for (const t of r.sample(STR_TAGS, 1 + r.int(4))) tags[key(t)] = text(r, tok, o.nasty);
  if (r.bool(0.6)) { const t = r.pick(LIST_TAGS); tags[key(t)] = Array.from({ length: 2 + r.int(3) }, (_, i) => text(r, tok + "." + i, o.nasty)); }
  if (r.bool(0.4)) tags["XMP-xmp:Rating"] = String(r.int(6));
  if (r.bool(0.3)) tags["ExifIFD:CreateDate"] = "2021:0" + (1 + r.int(9)) + ":1" + r.int(9) + " 10:1" + r.int(9) + ":00";
  const bin = {};
  if (o.bin !== false) for (const t of ["ThumbnailImage", "PreviewImage", "JpgFromRaw"]) if (r.bool(0.5)) bin[t] = Buffer.from(tok + t + "\0\xff{ready}\n" + r.int(1e6), "latin1").toString("base64");
  return { tags, bin };
}
function net(r) {
  const slow = r.bool(0.2);
  return {
    chunking: r.weighted([[2, "whole"], [3, "few"], [3, "edge"], [2, "bytes"]]),
    latency: r.pick([0, 0.2, 1, 5]), gapMs: r.pick([0, 0.5, 2, 6]),
    serviceMs: slow ? [20, 400] : r.pick([[0, 2], [1, 12], [5, 60]]),
    bootMs: r.pick([[1, 5], [20, 140], [100, 900]]),
    ...(r.bool(0.12) ? { crlf: true } : {}),
    ...(r.bool(0.12) ? { platform: "darwin" } : {}),
  };
}
/** pool configuration; small limits so that limits are reached */
function opts(r) {
  return {
    maxProcs: r.pick([1, 1, 2, 3, 4]),
    maxTasksPerProcess: r.pick([1, 2, 3, 7, 500]),
    taskTimeoutMillis: r.pick([500, 2000, 30000]),
    spawnTimeoutMillis: r.pick([2000, 30000]),
    taskRetries: r.pick([0, 1, 1, 2, 3]),
    minDelayBetweenSpawnMillis: r.pick([0, 0, 100, 1500]),
    onIdleIntervalMillis: r.pick([100, 2000]),
    healthCheckIntervalMillis: r.pick([0, 1000, 30000]),
  };
}
const CMD_FAULTS = [
  [3, (r) => ({ kind: "crashBefore" })], [3, (r) => ({ kind: "crashAfterEffect" })], [2, (r) => ({ kind: "crashMidOutput", keep: r.float() })],
  [2, (r) => ({ kind: "crashBeforeReady" })], [2, (r) => ({ kind: "tornReady" })], [2, (r) => ({ kind: "crashAfterReady" })], [1, (r) => ({ kind: "crashMidWrite" })],
  [2, (r) => ({ kind: "hang" })], [2, (r) => ({ kind: "hangAfterEffect" })], [1, (r) => ({ kind: "hangMidOutput", keep: r.float() })], [1, () => ({ kind: "stubbornHang" })],
  [2, (r) => ({ kind: "slow", ms: r.pick([50, 400, 1500, 5000]) })], [2, () => ({ kind: "errorReply" })], [1, () => ({ kind: "garbage" })],
  [1, () => ({ kind: "enospc" })], [1, (r) => ({ kind: "noise", delay: r.float() * 6, text: r.pick(["unexpected\n", "\n"]) })],
];
const SPAWN_FAULTS = [
  [2, () => ({ kind: "errno", code: "EAGAIN" })], [1, () => ({ kind: "errno", code: "EMFILE" })], [1, () => ({ kind: "errno", code: "ENOENT" })], [1, () => ({ kind: "throw", code: "EPERM" })],
  [2, () => ({ kind: "die" })], [1, () => ({ kind: "badperl" })], [1, () => ({ kind: "hang" })], [2, (r) => ({ kind: "slow", ms: r.pick([300, 1500, 5000]) })],
  [1, () => ({ kind: "stubborn" })], [1, () => ({ kind: "stubborn", slowKill: true })], [1, () => ({ kind: "stderr", text: "perl: warning: Setting locale failed.\n" })],
];
const TIME_FAULTS = [
  [3, (r) => ({ kind: "kill", idx: r.int(4) })], [1, (r) => ({ kind: "freeze", idx: r.int(4) })], [1, (r) => ({ kind: "stdoutNoise", idx: r.int(4) })], [1, (r) => ({ kind: "stderrNoise", idx: r.int(4) })],
  [1, (r) => ({ kind: "streamError", idx: r.int(4), stream: r.pick(["stdout", "stderr", "stdin"]) })], [1, (r) => ({ kind: "epipe", idx: r.int(4) })],
  [2, (r) => ({ kind: "stall", ms: r.pick([20, 300, 3000, 40000]) })], [1, (r) => ({ kind: "wallJump", ms: r.pick([1000, 60000, 86400000]) })],
];
function faults(r, o = {}) {
  const out = [];
  const nc = o.cmds ?? r.weighted([[2, 0], [3, 1], [3, 2], [2, 3], [1, 5]]);
  const span = o.span ?? 12;
  for (let i = 0; i < nc; i++) out.push({ on: "cmd", n: 1 + r.int(span), ...r.weighted(o.cmdKinds ?? CMD_FAULTS)(r) });
  const ns = o.spawns ?? r.weighted([[5, 0], [3, 1], [1, 2]]);
  for (let i = 0; i < ns; i++) out.push({ on: "spawn", n: 1 + r.int(o.spawnSpan ?? 4), ...r.weighted(o.spawnKinds ?? SPAWN_FAULTS)(r) });
  const nt = o.times ?? r.weighted([[4, 0], [3, 1], [2, 2]]);
  for (let i = 0; i < nt; i++) out.push({ on: "time", at: r.float() * (o.timeSpan ?? 3000), ...r.weighted(o.timeKinds ?? TIME_FAULTS)(r) });
  return out;
}
module.exports = { text, photo, net, opts, faults, key, STR_TAGS, LIST_TAGS, NASTY, WORDS, CMD_FAULTS, SPAWN_FAULTS, TIME_FAULTS, GROUP };
