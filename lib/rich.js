"use strict";
// Photos with rich date, time zone, GPS, structure and text metadata, options
// that change how they are interpreted, and reference reads: the same file read
// once, alone, by a fresh process.
const G = require("../sim/gen");
const { Sim, invoke } = require("../sim/scenario");

const p2 = (n) => String(n).padStart(2, "0");
const OFFS = ["+02:00", "-05:00", "Z", "+05:30", "+00:00", "-12:00", "+00:20", "-04:30", "+14:00", "-03:30", "+17:00", "UTC", "PST", "Europe/Berlin", "America/New_York", "bogus", "-8", "9"];
function date(r) {
  const d = [r.pick([1999, 2016, 2019, 2020, 2021, 2022]), 1 + r.int(12), 1 + r.int(28)], t = [r.int(24), r.int(60), r.int(60)];
  const base = `${d[0]}:${p2(d[1])}:${p2(d[2])} ${t.map(p2).join(":")}`;
  return r.weighted([
    [8, base], [2, base + "." + r.int(1000)], [1, base + r.pick([".0", ".00", ".000", ".123456", ".999999"]) + r.pick(["", "", "Z", "+02:00"])], [4, base + r.pick(OFFS.slice(0, 12))], [1, base + ".25" + r.pick(OFFS)], [1, `${d[0]}-${p2(d[1])}-${p2(d[2])}T${t.map(p2).join(":")}${r.pick(["", "Z", "+01:00"])}`],
    [1, "0000:00:00 00:00:00"], [1, "2021:13:45 99:99:99"], [1, `${d[0]}:${p2(d[1])}`], [1, String(d[0])], [1, "2021:03:28 02:30:00"], [1, "2021:03:14 02:30:00"], [1, "2021:10:31 02:30:00"], [1, "not a date"], [1, `${d[0]}:${p2(d[1])}:${p2(d[2])}`], [1, base + " " + r.pick(OFFS)], [1, " "],
  ]);
}
const time = (r) => r.pick(["02:30:00", "02:15:01.5", "00:00:00", "23:59:59", "12:34:56", "01:02:03Z", "04:05:06+02:00", "10:20:30.25", "10:20:30.00", "00:00:00.000", "07:08:09.123456", "06:07:08.0Z", "5:6:7", "25:99:00", "noon"]);
/** text that is almost a date or time */
const SHARDS = ["10", "2021", "05", "7", "T", "T", ":", ":", "-", "-", " ", " ", "Z", "+02:00", "-0500", "10:20:30", "10:20", "2021:05:06", "2021-05-06", "2021:05", "Jan", "May 7 2021", "W05", "2021-W05-1", "2021-123", "Monday", "PM", "10:20 PM", ".5", ".123456", "DST", "PST", "Europe/Paris", "/", ",", "1620000000", "now", "today", "0", "00", "24:00:00", "-1", "+1"];
const shards = (r) => Array.from({ length: 1 + r.int(5) }, () => r.pick(SHARDS)).join(r.pick(["", "", " ", ":"]));
const DATE_TAGS = ["ExifIFD:CreateDate", "ExifIFD:DateTimeOriginal", "IFD0:ModifyDate", "Composite:SubSecCreateDate", "Composite:SubSecDateTimeOriginal", "Composite:SubSecModifyDate", "Composite:GPSDateTime", "GPS:GPSDateStamp", "IPTC:DateCreated", "QuickTime:MediaCreateDate", "QuickTime:TrackCreateDate", "File:FileModifyDate", "Composite:DateTimeUTC", "XMP-xmp:MetadataDate", "Composite:DateTimeCreated", "MakerNotes:TimeStamp", "XMP-exif:DateTimeDigitized", "QuickTime:CreationDate", "Sony:SonyDateTime", "XMP-photoshop:DateCreated"];
const TIME_TAGS = ["GPS:GPSTimeStamp", "IPTC:TimeCreated", "IPTC:DigitalCreationTime", "Canon:SelfTimer2Time", "Sony:ExposureTime2"];
const ODD_TAGS = ["MakerNotes:TimeStamp", "ExifIFD:OffsetTime", "XMP:TimeZone", "MakerNotes:TimeZoneOffset", "GPS:GPSDateStamp", "GPS:GPSTimeStamp", "Composite:GPSDateTime", "ExifIFD:CreateDate", "ExifIFD:DateTimeOriginal", "Composite:DateTimeUTC", "Sony:SonyDateTime2", "GPS:GPSLatitude", "GPS:GPSLongitude", "GPS:GPSLatitudeRef", "GPS:GPSAltitude", "GPS:GPSAltitudeRef", "ExifTool:GeolocationTimeZone", "ExifTool:GeolocationPosition", "Composite:GPSPosition", "Nikon:DaylightSavings", "IFD0:Make", "File:MIMEType", "ExifTool:Warning", "ExifTool:Error", "MakerNotes:LocationTZ", "Composite:SubSecCreateDate", "Canon:TimeZoneCity"];
/** one moment, as different clocks show it: whole time zones apart, more or less */
function moment(r, tags) {
  const base = Date.UTC(r.pick([2016, 2020, 2021]), r.int(12), 1 + r.int(28), r.int(24), r.int(60), r.int(60));
  const off = r.weighted([[6, 60 * (r.int(27) - 12)], [2, 15 * (r.int(105) - 48)]]) * 60e3;
  const show = (t) => new Date(t).toISOString().slice(0, 19).replace("T", " ").replace(/-/g, ":");
  const slip = () => r.weighted([[5, 0], [3, r.int(600) - 300], [1, r.int(3600) - 1800]]) * 1000;
  for (const t of r.sample(["Composite:SubSecDateTimeOriginal", "ExifIFD:DateTimeOriginal", "ExifIFD:CreateDate", "IFD0:ModifyDate", "Composite:SubSecCreateDate", "XMP-xmp:MetadataDate"], 1 + r.int(3))) tags[t] = show(base + off + slip()) + (r.bool(0.15) ? r.pick([".5", "Z", "+02:00"]) : "");
  const utc = base + slip();
  for (const t of r.sample(["Composite:GPSDateTime", "Composite:DateTimeUTC", "Sony:SonyDateTime2", "MakerNotes:TimeStamp", "MakerNotes:TimeStamp", "GPS"], 1 + r.int(2))) if (t === "GPS") { tags["GPS:GPSDateStamp"] = show(utc).slice(0, 10); tags["GPS:GPSTimeStamp"] = show(utc).slice(11); } else tags[t] = show(utc) + r.pick(["", "", "", "Z", ".25", "+00:00", "-07:00"]);
}
/** points on borders between time zones: positions close to each other can lie in different zones */
const BORDERS = [[-35, -70.3125], [-20, 32.8125], [5, 43.125], [15, 24.375], [20, 67.5], [25, 61.875], [30, 35.625], [30, 127.5], [35, -114.609], [40, 25.3125], [40, 90], [45, -67.5], [50, -110.625], [50, -1.875], [50, 38.2031], [55, -90], [60, 116.25], [35, 123.75]];
function richPhoto(r, tok, near) {
  const tags = {};
  const nd = 1 + r.int(6);
  for (const t of r.sample(DATE_TAGS, nd)) tags[t] = date(r);
  if (r.bool(0.4)) moment(r, tags);
  if (r.bool(0.5)) for (const t of r.sample(TIME_TAGS, 1 + r.int(2))) tags[t] = time(r);
  if (r.bool(0.25)) for (const t of r.sample([...DATE_TAGS, ...TIME_TAGS, ...ODD_TAGS], 1 + r.int(4))) tags[t] = shards(r);
  if (r.bool(0.2)) for (const t of r.sample([...DATE_TAGS, ...TIME_TAGS], 1 + r.int(4))) tags[t] = r.pick(["0000:00:00 00:00:00", "0000:00:00", "00:00:00", "0", "00", "0000", "0000:00:00 00:00:00+00:00", time(r), time(r)]);
  for (const t of ["ExifIFD:OffsetTime", "ExifIFD:OffsetTimeOriginal", "ExifIFD:OffsetTimeDigitized", "XMP:TimeZone", "MakerNotes:TimeZoneOffset", "MakerNotes:LocationTZ"]) if (r.bool(0.15)) tags[t] = t.endsWith("TimeZoneOffset") ? r.pick(["-8", "-7 -7", "5.5", "99"]) : r.pick(OFFS);
  if (r.bool(0.15)) { tags["Nikon:DaylightSavings"] = r.pick(["Yes", "No"]); tags["IFD0:Make"] = r.pick(["NIKON CORPORATION", "Canon"]); }
  if (r.bool(near ? 0.8 : 0.5)) {
    const zero = r.bool(0.1), jit = near && r.pick([0.0005, 0.005, 0.04, 0.4]);
    const la = zero ? 0 : near ? Number((near[0] + (r.float() - 0.5) * jit * 0.2).toFixed(4)) : Number((r.float() * 180 - 90).toFixed(4)), lo = zero ? 0 : near ? Number((near[1] + (r.float() * 2 - 1) * jit).toFixed(4)) : Number((r.float() * 360 - 180).toFixed(4));
    tags["GPS:GPSLatitude"] = String(Math.abs(la)); tags["GPS:GPSLongitude"] = String(Math.abs(lo));
    if (r.bool(0.85)) { tags["GPS:GPSLatitudeRef"] = la < 0 ? "S" : "N"; tags["GPS:GPSLongitudeRef"] = lo < 0 ? "W" : "E"; }
    if (r.bool(0.3)) tags["GPS:GPSAltitude"] = String(r.int(3000));
    if (r.bool(0.15)) tags["ExifTool:GeolocationTimeZone"] = r.pick(["America/Los_Angeles", "Asia/Kolkata", "Not/AZone", "UTC"]);
    if (r.bool(0.1)) tags["GPS:GPSLatitude"] = r.pick(["95", "-1.5", "0"]);
    if (r.bool(0.2)) tags["ExifTool:GeolocationPosition"] = la + ", " + lo;
  }
  for (const t of r.sample(G.STR_TAGS, r.int(3))) tags[G.key(t)] = G.text(r, tok, 0.5);
  if (r.bool(0.3)) tags["XMP-dc:Subject"] = [G.text(r, tok), G.text(r, tok)];
  if (r.bool(0.2)) tags["XMP-xmpMM:History"] = [{ Action: "saved", When: date(r) }, { Action: "x", When: date(r), Changed: "/" }];
  if (r.bool(0.15)) tags["XMP-x:Box"] = { _ctor: r.pick(["saved", "toString", "Exif", "valueOf", "7"]), Name: tok, Date: date(r) };
  if (r.bool(0.1)) tags["XMP-x:Numbered"] = r.pick([{ 0: "7", 1: "255" }, { 0: "x", 1: "8" }, [{ 0: "12" }, { 0: "9" }]]);
  if (r.bool(0.1)) tags["XMP-dc:Creator"] = r.sample([tok, "undef", "null", "x"], 3);
  if (r.bool(0.2)) tags["IFD0:Orientation"] = String(r.pick([1, 3, 6, 8]));
  if (r.bool(0.2)) tags["QuickTime:Duration"] = String(r.int(500) / 10);
  if (r.bool(0.15)) tags["XMP-x:IsValid"] = r.pick(["true", "Yes", "no", "maybe"]);
  if (r.bool(0.12)) tags["IFD0:Software"] = { __bytes: Buffer.from([0x61, 0xff, 0xe9, 0x62, r.int(256)]).toString("base64") };
  // values of another kind than the tag's name suggests
  if (r.bool(0.25)) for (const t of r.sample([...ODD_TAGS, ...Object.keys(tags)], 1 + r.int(2))) tags[t] = r.pick([() => String(r.int(3000)), () => "-1.5", () => ["2021:01:02 03:04:05", "x"], () => [tok, "12"], () => ({ Name: tok, When: date(r) }), () => "true", () => "", () => " ", () => "1e30", () => "(Binary data 12 bytes, use -b option to extract)", () => "99999999999999"])();
  if (r.bool(0.1)) tags["IFD0:HostComputer"] = r.pick(["undef", "null", "undefined"]);
  const ph = { tags, bin: r.bool(0.3) ? { ThumbnailImage: Buffer.from("thumb" + tok).toString("base64") } : {}, mime: r.weighted([[5, "image/jpeg"], [3, "video/mp4"], [1, "video/quicktime"], [1, "image/heic"]]) };
  if (r.bool(0.1)) ph.warning = "[minor] Odd " + tok;
  if (r.bool(0.05)) ph.error = "Broken " + tok;
  return ph;
}
const FN = { rome: () => "Europe/Rome", nyc: () => "America/New_York", none: () => undefined, boom: () => { throw new Error("geoTz failed"); }, plus60: () => 60, minus30: () => -30 };
const fn = (k) => FN[k.slice(3)];
/** options that change reads; functions are named ("fn:x") so that plans stay JSON */
function readOpts(r, many) {
  const all = {
    backfillTimezones: () => r.bool(), defaultVideosToUTC: () => r.bool(), inferTimezoneFromDatestamps: () => r.bool(), inferTimezoneFromTimeStamp: () => r.bool(0.7), preferTimezoneInferenceFromGps: () => r.bool(),
    ignoreZeroZeroLatLon: () => r.bool(), struct: () => r.pick([0, 1, 2]), numericTags: () => r.pick([[], ["Orientation"], ["GPSLatitude", "GPSLongitude"], ["*"], ["*Duration*", "Orientation", "GPSLatitude", "GPSLongitude"]]),
    readArgs: () => r.pick([[], ["-fast"], ["-fast", "-G"], ["-fast2"], ["-n"]]), useMWG: () => r.bool(), ignoreMinorErrors: () => r.bool(), geolocation: () => r.bool(), imageHashType: () => r.pick([false, "MD5", "SHA256", "SHA512"]), keepUTCTime: () => r.bool(),
    geoTz: () => r.pick(["fn:rome", "fn:nyc", "fn:none", "fn:boom"]), adjustTimeZoneIfDaylightSavings: () => r.pick(["fn:plus60", "fn:minus30", "fn:none"]), inferTimezoneFromDatestampTags: () => r.pick([["CreateDate"], ["SubSecDateTimeOriginal", "DateTimeOriginal"], []]),
  };
  const o = {};
  for (const k of r.sample(Object.keys(all), many ?? r.int(5))) o[k] = all[k]();
  return o;
}
const RAW_KEYS = new Set(["readArgs", "ignoreMinorErrors", "useMWG"]);
function live(o) { if (o == null) return o; const x = JSON.parse(JSON.stringify(o)); for (const [k, v] of Object.entries(x)) if (typeof v === "string" && v.startsWith("fn:")) x[k] = fn(v); return x; }
function settings(r) {
  const s = {};
  if (r.bool(0.4)) s.allowArchaicTimezoneOffsets = r.bool(0.7);
  if (r.bool(0.4)) s.allowBakerIslandTime = r.bool(0.7);
  if (r.bool(0.3)) s.maxValidOffsetMinutes = r.pick([5, 15, 30]);
  if (r.bool(0.3)) s.tzAbbreviationOffsets = r.pick([{}, { PST: -420 }, { bogus: 60 }]);
  return s;
}
function applySettings(lib, s) { lib.Settings.reset(); for (const [k, v] of Object.entries(s || {})) lib.Settings[k].value = v; }
const { sharedRequire } = require("../sim/loader");
/** luxon itself resolves local times near a transition by the zone's offset *today*;
 * if that is neither the offset before nor after the transition, its answer varies. */
function luxonUnsure(v, walls) {
  if (!walls || !v.zone || !/\//.test(v.zone)) return false;
  const z = sharedRequire("luxon").IANAZone.create(v.zone);
  if (!z.isValid) return false;
  const t = Date.UTC(v.year, v.month - 1, v.day, v.hour, v.minute), D = 36 * 3600e3;
  const near = new Set([z.offset(t - D), z.offset(t), z.offset(t + D)]);
  return near.size > 1 && walls.some((x) => !near.has(z.offset(x)) || !near.has(z.offset(x + 2 * D)));
}
/** comparable form of a read result */
function norm(v, walls) {
  if (Array.isArray(v)) return v.map((x) => norm(x, walls));
  if (Buffer.isBuffer(v) || v instanceof Uint8Array) return "bytes:" + Buffer.from(v).toString("hex");
  if (v && typeof v === "object") {
    const c = v.constructor && v.constructor.name;
    const o = {};
    if (c === "ExifDateTime" && luxonUnsure(v, walls)) return { $: c, rawValue: v.rawValue, unsure: true };
    for (const k of Object.keys(v)) o[k] = norm(v[k], walls);
    if (c && c !== "Object") { o.$ = c; if (c === "ExifDateTime") { o.$s = String(v); o.$e = v.toExifString(); o.$zone = v.zone; o.$valid = v.isValid; } else if (c === "ExifDate") o.$s = String(v); }
    return o;
  }
  return v === undefined ? null : v;
}
const strip = (o, walls) => JSON.parse(JSON.stringify(norm(o, walls)));
/** read `file` once in a fresh world. @return {ok, value|message} */
async function refRead(ctx, o) {
  const plan = { net: o.net ?? { chunking: "whole", latency: 0, gapMs: 0, serviceMs: [1, 1], bootMs: [5, 5] }, files: { [o.file]: o.entry }, wallBase: o.wallBase };
  const sim = new Sim(ctx.code, ctx.seed + "/ref/" + o.key, plan, { trace: ctx.trace });
  const host = sim.host(1);
  const lib = host.main();
  if (o.settings) applySettings(lib, o.settings);
  const et = new lib.ExifTool(live(o.opts ?? {}));
  const rec = sim.call({ kind: o.kind, file: o.file }, () => invoke(et, { kind: o.kind, file: o.file, opts: live(o.callOpts) }), host);
  await sim.w.run({ until: () => rec.settled != null, maxTime: 60000 });
  const out = rec.settled == null ? { ok: null, message: "never settled" } : rec.ok ? { ok: true, value: strip(rec.value, o.walls) } : { ok: false, message: rec.message };
  et.end(false).catch(() => {});
  await sim.w.run({ until: () => false, maxTime: sim.w.now + 3000 });
  ctx.done(sim.w, null);
  return out;
}
module.exports = { luxonUnsure, BORDERS, richPhoto, readOpts, live, settings, applySettings, strip, refRead, RAW_KEYS, FN, DATE_TAGS, date, time };
