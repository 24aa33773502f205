#!/usr/bin/env node
"use strict";
// Not a check: runs one sequence of API calls against the real vendored ExifTool
// (perl, /repo/dist must be built) and against the simulated one, and prints
// where they differ. Everything happens in a scratch directory.
const fs = require("node:fs"), os = require("node:os"), path = require("node:path");
const { compileRepo, REPO } = require("../sim/build");
const { Sim, invoke } = require("../sim/scenario");
const O = require("../lib/oracle");

const JPEG = Buffer.from("/9j/4AAQSkZJRgABAQEAYABgAAD/2wBDAAMCAgICAgMCAgIDAwMDBAYEBAQEBAgGBgUGCQgKCgkICQkKDA8MCgsOCwkJDRENDg8QEBEQCgwSExIQEw8QEBD/yQALCAABAAEBAREA/8wABgAQEAX/2gAIAQEAAD8A0s8g/9k=", "base64");
const F = (n) => "DIR/" + n;
const W = (file, tags, opts) => ({ kind: "write", file: F(file), tags, opts });
const E_ = (file, edits, opts) => ({ kind: "edit", file: F(file), edits, opts });
const R = (file, ...want) => ({ kind: "read", file: F(file), want, opts: { struct: 1 } });
const steps = [
  R("missing.jpg"), R("empty.jpg", "errors"), R("corrupt.jpg", "errors"), { kind: "readRaw", file: F("corrupt.jpg"), want: ["Error"] },
  W("missing.jpg", { Title: "x" }), W("empty.jpg", { Title: "x" }), W("corrupt.jpg", { Title: "x" }),
  W("a.xmp", { Title: "t", Subject: ["a", "b"] }), R("a.xmp", "Title", "Subject"),
  W("a.xmp", { "XMP-dc:Title": null, "XMP-dc:Subject+": "c" }), R("a.xmp", "Title", "Subject"),
  W("a.xmp", { "XMP-dc:Rights": null }), W("a.xmp", { Title: undefined }), W("a.xmp", {}), W("a.xmp", { NoSuchTagAtAll: "x" }), W("a.xmp", { Title: "kept", NoSuchTagAtAll: "x" }), R("a.xmp", "Title"),
  W("a.jpg", { Title: "T é 漢 {ready} \n line", Comment: "c", Artist: "A", Copyright: "C", Rating: 3 }), R("a.jpg", "Title", "Comment", "Artist", "Copyright", "Rating", "warnings", "errors"),
  W("a.jpg", { CreateDate: "not a date" }), R("a.jpg", "CreateDate"), W("a.jpg", { Orientation: "bogus" }), W("a.jpg", { "Orientation#": 6 }), R("a.jpg", "Orientation"), W("a.jpg", { Rating: 99999 }), W("a.jpg", { ISO: "abc" }),
  W("a.jpg", { GPSLatitude: -33.5, GPSLongitude: 151.25, GPSAltitude: -12 }), R("a.jpg", "GPSLatitude", "GPSLongitude", "GPSAltitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSAltitudeRef"), W("a.jpg", { GPSLatitude: null }), R("a.jpg", "GPSLatitude", "GPSLatitudeRef", "GPSLongitude"),
  W("a.jpg", { RegionInfo: { AppliedToDimensions: { W: 10, H: 20, Unit: "pixel" }, RegionList: [{ Name: "A,{b}|c", Type: "Face", Area: { X: 0.5, Y: 0.25, Unit: "normalized" } }] } }), R("a.jpg", "RegionInfo"),
  W("a.jpg", { "History+": [{ Action: "saved", InstanceID: "i1" }, { Action: "x" }] }), R("a.jpg", "History"),
  W("a.jpg", { LocationCreated: { City: "x|y", LocationId: ["1,2", "3"] } }), R("a.jpg", "LocationCreated"),
  E_("a.jpg", [{ tag: "XMP-dc:Subject", operation: "add", value: "k1" }, { tag: "XMP-dc:Subject", operation: "add", value: "K1" }]), R("a.jpg", "Subject"), E_("a.jpg", [{ tag: "XMP-dc:Subject", operation: "remove", value: "k1" }]), R("a.jpg", "Subject"), E_("a.jpg", [{ tag: "XMP-dc:Subject", operation: "remove", value: "absent" }]), R("a.jpg", "Subject"),
  E_("a.jpg", [{ tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: "n &amp; m", CollectionURI: "u" } }]), R("a.jpg", "Collections"), E_("a.jpg", [{ tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { CollectionName: "n &amp; m" } }]), R("a.jpg", "Collections"),
  W("a.jpg", { Title: "o" }, { writeArgs: ["-overwrite_original"] }), R("a.jpg", "Title"), { exists: F("a.jpg_original") },
  { kind: "extract", tag: "ThumbnailImage", file: F("a.jpg"), dest: F("t1.jpg") }, { kind: "extract", tag: "ThumbnailImage", file: F("missing.jpg"), dest: F("t1.jpg") }, { kind: "buffer", tag: "ThumbnailImage", file: F("a.jpg") }, { kind: "buffer", tag: "ThumbnailImage", file: F("missing.jpg") },
  { kind: "extract", tag: "ThumbnailImage", file: F("thumb.jpg"), dest: F("n1/n2/t.jpg") }, { exists: F("n1/n2/t.jpg") }, { kind: "extract", tag: "ThumbnailImage", file: F("thumb.jpg"), dest: F("n1/n2/t.jpg") }, { kind: "extract", tag: "thumbnailimage", file: F("thumb.jpg"), dest: F("n1/n2/t.jpg"), opts: { forceWrite: true } }, { kind: "buffer", tag: "thumbnailImage", file: F("thumb.jpg") },
  { kind: "rewrite", file: F("a.jpg"), dest: F("m1/m2/r.jpg") }, { exists: F("m1/m2/r.jpg") }, { kind: "rewrite", file: F("a.jpg"), dest: F("m1/m2/r.jpg") }, R("m1/m2/r.jpg", "Title", "Artist", "Rating"), { kind: "rewrite", file: F("missing.jpg"), dest: F("r2.jpg") }, { exists: F("r2.jpg") }, { kind: "rewrite", file: F("corrupt.jpg"), dest: F("r3.jpg") }, { kind: "rewrite", file: F("empty.jpg"), dest: F("r4.jpg") },
  { kind: "deleteAll", file: F("a.jpg"), opts: { retain: ["Title", "Rating", "GPSLongitude"] } }, R("a.jpg", "Title", "Rating", "Artist", "GPSLongitude", "Subject"), { kind: "deleteAll", file: F("missing.jpg") }, { kind: "deleteAll", file: F("a.jpg") }, R("a.jpg", "Title", "Rating"), { kind: "deleteAll", file: F("a.jpg") }, { kind: "deleteAll", file: F("corrupt.jpg") },
  { kind: "version" },
];
const S = (v) => JSON.stringify(v, (k, x) => (x && x.constructor && /^Exif/.test(x.constructor.name) ? String(x) : Buffer.isBuffer(x) ? "bytes" : x));
const fix = (op, dir) => JSON.parse(JSON.stringify(op).replace(/DIR/g, dir));
function outcome(op, r, dir) {
  const clean = (s) => String(s).split(dir).join("DIR");
  if (!r.ok) return "REJECT " + clean(r.message);
  if (op.want) return "ok " + clean(S(Object.fromEntries(op.want.map((k) => [k, r.value[k]]))));
  if (op.kind === "buffer") return "ok " + r.value.length + " bytes";
  return "ok " + clean(S(r.value));
}
(async () => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "conf-"));
  try {
    const { ExifTool } = require(path.join(REPO, "dist/ExifTool.js"));
    const et = new ExifTool();
    fs.writeFileSync(dir + "/a.jpg", JPEG); fs.writeFileSync(dir + "/thumb.jpg", JPEG); fs.writeFileSync(dir + "/empty.jpg", ""); fs.writeFileSync(dir + "/corrupt.jpg", "not a photo");
    fs.writeFileSync(dir + "/th.bin", JPEG);
    await et.write(dir + "/thumb.jpg", {}, { writeArgs: ["-ThumbnailImage<=" + dir + "/th.bin", "-overwrite_original"] });
    const real = [];
    for (const op of steps) {
      const o = fix(op, dir);
      if (o.exists) { real.push("exists " + fs.existsSync(o.exists)); continue; }
      const rec = await Promise.resolve().then(() => invoke(et, o)).then((value) => ({ ok: true, value }), (e) => ({ ok: false, message: e.message }));
      real.push(outcome(op, rec, dir));
    }
    await et.end();
    const plan = { net: { chunking: "whole", latency: 0, gapMs: 0, serviceMs: [1, 1], bootMs: [5, 5] }, files: { "/photos/a.jpg": { photo: { tags: {}, bin: {} } }, "/photos/thumb.jpg": { photo: { tags: {}, bin: { ThumbnailImage: JPEG.toString("base64") } } }, "/photos/empty.jpg": { empty: true }, "/photos/corrupt.jpg": { corrupt: true } } };
    const sim = new Sim(compileRepo(), "conf", plan);
    const host = sim.host(1), lib = host.main(), st = new lib.ExifTool();
    const got = [];
    for (const op of steps) {
      const o = fix(op, "/photos");
      if (o.exists) { got.push("exists " + !!sim.disk.get(o.exists)); continue; }
      const rec = sim.call({ kind: o.kind }, () => invoke(st, o), host);
      await sim.w.run({ until: () => rec.settled != null, maxTime: sim.w.now + 120000 });
      got.push(outcome(op, rec, "/photos"));
    }
    let same = 0;
    steps.forEach((op, i) => { if (real[i] === got[i]) same++; else console.log(`${S(op).slice(0, 200)}\n  real ${real[i]}\n  sim  ${got[i]}`); });
    console.log(`${same} of ${steps.length} steps agree`);
    process.exit(0);
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
})().catch((e) => { console.error(e); process.exit(2); });
