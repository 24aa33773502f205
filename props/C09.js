"use strict";
// Command containment: nothing a caller passes as data can become another
// ExifTool argument or command, or reach a file the caller did not name.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { Sim, invoke } = require("../sim/scenario");
const { decodePhoto } = require("../sim/exif");

const V = "/photos/victim.jpg";
const BREAKS = ["\n", "\r", "\r\n", "\n\n", "\0", "\u0085", "\u2028", "\u000b", "\f", " ", "\t", "\n ", "\r "];
const TAILS = [
  (b) => `-all=${b}${V}`, (b) => `-execute${b}-all=${b}${V}${b}-execute`, (b) => `-Title=pwned${b}${V}`, (b) => `-o${b}/out/stray.jpg`, (b) => `-W${b}/out/stray.bin`,
  (b) => V, (b) => `-tagsfromfile${b}${V}`, (b) => `-stay_open${b}False${b}`, (b) => `-execute${b}-Title=pwned${b}${V}`, (b) => `-config${b}/tmp/evil`, (b) => `-if${b}system('x')`, (b) => `-overwrite_original${b}-all=${b}${V}`, (b) => "", (b) => `#${b}-execute`,
];
/** option-like text without any break: in the place of a tag name it must not reach ExifTool as an option */
const BARE = ["execute", "Execute", "execute7", "o", "out", "W", "w", "p", "if", "if3", "restore_original", "delete_original", "delete_original!", "RESTORE_original", "overwrite_original!", "tagsfromfile", "addTagsFromFile", "srcfile", "stay_open", "config", "diff", "r", "common_args", "@", "o!", "-o", "csv=/photos/victim.jpg", "json+=/photos/victim.jpg", "filename=/out/stray.jpg", "Title<FileName", "all=", "Title=x", "tagOut", "textOut", "echo", "file1", "efile", "api", "userParam", "use", "require"];
/** write keys that ExifTool takes for options naming a file */
const IMPORTS = ["csv", "CSV", "json", "j", "json+", "csv+", "TagsFromFile", "tagsfromfile", "AddTagsFromFile", "alltagsfromfile"];
const NAMES = ["Title", "XMP-dc:Title", "Rating", "Orientation", "ThumbnailImage", "Artist", "Label"];
/** one argument, no break: reads or writes other files, yet ends (or starts) like an innocent tag name */
const ONELINE = ["Comment<=/photos/victim.jpg", "o /out/stray.jpg", "FileName<Title", "csv=/photos/victim.jpg", "-execute", "TestName=x", "Directory=/out/stray", "if $x", "geotag=/photos/victim.jpg", "Title=x", "@ /photos/victim.jpg"];
function disguised(r) { const n = r.pick(NAMES), x = r.pick(ONELINE); return r.pick([`${x}:${n}`, `${n}:${x}`, `${x}${n}`, `${n}-${x}`, `${n}#${x}`, `${n}${x}`]); }
function hostile(r, base) {
  if (r.bool(0.08)) return disguised(r);
  const b = r.pick(BREAKS);
  const t = r.pick(TAILS)(r.bool(0.7) ? b : r.pick(BREAKS));
  switch (r.int(4)) { case 0: return base + b + t; case 1: return b + t; case 2: return base + b + t + r.pick(BREAKS) + base; default: return t + b + base; }
}
function genOp(r, i, own) {
  const kind = r.pick(["read", "readRaw", "write", "write", "write", "edit", "deleteAll", "extract", "buffer", "rewrite"]);
  const op = { kind, file: r.pick(own), inst: 0, gap: r.bool(0.7) ? 0 : r.float() * 200 };
  const h = (b) => hostile(r, b);
  const ha = (b) => b + r.pick(["\n", "\r", "\r\n", "\0\n", "\n\n"]) + r.pick(TAILS)(r.pick(["\n", "\r\n"])); // an extra argument with a second one inside
  if (r.bool(0.25)) { op.file = h(op.file); op.weird = "file"; }
  switch (kind) {
    case "read": if (r.bool(0.7)) op.opts = r.pick([{ numericTags: ["Orientation", h("Rating")] }, { numericTags: [h("*")] }, { numericTags: Array.from({ length: 1 + r.int(9) }, () => (r.bool(0.3) ? h("Rating") : r.pick(["Orientation", "*GPS*", "XMP:Rating"]))) }, { numericTags: [r.pick(BARE)] }, { imageHashType: h("MD5") }, { readArgs: ["-fast", ha("-Title")] }, { struct: h("1") }, { geolocation: h("x") }, { useMWG: h("MWG") }, { ignoreMinorErrors: h("true") }, { keepUTCTime: h("1") }]); break;
    case "readRaw": if (r.bool(0.7)) op.opts = r.pick([{ readArgs: [ha("-fast")] }, { useMWG: h("x") }, { ignoreMinorErrors: h("y") }]); break;
    case "write": {
      op.tags = { Title: "own" + i };
      const n = 1 + r.int(2);
      for (let k = 0; k < n; k++) switch (r.int(11)) {
        case 9: op.tags[r.pick(IMPORTS)] = r.pick([V, "/photos/honest.jpg", h("x")]); break;
        case 10: op.tags[r.pick(BARE)] = "x"; break;
        case 0: case 1: op.tags[r.pick(["Description", "Artist", "Comment"])] = h("v" + i); break;
        case 2: op.tags[r.pick(G.LIST_TAGS)] = [h("a"), "b", h("c")]; break;
        case 3: op.tags[h("Label")] = "x"; break;
        case 4: op.tags.Collections = [{ CollectionName: h("n"), CollectionURI: h("u") }]; break;
        case 5: op.tags.LocationCreated = { [h("City")]: "x", City: "y" }; break;
        case 6: op.tags.RegionInfo = { RegionList: [{ Name: h("r"), Area: { Unit: h("z") } }] }; break;
        case 7: op.tags.CreateDate = h("2020:01:01 00:00:00"); break;
        case 8: op.opts = r.pick([{ writeArgs: ["-overwrite_original", ha("-P")] }, { struct: h("2") }, { useMWG: h("q") }, { ignoreMinorErrors: h("true") }]); break;
      }
      break;
    }
    case "edit": op.edits = r.pick([[{ tag: h("IPTC:Keywords"), operation: "add", value: "x" }], [{ tag: "XMP-dc:Subject", operation: "add", value: h("v") }], [{ tag: "XMP-dc:Subject", operation: h("add"), value: "v" }], [{ tag: "XMP-mwg-coll:Collections", operation: "add", value: { CollectionName: h("c"), CollectionURI: h("u") } }], [{ tag: "XMP-mwg-coll:Collections", operation: "remove", predicate: { [h("CollectionName")]: "c" } }]]); if (r.bool(0.2)) op.opts = { writeArgs: [ha("-P")] }; break;
    case "deleteAll": op.opts = { retain: ["Title", r.bool(0.7) ? h("Rating") : r.pick(BARE)] }; if (r.bool(0.3)) op.opts = { retain: ["Title"], ignoreMinorErrors: h("t") }; break;
    case "extract": op.tag = r.pick([h("ThumbnailImage"), r.pick(BARE), "ThumbnailImage"]); op.dest = r.bool() ? h("/out/d" + i) : "/out/d" + i; if (r.bool(0.2)) op.opts = { forceWrite: h("t") }; break;
    case "buffer": op.tag = r.bool() ? h("PreviewImage") : r.pick(BARE); break;
    case "rewrite": op.dest = h("/out/r" + i); if (r.bool(0.2)) op.opts = { allowMakerNoteRepair: h("t") }; break;
  }
  return op;
}
/** arguments that make ExifTool touch other files, run code or start another command */
const DANGEROUS = /^-(o|out|w!?|(add|all)?tagsfromfile(=.*)?|config|api|echo\d?|efile\d*|file\d+|tagout!?|textout!?|use|userparam|require|if\d*|p|@|execute\d*|stay_open|common_args|srcfile|args|argfile|listitem|csv(\+?=.*)?|j(son)?\+?=.*|geotag(=.*)?|filename=.*|directory=.*|delete_original!?|restore_original|r(ecurse)?|fixbase|diff)$/i;
module.exports = {
  id: "C09", runs: { quick: 5000, thorough: 400000 },
  rule: "Seeded plan: concurrent calls of all kinds in which file names, destination names, tag names, retained tags, numeric tags, values, list items, structure keys and fields, option values and extra arguments carry line breaks, NULs, exotic separators followed by ExifTool options, -execute or another file's name; light crash faults; honest reads interleave and verify that the command stream stays in step.",
  nontrivialRule: "at least one hostile call reached the API", nontrivial: (r) => r.ops > 1,
  gen(r) {
    const files = { [V]: { photo: G.photo(r, "victim") }, "/photos/own0.jpg": { photo: { ...G.photo(r, "own0"), bin: { ThumbnailImage: "AAEC", PreviewImage: "AwQF" } } }, "/photos/own1.jpg": { photo: { ...G.photo(r, "own1"), bin: { ThumbnailImage: "AAEC" } } }, "/photos/honest.jpg": { photo: G.photo(r, "honest") } };
    const n = 2 + r.int(7);
    const ops = Array.from({ length: n }, (_, i) => genOp(r, i, ["/photos/own0.jpg", "/photos/own1.jpg"]));
    const clients = [];
    const k = 1 + r.int(3);
    for (let i = 0; i < k; i++) clients.push({ ops: ops.filter((_, j) => j % k === i) });
    clients.push({ ops: Array.from({ length: 1 + r.int(5) }, () => ({ kind: r.pick(["readRaw", "read"]), file: "/photos/honest.jpg", inst: 0, honest: true, gap: r.bool() ? 0 : r.float() * 300 })) });
    return { net: G.net(r), timerLateness: 0, insts: [{ ...G.opts(r), taskTimeoutMillis: 5000, maxProcs: r.pick([1, 1, 2]) }], files, clients, faults: r.bool(0.8) ? [] : G.faults(r, { span: n + 4, cmds: 1, spawns: 0, times: 0 }) };
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const w = sim.w, disk = sim.disk;
    const host = sim.host(1);
    const lib = host.main();
    const et = new lib.ExifTool({ ...plan.insts[0] });
    const before = new Map([...disk.files].map(([k, v]) => [k, v.data]));
    w.setFaults(plan.faults);
    let live = plan.clients.length;
    for (const [ci, c] of plan.clients.entries()) (async () => {
      for (const op of c.ops) {
        if (op.gap > 0) await sim.sleep(op.gap);
        const call = JSON.parse(JSON.stringify(op));
        const rec = sim.call({ ...op, client: ci }, () => invoke(et, call), host);
        await rec.done;
      }
      live--;
    })();
    const lim = P.bound(plan);
    const outcome = await w.run({ until: () => live === 0, maxTime: lim, maxEvents: 400000 });
    if (outcome !== "until") ctx.violate("stuck", `calls are pending after ${Math.round(w.now)} ms: ${sim.ops.filter((x) => x.settled == null).map((x) => x.kind + " " + O.S(x.file)).join(", ")}`);
    await w.run({ until: () => false, maxTime: w.now + 5000, maxEvents: 50000 });
    // what callers named
    const sources = new Set(), outs = new Set(), extra = new Set();
    for (const x of sim.ops) { sources.add(O.abs(x.file)); if (x.dest != null) outs.add(O.abs(x.dest)); for (const a of [].concat(x.opts?.readArgs ?? [], x.opts?.writeArgs ?? [])) extra.add(a); }
    const owners = new Set([...sources].flatMap((f) => [f, f + "_original", f + "_exiftool_tmp"]));
    const DATA = { write: true, edit: true, deleteAll: true };
    for (const c of w.commands) {
      if (c.args.length === 1 && c.args[0] === "-ver") continue;
      const o = c.parsed; // absent if the child died before it ran
      const a = c.args;
      for (let i = 0; i < a.length; i++) {
        if (/[\r\n\0]/.test(a[i])) ctx.violate("control-character", `ExifTool received the argument ${O.S(a[i])}`);
        // (an argument that follows one of these is that option's value)
        if (a[i][0] === "-" && !/^-W!$/.test(a[i]) && !/^-(charset|api|use|sep|w!?|o|out|tagsfromfile)$/i.test(a[i - 1] ?? "") && !extra.has(a[i]) && !/^-[\w:*?+#^-]+([-+^]?=|<[\w:*?+#^-]*$|$)/.test(a[i])) ctx.violate("malformed-tag", `ExifTool received ${O.S(a[i])} where a tag name belongs`);
        if (!DANGEROUS.test(a[i]) || extra.has(a[i])) continue;
        const next = a[i + 1];
        if (/^-(w!?|o|out)$/i.test(a[i]) && outs.has(next)) continue;
        if (/^-api$/.test(a[i]) && /^(struct=|requesttags=|imagehashtype=|geolocation$|keepUTCTime$|filter)/i.test(next)) continue;
        if (/^-use$/.test(a[i]) && next === "MWG") continue;
        if (/^-tagsfromfile$/i.test(a[i]) && next === "@" && sim.ops.some((x) => x.kind === "rewrite")) continue;
        ctx.violate("injected-argument", `ExifTool received ${O.S(a)}: argument ${O.S(a[i])} was not asked for`);
      }
      if (!o) continue;
      if (o.files.length > 1) ctx.violate("many-files", `one command names ${o.files.length} files: ${O.S(a)}`);
      for (const f of o.files) if (!sources.has(f)) ctx.violate("unnamed-file", `ExifTool was pointed at ${O.S(f)}, which no caller named: ${O.S(a)}`);
    }
    const bound = sim.ops.reduce((n, x) => n + (O.RETRIABLE.has(x.kind) ? 1 + plan.insts[0].taskRetries : 1), 0);
    const work = w.commands.filter((c) => !(c.args.length === 1 && c.args[0] === "-ver"));
    if (work.length > bound) ctx.violate("extra-commands", `${work.length} commands were executed for ${sim.ops.length} calls`);
    // a call's data stays in the call's own file
    for (const [f, d] of before) if (!sources.has(f) && !outs.has(f) && !(disk.get(f) && disk.get(f).data.equals(d))) ctx.violate("foreign-file", `${f} was ${disk.get(f) ? "changed" : "deleted"}`);
    for (const f of disk.files.keys()) if (!before.has(f) && !owners.has(f) && !outs.has(f)) ctx.violate("stray-file", `${O.S(f)} was created`);
    const vict = disk.get(V);
    if (!sim.ops.some((x) => O.abs(x.file) === V) && !vict.data.equals(before.get(V))) ctx.violate("victim-changed", O.S(decodePhoto(vict.data)));
    for (const x of sim.ops) {
      if (x.weird && x.ok && O.MUT.has(x.kind) && x.value.updated > 0) ctx.violate("odd-path-written", `${x.kind}(${O.S(x.file)}) reports ${O.S(x.value)}`);
      if (x.honest && x.ok) {
        if (x.value.SourceFile !== "/photos/honest.jpg") ctx.violate("out-of-step", `honest read returned ${O.S(x.value)}`);
        const cs = O.commandsOf(w, x).filter((c) => O.within(c, x, 1) && O.answered(c));
        if (!cs.some((c) => O.readMismatch(x.kind, x.value, c) == null)) ctx.violate("out-of-step", `honest ${x.kind} returned something ExifTool did not say: ${O.S(x.value)}`);
      }
      if (x.honest && x.ok === false && plan.faults.length === 0) ctx.violate("honest-read-failed", x.message);
      if (!x.honest) ctx.probe(x.ok ? "hostile-accepted" : "hostile-refused");
    }
    await P.finish(ctx, { w, sim, insts: [et] });
  },
};
