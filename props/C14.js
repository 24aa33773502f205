"use strict";
// Tag descriptions are those of the running ExifTool in the requested
// language, whatever happened to the cache on disk or to earlier attempts.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { Sim } = require("../sim/scenario");

const NAMES = ["BitsPerSample", "Zorblax", "ISO", "Title", "Flash", "SerialNumber", "FocusMode", "LensInfo", "Quality", "XResolution", "constructor", "toString", "ColorMode", "Make"];
const LANGS = ["en", "de", "fr", "zh_cn", "en_ca"];
const BITS = ["Bits", "per", "Sample", "a<b", "R&D", "\"quoted\"", "l'image", "é", "漢字", "1.5 > 1", "&lt;", "mode"];
const esc = (s) => s.replace(/[&<>"']/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#39;" })[c]);
/** db: [{name, table, desc:{lang:text}}] -> -listx text */
function xml(db) {
  const tables = new Map();
  for (const t of db) (tables.get(t.table) ?? tables.set(t.table, []).get(t.table)).push(t);
  let s = "<?xml version='1.0' encoding='UTF-8'?>\n<!-- Generated by Image::ExifTool -->\n<taginfo>\n\n";
  for (const [n, ts] of tables) {
    s += `<table name='${n}' g0='${n}' g1='${n}' g2='Image'>\n <desc lang='en'>${n} table</desc>\n`;
    for (const [i, t] of ts.entries()) s += ` <tag id='${i}' name='${t.name}' type='string' writable='true'>\n` + Object.entries(t.desc).map(([l, d]) => `  <desc lang='${l}'>${esc(d)}</desc>\n`).join("") + (t.values ? "  <values>\n   <key id='1'>\n    <val lang='en'>On</val>\n   </key>\n  </values>\n" : "") + " </tag>\n";
    s += "</table>\n\n";
  }
  return s + "</taginfo>\n";
}
/** languages nobody has, or that mean something to a pattern or a path */
const ODD = ["", "(", "[", "*", "e.", ".*", "en|de", "\\w+", "xx", "../../../evil", "a/../../../../evil", "/evil", "de/fr", "en'", "$&", "C:\\x"];
const OTHER = (v) => `/opt/exiftool-${v}/exiftool`;
const describes = (t, lang) => t.desc[lang] ?? t.desc[lang.toLowerCase()];
const allowed = (db, name, lang) => db.filter((t) => t.name === name && describes(t, lang) != null).map((t) => describes(t, lang));

module.exports = {
  id: "C14", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: 1-3 generations of 1-3 concurrent host processes sharing a cache directory, ExifTool or the library upgraded between generations, several languages, caches disabled or not, stale/corrupt/foreign cache files; concurrent preload/getAsync/getAll/get/clear; ExifTool crashes, hangs, error and truncated replies; failing, short, torn and slow file operations; host crashes inside a cache write or at any time with unsynced data lost or torn; then faults stop. Every answer is compared with the generated tag database of the ExifTool version running.",
  nontrivialRule: "a description that only ExifTool can supply was returned", nontrivial: (r) => (r.probes["answered"] || 0) > 0,
  gen(r) {
    const mkdb = (v) => Array.from({ length: 3 + r.int(7) }, (_, i) => { const d = {}; if (r.bool(0.9)) d.en = r.sample(BITS, 1 + r.int(3)).join(" ") + " v" + v + i; for (const l of LANGS.slice(1)) if (r.bool(0.5)) d[l] = r.sample(BITS, 1 + r.int(3)).join(" ") + " " + l + v + i; return { name: r.pick(NAMES), table: r.pick(["Exif::Main", "XMP::dc", "Canon::Main"]), desc: d, values: r.bool(0.2) }; });
    const versions = [["13.50", mkdb("a")], ["13.59", mkdb("b")], ["13.5", mkdb("c")]];
    const dirs = ["/cache", "/cache/deep/er"];
    const nStage = r.weighted([[2, 1], [4, 2], [2, 3]]);
    const langs = r.sample(LANGS, 1 + r.int(2)); if (r.bool(0.15)) langs.push(r.pick(ODD)); if (r.bool(0.06)) langs.push(r.pick(["DE", "Fr"])); const lang = () => r.pick(langs);
    const dir = r.pick(dirs);
    let v = r.int(3);
    const stages = Array.from({ length: nStage }, () => {
      if (r.bool(0.4)) v = r.int(3);
      return { v, ...(r.bool(0.15) ? { newLib: true } : {}), hosts: Array.from({ length: r.weighted([[4, 1], [3, 2], [1, 3]]) }, () => {
        const descs = Array.from({ length: r.weighted([[3, 1], [1, 2]]) }, () => { const o = {}; if (r.bool(0.85)) o.cacheDir = r.bool(0.9) ? dir : r.pick(dirs); const l = lang(); if (l !== "en" || r.bool(0.3)) o.language = l; else if (r.bool(0.1)) o.language = null; if (r.bool(0.15)) o.disableDiskCache = true; return o; });
        if (r.bool(0.2)) r.pick(descs).other = (v + 1 + r.int(2)) % 3; // a second ExifTool on this machine
        const h = { opts: { ...G.opts(r), maxProcs: r.pick([1, 2]), taskTimeoutMillis: r.pick([500, 2000, 30000]) }, descs, ops: Array.from({ length: 1 + r.int(6) }, () => ({ d: r.int(descs.length), kind: r.weighted([[5, "getAsync"], [3, "preload"], [2, "getAll"], [3, "get"], [1, "clear"]]), tag: r.pick(NAMES), gap: r.bool(0.6) ? 0 : r.float() * 400, bg: r.bool(0.5) })) };
        if (r.bool(0.25)) { h.crashAt = r.float() * 900; h.lose = r.bool(0.7); }
        return h;
      }) };
    });
    const pre = [];
    if (r.bool(0.35)) pre.push({ dir, v: r.int(3), lang: lang(), kind: r.pick(["truncated", "null", "array", "nodesc", "otherVersion", "otherLang", "empty", "html", "string", "nulldesc", "long", "longother"]) });
    // (what it claims may be close to what is wanted)
    for (const x of pre) if (r.bool(0.7)) { const t = x.kind === "otherLang" ? x.lang : versions[x.v][0]; x.as = r.pick([t + "1", t.slice(0, -1), "", t + "_CA", t.toUpperCase(), " " + t, null]); if (x.as === t) delete x.as; }
    const fsFaults = r.bool(0.5) ? [] : Array.from({ length: 1 + r.int(3) }, () => ({ op: r.pick(["write", "write", "write", "open", "mkdir", "exists", "rename"]), n: 1 + r.int(4), ...r.pick([{ code: "EACCES" }, { code: "ENOSPC" }, { code: "EIO" }, { code: "EMFILE" }, { torn: r.float(), err: "ENOSPC" }, { crash: true, keep: r.float() }, { slow: r.float() * 800, keep: r.float() }, { short: r.float() }]) }));
    const cut = xml(versions[0][1]);
    const kinds = [...G.CMD_FAULTS.filter(([, f]) => !/noise/.test(String(f))), [4, (q) => ({ kind: "garbage", text: cut.slice(0, q.int(cut.length - 4)) /* (less than the closing tag) */ })], [3, () => ({ kind: "errorReply" })]];
    const plan = { net: G.net(r), timerLateness: r.pick([0, 0, 15]), versions, stages, pre, fsFaults, faults: r.bool(0.4) ? [] : G.faults(r, { span: 6, cmdKinds: kinds, spawns: r.int(2), times: r.int(2), timeSpan: 1500, timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) }) };
    // (a reply that trickles in byte by byte can exceed a short time-out)
    if (plan.faults.length === 0) for (const s of stages) for (const h of s.hosts) { h.opts.taskTimeoutMillis = 30000; h.opts.spawnTimeoutMillis = 30000; }
    return plan;
  },
  *shrink(plan) {
    const cl = () => JSON.parse(JSON.stringify(plan));
    for (let i = 0; i < plan.stages.length; i++) if (plan.stages.length > 1) { const c = cl(); c.stages.splice(i, 1); yield c; }
    for (let i = 0; i < plan.stages.length; i++) for (let j = 0; j < plan.stages[i].hosts.length; j++) {
      if (plan.stages[i].hosts.length > 1) { const c = cl(); c.stages[i].hosts.splice(j, 1); yield c; }
      const h = plan.stages[i].hosts[j];
      for (let k = 0; k < h.ops.length; k++) { const c = cl(); c.stages[i].hosts[j].ops.splice(k, 1); yield c; }
      if (h.crashAt != null) { const c = cl(); delete c.stages[i].hosts[j].crashAt; yield c; }
    }
    for (let i = 0; i < plan.fsFaults.length; i++) { const c = cl(); c.fsFaults.splice(i, 1); yield c; }
    for (let i = 0; i < plan.pre.length; i++) { const c = cl(); c.pre.splice(i, 1); yield c; }
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const { w, disk } = sim;
    const fsn = {};
    const isCache = (p) => p.startsWith("/cache") || p.startsWith("/tmp/");
    let fsOff = false;
    disk.hook = (op, p) => {
      if (!isCache(p)) return undefined;
      fsn[op] = (fsn[op] || 0) + 1;
      if (fsOff) return undefined;
      return plan.fsFaults.find((f) => f.op === op && f.n === fsn[op] && !((f.torn != null || f.slow != null) && op !== "write") && !(f.short != null && op !== "open") && !(f.crash && op !== "write" && op !== "rename"));
    };
    for (const x of plan.pre) {
      const ver = plan.versions[x.v][0], good = { version: ver, language: x.lang, generatedAt: "2020-01-01T00:00:00.000Z", descriptions: { Zorblax: { desc: "FOREIGN" }, ISO: { desc: "FOREIGN" } } };
      const t = { truncated: JSON.stringify(good).slice(0, -7), null: "null", array: "[]", nodesc: JSON.stringify({ version: ver, language: x.lang }), otherVersion: JSON.stringify({ ...good, version: x.as ?? "12.00" }), otherLang: JSON.stringify({ ...good, language: x.as ?? "qq" }), empty: "", html: "<html>", long: JSON.stringify({ ...good, descriptions: Object.fromEntries(Array.from({ length: 60 }, (_, i) => ["T" + i, { desc: "x".repeat(80) }])) }).slice(0, -7), longother: JSON.stringify({ ...good, version: "12.00", descriptions: Object.fromEntries(Array.from({ length: 60 }, (_, i) => ["T" + i, { desc: "x".repeat(80) }])) }), string: '"x"', nulldesc: JSON.stringify({ ...good, descriptions: null }) }[x.kind];
      disk.put(`${x.dir}/tag-descriptions-${ver}-${x.lang}.json`, t);
    }
    w.setFaults(plan.faults);
    disk.installs = {};
    plan.versions.forEach(([version, db], i) => { disk.put(OTHER(i), "exiftool", 0o755); disk.installs[OTHER(i)] = { version, listx: xml(db) }; });
    const curated = Object.create(null);
    let hid = 0;
    const listx = (h) => w.commands.filter((c) => c.args.includes("-listx") && w.spawns[c.child - 1].child.host === h).length;
    const check = (db, h, spec, what, tag, v) => {
      const lang = spec.language ?? "en";
      const cur = lang === "en" ? curated[tag] : undefined;
      if (cur !== undefined) { if (!O.eq(v, cur)) ctx.violate("wrong-description", `${what} ${tag} (${lang}): ${O.S(v)} instead of the curated ${O.S(cur)}`); return; }
      const ok = allowed(db, tag, lang);
      ctx.probe("answered");
      if (ok.length === 0 ? v !== undefined : !(v && typeof v === "object" && ok.includes(v.desc))) ctx.violate("wrong-description", `${what} ${tag} (${lang}): ${O.S(v)}; ExifTool says ${O.S(ok)}`);
    };
    const checkAll = (db, h, spec, what, m) => {
      const lang = spec.language ?? "en";
      const want = new Set(db.filter((t) => describes(t, lang) != null).map((t) => t.name));
      const got = m && typeof m.keys === "function" ? [...m.keys()] : [];
      for (const n of want) if (!got.includes(n)) { ctx.violate("missing-description", `${what} (${lang}) has no entry for ${n}, which ExifTool describes`); return; }
      for (const n of NAMES) if (want.has(n) || m.get(n) !== undefined) check(db, h, spec, what, n, m.get(n));
      if (lang !== "en") for (const n of got) if (!want.has(n)) { ctx.violate("wrong-description", `${what} (${lang}) has ${n}, which ExifTool does not describe in that language`); return; }
    };
    const loadedOk = new Set(); // dir|version|lang believed to be cached
    const calm = plan.faults.length === 0 && plan.fsFaults.length === 0 && !plan.stages.some((s) => s.hosts.some((h) => h.crashAt != null));
    const runHost = (spec, db, ver, alone) => {
      const host = sim.host(++hid);
      const lib = host.main();
      const et = new lib.ExifTool({ ...spec.opts });
      const two = spec.descs.find((d) => d.other != null);
      const et2 = two ? new lib.ExifTool({ ...spec.opts, exiftoolPath: OTHER(two.other) }) : null;
      const db1 = db, dbOf = (d) => (d.other != null ? plan.versions[d.other][1] : db1);
      if (et2) ctx.probe("two-exiftools");
      const TD = lib.TagDescriptions;
      if (hid === 1) { const fresh = new TD(et); for (const n of NAMES) { const c = fresh.get(n); if (c !== undefined && typeof c !== "function") curated[n] = JSON.parse(JSON.stringify(c)); } for (const n of ["constructor", "toString"]) if (fresh.get(n) !== undefined) ctx.violate("wrong-description", `get(${n}) before loading: ${O.S(String(fresh.get(n)))}`); }
      const descs = spec.descs.map(({ other, ...d }) => new TD(other != null ? et2 : et, Object.keys(d).length ? { ...d, ...(d.language === null ? { language: undefined } : {}) } : undefined));
      const keyOf = (d) => d.disableDiskCache || d.other != null ? null : `${d.cacheDir ?? "/tmp/exiftool-vendored"}|${ver}|${d.language ?? "en"}`;
      const cachedAtStart = spec.descs.map((d) => loadedOk.has(keyOf(d)));
      const H = { host, et, et2, done: false, recs: [], cleared: spec.ops.some((o) => o.kind === "clear") };
      (async () => {
        for (const op of spec.ops) {
          if (op.gap > 0) await sim.sleep(op.gap);
          if (host.dead) break;
          const td = descs[op.d], ds = spec.descs[op.d], db = dbOf(ds);
          if (op.kind === "clear") { td.clear(); if (td.isLoaded) ctx.violate("clear-did-not-clear", "isLoaded after clear()"); const v = td.get(op.tag); if (v !== undefined && !O.eq(v, (ds.language ?? "en") === "en" ? curated[op.tag] : undefined)) ctx.violate("clear-did-not-clear", `get(${op.tag}) after clear(): ${O.S(v)}`); continue; }
          if (op.kind === "get") { const l = td.isLoaded, v = td.get(op.tag); if (l) check(db, host, ds, "get", op.tag, v); else if (v !== undefined && !O.eq(v, (ds.language ?? "en") === "en" ? curated[op.tag] : undefined)) ctx.violate("wrong-description", `get(${op.tag}) before loading: ${O.S(v)}`); if (l && td.size === 0 && db.length && (ds.language ?? "en") === "en") ctx.violate("missing-description", "loaded, but empty"); continue; }
          const rec = sim.call({ kind: op.kind, file: op.tag, ds, inst: hid }, () => (op.kind === "getAsync" ? td.getAsync(op.tag) : op.kind === "preload" ? td.preload() : td.getAll()), host);
          H.recs.push(rec);
          rec.done.then(() => {
            if (host.dead || rec.settled == null) return;
            if (rec.ok) {
              if (op.kind === "getAsync") check(db, host, ds, "getAsync", op.tag, rec.value);
              if (op.kind === "getAll") checkAll(db, host, ds, "getAll", rec.value);
              if (op.kind === "preload" && !H.cleared && !td.isLoaded) ctx.violate("preload-did-not-load", "preload() resolved, but nothing is loaded");
            } else if (plan.faults.length === 0 && (spec.opts.taskTimeoutMillis ?? 30000) >= 30000) ctx.violate("cache-failure-surfaced", `${op.kind}(${op.tag}) rejected although ExifTool answered every command: ${rec.message}`);
          });
          if (!op.bg) await rec.done;
        }
        H.done = true;
      })();
      if (spec.crashAt != null) w.after(spec.crashAt, () => { if (!host.dead) host.crash(spec.lose ? w.rng.fork("lose", host.id) : undefined); }, "host-crash");
      H.isDone = () => host.dead || (H.done && H.recs.every((x) => x.settled != null));
      H.close = () => {
        if (calm) {
          for (const [i, d] of spec.descs.entries()) {
            const used = H.recs.some((x) => x.ds === d && x.ok && x.kind !== "getAsync" || x.ds === d && x.ok && !((d.language ?? "en") === "en" && curated[x.file] !== undefined));
            if (used && keyOf(d)) loadedOk.add(keyOf(d));
          }
          const n = listx(host);
          const max = H.cleared || et2 ? Infinity : spec.descs.filter((d, i) => !cachedAtStart[i]).length;
          if (n > max) ctx.violate("queried-again", `ExifTool was asked for its tag database ${n} times by one process; ${max} needed`);
          if (n > 0) ctx.probe("queried"); else if (H.recs.length) ctx.probe("from-cache");
        }
      };
      return H;
    };
    for (const st of plan.stages) {
      const [ver, db] = plan.versions[st.v];
      disk.version = ver; disk.listx = xml(db);
      // the library was upgraded: the caches are from its predecessor, whose own texts were others
      if (st.newLib) for (const [p, n] of disk.files) if (/tag-descriptions-.*-en\.json$/.test(p)) try { const j = JSON.parse(n.data.toString()); for (const k of Object.keys(curated)) if (j.descriptions[k] !== undefined) { j.descriptions[k] = { desc: "text of the previous library" }; ctx.probe("library-upgraded"); } n.data = Buffer.from(JSON.stringify(j)); } catch { /* not intact */ }
      const hs = st.hosts.map((h) => runHost(h, db, ver));
      const r = await w.run({ until: () => hs.every((h) => h.isDone()), maxTime: w.now + 900000, maxEvents: 400000 });
      if (r !== "until") ctx.violate("stuck", `a call is pending after ${Math.round(w.now)} ms`);
      for (const h of hs) h.close();
      let left = 0;
      for (const h of hs) if (!h.host.dead) for (const e of [h.et, h.et2]) if (e) { left++; Promise.resolve(e.end(false)).then(() => left--, () => left--); }
      await w.run({ until: () => left === 0, maxTime: w.now + 60000 });
      for (const h of hs) { if (!h.host.dead) h.host.exit(0); }
      for (const c of w.children) if (!c.dead) c.die(null, "SIGKILL");
      await w.run({ until: () => false, maxTime: w.now + 1000 });
    }
    // faults stop: every reader gets the truth, and then from the cache
    w.faultsOff = true; fsOff = true;
    const specs = [];
    for (const st of plan.stages) for (const h of st.hosts) for (const d of h.descs) if (d.other == null && !specs.some((x) => O.eq(x, d))) specs.push(d);
    const [ver, db] = plan.versions[plan.stages[plan.stages.length - 1].v];
    for (const round of [1, 2]) {
      const H = runHost({ opts: {}, descs: specs, ops: specs.flatMap((_, d) => [{ d, kind: "getAll", bg: true }, { d, kind: "getAsync", tag: "Zorblax" }, { d, kind: "get", tag: "BitsPerSample" }]) }, db, ver);
      const r = await w.run({ until: () => H.isDone(), maxTime: w.now + 300000, maxEvents: 200000 });
      if (r !== "until") ctx.violate("stuck", "after the faults stopped, a call is still pending");
      for (const x of H.recs) if (x.ok === false) ctx.violate("no-recovery", `after the faults stopped, ${x.kind} rejected: ${x.message}`);
      const uncached = specs.filter((d) => d.disableDiskCache).length;
      if (round === 2 && listx(H.host) > uncached) ctx.violate("cache-not-used", `a second process asked ExifTool ${listx(H.host)} times for descriptions that the first had cached`);
      let left = 1; Promise.resolve(H.et.end(false)).then(() => left--, () => left--);
      await w.run({ until: () => left === 0, maxTime: w.now + 60000 });
      H.host.exit(0);
    }
    for (const o of disk.ops) { const okDirs = plan.stages.flatMap((s) => s.hosts.flatMap((h) => h.descs.filter((d) => !d.disableDiskCache).map((d) => d.cacheDir ?? "/tmp/exiftool-vendored"))); if (o.op !== "mkdir" && !okDirs.some((d) => o.p.startsWith(d + "/")) && !/^\/tmp\//.test(o.p)) ctx.violate("wrote-elsewhere", `${o.op} ${o.p}`); }
    if (plan.stages.every((s) => s.hosts.every((h) => h.descs.every((d) => d.disableDiskCache))) && disk.ops.length) ctx.violate("disabled-cache-used", O.S(disk.ops));
    await w.run({ until: () => false, maxTime: w.now + 1000 });
    ctx.done(w, sim);
  },
};
