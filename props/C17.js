"use strict";
// ExifTool is started the way the options and the machine say, every time it
// is started: same program, interpreter, arguments, environment; nothing is
// started that was not asked for.
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");
const { Sim, invoke } = require("../sim/scenario");
const { EXIFTOOL, PERL } = require("../sim/host");
const path = require("node:path").posix;

const DIRS = ["/usr/bin", "/bin", "/opt/bin", "/opt/perl layer/bin", "/usr/local/bin", "/sim/none"];
const ARGS = ["-stay_open", "True", "-@", "-"];
const ASAR = "/app/resources/app.asar/node_modules/exiftool-vendored.pl/bin/exiftool", UNPACKED = ASAR.replace("app.asar", "app.asar.unpacked");
/** folders that only look like the archive of an Electron application */
const ASARLIKE = ["/data/other.asar/bin/exiftool", "/data/myapp.asar/exiftool", "/data/app.asar.d/exiftool", "/data/app.asar.unpacked/bin/exiftool"];
const MODES = [[6, 0o755], [1, 0o644], [1, 0o111]];

function rx(disk, p) { const n = disk.get(p); return !!n && (n.mode & 0o111) !== 0 && (n.mode & 0o444) !== 0; }
function which(disk, env, bin) {
  if (path.isAbsolute(bin) && rx(disk, bin)) return bin;
  for (const d of String(env.PATH ?? "").split(":")) { const p = path.join(d, path.basename(bin)); if (rx(disk, p)) return p; }
}
/** where ExifTool is, when the caller does not say */
function locate(plan, disk, env) {
  const v = plan.host.vendored;
  if (v !== false) { const p = v ?? EXIFTOOL, u = p.split("/").map((x) => (x === "app.asar" ? "app.asar.unpacked" : x)).join("/"); if (disk.get(u)) return u; if (disk.get(p)) return p; }
  if (plan.host.resourcesPath) { const p = path.join(plan.host.resourcesPath, "exiftool-vendored.pl", "bin", "exiftool"); if (disk.get(p)) return p; }
  return which(disk, env, "exiftool");
}

module.exports = {
  id: "C17", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: a machine (perl at /usr/bin/perl or elsewhere in PATH or nowhere, executable or not; ExifTool vendored, ASAR-unpacked, in an Electron resources folder, in PATH, or nowhere; environment variables) and 1-3 instances with different exiftoolPath (text, promise, function, async function), exiftoolArgs, exiftoolEnv, ignoreShebang, checkPerl and processFactory, some never used; concurrent calls with child crashes, failed spawns and recycling so that processes are started again and again. Every process start is compared with an independent resolver.",
  nontrivialRule: "at least one process start was compared, or no start was possible", nontrivial: (r) => (r.probes["launch"] || 0) + (r.probes["no-launch-possible"] || 0) > 0,
  gen(r) {
    const disk = [];
    if (r.bool(0.7)) disk.push([PERL, "perl", r.weighted(MODES)]);
    for (const d of ["/bin", "/opt/bin", "/opt/perl layer/bin", "/usr/local/bin"]) if (r.bool(0.3)) disk.push([d + "/perl", "perl", r.weighted(MODES)]);
    const host = { env: { SECRET_TOKEN: "s3cret", HOME: "/sim/home", LANG: r.pick(["de_DE.UTF-8", "C", "en_US.UTF-8"]) } };
    if (r.bool(0.3)) host.env.LC_ALL = "fr_FR.UTF-8";
    if (r.bool(0.4)) host.env.EXIFTOOL_HOME = r.pick(["/home/me/.exiftool", "", "  ", "/etc/exiftool"]);
    host.env.PATH = r.weighted([[8, r.sample(DIRS, 1 + r.int(5)).join(":")], [1, ""]]);
    const src = r.weighted([[6, "vendored"], [2, "asar"], [1, "asar-both"], [2, "forge"], [2, "path"], [1, "stale"], [1, "none"], [1, "asarlike"]]);
    host.vendored = src === "vendored" ? EXIFTOOL : src === "stale" ? "/gone/exiftool" : src === "asarlike" ? r.pick(ASARLIKE) : /^asar/.test(src) ? ASAR : false;
    const em = r.weighted([[12, 0o755], [1, 0o644]]);
    if (src === "vendored") disk.push([EXIFTOOL, "exiftool", em]);
    if (src === "asarlike") { disk.push([host.vendored, "exiftool", em]); if (r.bool()) disk.push([host.vendored.replace(".asar", ".asar.unpacked"), "exiftool", em]); }
    if (src === "asar" || src === "asar-both") disk.push([UNPACKED, "exiftool", em]);
    if (src === "asar-both") disk.push([ASAR, "exiftool", 0o644]);
    if (src === "forge" || r.bool(0.15)) { host.resourcesPath = "/app/resources"; if (r.bool(0.8)) disk.push(["/app/resources/exiftool-vendored.pl/bin/exiftool", "exiftool", em]); }
    for (const d of DIRS.slice(0, 5)) if (r.bool(src === "path" || src === "stale" ? 0.5 : 0.15)) disk.push([d + "/exiftool", r.bool(0.8) ? "exiftool" : "exiftool-bin", r.weighted(MODES)]);
    disk.push(["/custom/my exiftool", r.bool() ? "exiftool" : "exiftool-bin", 0o755], ["/opt/bin/flatpak-spawn", "flatpak", 0o755]);
    const nInst = 1 + r.int(3);
    const insts = Array.from({ length: nInst }, (_, i) => {
      const o = { ...G.opts(r), taskTimeoutMillis: r.pick([2000, 30000]), spawnTimeoutMillis: r.pick([4000, 30000]) };
      const l = {};
      l.path = r.weighted([[6, null], [2, "string"], [2, "promise"], [2, "fn"], [2, "asyncfn"], [1, "blank"]]);
      l.env = r.weighted([[3, {}], [2, { EXIFTOOL_HOME: r.pick(["/mine/exiftool", "", " "]) }], [2, { LANG: "ja_JP", TZ: "Asia/Tokyo" }], [1, { PERL5LIB: "/x y/lib", LC_ALL: "C" }]]);
      if (r.bool(0.3)) l.args = r.pick([["-config", "/etc/my config", ...ARGS], [...ARGS, "-common_args", "-fast"], ["-stay_open", "1", "-@", "-"]]);
      l.ignoreShebang = r.weighted([[4, null], [1, true], [1, false]]);
      l.checkPerl = r.weighted([[4, null], [1, true], [2, false]]);
      if (r.bool(0.12)) l.factory = true;
      if (nInst === 1 && r.bool(0.7)) l.unmarked = r.pick(["given", "absent", "undefined"]); // no environment but the caller's
      l.unused = nInst > 1 && i === nInst - 1 && r.bool(0.4);
      return { ...o, launch: l };
    });
    let n = 0;
    const clients = Array.from({ length: 1 + r.int(4) }, () => ({ ops: Array.from({ length: 1 + r.int(4) }, () => ({ kind: r.pick(["version", "readRaw", "read", "path"]), file: "/photos/p0.jpg", inst: r.int(nInst), gap: r.bool(0.5) ? 0 : r.float() * 800, bg: r.bool(0.6), n: ++n })) }));
    return { net: G.net(r), timerLateness: r.pick([0, 15]), disk: { perl: false }, machine: disk, host, insts, files: { "/photos/p0.jpg": { photo: G.photo(r, "t", { nasty: 0 }) } }, clients,
      faults: r.bool(0.4) ? [] : G.faults(r, { span: 8, spawnSpan: 5, cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise/.test(String(f))) }), lookupFault: r.bool(0.12) ? { n: 1 + r.int(4), code: r.pick(["EIO", "EMFILE", "EACCES"]) } : null };
  },
  async run(ctx) {
    const { plan } = ctx;
    const sim = new Sim(ctx.code, ctx.seed, plan, { trace: ctx.trace });
    const w = sim.w, d = sim.disk;
    d.files.delete(EXIFTOOL);
    for (const [p, data, mode] of plan.machine) d.put(p, data, mode);
    let lookups = 0;
    if (plan.lookupFault) d.hook = (op) => (op === "access" && ++lookups === plan.lookupFault.n ? (w.fired("access-" + plan.lookupFault.code), { code: plan.lookupFault.code }) : undefined);
    const host = sim.host(1);
    const env = host.process.env;
    if (env.PATH === "") delete env.PATH;
    const hostHome = env.EXIFTOOL_HOME;
    const blank = (s) => s == null || String(s).trim() === "";
    const mine = plan.insts.map((x, i) => "/custom/my exiftool");
    const lib = host.main();
    const spawn = host.builtin("child_process").spawn;
    const insts = plan.insts.map((x, i) => {
      const { launch: l, ...o } = x;
      const v = mine[i];
      if (l.path === "string") o.exiftoolPath = v;
      if (l.path === "promise") o.exiftoolPath = Promise.resolve(v);
      if (l.path === "fn") o.exiftoolPath = () => v;
      if (l.path === "asyncfn") o.exiftoolPath = async () => { await sim.sleep(5); return v; };
      if (l.path === "blank") o.exiftoolPath = "  ";
      const mark = l.unmarked ? {} : { SIM_INST: String(i) };
      if (!/absent|undefined/.test(l.unmarked ?? "") || Object.keys(l.env).length) o.exiftoolEnv = { ...l.env, ...mark };
      else if (l.unmarked === "undefined") o.exiftoolEnv = undefined;
      if (l.args) o.exiftoolArgs = [...l.args];
      if (l.ignoreShebang != null) o.ignoreShebang = l.ignoreShebang;
      if (l.checkPerl != null) o.checkPerl = l.checkPerl;
      if (l.factory) o.processFactory = async () => { const p = spawn("/opt/bin/flatpak-spawn", ["--host", "exiftool", ...ARGS], { stdio: "pipe", env: { ...mark, BY: "factory" } }); if (p.pid == null) throw await new Promise((f) => p.once("error", f)); return p; };
      return new lib.ExifTool(o);
    });
    if (w.spawns.length) ctx.violate("started-early", `${w.spawns.length} processes were started by constructing an instance`);
    // the independent resolver
    const perl = which(d, env, PERL);
    const want = plan.insts.map((x, i) => {
      const l = x.launch;
      if (l.factory) return { file: "/opt/bin/flatpak-spawn", args: ["--host", "exiftool", ...ARGS], env: { ...(l.unmarked ? {} : { SIM_INST: String(i) }), BY: "factory" }, checked: l.checkPerl !== false };
      const et = l.path == null || l.path === "blank" ? locate(plan, d, env) : mine[i];
      const args = l.args ?? ARGS;
      const ign = l.ignoreShebang ?? !d.get(PERL);
      const e = { ...l.env, ...(l.unmarked ? {} : { SIM_INST: String(i) }), LANG: "C" };
      if (!blank(hostHome) && blank(e.EXIFTOOL_HOME)) e.EXIFTOOL_HOME = hostHome;
      const n = et && d.get(et), p = d.get(PERL);
      const script = n && n.data.toString() === "exiftool";
      const works = ign ? perl != null && n && (n.mode & 0o444) : n && (n.mode & 0o111) && (!script || (p && (p.mode & 0o111)));
      return { et, file: ign ? perl : et, args: ign ? [et, ...args] : args, env: e, possible: et != null && (!ign || perl != null), works: !!works, checked: l.checkPerl !== false, ign };
    });
    w.setFaults(plan.faults);
    let live = plan.clients.length;
    for (const c of plan.clients) (async () => {
      for (const op of c.ops) {
        if (op.gap > 0) await sim.sleep(op.gap);
        const i = op.inst < insts.length ? op.inst : 0;
        if (plan.insts[i].launch.unused) continue;
        const rec = sim.call({ ...op, i }, () => (op.kind === "path" ? insts[i].exiftoolPath() : invoke(insts[i], op)), host);
        if (!op.bg) await Promise.race([rec.done, sim.sleep(90000)]);
      }
      live--;
    })();
    const hopeless = plan.insts.some((x, i) => !want[i].works && !x.launch.factory);
    await w.run({ until: () => live === 0 && sim.allSettled(), maxTime: hopeless ? 20000 + plan.faults.reduce((n, f) => n + (f.ms || 0) + 1000, 0) : P.bound(plan), maxEvents: 200000 });
    d.hook = null;
    const settledLookups = !plan.lookupFault || lookups < plan.lookupFault.n;
    for (const s of w.spawns) {
      const i = s.opts.env?.SIM_INST ?? (plan.insts[0].launch.unmarked ? "0" : undefined);
      if (i === undefined) { ctx.violate("environment", `process ${s.file} was started without the configured environment: ${O.S(s.opts.env)}`); continue; }
      const e = want[Number(i)], l = plan.insts[Number(i)].launch;
      ctx.probe("launch");
      if (l.unused) ctx.violate("started-early", `an instance that was never used started ${s.file}`);
      if (s.opts.shell || s.opts.detached) ctx.violate("launch-mode", `${s.file} was started ${s.opts.shell ? "through a shell" : "detached"}`);
      if (!O.eq(s.opts.env, e.env)) ctx.violate("environment", `instance ${i} started ${s.file} with ${O.S(s.opts.env)}; expected ${O.S(e.env)}`);
      if (!settledLookups) { if (!d.get(s.file)) ctx.violate("program", `instance ${i} started ${s.file}, which does not exist`); continue; }
      if (s.file !== e.file) ctx.violate("program", `instance ${i} started ${s.file} ${O.S(s.args)}; expected ${e.file} ${O.S(e.args)}`);
      else if (!O.eq(s.args, e.args)) ctx.violate("arguments", `instance ${i} started ${s.file} ${O.S(s.args)}; expected ${O.S(e.args)}`);
      if (e.checked && !perl) ctx.violate("perl-not-checked", `instance ${i} started ${s.file} although there is no perl`);
    }
    if (settledLookups) for (const x of sim.ops) {
      const e = want[x.i], o = plan.insts[x.i];
      if (x.kind === "path") {
        if (o.launch.factory && o.launch.path == null) continue;
        if (x.ok && e.et !== undefined && x.value !== e.et) ctx.violate("program", `exiftoolPath() of instance ${x.i} is ${O.S(x.value)}; expected ${e.et}`);
        if (x.settled != null && !o.launch.factory) { if (x.ok && e.et == null) ctx.violate("program", `exiftoolPath() resolved to ${O.S(x.value)}, but there is no ExifTool`); if (!x.ok && e.et != null) ctx.violate("program", `exiftoolPath() rejected with ${x.message}, but ExifTool is at ${e.et}`); }
        continue;
      }
      if (e.checked && !perl) {
        ctx.probe("no-perl");
        if (x.ok !== false || !/perl/i.test(x.message)) ctx.violate("perl-not-checked", `${x.kind} on a machine without perl: ${x.settled == null ? "pending" : x.ok ? "resolved" : "rejected with " + x.message}`);
        continue;
      }
      const works = o.launch.factory || e.works;
      if (!works) { ctx.probe("no-launch-possible"); if (x.ok) ctx.violate("phantom-result", `${x.kind} resolved although ExifTool cannot run`); continue; }
      if (plan.faults.length === 0 && x.ok !== true) ctx.violate("call-failed", `${x.kind} on instance ${x.i} ${x.settled == null ? "is pending" : "rejected: " + x.message}; launch ${O.S(e.file)} works`);
      if (x.ok && x.kind === "version" && x.value !== d.version && !/^\d+\.\d+$/.test(x.value)) ctx.violate("call-failed", `version is ${O.S(x.value)}`);
    }
    for (const u of w.uncaught) ctx.violate(u.kind, u.msg + "\n" + u.stack);
    if (plan.insts.some((x, i) => want[i].ign)) ctx.probe("perl-given-explicitly");
    await P.finish(ctx, { w, sim, insts });
  },
};
