"use strict";
// One simulated node process ("host"): its own module registry of the code
// under test, its own process object, timers and children. Crashing it drops
// everything but the disk.
const { EventEmitter } = require("node:events");
const path = require("node:path");
const { instantiate } = require("./loader");
const { fsFor, loseDirty } = require("./disk");
const { childProcessFor } = require("./child");

const EXIFTOOL = "/sim/node_modules/exiftool-vendored.pl/bin/exiftool";
const PERL = "/usr/bin/perl";
const PASS = new Set(["events", "util", "stream", "buffer", "string_decoder", "url", "assert", "querystring", "util/types", "stream/promises", "async_hooks", "diagnostics_channel", "path/win32", "zlib", "v8", "vm", "module", "constants", "readline", "worker_threads", "console", "tty", "punycode"]);

class Host {
  /** @param o {code, disk, id, env, net, cpus, platform, vendored} */
  constructor(world, o) {
    this.world = world; this.disk = o.disk; this.id = o.id; this.dead = false;
    this.timers = new Set(); this.children = []; this.fsPending = 0;
    this.rng = world.rng.fork("host", o.id);
    this.net = { latency: 1, serviceMs: [1, 12], gapMs: 2, chunking: "few", ...(o.net || {}) };
    this.logs = [];
    this.exited = null;
    world.hosts.push(this);
    const T = (this.T = world.timersFor(this));
    const proc = (this.process = new EventEmitter());
    proc.setMaxListeners(1000);
    const self = this;
    Object.assign(proc, {
      env: { PATH: "/usr/bin:/bin:/opt/bin", ...(o.env || {}) }, platform: (this.platform = o.platform ?? "linux"), pid: 1 + o.id, ppid: 1, arch: "x64",
      version: process.version, versions: process.versions, argv: ["/usr/bin/node", "/sim/app.js"], execPath: "/usr/bin/node", title: "node",
      cwd: () => "/sim/cwd", nextTick: process.nextTick, emitWarning: () => {}, exitCode: undefined,
      uptime: () => world.now / 1000,
      memoryUsage: Object.assign(() => ({ rss: 1, heapTotal: 1, heapUsed: 1, external: 1, arrayBuffers: 1 }), { rss: () => 1 }),
      kill: (pid, sig) => world.signal(pid, sig ?? "SIGTERM", self),
      exit: (c) => { self.exit(c); },
      stdout: { write: () => true, isTTY: false }, stderr: { write: () => true, isTTY: false },
      hrtime: Object.assign((p) => { const n = world.now; const s = Math.floor(n / 1000), ns = Math.round((n % 1000) * 1e6); return p ? [s - p[0] - (ns < p[1] ? 1 : 0), (ns - p[1] + 1e9) % 1e9] : [s, ns]; }, { bigint: () => BigInt(Math.round(world.now * 1e6)) }),
      features: {}, release: { name: "node" }, config: {},
    });
    if (o.resourcesPath) proc.resourcesPath = o.resourcesPath;
    const logc = (lvl) => (...a) => { this.logs.push(lvl + " " + a.map(String).join(" ")); };
    const con = { log: logc("log"), info: logc("info"), warn: logc("warn"), error: logc("error"), debug: logc("debug"), trace: logc("trace"), assert() {}, dir() {} };
    this.fs = fsFor(world, o.disk, this);
    const cp = childProcessFor(this);
    const os = { ...require("node:os"), tmpdir: () => proc.env.TMPDIR ?? "/tmp", availableParallelism: () => o.cpus ?? 16, cpus: () => Array(o.cpus ?? 16).fill({ model: "sim" }), platform: () => this.platform, homedir: () => "/sim/home", hostname: () => "sim", EOL: "\n" };
    const posix = { ...path.posix, resolve: (...a) => path.posix.resolve("/sim/cwd", ...a) };
    posix.posix = posix; posix.win32 = path.win32;
    let rnd = 0;
    const random = () => this.rng.fork("rand", ++rnd).float();
    const rc = require("node:crypto");
    const randomBytes = (n) => { const b = Buffer.alloc(n); const r = this.rng.fork("rb", ++rnd); for (let i = 0; i < n; i++) b[i] = r.int(256); return b; };
    const hex = (b) => b.toString("hex");
    const randomUUID = () => { const h = hex(randomBytes(16)); return `${h.slice(0, 8)}-${h.slice(8, 12)}-4${h.slice(13, 16)}-8${h.slice(17, 20)}-${h.slice(20, 32)}`; };
    const crypto = new Proxy(rc, { get: (t, k) => (k === "randomBytes" ? randomBytes : k === "randomUUID" ? randomUUID : k === "randomInt" ? (a, b) => (b == null ? Math.floor(random() * a) : a + Math.floor(random() * (b - a))) : t[k]) });
    const perf = { now: () => world.now, timeOrigin: world.wallBase };
    this.builtin = (id) => {
      id = id.replace(/^node:/, "");
      switch (id) {
        case "timers": return T;
        case "timers/promises": return T.promises;
        case "fs": return this.fs;
        case "fs/promises": return this.fs.promises;
        case "child_process": return cp;
        case "os": return os;
        case "process": return proc;
        case "path": return posix;
        case "path/posix": return posix;
        case "crypto": return crypto;
        case "perf_hooks": return { performance: perf };
        default:
          if (PASS.has(id)) return require("node:" + id);
          throw new Error("simulator has no seam for builtin " + id);
      }
    };
    this.mods = instantiate(o.code, {
      timers: T, process: proc, console: con, performance: perf, random, builtin: this.builtin,
      crypto: { randomUUID, getRandomValues: (a) => { const b = randomBytes(a.byteLength); new Uint8Array(a.buffer, a.byteOffset, a.byteLength).set(b); return a; } },
      external: (id) => {
        if (id === "exiftool-vendored.pl") { if (o.vendored === false) throw new Error("Cannot find module 'exiftool-vendored.pl'"); return { value: typeof o.vendored === "string" ? o.vendored : EXIFTOOL }; }
        if (id === "exiftool-vendored.exe") throw new Error("Cannot find module 'exiftool-vendored.exe'");
        return undefined;
      },
    });
  }
  /** load the package entry point (runs all module initialisers) */
  main() { return (this.lib ??= this.mods.main()); }
  /** what keeps this node process alive? */
  held() {
    const why = [];
    for (const t of this.timers) if (t._ref) why.push("timer " + t._ms);
    if (this.world.immediates.some((h) => h.live && h.host === this && h.refd !== false)) why.push("immediate");
    if (this.fsPending > 0) why.push("fs");
    for (const c of this.children) if (c.holds()) why.push("child " + c.pid);
    return why;
  }
  /** normal exit: 'exit' handlers run synchronously, then the process is gone */
  exit(code) {
    if (this.dead) return;
    this.exited = { at: this.world.now, code: code ?? 0 };
    this.world.note("host-exit", this.id, code ?? 0);
    this.world.enter(() => this.process.emit("exit", code ?? 0));
    this._gone();
  }
  /** sudden death: no handlers run; unsynced writes may be lost */
  crash(loseRng) {
    if (this.dead) return;
    this.world.fired("host-crash");
    this.world.note("host-crash", this.id);
    this._gone();
    if (loseRng) loseDirty(this.world, this.disk, this, loseRng);
  }
  _gone() {
    this.dead = true;
    for (const t of [...this.timers]) this.world._clear(t);
    for (const c of this.children) { if (!c.dead && c.stdin) this.world.after(0.05, () => c.stdinEof(), "host-gone-eof"); }
  }
}

/** files every simulated machine has */
function baseDisk(disk, o = {}) {
  if (o.perl !== false) disk.put(PERL, "perl", 0o755);
  disk.put(EXIFTOOL, "exiftool", 0o755);
  for (const d of ["/photos", "/out", "/tmp", "/sim/cwd", "/bin", "/opt/bin"]) disk.mkdirp(d);
}
module.exports = { Host, baseDisk, EXIFTOOL, PERL };
