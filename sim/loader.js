"use strict";
// Instantiates the compiled repository and batch-cluster in a FRESH module
// registry per simulated host, with every ambient source of nondeterminism
// (timers, clock, randomness, process, fs, child_process, os) replaced.
// luxon / he / tz-lookup are real and shared between runs: they hold only
// caches, and see the simulated clock through a delegating Date.
const vm = require("node:vm");
const fs = require("node:fs");
const path = require("node:path");
const Module = require("node:module");
const { REPO } = require("./build");

const PARAMS = [
  "exports", "require", "module", "__filename", "__dirname",
  "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate",
  "Date", "Math", "process", "console", "performance", "queueMicrotask", "crypto", "fetch", "globalThis", "global", "AbortSignal",
];

const RealDate = Date;
let current = null; // the World whose clock ambient code sees
function setCurrentWorld(w) { current = w; }
function nowMs() { return current ? current.wallNow() : 0; }

class SimDate extends RealDate {
  constructor(...a) { if (a.length === 0) super(nowMs()); else super(...a); }
  static now() { return nowMs(); }
  static [Symbol.hasInstance](x) { return x instanceof RealDate; }
}
// Calling Date() as a function must work as well:
const DateProxy = new Proxy(SimDate, { apply: () => new SimDate().toString() });

const realRequire = Module.createRequire(path.join(REPO, "package.json"));
const scripts = new Map(); // filename -> compiled function

function compile(filename, code) {
  const hit = scripts.get(filename);
  let f = hit && hit.code === code ? hit.f : null;
  if (f == null) {
    const src = "(function(" + PARAMS.join(",") + "){" + code.replace(/^#!.*/, "") + "\n})";
    f = new vm.Script(src, { filename }).runInThisContext();
    scripts.set(filename, { code, f });
  }
  return f;
}

const fileCode = new Map();
function readCode(f) {
  let c = fileCode.get(f);
  if (c == null) { c = fs.readFileSync(f, "utf8"); fileCode.set(f, c); }
  return c;
}

const resolveCache = new Map();
function resolveFrom(dir, id) {
  const k = dir + "\0" + id;
  let r = resolveCache.get(k);
  if (r == null) { r = Module.createRequire(path.join(dir, "_.js")).resolve(id); resolveCache.set(k, r); }
  return r;
}

const shared = new Map(); // pure third-party libs

function sharedRequire(id) {
  const file = realRequire.resolve(id);
  return loadShared(file);
}
function loadShared(file) {
  let m = shared.get(file);
  if (m) return m.exports;
  m = { exports: {} };
  shared.set(file, m);
  if (file.endsWith(".json")) { m.exports = JSON.parse(readCode(file)); return m.exports; }
  const dir = path.dirname(file);
  const req = (x) => {
    if (Module.isBuiltin(x)) return require(x);
    return loadShared(resolveFrom(dir, x));
  };
  const simMath = mathFor(() => { throw new Error("Math.random() in shared library"); });
  compile(file, readCode(file)).call(m.exports, m.exports, req, m, file, dir,
    noTimer, noTimer, noTimer, noTimer, noTimer, noTimer, DateProxy, simMath, process, console,
    { now: nowMs }, queueMicrotask, undefined, undefined, globalThis, globalThis, AbortSignal);
  return m.exports;
}
function noTimer() { throw new Error("timer used in shared library"); }
function mathFor(rand) { return Object.defineProperties({}, { ...Object.getOwnPropertyDescriptors(Math), random: { value: rand, writable: true, configurable: true } }); }

/**
 * @param code map of module file -> JS text (from compileRepo)
 * @param env per-host environment: {timers, process, console, builtins(id), random, performance, externals}
 */
function instantiate(code, env) {
  const cache = new Map();
  const { Settings } = sharedRequire("luxon"); // (a new process starts with luxon's defaults)
  Object.assign(Settings, { defaultZone: "system", defaultLocale: null, defaultNumberingSystem: null, defaultOutputCalendar: null, throwOnInvalid: false });
  const math = mathFor(env.random);
  const bcRoot = path.dirname(realRequire.resolve("batch-cluster"));
  const ROOT = "/sim-dist";
  const t0 = env.timers;
  const AS = new Proxy(AbortSignal, { get: (t, k) => (k === "timeout" ? (ms) => { const c = new AbortController(); t0.setTimeout(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms).unref(); return c.signal; } : Reflect.get(t, k)) });
  const G = new Proxy(globalThis, { get: (t, k) => (k in over ? over[k] : Reflect.get(t, k)), has: (t, k) => k in over || k in t });
  const over = { setTimeout: t0.setTimeout, clearTimeout: t0.clearTimeout, setInterval: t0.setInterval, clearInterval: t0.clearInterval, setImmediate: t0.setImmediate, clearImmediate: t0.clearImmediate, Date: DateProxy, Math: math, process: env.process, console: env.console, performance: env.performance, crypto: env.crypto, AbortSignal: AS, fetch: undefined };
  over.globalThis = G; over.global = G;
  const run = (file, text, dir, req) => {
    const m = { exports: {} };
    cache.set(file, m);
    const t = env.timers;
    compile(file, text).call(m.exports, m.exports, req, m, file, dir,
      t.setTimeout, t.clearTimeout, t.setInterval, t.clearInterval, t.setImmediate, t.clearImmediate,
      DateProxy, math, env.process, env.console, env.performance, queueMicrotask, env.crypto, undefined, G, G, AS);
    return m.exports;
  };
  const loadBC = (file) => {
    const hit = cache.get(file);
    if (hit) return hit.exports;
    const dir = path.dirname(file);
    return run(file, readCode(file), dir, (id) => {
      if (Module.isBuiltin(id)) return env.builtin(id);
      return loadBC(resolveFrom(dir, id));
    });
  };
  const loadRepo = (rel) => {
    const key = ROOT + "/" + rel;
    const hit = cache.get(key);
    if (hit) return hit.exports;
    const text = code[rel];
    if (text == null) throw new Error("Cannot find module " + rel);
    const dir = path.posix.dirname(rel);
    return run(key, text, path.posix.dirname(key), (id) => {
      if (Module.isBuiltin(id)) return env.builtin(id);
      if (id.startsWith(".")) {
        const base = path.posix.normalize(path.posix.join(dir, id));
        for (const c of [base, base + ".js", base + ".json", base + "/index.js"]) if (code[c] != null) return loadRepo(c);
        throw new Error("Cannot find module " + id + " from " + rel);
      }
      if (id === "batch-cluster") return loadBC(path.join(bcRoot, "BatchCluster.js"));
      if (env.external) { const x = env.external(id); if (x !== undefined) return x.value; }
      return sharedRequire(id);
    });
  };
  return { load: loadRepo, main: () => loadRepo("ExifTool.js"), bc: () => loadBC(path.join(bcRoot, "BatchCluster.js")), shared: sharedRequire };
}

module.exports = { instantiate, setCurrentWorld, SimDate: DateProxy, sharedRequire, nowMs };
