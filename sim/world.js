"use strict";
// Discrete-event simulator of one machine: a virtual monotonic clock, a wall
// clock that faults can move, a node-like event loop (timers phase, poll phase,
// check phase), a process table and a disk. Everything that can vary is decided
// by the run's seed.
const { Rng } = require("./rng");
const crypto = require("node:crypto");
const { setCurrentWorld } = require("./loader");
const realSetImmediate = setImmediate;
const realClearTimeout = clearTimeout;
const realSetTimeout = setTimeout;

const SHAPE = new Set(["call", "ok", "err", "exec", "spawn", "exit", "signal", "FAULT", "fs", "host-exit", "host-crash"]);
class Heap {
  constructor() { this.a = []; }
  get size() { return this.a.length; }
  peek() { return this.a[0]; }
  push(x) { const a = this.a; a.push(x); let i = a.length - 1; while (i > 0) { const p = (i - 1) >> 1; if (less(a[i], a[p])) { [a[i], a[p]] = [a[p], a[i]]; i = p; } else break; } }
  pop() { const a = this.a; const r = a[0]; const l = a.pop(); if (a.length) { a[0] = l; let i = 0; for (;;) { let m = i; const x = 2 * i + 1, y = x + 1; if (x < a.length && less(a[x], a[m])) m = x; if (y < a.length && less(a[y], a[m])) m = y; if (m === i) break; [a[i], a[m]] = [a[m], a[i]]; i = m; } } return r; }
}
function less(x, y) { return x.at !== y.at ? x.at < y.at : x.seq < y.seq; }

class SimTimeout {
  constructor(world, host, fn, ms, args, repeat) {
    this._w = world; this._host = host; this._fn = fn; this._ms = ms; this._args = args; this._repeat = repeat; this._ref = true; this._live = true; this._id = ++world.timerSeq;
  }
  ref() { this._ref = true; return this; }
  unref() { this._ref = false; return this; }
  hasRef() { return this._ref; }
  refresh() { if (this._live) this._w._armTimer(this); return this; }
  close() { this._w._clear(this); return this; }
  [Symbol.toPrimitive]() { return this._id; }
  [Symbol.dispose]() { this.close(); }
}

class World {
  constructor(seed, opts = {}) {
    this.seed = seed;
    this.rng = new Rng(seed);
    this.now = 0;                       // monotonic ms since world start
    this.wallBase = opts.wallBase ?? Date.UTC(2026, 2, 1, 12, 0, 0);
    this.wallOffset = 0;                // moved by clock faults
    this.timers = new Heap();
    this.io = new Heap();
    this.immediates = [];
    this.seq = 0; this.timerSeq = 0;
    this.events = 0;
    this.log = crypto.createHash("sha256");
    this.shape = crypto.createHash("sha256"); // order of visible steps, without times
    this.trace = opts.trace ? [] : null;
    this.uncaught = [];                 // uncaught exceptions + unhandled rejections
    this.faults = {};                   // fault kind -> times fired
    this.probes = {};                   // rare condition -> times seen
    this.hosts = [];
    this.invariants = [];               // functions run after every event
    this.violations = [];
    this.pids = new Map();              // pid -> SimChild (alive or zombie-free)
    this.nextPid = 1000;
    this.timerLateness = opts.timerLateness ?? 0;
    this.spawns = []; this.commands = []; this.children = [];
    this.spawnSeq = 0; this.cmdSeq = 0; this.workSeq = 0;
    this.signalsToStrangers = [];
    this.plan = { spawn: new Map(), cmd: new Map() };
  }
  wallNow() { return Math.floor(this.wallBase + this.now + this.wallOffset); }
  note(...x) {
    const line = this.now.toFixed(3) + " " + x.join(" ");
    this.log.update(line + "\n");
    if (SHAPE.has(x[0])) this.shape.update(x.slice(0, 3).join(" ") + "\n");
    if (this.trace) this.trace.push(line);
  }
  /** planned faults: [{on:"spawn"|"cmd", n, kind, ...}, {on:"time", at, kind, ...}] */
  setFaults(list) {
    for (const f of list || []) {
      if (f.on === "spawn" || f.on === "cmd") this.plan[f.on].set(f.n, f);
      else if (f.on === "time") this.after(f.at, () => this.timeFault(f), "timed-fault");
    }
  }
  faultFor(on, n) {
    if (this.faultsOff) return undefined;
    const range = this.plan[on].get("all");
    return this.plan[on].get(n) ?? range;
  }
  timeFault(f) {
    if (this.faultsOff) return;
    if (f.kind === "stall") return this.stall(f.ms);
    if (f.kind === "wallJump") { this.fired("wall-clock-jump"); this.wallOffset += f.ms; return; }
    const alive = this.children.filter((c) => !c.dead);
    if (!alive.length) return;
    const c = alive[f.idx % alive.length];
    if (f.kind === "kill") { this.fired("child-sigkill"); c.die(null, "SIGKILL"); }
    else if (f.kind === "freeze") { this.fired("child-frozen"); c.prog.hung = true; }
    else if (f.kind === "stdoutNoise") { this.fired("stdout-noise"); c.out("stdout", Buffer.from(f.text || "noise\n"), this.now); }
    else if (f.kind === "stderrNoise") { this.fired("stderr-noise"); c.out("stderr", Buffer.from(f.text || "Warning: noise\n"), this.now); }
    else if (f.kind === "streamError") { this.fired("stream-error:" + f.stream); const s = c[f.stream]; if (s && !s.destroyed && !c.host.dead) this.enter(() => s.destroy(Object.assign(new Error("read EIO"), { code: "EIO", syscall: "read" }))); }
    else if (f.kind === "epipe") { c.pendingFaults.push({ where: "stdin", kind: "epipe" }); }
    else throw new Error("unknown time fault " + f.kind);
  }
  signal(pid, sig, from) {
    if (typeof pid !== "number" || !Number.isFinite(pid)) throw new TypeError("pid");
    if (pid < 0) { const e = new Error("kill ESRCH"); e.code = "ESRCH"; e.syscall = "kill"; throw e; }
    const c = this.pids.get(pid);
    if (c == null) { const e = new Error("kill ESRCH"); e.code = "ESRCH"; e.syscall = "kill"; throw e; }
    if (c.stranger || c.host !== from) { if (sig !== 0) this.signalsToStrangers.push({ pid, sig, at: this.now }); if (c.stranger) return true; }
    c.deliver(sig, from);
    return true;
  }
  fired(kind) { this.faults[kind] = (this.faults[kind] || 0) + 1; this.note("FAULT", kind); }
  probe(name) { this.probes[name] = (this.probes[name] || 0) + 1; }
  violate(msg, extra) { this.violations.push({ msg, at: this.now, ...(extra || {}) }); this.note("VIOLATION", msg); }

  /** schedule an I/O event (delivered in the poll phase) */
  after(ms, fn, label) { const e = { at: this.now + Math.max(0, ms), seq: ++this.seq, fn, label }; this.io.push(e); return e; }
  at(t, fn, label) { return this.after(t - this.now, fn, label); }

  timersFor(host) {
    const mk = (repeat) => (fn, ms, ...args) => {
      if (typeof fn !== "function") throw new TypeError('The "callback" argument must be of type function');
      ms = Number(ms); if (!(ms >= 1 && ms <= 2147483647)) ms = 1;
      const t = new SimTimeout(this, host, fn, Math.trunc(ms), args, repeat);
      host.timers.add(t);
      this._armTimer(t);
      return t;
    };
    const clear = (t) => { if (t == null) return; if (typeof t === "number" || typeof t === "string") { for (const x of host.timers) if (x._id === Number(t)) return this._clear(x); return; } if (t instanceof SimTimeout) this._clear(t); };
    const setImm = (fn, ...args) => { const h = { fn, args, host, live: true, ref() { return h; }, unref() { return h; }, hasRef: () => true }; this.immediates.push(h); return h; };
    const clrImm = (h) => { if (h) h.live = false; };
    const T = { setTimeout: mk(false), setInterval: mk(true), clearTimeout: clear, clearInterval: clear, setImmediate: setImm, clearImmediate: clrImm };
    T.promises = {
      setTimeout: (ms, v, o) => new Promise((r) => { const t = T.setTimeout(() => r(v), ms); if (o && o.ref === false) t.unref(); }),
      setImmediate: (v) => new Promise((r) => T.setImmediate(() => r(v))),
      scheduler: { wait: (ms) => new Promise((r) => T.setTimeout(r, ms)), yield: () => new Promise((r) => T.setImmediate(r)) },
    };
    const { promisify } = require("node:util");
    T.setTimeout[promisify.custom] = T.promises.setTimeout;
    T.setImmediate[promisify.custom] = T.promises.setImmediate;
    return T;
  }
  _armTimer(t) {
    const late = this.timerLateness > 0 ? this.rng.fork("late", t._id).float() * this.timerLateness : 0;
    // node rounds to whole milliseconds, and equal durations keep FIFO order
    t._ev = { at: Math.ceil(this.now + t._ms + late), seq: ++this.seq, t };
    this.timers.push(t._ev);
  }
  _clear(t) { t._live = false; t._ev = null; t._host.timers.delete(t); }

  /** run a callback as host code: exceptions are uncaughtExceptions of that host */
  enter(fn) {
    try { fn(); } catch (e) { this.onUncaught("uncaughtException", e); }
  }
  onUncaught(kind, e) {
    const msg = e && e.message != null ? String(e.message) : String(e);
    this.uncaught.push({ kind, msg, stack: e && e.stack ? String(e.stack).split("\n").slice(0, 6).join("\n") : "", at: this.now });
    this.note(kind, msg);
  }
  drain() { return new Promise((r) => realSetImmediate(r)); }

  /** run fn as a macrotask of its own: next ticks first, then microtasks, as node does */
  async _step(fn) {
    await new Promise((r) => realSetImmediate(() => { this.enter(fn); realSetImmediate(r); }));
    this.events++;
    for (const inv of this.invariants) inv();
  }
  async _after() {
    await this.drain();
    this.events++;
    for (const inv of this.invariants) inv();
  }
  _skipDeadTimers() { while (this.timers.size) { const e = this.timers.peek(); if (e.t._ev !== e) this.timers.pop(); else break; } }
  nextEventAt() {
    this._skipDeadTimers();
    let r = Infinity;
    if (this.immediates.length) r = this.now;
    if (this.timers.size) r = Math.min(r, this.timers.peek().at);
    if (this.io.size) r = Math.min(r, this.io.peek().at);
    return r;
  }
  /** one turn of the event loop. @return false if nothing is left to do */
  async turn(limit) {
    const next = this.nextEventAt();
    if (next === Infinity || next > limit) return false;
    if (next > this.now) this.now = next;
    // timers phase
    const tnow = this.now;
    for (;;) {
      this._skipDeadTimers();
      const e = this.timers.peek();
      if (e == null || e.at > tnow) break;
      this.timers.pop();
      const t = e.t;
      if (t._repeat) this._armTimer(t); else { t._live = false; t._ev = null; t._host.timers.delete(t); }
      this.note("timer", t._id, t._ms);
      await this._step(() => { if (!t._host.dead) t._fn(...t._args); });
      if (this.stopped) return false;
    }
    // poll phase: only what was ready when the phase began
    const batch = [];
    while (this.io.size && this.io.peek().at <= this.now) batch.push(this.io.pop());
    for (const e of batch) {
      this.note("io", e.label || "");
      await this._step(e.fn);
      if (this.stopped) return false;
    }
    // check phase
    const imm = this.immediates; this.immediates = [];
    for (const h of imm) { if (!h.live || h.host.dead) continue; this.note("immediate"); await this._step(() => h.fn(...h.args)); }
    return true;
  }
  /** Run until pred() holds, nothing is left, or the limits are hit. */
  async run({ until, maxTime = Infinity, maxEvents = 200000 }) {
    setCurrentWorld(this);
    await this._after();
    const limit = maxTime;
    const startEvents = this.events;
    while (!(until && until())) {
      if (this.events - startEvents > maxEvents) return "maxEvents";
      if (this.stopped) return "stopped";
      if (!(await this.turn(limit))) return this.nextEventAt() === Infinity ? "quiescent" : "maxTime";
    }
    return "until";
  }
  /** the whole host is descheduled for ms: time passes, nothing runs, then timers come first */
  stall(ms) { this.now += ms; this.fired("stall"); }
  shapeDigest() { return this.shape.copy().digest("hex").slice(0, 16); }
  digest() { return this.log.copy().digest("hex").slice(0, 32); }
}

let installed = false;
let active = null;
function activate(w) {
  active = w;
  setCurrentWorld(w);
  if (!installed) {
    installed = true;
    process.on("unhandledRejection", (e) => { if (active) active.onUncaught("unhandledRejection", e); });
    process.on("uncaughtException", (e) => { if (active) active.onUncaught("uncaughtException", e); else { console.error(e); process.exit(2); } });
  }
}
module.exports = { World, activate, realSetTimeout, realClearTimeout };
