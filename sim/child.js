"use strict";
// Simulated operating-system processes: child_process.spawn(), pipes, signals,
// exit/close events, pid table. The program that runs in the process is the
// simulated ExifTool (exif.js). The stdio objects the code under test sees are
// real node:stream streams.
const { EventEmitter } = require("node:events");
const { Readable, Writable } = require("node:stream");
const { SimExif } = require("./exif");

function sysError(code, syscall, extra) {
  const e = new Error(syscall + " " + code);
  return Object.assign(e, { code, errno: -1, syscall }, extra || {});
}

class OutPipe extends Readable { // stdout / stderr as seen by the host
  constructor(child, name) {
    super({ read() {}, emitClose: true, autoDestroy: true });
    this._child = child; this._name = name; this._refd = true; this._hostClosed = false;
  }
  ref() { this._refd = true; return this; }
  unref() { this._refd = false; return this; }
  _destroy(err, cb) { this._hostClosed = true; cb(err); }
}

class InPipe extends Writable { // stdin as seen by the host
  constructor(child) {
    super({ decodeStrings: true, emitClose: true, autoDestroy: true });
    this._child = child; this._refd = true; this._pendingWrites = 0; this._lastAt = 0;
  }
  ref() { this._refd = true; return this; }
  unref() { this._refd = false; return this; }
  _write(chunk, enc, cb) {
    const c = this._child, w = c.world;
    this._pendingWrites++;
    const d = c.rng.fork("in", ++c.inSeq);
    // the pipe accepts the bytes at once; the child sees them a little later, in order
    const done = (err) => { this._pendingWrites--; cb(err); };
    const f = c.takeFault("stdin");
    if (c.dead || (f && f.kind === "epipe")) {
      if (f) w.fired("stdin-epipe");
      w.after(d.float() * 0.5, () => { if (!c.host.dead) done(sysError("EPIPE", "write")); }, "stdin-epipe " + c.pid);
      return;
    }
    this._lastAt = Math.max(this._lastAt, w.now + d.float() * c.latency);
    const bytes = Buffer.from(chunk);
    c.unread += bytes.length;
    w.at(this._lastAt, () => { c.unread -= bytes.length; c.receive(bytes); }, "stdin " + c.pid + " " + bytes.length);
    w.after(0, () => { if (!c.host.dead) done(); }, "stdin-ack " + c.pid);
  }
  _final(cb) {
    const c = this._child, w = c.world;
    this._lastAt = Math.max(this._lastAt, w.now + 0.01);
    w.at(this._lastAt, () => c.stdinEof(), "stdin-eof " + c.pid);
    w.after(0, () => cb(), "stdin-fin " + c.pid);
  }
  _destroy(err, cb) {
    const c = this._child, w = c.world;
    this._lastAt = Math.max(this._lastAt, w.now + 0.01);
    w.at(this._lastAt, () => c.stdinEof(), "stdin-close " + c.pid);
    cb(err);
  }
}

class SimChild extends EventEmitter {
  constructor(host, file, args, opts, ordinal) {
    super();
    this.host = host; this.world = host.world; this.ordinal = ordinal;
    this.rng = host.world.rng.fork("child", ordinal);
    this.spawnfile = file; this.spawnargs = [file, ...args]; this.spawnOpts = opts;
    this.exitCode = null; this.signalCode = null; this.killed = false; this.connected = false;
    this._refd = true;
    this.dead = false;      // no longer executing
    this.reaped = false;    // pid gone from the process table
    this.signals = [];      // signals delivered to it, in order
    this.inSeq = 0; this.unread = 0;
    this.latency = host.net.latency;
    this.pendingFaults = [];
  }
  start() {
    this.pid = this.world.nextPid++;
    this.world.pids.set(this.pid, this);
    this.stdin = new InPipe(this);
    this.stdout = new OutPipe(this, "stdout");
    this.stderr = new OutPipe(this, "stderr");
    this.stdio = [this.stdin, this.stdout, this.stderr];
    this.outAt = 0;
    this.prog = new SimExif(this);
    this.world.after(0.1, () => { if (!this.host.dead) this.emit("spawn"); }, "spawned " + this.pid);
    return this;
  }
  ref() { this._refd = true; }
  unref() { this._refd = false; }
  disconnect() {}
  kill(sig) {
    if (this.reaped || this.pid == null) return false;
    this.killed = true;
    return this.world.signal(this.pid, sig ?? "SIGTERM", this.host);
  }
  takeFault(where) {
    const i = this.pendingFaults.findIndex((f) => f.where === where);
    return i < 0 ? undefined : this.pendingFaults.splice(i, 1)[0];
  }
  // ---- kernel side
  deliver(sig, from) {
    if (sig === 0 || this.dead) return;
    this.signals.push({ sig, at: this.world.now, from: from ? from.id : null });
    this.world.note("signal", this.pid, sig);
    const term = sig === "SIGKILL" || sig === 9;
    if (!term && this.prog.ignoresTerm) { this.world.probe("sigterm-ignored"); return; }
    const delay = this.rng.fork("sig", this.signals.length).float() * (term && this.prog.slowToDie ? 4000 : 1);
    this.world.after(delay, () => this.die(null, term ? "SIGKILL" : String(sig)), "die " + this.pid);
  }
  receive(bytes) { if (!this.dead) this.prog.receive(bytes); }
  stdinEof() { if (!this.dead) this.prog.eof(); }
  /** queue output bytes; the host reads them from the pipe at `at` (in order per pipe) */
  out(which, bytes, at) {
    if (bytes.length === 0) return;
    const s = which === "stderr" ? this.stderr : this.stdout;
    s._at = Math.max(s._at || 0, at);
    this.world.at(s._at, () => {
      if (this.host.dead || s._hostClosed) { if (!this.dead) this.die(null, "SIGPIPE"); return; }
      if (s.readableEnded || s.destroyed || s._eof) return;
      s.push(bytes);
    }, which + " " + this.pid + " " + bytes.length + " " + hashBytes(bytes));
  }
  /** the process ends now; what it already wrote stays readable */
  die(code, signal) {
    if (this.dead) return;
    this.dead = true;
    this.diedAt = this.world.now;
    this.world.note("exit", this.pid, code, signal);
    this.prog.onDeath();
    const w = this.world, host = this.host;
    const r = this.rng.fork("die");
    const eofAt = (s) => {
      s._at = Math.max(s._at || 0, w.now + r.float());
      w.at(s._at, () => { if (host.dead || s._hostClosed || s.destroyed) return; s._eof = true; s.push(null); }, "eof " + this.pid);
      return s._at;
    };
    const a = eofAt(this.stdout), b = eofAt(this.stderr);
    const exitAt = w.now + r.float() * 1.5;
    w.at(exitAt, () => {
      this.reaped = true;
      w.pids.delete(this.pid);
      this.exitCode = code; this.signalCode = signal;
      if (!host.dead) {
        if (this.stdin && !this.stdin.destroyed) this.stdin.destroy();
        this.emit("exit", code, signal);
      }
    }, "reap " + this.pid);
    w.at(Math.max(a, b, exitAt) + 0.01, () => { if (!host.dead) this.emit("close", code, signal); }, "close " + this.pid);
  }
  /** does this child keep the host's event loop alive? */
  holds() {
    if (this.pid == null) return false;
    if (this._refd && !this.reaped) return true;
    if (this.stdin._pendingWrites > 0 && !this.dead) return true;
    for (const s of [this.stdout, this.stderr]) if (s._refd && !s._hostClosed && !s._eof) return true;
    return false;
  }
}
function hashBytes(b) { let h = 7; for (let i = 0; i < b.length; i++) h = (Math.imul(h, 31) + b[i]) | 0; return (h >>> 0).toString(36); }

/** child_process module as seen by one host */
function childProcessFor(host) {
  const w = host.world;
  return {
    spawn(file, args, opts) {
      const ord = w.spawnSeq = (w.spawnSeq || 0) + 1;
      const rec = { ordinal: ord, at: w.now, host: host.id, file, args: [...(args || [])], opts: opts ? { ...opts, env: opts.env ? { ...opts.env } : undefined } : {}, hostEnv: { ...host.process.env } };
      w.spawns.push(rec);
      const c = new SimChild(host, file, args || [], opts || {}, ord);
      rec.child = c;
      const f = w.faultFor("spawn", ord);
      rec.fault = f && f.kind;
      w.note("spawn", ord, file, (args || []).join(" "), f ? f.kind : "");
      let code = null;
      if (f && f.kind === "throw") { w.fired("spawn-throw"); throw sysError(f.code || "EPERM", "spawn"); }
      if (f && f.kind === "errno") code = f.code || "EAGAIN";
      else {
        const n = host.disk.get(file);
        if (!n) code = "ENOENT"; else if (!(n.mode & 0o111)) code = "EACCES";
        else if (String(n.data ?? n.bytes ?? "") === "exiftool") { // a script: the kernel starts its #! interpreter
          const i = host.disk.get("/usr/bin/perl");
          if (!i) code = "ENOENT"; else if (!(i.mode & 0o111)) code = "EACCES";
        }
      }
      if (code) {
        w.fired("spawn-" + code);
        if (code !== "EMFILE" && code !== "ENFILE") { c.stdin = new InPipe(c); c.stdout = new OutPipe(c, "stdout"); c.stderr = new OutPipe(c, "stderr"); c.dead = true; c.stdio = [c.stdin, c.stdout, c.stderr]; }
        c.dead = true; c.reaped = true;
        process.nextTick(() => { if (!host.dead) w.enter(() => c.emit("error", sysError(code, "spawn " + file, { path: file, spawnargs: args }))); });
        return c;
      }
      c.start();
      host.children.push(c); w.children.push(c);
      rec.pid = c.pid;
      c.prog.boot(f);
      return c;
    },
  };
}

module.exports = { SimChild, childProcessFor, sysError };
