"use strict";
// In-memory disk shared by all simulated hosts and by the simulated ExifTool
// children. Survives host crashes. Writes by a host go through a cache that a
// crash can lose or tear; a write in progress is visible to other processes as
// a prefix.
const path = require("node:path").posix;

class Disk {
  constructor(world) {
    this.w = world;
    this.files = new Map();  // path -> {data:Buffer, mode, mtime, inflight?}
    this.dirs = new Set(["/", "/tmp", "/sim", "/sim/cwd", "/usr", "/usr/bin", "/photos", "/out"]);
    this.hook = null;        // (op, path, host) => undefined | {code} | {crash:"torn",keep:n} ...
    this.ops = [];           // journal of host-side mutations
  }
  mkdirp(d) { while (d && !this.dirs.has(d)) { this.dirs.add(d); d = path.dirname(d); } }
  put(p, data, mode = 0o644) { p = path.normalize(p); this.mkdirp(path.dirname(p)); this.files.set(p, { data: Buffer.isBuffer(data) ? data : Buffer.from(String(data)), mode, mtime: this.w.wallNow() }); }
  get(p) { return this.files.get(path.normalize(p)); }
  del(p) { return this.files.delete(path.normalize(p)); }
}

function fsError(code, syscall, p) {
  const desc = { ENOENT: "no such file or directory", EACCES: "permission denied", ENOSPC: "no space left on device", EIO: "i/o error", EMFILE: "too many open files", EEXIST: "file already exists", EISDIR: "illegal operation on a directory", ENOTDIR: "not a directory", EROFS: "read-only file system", ENOTEMPTY: "directory not empty" }[code] || code;
  const e = new Error(`${code}: ${desc}, ${syscall} '${p}'`);
  e.code = code; e.syscall = syscall; e.path = p; e.errno = -2;
  return e;
}

/** node:fs and node:fs/promises as seen by one host */
function fsFor(world, disk, host) {
  const real = require("node:fs");
  const norm = (p) => path.resolve("/sim/cwd", Buffer.isBuffer(p) ? p.toString() : p instanceof URL ? p.pathname : String(p));
  const gate = (op, p) => {
    if (host.dead) throw new Error("host is dead");
    const f = disk.hook && disk.hook(op, p, host);
    world.note("fs", op, p, f ? f.code || f.crash || "fault" : "");
    if (f && f.code) { world.fired("fs:" + f.code); throw fsError(f.code, op, p); }
    return f;
  };
  const view = (node) => (node.inflight && node.inflight.host !== host ? node.inflight.partial : node.data);
  const enc = (o) => (typeof o === "string" ? o : o && o.encoding);
  const stat = (p, op) => {
    const n = disk.files.get(p);
    const isDir = disk.dirs.has(p);
    if (!n && !isDir) throw fsError("ENOENT", op, p);
    return { size: n ? view(n).length : 4096, mode: n ? n.mode : 0o755, mtimeMs: n ? n.mtime : 0, mtime: new Date(n ? n.mtime : 0), isFile: () => !!n, isDirectory: () => isDir && !n, isSymbolicLink: () => false };
  };
  const S = {
    constants: real.constants,
    existsSync(p) { try { p = norm(p); gate("exists", p); return disk.files.has(p) || disk.dirs.has(p); } catch { return false; } },
    accessSync(p, mode = 0) { p = norm(p); gate("access", p); const n = disk.files.get(p); if (!n && !disk.dirs.has(p)) throw fsError("ENOENT", "access", p); if (n && (mode & 1) && !(n.mode & 0o111)) throw fsError("EACCES", "access", p); if (n && (mode & 4) && !(n.mode & 0o444)) throw fsError("EACCES", "access", p); },
    statSync(p, o) { p = norm(p); try { gate("stat", p); return stat(p, "stat"); } catch (e) { if (o && o.throwIfNoEntry === false && e.code === "ENOENT") return undefined; throw e; } },
    readFileSync(p, o) {
      p = norm(p); const f = gate("open", p);
      const n = disk.files.get(p);
      if (!n) throw fsError(disk.dirs.has(p) ? "EISDIR" : "ENOENT", "open", p);
      let d = view(n);
      if (n.inflight && n.inflight.host !== host) world.probe("read-during-foreign-write");
      if (f && f.short != null) { d = d.subarray(0, Math.floor(d.length * f.short)); }
      return enc(o) ? d.toString(enc(o)) : Buffer.from(d);
    },
    writeFileSync(p, data, o) {
      p = norm(p);
      const flag = (o && o.flag) || "w";
      const f = gate("write", p);
      if (!disk.dirs.has(path.dirname(p))) throw fsError("ENOENT", "open", p);
      if (disk.dirs.has(p)) throw fsError("EISDIR", "open", p);
      if (flag.includes("x") && disk.files.has(p)) throw fsError("EEXIST", "open", p);
      let buf = Buffer.isBuffer(data) ? data : ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : Buffer.from(String(data), enc(o) || "utf8");
      const old = disk.files.get(p);
      if (flag.startsWith("r+")) { if (!old) throw fsError("ENOENT", "open", p); if (old.data.length > buf.length) buf = Buffer.concat([buf, old.data.subarray(buf.length)]); } // (no truncation)
      if (flag.includes("a") && old) buf = Buffer.concat([old.data, buf]);
      disk.ops.push({ op: "write", p, host: host.id, at: world.now });
      const put = (d) => disk.files.set(p, { data: d, mode: old ? old.mode : 0o644, mtime: world.wallNow(), dirty: { old: old ? old.data : null, host } });
      if (f && f.torn != null) { // short write followed by an error (full disk)
        world.fired("fs:torn-" + (f.err || "ENOSPC"));
        put(buf.subarray(0, Math.floor(buf.length * f.torn)));
        throw fsError(f.err || "ENOSPC", "write", p);
      }
      if (f && f.crash) { // the host dies inside this write
        world.fired("host-crash-in-write");
        put(buf.subarray(0, Math.floor(buf.length * f.keep)));
        host.crash();
        throw new Error("host is dead");
      }
      put(buf);
      if (f && f.slow != null) { // other processes see a prefix for a while
        world.fired("fs:slow-write");
        const n = disk.files.get(p);
        n.inflight = { host, partial: buf.subarray(0, Math.floor(buf.length * f.keep)) };
        world.after(f.slow, () => { if (!host.dead) n.inflight = undefined; else if (n.inflight) { n.data = n.inflight.partial; n.inflight = undefined; } }, "write-complete");
      }
    },
    appendFileSync(p, d, o) { S.writeFileSync(p, d, { ...(typeof o === "object" ? o : { encoding: o }), flag: "a" }); },
    mkdirSync(p, o) {
      p = norm(p); gate("mkdir", p);
      if (disk.files.has(p)) throw fsError("EEXIST", "mkdir", p);
      if (disk.dirs.has(p)) { if (o && o.recursive) return undefined; throw fsError("EEXIST", "mkdir", p); }
      if (o && o.recursive) { for (let d = path.dirname(p); d !== "/"; d = path.dirname(d)) if (disk.files.has(d)) throw fsError("ENOTDIR", "mkdir", p); disk.mkdirp(p); disk.ops.push({ op: "mkdir", p, host: host.id }); return p; }
      if (!disk.dirs.has(path.dirname(p))) throw fsError("ENOENT", "mkdir", p);
      disk.dirs.add(p); disk.ops.push({ op: "mkdir", p, host: host.id });
    },
    renameSync(a, b) {
      a = norm(a); b = norm(b); const f = gate("rename", b);
      const n = disk.files.get(a); if (!n) throw fsError("ENOENT", "rename", a);
      if (f && f.crash) { world.fired("host-crash-in-rename"); if (f.keep >= 0.5) { disk.files.set(b, n); disk.files.delete(a); } host.crash(); throw new Error("host is dead"); }
      disk.files.set(b, n); disk.files.delete(a); disk.ops.push({ op: "rename", p: b, host: host.id });
    },
    unlinkSync(p) { p = norm(p); gate("unlink", p); if (!disk.files.delete(p)) throw fsError("ENOENT", "unlink", p); disk.ops.push({ op: "unlink", p, host: host.id }); },
    rmSync(p, o) { p = norm(p); gate("rm", p); if (disk.files.delete(p)) { disk.ops.push({ op: "unlink", p, host: host.id }); return; } if (disk.dirs.has(p)) { disk.ops.push({ op: "rm", p, host: host.id }); for (const f of [...disk.files.keys()]) if (f.startsWith(p + "/")) disk.files.delete(f); for (const d of [...disk.dirs]) if (d === p || d.startsWith(p + "/")) disk.dirs.delete(d); return; } if (!(o && o.force)) throw fsError("ENOENT", "rm", p); },
    readdirSync(p) { p = norm(p); gate("scandir", p); if (!disk.dirs.has(p)) throw fsError("ENOENT", "scandir", p); const r = new Set(); const pre = p === "/" ? "/" : p + "/"; for (const k of [...disk.files.keys(), ...disk.dirs]) if (k.startsWith(pre) && k.length > pre.length) r.add(k.slice(pre.length).split("/")[0]); return [...r].sort(); },
    copyFileSync(a, b) { a = norm(a); const n = disk.files.get(a); gate("copyfile", norm(b)); if (!n) throw fsError("ENOENT", "copyfile", a); S.writeFileSync(b, Buffer.from(n.data)); },
    realpathSync: Object.assign((p) => { p = norm(p); if (!disk.files.has(p) && !disk.dirs.has(p)) throw fsError("ENOENT", "realpath", p); return p; }, {}),
    mkdtempSync(pre) { const p = norm(pre + ("00000" + (disk.tmpSeq = (disk.tmpSeq || 0) + 1).toString(36)).slice(-6)); S.mkdirSync(p, { recursive: true }); return p; },
    utimesSync(p) { p = norm(p); gate("utimes", p); stat(p, "utimes"); },
    chmodSync(p, m) { p = norm(p); gate("chmod", p); const n = disk.files.get(p); if (!n) throw fsError("ENOENT", "chmod", p); n.mode = m; },
    lstatSync(p, o) { return S.statSync(p, o); },
    // minimal descriptor API
    openSync(p, flags = "r") { p = norm(p); gate("open", p); if (/[wa]/.test(flags)) { if (flags.includes("x") && disk.files.has(p)) throw fsError("EEXIST", "open", p); if (!disk.files.has(p) || flags.includes("w")) S.writeFileSync(p, ""); } else if (!disk.files.has(p)) throw fsError("ENOENT", "open", p); const fd = 100 + (disk.fdSeq = (disk.fdSeq || 0) + 1); (disk.fds ||= new Map()).set(fd, p); return fd; },
    writeSync(fd, data) { const p = disk.fds.get(fd); S.writeFileSync(p, data, { flag: "a" }); return Buffer.byteLength(data); },
    fsyncSync(fd) { const n = disk.files.get(disk.fds && disk.fds.get(fd)); if (n) n.dirty = undefined; },
    fdatasyncSync(fd) { S.fsyncSync(fd); },
    closeSync(fd) { disk.fds && disk.fds.delete(fd); },
  };
  // async variants: same semantics, completed by a poll-phase event
  const lat = () => world.rng.fork("fslat", ++disk.w.seq).float() * 0.4;
  const later = (name) => (...args) => new Promise((resolve, reject) => {
    host.fsPending++;
    world.after(disk.latency ? disk.latency(name, args[0]) : lat(), () => {
      host.fsPending--;
      if (host.dead) return;
      try { const r = S[name](...args); resolve(r); } catch (e) { reject(e); }
    }, "fs." + name);
  });
  const P = { constants: real.constants };
  for (const [k, s] of [["access", "accessSync"], ["stat", "statSync"], ["lstat", "lstatSync"], ["readFile", "readFileSync"], ["writeFile", "writeFileSync"], ["appendFile", "appendFileSync"], ["mkdir", "mkdirSync"], ["rename", "renameSync"], ["unlink", "unlinkSync"], ["rm", "rmSync"], ["readdir", "readdirSync"], ["copyFile", "copyFileSync"], ["realpath", "realpathSync"], ["mkdtemp", "mkdtempSync"], ["utimes", "utimesSync"], ["chmod", "chmodSync"]]) {
    P[k] = later(s);
    S[k] = (...args) => { const cb = args.pop(); P[k](...args).then((r) => cb(null, r), (e) => cb(e)); };
  }
  P.open = async (p, flags) => { const fd = await later("openSync")(p, flags); return { fd, writeFile: (d) => later("writeSync")(fd, d), write: (d) => later("writeSync")(fd, d), sync: () => later("fsyncSync")(fd), datasync: () => later("fsyncSync")(fd), close: async () => S.closeSync(fd) }; };
  S.promises = P;
  return S;
}

/** power loss: unsynced data of a crashed host may be lost or torn */
function loseDirty(world, disk, host, rng) {
  for (const [p, n] of disk.files) {
    if (!n.dirty || n.dirty.host !== host) continue;
    const how = rng.weighted([[4, "full"], [2, "empty"], [3, "torn"], [1, "zeros"], [2, "old"]]);
    if (how === "full") { n.dirty = undefined; continue; }
    world.fired("lost-write:" + how);
    if (how === "empty") n.data = Buffer.alloc(0);
    else if (how === "torn") n.data = n.data.subarray(0, rng.int(n.data.length + 1));
    else if (how === "zeros") { const k = rng.int(n.data.length + 1); n.data = Buffer.concat([n.data.subarray(0, k), Buffer.alloc(n.data.length - k)]); }
    else if (n.dirty.old == null) { disk.files.delete(p); continue; } else n.data = n.dirty.old;
    n.dirty = undefined;
  }
}

module.exports = { Disk, fsFor, fsError, loseDirty };
