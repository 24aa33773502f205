"use strict";
const P = require("../lib/pool"), O = require("../lib/oracle"), G = require("../sim/gen");

/** what a caller's own task sends to ExifTool; the token tells the commands of different tasks apart */
function argsOf(op) {
  const a = op.form === "write" ? ["-Title=" + op.tok, "-overwrite_original", op.file]
    : op.form === "json" ? ["-json", "-userparam", "tok=" + op.tok, "-Title", "-Warning", op.file]
    : ["-userparam", "tok=" + op.tok, "-Title", "-City", op.file];
  for (const i of op.blanks ?? []) a.splice(i % (a.length + 1), 0, ["", " ", "\t"][i % 3]);
  if (op.how === "badArg") a.splice(op.form === "write" ? 1 : 3, 0, "-Label" + op.bad + "x");
  return a;
}
/** diagnostics of all sorts, in any order */
const DIAG = [(n) => `Warning: Odd thing ${n} - /photos/x.jpg`, (n) => `Error: Bad thing ${n} - /photos/x.jpg`, (n) => `Inner error: deep ${n}`, () => "Nothing to write", (n) => `Warning: [minor] Error: not one ${n}`, (n) => `Can't locate Mod${n}.pm in @INC (you may need to install it)`, (n) => `    1 files read ${n}`, () => ""];
const mine = (w, op) => w.commands.filter((c) => !c.first && (c.args.includes("tok=" + op.tok) || c.args.includes("-Title=" + op.tok))).sort((a, b) => a.seq - b.seq);
const text = (s) => String(s ?? "").replace(/\r\n/g, "\n").trim();
const diags = (c) => ({ warnings: O.lines(c.err).filter(O.isWarn), errors: O.lines(c.err).filter(O.isErr) });
module.exports = {
  id: "C24", runs: { quick: 4000, thorough: 300000 },
  rule: "Seeded plan: 1-10 clients enqueue tasks of their own (ExifToolTask subclasses that read as JSON, read as text or write; retriable, not retriable or by default; whose parse() returns, throws at ExifTool's errors, or throws for the first attempts; whose factory throws; with arguments that are blank or hold control characters) among built-in calls, with crash, hang, torn-reply, error-reply, spawn and timing faults, multi-byte output cut anywhere.",
  nontrivialRule: "a caller's own task was executed", nontrivial: (r) => (r.probes["own-task"] || 0) > 0,
  gen(r) {
    const plan = P.genPool(r, { mix: [[8, "task"], [1, "read"], [1, "write"], [1, "version"]], calm: 0.35, missing: 0.08, stderr: 0.3, bad: 0.06, oddNames: 0.15, nasty: 0.6,
      faults: { cmdKinds: G.CMD_FAULTS.filter(([, f]) => !/noise/.test(String(f))), timeKinds: G.TIME_FAULTS.filter(([, f]) => !/Noise/.test(String(f))) },
      opts: (q) => ({ taskRetries: q.int(4), taskTimeoutMillis: q.pick([2000, 30000]) }) });
    for (const f of plan.faults) if (f.kind === "errorReply" && r.bool(0.8)) f.text = Array.from({ length: 1 + r.int(5) }, (_, i) => r.pick(DIAG)(i) + "\n").join(""), f.out = r.pick(["", "[]\n", "    0 image files updated\n", "text é漢\n"]);
    if (r.bool(0.3)) for (let i = 1 + r.int(3); i < 12; i += 1 + r.int(4)) plan.faults.push({ on: "cmd", n: i, kind: "errorReply", text: Array.from({ length: 1 + r.int(5) }, (_, k) => r.pick(DIAG)(k) + "\n").join(""), out: r.pick(["", "[]\n", "x\n"]) });
    for (const c of plan.clients) for (const op of c.ops) if (op.kind === "task") {
      op.form = r.weighted([[4, "json"], [3, "text"], [2, "write"]]);
      op.retriable = r.weighted([[3, "default"], [2, true], [3, false]]);
      if (op.form === "write" && r.bool(0.8)) op.retriable = false;
      op.how = r.weighted([[5, "return"], [3, "throwOnError"], [2, "throwFirst"], [0.5, "throwAlways"], [0.6, "factory"], [0.6, "badArg"]]);
      if (op.how === "throwFirst") op.first = 1 + r.int(4);
      if (op.how === "badArg") op.bad = r.pick(["\n", "\r", "\0", "\r\n-execute\n"]);
      if (r.bool(0.2)) op.blanks = Array.from({ length: 1 + r.int(3) }, () => r.int(8));
      if (r.bool(0.5)) op.minor = r.bool();
      if (r.bool(0.4)) op.reuse = r.pick(["same", "frozen"]); // one argument list (and options object) for all attempts
    }
    // as text (unlike as JSON), a value that ends in ExifTool's own sign of the end is indistinguishable from it
    for (const f of Object.values(plan.files)) for (const k of Object.keys(f.photo?.tags ?? {})) if (typeof f.photo.tags[k] === "string") f.photo.tags[k] = f.photo.tags[k].replace(/\{ready\}$/, "{ready} ");
    for (const c of plan.clients) for (const op of c.ops) for (const [k, v] of Object.entries(op.tags ?? {})) if (typeof v === "string") op.tags[k] = v.replace(/\{ready\}$/, "{ready} ");
    return plan;
  },
  async run(ctx) {
    const { plan } = ctx, made = new Map();
    let lib;
    for (const c of plan.clients) for (const op of c.ops) if (op.kind === "task") Object.defineProperty(op, "mat", { configurable: true, value: () => ({ ...op, fn: (et) => {
      const log = { tasks: [] }; made.set(op.tok, log);
      class Own extends lib.ExifToolTask {
        parse(input, error) {
          const call = { input, error, warnings: [...this.warnings], errors: [...this.errors] };
          (this.calls ??= []).push(call);
          const n = log.tasks.length;
          if (op.how === "throwAlways" || (op.how === "throwFirst" && n <= op.first)) { call.threw = `own trouble ${op.tok} ${n}`; throw new Error(call.threw); }
          if (op.how === "throwOnError" && error) { call.threw = error.message; throw error; }
          return (call.value = { own: op.tok, n, input });
        }
      }
      const given = argsOf(op), bag = { ignoreMinorErrors: op.minor };
      if (op.reuse === "frozen") Object.freeze(given), Object.freeze(bag);
      log.given = given; log.bag = bag;
      const factory = () => {
        if (op.how === "factory") { log.tasks.push({}); throw new Error("no task " + op.tok); }
        const i = log.tasks.push({}) - 1; // counted even if the constructor refuses
        return (log.tasks[i] = ((a, o) => (op.minor === undefined ? new Own(a) : new Own(a, o)))(op.reuse ? given : argsOf(op), op.reuse ? bag : { ...bag }));
      };
      return op.retriable === "default" ? et.enqueueTask(factory) : et.enqueueTask(factory, op.retriable);
    } }) });
    const S = await P.runPool(ctx, { tail: 30000, before: (x) => { lib = x.lib; } });
    const { sim, w } = S;
    if (S.outcome !== "until") ctx.violate("stuck", `calls are pending after ${Math.round(w.now)} ms`);
    for (const u of w.uncaught ?? []) ctx.violate("uncaught", O.S(u));
    for (const rec of sim.ops) {
      if (rec.kind !== "task") continue;
      const op = rec.op, name = `enqueueTask(${op.form} ${op.how} ${op.tok}, retriable ${op.retriable})`;
      const retries = op.retriable === false ? 0 : plan.insts[rec.inst ?? 0].taskRetries ?? 1;
      const cmds = mine(w, op), tasks = made.get(op.tok)?.tasks ?? [];
      if (rec.syncThrow) ctx.violate("threw", `${name}: threw synchronously`);
      if (cmds.length) ctx.probe("own-task");
      if (cmds.length > 1 + retries) ctx.violate("executed-too-often", `${name}: ${cmds.length} commands with ${retries} retries`);
      if (tasks.length > 1 + retries) ctx.violate("created-too-often", `${name}: ${tasks.length} tasks were created with ${retries} retries`);
      if (cmds.length > tasks.length) ctx.violate("executed-too-often", `${name}: ${cmds.length} commands from ${tasks.length} tasks`);
      if (op.how === "factory" || op.how === "badArg") {
        if (cmds.length) ctx.violate("refused-task-executed", `${name}: ${O.S(cmds[0].args)}`);
        if (rec.ok !== false || !(rec.error instanceof Error || rec.message != null)) ctx.violate("refused-task-resolved", name);
        else if (op.how === "factory" && rec.message !== "no task " + op.tok) ctx.violate("wrong-error", `${name}: ${rec.message}`);
        ctx.probe("refused");
        continue;
      }
      const log = made.get(op.tok);
      if (log && !O.eq([...log.given], argsOf(op))) ctx.violate("arguments-modified", `${name}: the caller's argument list became ${O.S(log.given)}`);
      if (log && !O.eq({ ...log.bag }, { ignoreMinorErrors: op.minor })) ctx.violate("options-modified", `${name}: the caller's options became ${O.S(log.bag)}`);
      const want = [...argsOf(op).filter((x) => x.trim() !== ""), ...(op.minor === true ? ["-ignoreMinorErrors"] : [])];
      for (const c of cmds) if (!O.eq(c.args, want)) ctx.violate("wrong-arguments", `${name}: ExifTool got ${O.S(c.args)} instead of ${O.S(want)}`);
      const calls = tasks.flatMap((t) => t.calls ?? []), answers = cmds.filter((c) => O.answered(c));
      if (calls.length > answers.length) ctx.violate("parsed-without-answer", `${name}: parse() was called ${calls.length} times, ExifTool answered ${answers.length} times`);
      for (const t of tasks) if ((t.calls ?? []).length > 1) ctx.violate("parsed-twice", name);
      for (const p of calls) {
        const why = answers.map((c) => {
          if (text(p.input) !== text(c.out)) return `parse() got ${O.S(p.input)}, ExifTool printed ${O.S(c.out)}`;
          const d = diags(c);
          if (!O.eq(p.warnings, d.warnings)) return `warnings ${O.S(p.warnings)}, ExifTool's are ${O.S(d.warnings)}`;
          if (!O.eq(p.errors, d.errors)) return `errors ${O.S(p.errors)}, ExifTool's are ${O.S(d.errors)}`;
          if ((p.error != null) !== (d.errors.length > 0)) return `parse() got the error ${O.S(p.error?.message)}, ExifTool's errors are ${O.S(d.errors)}`;
          if (p.error != null && p.error.message !== d.errors[0].replace(/^error: /i, "")) return `parse() got the error ${O.S(p.error.message)} instead of ${O.S(d.errors[0])}`;
          if (d.errors.length) ctx.probe("own-task-error"); if (d.warnings.length) ctx.probe("own-task-warning");
          return null;
        });
        if (!why.includes(null)) ctx.violate("wrong-input", `${name}: ${why[0]}`);
      }
      const last = calls[calls.length - 1], lastTask = tasks[tasks.length - 1];
      if (rec.ok === true) {
        if (!last || rec.value !== last.value) ctx.violate("wrong-result", `${name}: resolved to ${O.S(rec.value)}, parse() returned ${O.S(last?.value)}`);
        if (last && !(lastTask.calls ?? []).includes(last)) ctx.violate("retried-after-success", `${name}: ${tasks.length} tasks`);
      } else if (rec.ok === false) {
        if ((lastTask?.calls ?? []).length && last.threw != null && rec.message !== last.threw) ctx.violate("wrong-error", `${name}: rejected with "${rec.message}", parse() threw "${last.threw}"`);
        if (calls.some((x) => x.value) && plan.faults.length === 0) ctx.violate("rejected-after-success", `${name}: ${rec.message}`);
        if (tasks.length < 1 + retries) ctx.violate("gave-up-early", `${name}: rejected with "${rec.message}" after ${tasks.length} of ${1 + retries} attempts`);
        if (plan.faults.length === 0 && op.how === "return") ctx.violate("valid-task-rejected", `${name}: ${rec.message}`);
      }
      if (tasks.length > 1) ctx.probe("own-task-retried");
    }
    await P.finish(ctx, S);
  },
};
