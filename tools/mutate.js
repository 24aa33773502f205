#!/usr/bin/env node
"use strict";
// Self-assessment, not a check: mutate.js FILES.ts,... OUT.jsonl [runs] applies
// small syntactic changes to /repo/src one at a time (in memory), runs every
// property's simulation for a few seeds, and lists which changes no check
// notices. Survivors are read by hand: either the change keeps the behaviour, or
// a check has a gap.
const fs = require("node:fs"), path = require("node:path"), cp = require("node:child_process");
const { compileRepo, REPO } = require("../sim/build");
const R = require("../lib/runner");

if (process.send) {
  let code, props;
  process.on("message", async (m) => {
    if (m.init) { code = m.init.code; props = m.init.props.map(R.load); process.send({ ready: 1 }); return; }
    const c = { ...code, [m.mod]: m.text };
    let res = { id: m.id, killed: null };
    try {
      outer: for (const p of props) for (let i = 0; i < m.runs; i++) {
        process.send({ beat: 1 });
        const seed = R.seedFor(77, p.id, i);
        const r = await R.exec(p, c, seed, R.genPlan(p, seed, i, "quick"));
        if (r.violations.length) { res.killed = p.id; res.rule = r.violations[0].rule; res.at = i; break outer; }
      }
    } catch (e) { res.killed = "error"; res.rule = String(e.message).slice(0, 120); }
    process.send({ res });
  });
} else main();

function mutants(file) {
  const ts = require(path.join(REPO, "node_modules/typescript"));
  const full = path.join(REPO, "src", file), src = fs.readFileSync(full, "utf8");
  const sf = ts.createSourceFile(full, src, ts.ScriptTarget.Latest, true);
  const K = ts.SyntaxKind, out = [];
  const add = (n, text, op) => out.push({ file, line: sf.getLineAndCharacterOfPosition(n.getStart()).line + 1, op, was: n.getText().replace(/\s+/g, " ").slice(0, 90), start: n.getStart(), end: n.getEnd(), text });
  const BIN = { [K.EqualsEqualsEqualsToken]: "!==", [K.ExclamationEqualsEqualsToken]: "===", [K.EqualsEqualsToken]: "!=", [K.ExclamationEqualsToken]: "==", [K.LessThanToken]: "<=", [K.LessThanEqualsToken]: "<", [K.GreaterThanToken]: ">=", [K.GreaterThanEqualsToken]: ">", [K.AmpersandAmpersandToken]: "||", [K.BarBarToken]: "&&", [K.PlusToken]: "-", [K.MinusToken]: "+", [K.AsteriskToken]: "/" };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) {
      const t = BIN[n.operatorToken.kind];
      if (t) add(n.operatorToken, t, "op " + t);
      if (n.operatorToken.kind === K.QuestionQuestionToken) { add(n, n.right.getText(), "?? right"); add(n, n.left.getText() + "!", "?? left"); }
      if (n.operatorToken.kind === K.AmpersandAmpersandToken || n.operatorToken.kind === K.BarBarToken) { add(n, "(" + n.left.getText() + ")", "left only"); add(n, "(" + n.right.getText() + ")", "right only"); }
    }
    if (ts.isIfStatement(n)) { add(n.expression, "true", "if true"); add(n.expression, "false", "if false"); }
    if (ts.isConditionalExpression(n)) { add(n.condition, "true", "?: true"); add(n.condition, "false", "?: false"); }
    if (ts.isExpressionStatement(n) && !/^super\(/.test(n.getText())) add(n, ";", "drop statement");
    if (n.kind === K.TrueKeyword) add(n, "false", "false");
    if (n.kind === K.FalseKeyword) add(n, "true", "true");
    if (ts.isNumericLiteral(n)) { add(n, "(" + n.getText() + " + 1)", "+1"); }
    if (ts.isStringLiteral(n) && n.text.length > 0 && !ts.isPropertyAssignment(n.parent.parent ?? n) ) add(n, '""', "empty string");
    if (ts.isArrayLiteralExpression(n) || ts.isObjectLiteralExpression(n)) { const e = n.elements ?? n.properties; for (const x of e) { const i = e.indexOf(x); const r = e.map((y) => y.getText()); r.splice(i, 1); const br = ts.isArrayLiteralExpression(n) ? ["[", "]"] : ["{", "}"]; out.push({ file, line: sf.getLineAndCharacterOfPosition(x.getStart()).line + 1, op: "drop element", was: x.getText().replace(/\s+/g, " ").slice(0, 90), start: n.getStart(), end: n.getEnd(), text: br[0] + r.join(", ") + br[1] }); } }
    if (ts.isAwaitExpression(n)) add(n, n.expression.getText(), "no await");
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) add(n, n.operand.getText(), "no !");
    if (ts.isReturnStatement(n) && n.expression) add(n, "return undefined as any;", "return undefined");
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.arguments.length <= 1 && /^(trim|filter|map|sort|slice|toLowerCase|toUpperCase|flat|reverse|catch|finally|normalize)$/.test(n.expression.name.text)) add(n, n.expression.expression.getText(), "drop ." + n.expression.name.text);
    if (n.kind === K.RegularExpressionLiteral) { const m = /^(.*)\/([a-z]*)$/s.exec(n.getText()); for (const f of m[2]) add(n, m[1] + "/" + m[2].replace(f, ""), "regex -" + f); if (/\^/.test(m[1]) && !/\[\^/.test(m[1])) add(n, n.getText().replace("^", ""), "regex no ^"); if (/\$\//.test(n.getText())) add(n, m[1].replace(/\$$/, "") + "/" + m[2], "regex no $"); }
    ts.forEachChild(n, visit);
  };
  visit(sf);
  return out.map((m) => ({ ...m, src: src.slice(0, m.start) + m.text + src.slice(m.end) }));
}
async function main() {
  const ts = require(path.join(REPO, "node_modules/typescript"));
  const [, , files, outFile, runs = "60", workers = "7"] = process.argv;
  const code = compileRepo();
  const raw = ts.parseConfigFileTextToJson("t", fs.readFileSync(path.join(REPO, "tsconfig.json"), "utf8"));
  const opts = { ...ts.convertCompilerOptionsFromJson(raw.config.compilerOptions, REPO).options, sourceMap: false, declaration: false, module: ts.ModuleKind.CommonJS };
  delete opts.moduleResolution;
  const props = (process.env.PROPS || fs.readdirSync(path.join(__dirname, "../props")).map((f) => f.replace(".js", "")).sort().join()).split(",");
  const todo = [];
  for (const f of files.split(",")) for (const m of mutants(f)) {
    const res = ts.transpileModule(m.src, { compilerOptions: opts, fileName: path.join(REPO, "src", f), reportDiagnostics: true });
    if (res.diagnostics.some((d) => d.category === ts.DiagnosticCategory.Error)) { if (process.env.DEBUG) console.log(m.file, m.line, m.op, ts.flattenDiagnosticMessageText(res.diagnostics[0].messageText, " ")); continue; }
    const mod = f.replace(/\.ts$/, ".js");
    if (res.outputText === code[mod]) continue;
    todo.push({ ...m, id: todo.length, mod, js: res.outputText });
  }
  const done = new Set(fs.existsSync(outFile) ? fs.readFileSync(outFile, "utf8").split("\n").filter(Boolean).map((l) => { const d = JSON.parse(l); return [d.file, d.line, d.op, d.was].join("|"); }) : []);
  const left = todo.filter((m) => !done.has([m.file, m.line, m.op, m.was].join("|")));
  console.log(todo.length + " mutants, " + left.length + " to do");
  const one = async () => {
    let w;
    while (left.length) {
      const m = left.shift();
      if (!w || !w.connected) { w = cp.fork(__filename, { execArgv: ["--max-old-space-size=2500"], stdio: ["ignore", "ignore", "ignore", "ipc"], serialization: "advanced" }); const x = w; await new Promise((r) => { x.once("message", r); x.once("exit", r); x.send({ init: { code, props } }); }); }
      const res = await new Promise((r) => {
        let last = Date.now();
        const t = setInterval(() => { if (Date.now() - last > 20000) fin({ killed: "hang" }); }, 1000);
        const fin = (x) => { clearInterval(t); w.removeAllListeners(); if (x.killed === "hang" || x.killed === "died") { w.kill("SIGKILL"); w = null; } r(x); };
        w.on("message", (y) => { last = Date.now(); if (y.res) fin(y.res); });
        w.on("exit", () => fin({ killed: "died" }));
        w.send({ id: m.id, mod: m.mod, text: m.js, runs: Number(runs) });
      });
      if (w && res.killed) { w.kill(); w = null; } // leftovers of a broken run must not reach the next
      fs.appendFileSync(outFile, JSON.stringify({ file: m.file, line: m.line, op: m.op, was: m.was, to: m.text.slice(0, 60), killed: res.killed, rule: res.rule, at: res.at }) + "\n");
    }
    if (w) w.kill();
  };
  await Promise.all(Array.from({ length: Number(workers) }, one));
  const all = fs.readFileSync(outFile, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l));
  console.log(`${all.length} mutants, ${all.filter((m) => m.killed).length} noticed`);
}
