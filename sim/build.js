"use strict";
// Compiles /repo/src (current working tree) to CommonJS text, one string per
// module, with the repository's own TypeScript and tsconfig. Nothing is written
// into /repo. Output is byte-identical to what `tsc` emits into dist/ except
// for dynamic import(), which becomes require() (and so goes through the
// simulator's module loader).
const fs = require("node:fs");
const path = require("node:path");

const REPO = process.env.SIM_REPO || "/repo";

function compileRepo() {
  const ts = require(path.join(REPO, "node_modules/typescript"));
  const cfgFile = path.join(REPO, "tsconfig.json");
  const raw = ts.parseConfigFileTextToJson(cfgFile, fs.readFileSync(cfgFile, "utf8"));
  if (raw.error) throw new Error("tsconfig.json: " + ts.flattenDiagnosticMessageText(raw.error.messageText, "\n"));
  const co = ts.convertCompilerOptionsFromJson(raw.config.compilerOptions, REPO).options;
  const opts = { ...co, sourceMap: false, inlineSourceMap: false, declaration: false, module: ts.ModuleKind.CommonJS };
  delete opts.moduleResolution;
  const out = {};
  const walk = (dir, rel) => {
    for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
      const r = rel ? rel + "/" + e.name : e.name;
      const full = path.join(dir, e.name);
      if (e.isDirectory()) {
        walk(full, r);
      } else if (e.name.endsWith(".json")) {
        out[r] = "module.exports = " + fs.readFileSync(full, "utf8");
      } else if (/\.(ts|mts|cts)$/.test(e.name) && !/\.d\.ts$/.test(e.name) && !/\.spec\.ts$/.test(e.name)) {
        const res = ts.transpileModule(fs.readFileSync(full, "utf8"), { compilerOptions: opts, fileName: full, reportDiagnostics: true });
        const errs = (res.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
        if (errs.length) throw new Error(full + ": " + ts.flattenDiagnosticMessageText(errs[0].messageText, "\n"));
        out[r.replace(/\.[mc]?ts$/, ".js")] = res.outputText;
      }
    }
  };
  walk(path.join(REPO, "src"), "");
  return out;
}

module.exports = { compileRepo, REPO };
