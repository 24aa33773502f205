#!/usr/bin/env node
"use strict";
// replay.js <file> [--trace]: re-executes a replay file against /repo's working tree.
const fs = require("node:fs");
const { compileRepo } = require("../sim/build");
const R = require("../lib/runner");
(async () => {
  const rep = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
  const r = await R.exec(R.load(rep.property), compileRepo(), rep.seed, rep.plan, { trace: true });
  if (process.argv.includes("--trace")) for (const t of r.worlds) console.log((t || []).join("\n"));
  for (const v of r.violations) console.log(`${v.rule}: ${v.msg}`);
  console.log("digest " + r.digest + (rep.digest ? r.digest === rep.digest ? " (identical to the recorded run)" : " (differs from the recorded run)" : ""));
  if (r.violations.length) console.log(`VIOLATION property=${rep.property} replay=${process.argv[2]}`);
  process.exit(r.violations.length ? 1 : 0);
})().catch((e) => { console.error(e); process.exit(2); });
