#!/usr/bin/env node
"use strict";
// --tools: is everything there that the checks need? Otherwise compiles /repo in
// memory, runs each property's first plan twice, and checks that a seed is one
// execution.
const fs = require("node:fs"), path = require("node:path");
const { compileRepo, REPO } = require("../sim/build");
const R = require("../lib/runner");
(async () => {
  require(path.join(REPO, "node_modules/typescript"));
  if (process.argv.includes("--tools")) { console.log("node " + process.version + ", nothing to build: checks compile /repo/src in memory"); return; }
  const code = compileRepo();
  let bad = 0;
  for (const f of fs.readdirSync(path.join(__dirname, "../props")).sort()) {
    const prop = R.load(f.replace(/\.js$/, ""));
    const seed = R.seedFor(1, prop.id, 0), plan = R.genPlan(prop, seed, 0, "quick");
    const a = await R.exec(prop, code, seed, plan), b = await R.exec(prop, code, seed, plan);
    const same = a.digest === b.digest && a.digest !== "";
    if (!same) bad++;
    console.log(`${prop.id}: ${a.events} events, ${same ? "repeatable" : "NOT REPEATABLE"}`);
  }
  process.exit(bad ? 1 : 0);
})().catch((e) => { console.error(e); process.exit(2); });
