#!/usr/bin/env node
// Nothing to build ahead: the checks bundle /repo's working tree when they run.
// This only verifies that the tools they need are present.
import { createRequire } from "node:module";
import fs from "node:fs";
const tools = createRequire("/opt/veriftools/node/node_modules/");
for (const m of ["esbuild", "fast-check"]) tools.resolve(m);
const repo = createRequire(`${process.env.VERIF_REPO ?? "/repo"}/package.json`);
for (const m of ["jsdom", "xstate", "mobx", "@reduxjs/toolkit", "lit-html", "typescript"]) repo.resolve(m);
fs.mkdirSync(new URL("../evidence", import.meta.url), { recursive: true });
fs.mkdirSync(new URL("../replays", import.meta.url), { recursive: true });
console.log("tools present");
