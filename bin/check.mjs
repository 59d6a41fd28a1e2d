#!/usr/bin/env node
// Driver: bundles /verif/checks/<ID>.ts together with /repo's current sources
// and runs it.  usage: check.mjs <ID> [--tier quick|thorough] [--replay FILE]
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { bundle } from "../lib/bundle.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const verif = path.resolve(here, "..");
const repo = process.env.VERIF_REPO ?? "/repo";

const args = process.argv.slice(2);
const id = args.shift();
let tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
let replay = null;
while (args.length) {
	const a = args.shift();
	if (a === "--tier") tier = args.shift();
	else if (a === "--replay") replay = path.resolve(args.shift());
	else {
		console.error(`unknown argument ${a}`);
		process.exit(2);
	}
}
if (!id || !fs.existsSync(path.join(verif, "checks", `${id}.ts`))) {
	console.error(`unknown check ${id}`);
	process.exit(2);
}

fs.mkdirSync(path.join(verif, ".build"), { recursive: true });
const out = fs.mkdtempSync(path.join(verif, ".build", `${id}-`));
const cleanup = () => fs.rmSync(out, { recursive: true, force: true });
process.on("exit", cleanup);
for (const sig of ["SIGINT", "SIGTERM"]) process.on(sig, () => process.exit(3));

let file;
try {
	file = await bundle({
		entry: path.join(verif, "checks", `${id}.ts`),
		outfile: path.join(out, "check.mjs"),
		repo,
		verif,
	});
} catch (error) {
	console.error(`check ${id}: the code under test could not be bundled: ${error?.message ?? error}`);
	process.exit(2);
}

const env = {
	...process.env,
	VERIF_TIER: tier,
	VERIF_SEED: process.env.VERIF_SEED ?? "1",
	VERIF_REPO: repo,
	VERIF_DIR: verif,
	VERIF_SCRATCH: out,
	VERIF_BEAT: path.join(out, "beat.json"),
	NODE_ENV: "test",
};
delete env.IGNITE_DIFF_ENABLED;
if (replay) env.VERIF_REPLAY = replay;
else delete env.VERIF_REPLAY;

const child = spawn(
	process.execPath,
	["--max-old-space-size=6144", "--expose-gc", "--experimental-vm-modules", "--disable-warning=ExperimentalWarning", "--stack-size=4000", "--enable-source-maps", file],
	{ cwd: verif, env, stdio: ["ignore", "inherit", "inherit"] },
);

// A generated case that never returns, or takes the process down, is a failure of the
// code under test: cases take milliseconds, and the harness itself ends with a code.
const STUCK_MS = Number(process.env.VERIF_STUCK_MS ?? 180_000);
let stuck = false;
const watch = setInterval(() => {
	let age = 0;
	try {
		age = Date.now() - fs.statSync(env.VERIF_BEAT).mtimeMs;
	} catch {
		return; // no case has started
	}
	if (age > STUCK_MS) {
		stuck = true;
		child.kill("SIGKILL");
	}
}, 2000);
child.on("exit", (code, signal) => {
	clearInterval(watch);
	if (signal && (stuck || signal === "SIGABRT" || signal === "SIGSEGV" || signal === "SIGTRAP")) {
		let at = { property: id };
		try {
			at = JSON.parse(fs.readFileSync(env.VERIF_BEAT, "utf8"));
		} catch {
			process.exitCode = 2;
			return;
		}
		const what = stuck ? `a case did not return within ${STUCK_MS / 1000} s` : `a case ended the process (${signal})`;
		fs.mkdirSync(path.join(verif, "replays"), { recursive: true });
		const file = replay ?? path.join(verif, "replays", `${id}-stuck.json`);
		if (!replay) fs.writeFileSync(file, JSON.stringify({ ...at, message: what }, null, 2));
		fs.mkdirSync(path.join(verif, "evidence"), { recursive: true });
		if (!replay)
			fs.writeFileSync(
				path.join(verif, "evidence", `${id}.json`),
				`${JSON.stringify({ property: id, tier, seed: Number(env.VERIF_SEED) || 1, level: "exploration", coverage: { evaluations: 0, rule: what }, assumptions: [], wall_s: 0, violations: 1 }, null, 2)}\n`,
			);
		console.log(`[${id}] sub-check "${at.prop}": ${what}`);
		console.log(`VIOLATION property=${id} replay=${file}`);
		process.exitCode = 1;
		return;
	}
	process.exitCode = signal ? 2 : (code ?? 2);
});
