import { execFileSync } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { ensure, ensureEqual, fc, repoDir, runCheck, scratchDir, show } from "../lib/runner";
import { type Answer, type StubCall, Stubs } from "../lib/stubs";

const STEPS = ["tree", "login", "changes", "test", "build", "version", "install", "list"] as const;
type Step = (typeof STEPS)[number] | "publish";
const COMMAND: Record<Step, string[]> = {
	tree: ["git", "status", "--porcelain"],
	login: ["npm", "whoami"],
	changes: ["pnpm", "changeset", "status"],
	test: ["pnpm", "test"],
	build: ["pnpm", "build"],
	version: ["pnpm", "changeset", "version"],
	install: ["pnpm", "install"],
	list: ["git", "status", "--short"],
	publish: ["pnpm"],
};

/** which step a recorded call is; null: something else (looking around) */
function stepOf(c: StubCall): Step | null {
	const a = c.args.filter((x) => x !== "run" && x !== "exec");
	if (c.args.includes("publish")) return "publish";
	if (c.command === "git") return a[0] === "status" ? (a.includes("--porcelain") ? "tree" : "list") : null;
	if (c.command === "npm") return a[0] === "whoami" ? "login" : null;
	if (a[0] === "changeset") return a[1] === "status" ? "changes" : a[1] === "version" ? "version" : null;
	return a[0] === "test" ? "test" : a[0] === "build" ? "build" : a[0] === "install" ? "install" : null;
}
/** `changeset publish` knows no dry run and ignores the flag (see @changesets/cli) */
const isRealPublish = (c: StubCall) => c.args.includes("publish") && (c.args.includes("changeset") || !c.args.includes("--dry-run"));
const tagOf = (c: StubCall) => {
	const i = c.args.findIndex((x) => x === "--tag" || x.startsWith("--tag="));
	return i < 0 ? undefined : c.args[i] === "--tag" ? c.args[i + 1] : c.args[i].slice(6);
};

/** what has happened to the work tree; the stand-in git shows a real repository in that state */
const TREES = {
	clean: () => {},
	"only ignored files": (d: string) => fs.writeFileSync(path.join(d, "out.log"), "x"),
	touched: (d: string) => fs.writeFileSync(path.join(d, "src/index.ts"), "one\n"),
	modified: (d: string) => fs.writeFileSync(path.join(d, "src/index.ts"), "two\n"),
	untracked: (d: string) => fs.writeFileSync(path.join(d, "new.ts"), ""),
	"untracked folder": (d: string) => {
		fs.mkdirSync(path.join(d, "src/more"));
		fs.writeFileSync(path.join(d, "src/more/x.ts"), "");
	},
	deleted: (d: string) => fs.rmSync(path.join(d, "README.md")),
	staged: (d: string) => {
		fs.writeFileSync(path.join(d, "README.md"), "two\n");
		git(d, "add", "-A");
	},
	"staged deletion": (d: string) => git(d, "rm", "-q", "README.md"),
	"staged rename": (d: string) => git(d, "mv", "README.md", "READ.md"),
	"mode change": (d: string) => fs.chmodSync(path.join(d, "README.md"), 0o755),
	"changes in a submodule": (d: string) => {
		const sub = path.join(d, "lib");
		fs.mkdirSync(sub);
		git(sub, "init", "-q", "-b", "main");
		fs.writeFileSync(path.join(sub, "x.ts"), "one\n");
		git(sub, "add", "-A");
		git(sub, "commit", "-qm", "one");
		git(d, "add", "lib");
		git(d, "commit", "-qm", "submodule");
		fs.writeFileSync(path.join(sub, "x.ts"), "two\n");
	},
	conflict: (d: string) => {
		const change = (text: string) => {
			fs.writeFileSync(path.join(d, "README.md"), text);
			git(d, "commit", "-qam", "x");
		};
		git(d, "branch", "other");
		change("mine\n");
		git(d, "checkout", "-q", "other");
		change("theirs\n");
		try {
			git(d, "merge", "-q", "-");
		} catch {
			/* conflicts, as wanted */
		}
	},
};
type Tree = keyof typeof TREES;
const CLEAN: Tree[] = ["clean", "only ignored files", "touched"];
const DIRTY = (Object.keys(TREES) as Tree[]).filter((t) => !CLEAN.includes(t));
const GIT_ENV = { PATH: process.env.PATH, HOME: scratchDir, GIT_CONFIG_NOSYSTEM: "1", GIT_CONFIG_GLOBAL: "/dev/null" } as NodeJS.ProcessEnv;
function git(cwd: string, ...args: string[]) {
	execFileSync("git", ["-c", "user.name=v", "-c", "user.email=v@v", "-c", "core.fileMode=true", ...args], { cwd, env: GIT_ENV, stdio: "ignore" });
}
const trees = new Map<Tree, string>();
function treeDir(t: Tree): string {
	let d = trees.get(t);
	if (!d) {
		d = path.join(scratchDir, `tree-${t.replaceAll(" ", "-")}`);
		fs.mkdirSync(path.join(d, "src"), { recursive: true });
		git(d, "init", "-q", "-b", "main");
		fs.writeFileSync(path.join(d, "README.md"), "one\n");
		fs.writeFileSync(path.join(d, ".gitignore"), "*.log\n");
		fs.writeFileSync(path.join(d, "src/index.ts"), "one\n");
		git(d, "add", "-A");
		git(d, "commit", "-qm", "one");
		TREES[t](d);
		trees.set(t, d);
	}
	return d;
}

interface Fault {
	step: Step;
	how: { exit: number; err: string } | { signal: string };
}
interface Case {
	args: string[];
	tree: Tree;
	fault: Fault | null;
	absent: null | "git" | "npm" | "pnpm";
	env: Record<string, string>;
	/** null: no terminal, the input is at its end */
	input: string | null;
}
const howArb = fc.oneof(fc.record({ exit: fc.constantFrom(1, 2, 127, 255), err: fc.constantFrom("", "boom\n") }), fc.record({ signal: fc.constantFrom("KILL", "TERM") }));
const otpArb = fc.oneof(fc.stringMatching(/^[0-9]{6}$/), fc.stringMatching(/^0[0-9]{5}$/), fc.stringMatching(/^[0-9]{8}$/), fc.stringMatching(/^[0-9a-f]{64}$/), fc.stringMatching(/^[A-Za-z0-9+/]{6,10}={1,2}$/));
const argsArb = fc
	.tuple(
		fc.subarray(["--dry-run", "--skip-otp"]),
		fc.oneof(fc.constant<string[]>([]), fc.constant<string[]>([]), otpArb.map((o) => [`--otp=${o}`]), fc.constant(["--otp="]), otpArb.map((o) => [`--otp= ${o} `]), fc.tuple(otpArb, otpArb).map(([a, b]) => [`--otp=${a}`, `--otp=${b}`])),
		fc.subarray(["--verbose", "extra", "--dry-run-not", "-n"], { maxLength: 1 }),
	)
	.chain(([a, b, c]) => fc.shuffledSubarray([...a, ...b, ...c], { minLength: a.length + b.length + c.length }).map((all) => (b.length === 2 ? [...a, ...b, ...c] : all)));
const caseArb: fc.Arbitrary<Case> = fc.record({
	args: argsArb,
	tree: fc.oneof({ weight: 6, arbitrary: fc.constantFrom<Tree>(...CLEAN) }, { weight: 1, arbitrary: fc.constantFrom<Tree>(...DIRTY) }),
	fault: fc.option(fc.record({ step: fc.constantFrom<Step>(...STEPS, "publish"), how: howArb }), { freq: 2 }),
	absent: fc.oneof({ weight: 12, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.constantFrom("git" as const, "npm" as const, "pnpm" as const) }),
	env: fc.tuple(fc.constantFrom({}, {}, { CI: "true" }, { NODE_ENV: "production" }), fc.option(otpArb, { freq: 2 })).map(([e, o]) => (o ? { ...e, NPM_CONFIG_OTP: o } : e) as Record<string, string>),
	input: fc.oneof(fc.constant(null), otpArb.map((o) => `${o}\n`), otpArb.map((o) => ` ${o} \n`), fc.constant("\n"), fc.constant("   \n")),
});

async function play(k: Case) {
	const answers: Answer[] = [];
	if (k.fault) {
		const how = "signal" in k.fault.how ? { signal: k.fault.how.signal } : { exit: k.fault.how.exit, stderr: k.fault.how.err };
		if (k.fault.step === "publish") {
			answers.push({ match: ["pnpm", "changeset", "publish"], ...how }, { match: ["pnpm", "publish"], ...how }, { match: ["npm", "publish"], ...how });
		} else answers.push({ match: COMMAND[k.fault.step], ...how });
	}
	const real = execFileSync("sh", ["-c", "command -v git"], { encoding: "utf8" }).trim();
	answers.push({ match: ["git"], run: `cd '${treeDir(k.tree)}' && GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=/dev/null '${real}' -c core.fileMode=true "$@"` }, { match: COMMAND.login, stdout: "someone\n" });
	const stubs = new Stubs(
		["git", "npm", "pnpm", "npx", "yarn"].filter((c) => c !== k.absent),
		answers,
		["NPM_CONFIG_OTP"],
	);
	try {
		const run = await stubs.node([path.join(repoDir, "scripts/release-beta.mjs"), ...k.args], { env: k.env, input: k.input });
		const says = `(exit ${run.code ?? run.signal}, calls ${show(run.calls.map((c) => `${c.command} ${c.args.join(" ")}`))})`;

		const dry = k.args.includes("--dry-run");
		const option = k.args.find((a) => a.startsWith("--otp="))?.slice(6).trim();
		const skip = k.args.includes("--skip-otp");
		const asked = !skip && !option && !k.env.NPM_CONFIG_OTP;

		// where the run must end
		const failing: (Step | "prompt")[] = [];
		if (DIRTY.includes(k.tree)) failing.push("tree");
		if (k.fault) failing.push(k.fault.step);
		const first = { git: "tree", npm: "login", pnpm: "changes" } as const;
		if (k.absent) failing.push(first[k.absent]);
		if (asked && k.input === null) failing.push("prompt");
		const order: (Step | "prompt")[] = [...STEPS, "prompt", "publish"];
		const end = order.find((s) => failing.includes(s));
		let expected: (Step | "prompt")[] = end ? order.slice(0, order.indexOf(end) + 1) : order;
		if (k.absent && end === first[k.absent]) expected = expected.slice(0, -1); // nobody there to record the call

		const steps = run.calls.map(stepOf).filter((s): s is Step => s !== null);
		// looking at the tree again ("list") is not a step of the release
		const real = (l: (Step | "prompt")[]) => l.filter((s) => s !== "list" && s !== "prompt");
		ensureEqual(real(dry ? steps.filter((s) => s !== "publish") : steps), real(dry ? expected.filter((s) => s !== "publish") : expected), `steps taken ${says}`);
		const published = run.calls.filter(isRealPublish);
		ensureEqual(published.length, !dry && expected.includes("publish") ? 1 : 0, `${dry ? "dry run: " : ""}packages published ${says}`);
		for (const c of run.calls.filter((x) => stepOf(x) === "publish")) ensureEqual(tagOf(c), "beta", `release channel ${says}`);
		for (const c of published) {
			const given = skip ? (k.env.NPM_CONFIG_OTP ?? "") : option || k.env.NPM_CONFIG_OTP || (k.input ?? "").trim();
			if (!skip) ensureEqual(c.env.NPM_CONFIG_OTP, given, `one-time password used for publishing ${says}`);
		}
		const publishFails = dry && end === "publish";
		ensure(publishFails || (run.code === 0) === (end === undefined), () => `exit code ${run.code ?? run.signal} although ${end ? `step "${end}" failed` : "every step succeeded"} ${says}`);
		ensure(run.signal === null, () => `the run never ended ${says}`);
	} finally {
		stubs.remove();
	}
}

await runCheck(
	"C22",
	{
		level: "fault_enumeration",
		rule: "every step failing in every way (exit code, signal, missing command), every tree state, with and without --dry-run, enumerated; plus random combinations of options, environment, prompt answers and faults; the real script runs with stand-in git, npm and pnpm that record their calls; non-trivial: at least one step past the login check is expected to run",
		assumptions: ["git, npm and pnpm are stand-ins; `changeset publish` publishes whatever other flags it gets, as in the installed @changesets/cli"],
	},
	async (check) => {
		const mark = (k: Case, c: { nontrivial(): void; label(n: string): void }) => {
			if (CLEAN.includes(k.tree) && !k.absent && k.fault?.step !== "tree" && k.fault?.step !== "login") c.nontrivial();
			c.label(DIRTY.includes(k.tree) ? "dirty tree" : k.absent ? `no ${k.absent}` : k.fault ? `${k.fault.step} fails` : k.args.includes("--dry-run") ? "dry run" : "release");
		};
		const all: Case[] = [];
		const base: Case = { args: ["--skip-otp"], tree: "clean", fault: null, absent: null, env: {}, input: null };
		for (const args of [["--skip-otp"], ["--skip-otp", "--dry-run"], ["--dry-run", "--otp=123456"], ["--otp=012345"]]) {
			all.push({ ...base, args });
			for (const step of [...STEPS, "publish"] as Step[]) for (const how of [{ exit: 1, err: "boom\n" }, { exit: 2, err: "" }, { signal: "KILL" }]) all.push({ ...base, args, fault: { step, how } });
			for (const absent of ["git", "npm", "pnpm"] as const) all.push({ ...base, args, absent });
			for (const tree of Object.keys(TREES) as Tree[]) all.push({ ...base, args, tree });
		}
		for (const input of [null, "\n", "123456\n", " 123456 \n"]) for (const NPM_CONFIG_OTP of [undefined, "654321"]) all.push({ ...base, args: [], input, env: NPM_CONFIG_OTP ? { NPM_CONFIG_OTP } : {} });
		await check.each("every step fails", all, {}, async (k, c) => {
			mark(k, c);
			await play(k);
		});
		await check.prop("random runs", caseArb, { quick: 120, thorough: 4000 }, async (k, c) => {
			mark(k, c);
			await play(k);
		});
	},
);
