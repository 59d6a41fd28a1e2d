// Stand-ins for external commands: shell scripts in a scratch directory that is the whole
// PATH of the script under test. Each records its call and answers as the case says.
import { spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { scratchDir } from "./runner";

let nth = 0;

export interface StubCall {
	command: string;
	args: string[];
	/** environment variables the case asked to see */
	env: Record<string, string>;
}
export interface RunResult {
	code: number | null;
	signal: string | null;
	stdout: string;
	stderr: string;
	calls: StubCall[];
}

const q = (s: string) => `'${s.replaceAll("'", "'\\''")}'`;

/**
 * `answers`: for a call whose words start with `match`, what the stand-in does. The first
 * match wins; a call without an answer succeeds silently.
 */
export interface Answer {
	match: string[];
	stdout?: string;
	stderr?: string;
	exit?: number;
	/** shell text run in place of a printed answer */
	run?: string;
	/** end by this signal instead of exiting */
	signal?: string;
}

export class Stubs {
	readonly dir: string;
	readonly bin: string;
	readonly log: string;
	constructor(commands: string[], answers: Answer[], seeEnv: string[] = []) {
		this.dir = path.join(scratchDir, `stub${nth++}`);
		this.bin = path.join(this.dir, "bin");
		this.log = path.join(this.dir, "log");
		fs.mkdirSync(this.bin, { recursive: true });
		fs.writeFileSync(this.log, "");
		for (const command of commands) {
			const lines = ["#!/bin/sh", `{ printf '%s\\037' ${q(command)} "$@"; ${seeEnv.map((v) => `printf '\\036%s\\037%s' ${q(v)} "\${${v}-}"`).join("; ") || ":"}; printf '\\035'; } >> ${q(this.log)}`];
			for (const a of answers.filter((x) => x.match[0] === command)) {
				const rest = a.match.slice(1);
				const cond = rest.map((w, i) => `[ "\${${i + 1}-}" = ${q(w)} ]`).join(" && ") || "true";
				const act = [a.stdout !== undefined ? `printf '%s' ${q(a.stdout)}` : "", a.stderr !== undefined ? `printf '%s' ${q(a.stderr)} >&2` : "", a.run ?? "", a.signal ? `kill -${a.signal} $$` : "", a.run ? "exit $?" : `exit ${a.exit ?? 0}`].filter(Boolean).join("; ");
				lines.push(`if ${cond}; then ${act}; fi`);
			}
			lines.push("exit 0");
			fs.writeFileSync(path.join(this.bin, command), `${lines.join("\n")}\n`, { mode: 0o755 });
		}
	}
	calls(): StubCall[] {
		return fs
			.readFileSync(this.log, "utf8")
			.split("\x1d")
			.filter(Boolean)
			.map((rec) => {
				const [words, ...vars] = rec.split("\x1e");
				const [command, ...args] = words.split("\x1f").slice(0, -1);
				const env: Record<string, string> = {};
				for (const v of vars) {
					const i = v.indexOf("\x1f");
					env[v.slice(0, i)] = v.slice(i + 1);
				}
				return { command, args, env };
			});
	}
	remove() {
		fs.rmSync(this.dir, { recursive: true, force: true });
	}
	/** Runs node with the stand-ins as its PATH. */
	node(argv: string[], options: { env?: Record<string, string>; input?: string | null; timeoutMs?: number } = {}): Promise<RunResult> {
		return new Promise((resolve, reject) => {
			const child = spawn(process.execPath, argv, {
				cwd: this.dir,
				env: { HOME: this.dir, PATH: this.bin, ...options.env },
				stdio: [options.input === undefined || options.input === null ? "ignore" : "pipe", "pipe", "pipe"],
			});
			let stdout = "";
			let stderr = "";
			child.stdout?.setEncoding("utf8").on("data", (d) => (stdout += d));
			child.stderr?.setEncoding("utf8").on("data", (d) => (stderr += d));
			if (child.stdin) {
				child.stdin.on("error", () => {});
				child.stdin.end(options.input ?? "");
			}
			const timer = setTimeout(() => child.kill("SIGKILL"), options.timeoutMs ?? 60_000);
			child.on("error", reject);
			child.on("close", (code, signal) => {
				clearTimeout(timer);
				resolve({ code, signal, stdout, stderr, calls: this.calls() });
			});
		});
	}
}

/** Runs jobs a few at a time. */
export async function inParallel<T>(items: T[], width: number, job: (item: T, index: number) => Promise<void>) {
	let next = 0;
	await Promise.all(
		Array.from({ length: Math.min(width, items.length) }, async () => {
			while (next < items.length) {
				const i = next++;
				await job(items[i], i);
			}
		}),
	);
}
