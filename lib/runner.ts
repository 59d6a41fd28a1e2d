// Generic runner: generated cases against an oracle, counted, shrunk, replayable.
import { createHash } from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import fc from "fast-check";

export { fc };

export type Tier = "quick" | "thorough";

export const tier: Tier =
	process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
export const baseSeed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
export const verifDir = process.env.VERIF_DIR ?? "/verif";
export const repoDir = process.env.VERIF_REPO ?? "/repo";
export const scratchDir = process.env.VERIF_SCRATCH ?? "/tmp";

// fs.writeSync: not affected by the console capture in dom.ts
const line = (fd: number, a: unknown[]) => {
	const text = `${a.map((x) => (x instanceof Error ? (x.stack ?? String(x)) : String(x))).join(" ")}\n`;
	let rest = Buffer.from(text);
	for (let tries = 0; rest.length && tries < 1e6; tries++) {
		try {
			rest = rest.subarray(fs.writeSync(fd, rest));
		} catch (error) {
			if ((error as { code?: string }).code !== "EAGAIN") return;
		}
	}
};
export const say = (...a: unknown[]) => line(1, a);
export const sayError = (...a: unknown[]) => line(2, a);

/** A property violation, as opposed to a fault of the harness. */
export class Violation extends Error {
	override name = "Violation";
}

export function fail(message: string): never {
	throw new Violation(message);
}

export function ensure(cond: unknown, message: string | (() => string)): asserts cond {
	if (!cond) fail(typeof message === "function" ? message() : message);
}

export function show(value: unknown): string {
	try {
		const s = fc.stringify(value);
		return s.length > 1200 ? `${s.slice(0, 1200)}…` : s;
	} catch {
		return String(value);
	}
}

export function ensureEqual(actual: unknown, expected: unknown, what: string) {
	const a = show(actual);
	const e = show(expected);
	if (a !== e) fail(`${what}: expected ${e}, got ${a}`);
}

export interface CaseContext {
	/** Mark the case as non-trivial by the check's stated rule. */
	nontrivial(): void;
	/** Count a class of case in the evidence. */
	label(name: string): void;
}

interface PropOptions<T> {
	quick: number;
	thorough: number;
	examples?: T[];
	/** called before each case (also while shrinking) */
	before?: () => void;
	after?: () => void | Promise<void>;
	/** description for samples; default show(value) */
	describe?: (value: T) => string;
}

interface Meta {
	level: "exploration" | "fault_enumeration" | "other";
	rule: string;
	assumptions?: string[];
}

interface PropStats {
	name: string;
	evaluations: number;
	nontrivial: number;
	labels: Record<string, number>;
}

function hashSeed(text: string): number {
	return createHash("sha256").update(text).digest().readUInt32BE(0) & 0x7fffffff;
}

export class Check {
	readonly started = Date.now();
	readonly stats: PropStats[] = [];
	readonly distinct = new Set<string>();
	readonly samples: unknown[] = [];
	evaluations = 0;
	violations = 0;
	readonly replay: null | {
		prop: string;
		seed?: number;
		path?: string;
		index?: number;
	};

	constructor(
		readonly id: string,
		readonly meta: Meta,
	) {
		const file = process.env.VERIF_REPLAY;
		this.replay = file ? JSON.parse(fs.readFileSync(file, "utf8")) : null;
	}

	private lastBeat = 0;
	/** Tells the driver which sub-check is running; it ends a case that never returns. */
	private beat(name: string) {
		const now = Date.now();
		if (now - this.lastBeat < 1000 || !process.env.VERIF_BEAT) return;
		this.lastBeat = now;
		fs.writeFileSync(
			process.env.VERIF_BEAT,
			JSON.stringify({ property: this.id, prop: name, seed: hashSeed(`${this.id}/${name}/${baseSeed}`) }),
		);
	}

	private async runCase<T>(
		stats: PropStats,
		value: T,
		options: PropOptions<T>,
		predicate: (value: T, c: CaseContext) => void | Promise<void>,
		counting: boolean,
	) {
		let nontrivial = false;
		const c: CaseContext = {
			nontrivial() {
				nontrivial = true;
			},
			label(name) {
				if (counting) stats.labels[name] = (stats.labels[name] ?? 0) + 1;
			},
		};
		this.beat(stats.name);
		options.before?.();
		let description: string | null = null;
		if (counting) {
			stats.evaluations++;
			this.evaluations++;
		}
		try {
			await predicate(value, c);
		} finally {
			await options.after?.();
		}
		if (counting && nontrivial) {
			description = options.describe ? options.describe(value) : show(value);
			const key = createHash("md5")
				.update(stats.name)
				.update(description)
				.digest("base64");
			if (!this.distinct.has(key)) {
				this.distinct.add(key);
				stats.nontrivial++;
				// keep a spread of samples: the 3rd, 30th and 300th of each sub-check
				if (
					stats.nontrivial === 3 ||
					stats.nontrivial === 30 ||
					stats.nontrivial === 300
				) {
					this.samples.push({
						sub_check: stats.name,
						case: description.slice(0, 700),
					});
				}
			}
		}
	}

	async prop<T>(
		name: string,
		arb: fc.Arbitrary<T>,
		options: PropOptions<T>,
		predicate: (value: T, c: CaseContext) => void | Promise<void>,
	): Promise<void> {
		if (process.env.VERIF_ONLY && !name.includes(process.env.VERIF_ONLY)) return;
		const replay = this.replay;
		if (replay && replay.prop !== name) return;
		const stats: PropStats = {
			name,
			evaluations: 0,
			nontrivial: 0,
			labels: {},
		};
		this.stats.push(stats);
		const scale = Number(process.env.VERIF_SCALE ?? "1") || 1;
		const numRuns = Math.max(
			1,
			Math.round((tier === "thorough" ? options.thorough : options.quick) * scale),
		);
		const seed = replay?.seed ?? hashSeed(`${this.id}/${name}/${baseSeed}`);

		let failedAt = 0;
		let sinceFailure = 0;
		let firstError: unknown;
		const property = fc.asyncProperty(arb, async (value) => {
			if (failedAt) {
				sinceFailure++;
				// Bound the shrinking: past the budget every candidate "passes".
				if (sinceFailure > 1500 || Date.now() - failedAt > 45_000) return;
			}
			try {
				await this.runCase(stats, value, options, predicate, failedAt === 0);
			} catch (error) {
				if (!failedAt) {
					failedAt = Date.now();
					firstError = error;
				}
				throw error;
			}
		});
		const result = await fc.check(property, {
			seed,
			numRuns,
			path: replay?.path,
			endOnFailure: Boolean(replay),
			examples: replay ? [] : (options.examples ?? []).map((e) => [e] as [T]),
		});
		if (!result.failed) return;
		const error = (result.errorInstance ?? firstError) as Error | undefined;
		this.report(name, {
			seed: result.seed,
			path: result.counterexamplePath ?? undefined,
			counterexample: result.counterexample
				? fc.stringify(result.counterexample[0])
				: null,
			message: error instanceof Error ? `${error.name}: ${error.message}` : String(error),
			stack: error instanceof Error ? error.stack : undefined,
			shrinks: result.numShrinks,
			runs: result.numRuns,
		});
	}

	/** Exhaustive enumeration of a finite space. */
	async each<T>(
		name: string,
		items: T[],
		options: Omit<PropOptions<T>, "quick" | "thorough">,
		predicate: (value: T, c: CaseContext) => void | Promise<void>,
	): Promise<void> {
		if (process.env.VERIF_ONLY && !name.includes(process.env.VERIF_ONLY)) return;
		const replay = this.replay;
		if (replay && replay.prop !== name) return;
		const stats: PropStats = {
			name,
			evaluations: 0,
			nontrivial: 0,
			labels: {},
		};
		this.stats.push(stats);
		for (let index = 0; index < items.length; index++) {
			if (replay && replay.index !== undefined && replay.index !== index) continue;
			try {
				await this.runCase(
					stats,
					items[index],
					{ quick: 0, thorough: 0, ...options },
					predicate,
					true,
				);
			} catch (error) {
				this.report(name, {
					index,
					counterexample: show(items[index]),
					message:
						error instanceof Error ? `${error.name}: ${error.message}` : String(error),
					stack: error instanceof Error ? error.stack : undefined,
				});
				return;
			}
		}
	}

	private report(name: string, data: Record<string, unknown>) {
		this.violations++;
		const dir = path.join(verifDir, "replays");
		fs.mkdirSync(dir, { recursive: true });
		const file = path.join(
			dir,
			`${this.id}-${name.replace(/[^a-z0-9]+/gi, "-")}.json`,
		);
		if (!this.replay) {
			fs.writeFileSync(
				file,
				JSON.stringify({ property: this.id, prop: name, ...data }, null, 2),
			);
		}
		say(`[${this.id}] sub-check "${name}" failed`);
		say(`  ${String(data.message).slice(0, 2000)}`);
		say(`  counterexample: ${String(data.counterexample).slice(0, 2000)}`);
		if (process.env.VERIF_DEBUG) say(String(data.stack));
		say(`VIOLATION property=${this.id} replay=${this.replay ? process.env.VERIF_REPLAY : file}`);
	}

	finish(): number {
		const wall = (Date.now() - this.started) / 1000;
		const evidence = {
			property: this.id,
			tier,
			seed: baseSeed,
			level: this.meta.level,
			coverage: {
				evaluations: this.evaluations,
				distinct_nontrivial: this.distinct.size,
				rule: this.meta.rule,
				samples: this.samples.slice(0, 12),
				sub_checks: this.stats.map((s) => ({
					name: s.name,
					generated: s.evaluations,
					nontrivial: s.nontrivial,
					classes: s.labels,
				})),
			},
			assumptions: this.meta.assumptions ?? [],
			wall_s: wall,
			violations: this.violations,
		};
		if (!this.replay) {
			const dir = path.join(verifDir, "evidence");
			fs.mkdirSync(dir, { recursive: true });
			fs.writeFileSync(
				path.join(dir, `${this.id}.json`),
				`${JSON.stringify(evidence, null, 2)}\n`,
			);
		}
		for (const s of this.stats) {
			say(
				`[${this.id}] ${s.name}: ${s.evaluations} cases, ${s.nontrivial} distinct non-trivial ${
					Object.keys(s.labels).length ? JSON.stringify(s.labels) : ""
				}`,
			);
		}
		say(
			`[${this.id}] ${this.violations ? "FAILED" : "ok"}: ${this.evaluations} cases in ${wall.toFixed(1)} s`,
		);
		return this.violations ? 1 : 0;
	}
}

export async function runCheck(
	id: string,
	meta: Meta,
	body: (check: Check) => Promise<void>,
): Promise<void> {
	const check = new Check(id, meta);
	try {
		await body(check);
	} catch (error) {
		sayError(`[${id}] harness error:`, error);
		process.exit(2);
	}
	const code = check.finish();
	process.exit(code);
}
