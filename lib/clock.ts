// A virtual clock: timers of the code under test fire when a history says so.
import { dom } from "./dom";

const NAMES = [
	"setTimeout",
	"clearTimeout",
	"setInterval",
	"clearInterval",
	"setImmediate",
	"clearImmediate",
	"requestAnimationFrame",
	"cancelAnimationFrame",
	"requestIdleCallback",
	"cancelIdleCallback",
] as const;

type Timer = { id: number; at: number; seq: number; every?: number; run: () => void };

const realImmediate = globalThis.setImmediate;
/** every promise reaction that is due has run */
export const microtasks = () => new Promise<void>((resolve) => realImmediate(resolve));

const hosts: any[] = [globalThis, dom.window];
const originals = hosts.map((h) => new Map(NAMES.map((n) => [n, Object.getOwnPropertyDescriptor(h, n)])));
const now0 = { date: Date.now, perf: performance.now.bind(performance) };

export class Clock {
	private now = 0;
	private seq = 1;
	private timers = new Map<number, Timer>();
	errors: unknown[] = [];

	install() {
		const add = (fn: any, ms: unknown, args: unknown[], every = false) => {
			const delay = Math.max(every ? 1 : 0, Number(ms) || 0);
			const id = this.seq++;
			this.timers.set(id, {
				id,
				at: this.now + delay,
				seq: id,
				every: every ? delay : undefined,
				run: () => fn(...args),
			});
			return id;
		};
		const drop = (id: any) => {
			this.timers.delete(Number(id));
		};
		const table: Record<(typeof NAMES)[number], any> = {
			setTimeout: (fn: any, ms?: number, ...a: unknown[]) => add(fn, ms, a),
			setInterval: (fn: any, ms?: number, ...a: unknown[]) => add(fn, ms, a, true),
			setImmediate: (fn: any, ...a: unknown[]) => add(fn, 0, a),
			requestAnimationFrame: (fn: any) => add(() => fn(this.now), 16, []),
			requestIdleCallback: (fn: any) => add(() => fn({ didTimeout: false, timeRemaining: () => 10 }), 1, []),
			clearTimeout: drop,
			clearInterval: drop,
			clearImmediate: drop,
			cancelAnimationFrame: drop,
			cancelIdleCallback: drop,
		};
		for (const h of hosts)
			for (const n of NAMES) Object.defineProperty(h, n, { configurable: true, writable: true, value: table[n] });
		const start = now0.date();
		const startPerf = now0.perf();
		Date.now = () => start + this.now;
		performance.now = () => startPerf + this.now;
	}
	uninstall() {
		for (const [i, h] of hosts.entries())
			for (const n of NAMES) {
				const d = originals[i].get(n);
				if (d) Object.defineProperty(h, n, d);
				else delete h[n];
			}
		Date.now = now0.date;
		performance.now = now0.perf;
		this.timers.clear();
	}
	get pending() {
		return this.timers.size;
	}
	private next(limit: number) {
		let best: Timer | undefined;
		for (const t of this.timers.values())
			if (t.at <= limit && (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq))) best = t;
		return best;
	}
	/** time passes; what is due runs in order, with its promise reactions in between */
	async advance(ms: number) {
		await microtasks();
		const end = this.now + ms;
		for (let fired = 0; fired < 2000; fired++) {
			const t = this.next(end);
			if (!t) break;
			this.now = Math.max(this.now, t.at);
			if (t.every !== undefined) t.at = this.now + t.every;
			else this.timers.delete(t.id);
			try {
				t.run();
			} catch (error) {
				this.errors.push(error);
			}
			await microtasks();
		}
		this.now = end;
	}
}

/** runs a case under a virtual clock */
export async function withClock<T>(body: (clock: Clock) => Promise<T>): Promise<T> {
	const clock = new Clock();
	clock.install();
	try {
		return await body(clock);
	} finally {
		clock.uninstall();
	}
}
/** how long to wait between two steps; -1: not even for promise reactions */
export const WAITS = [-1, -1, -1, 0, 0, 20, 60_000];
export async function wait(clock: Clock, ms: number) {
	if (ms === 0) await microtasks();
	else if (ms > 0) await clock.advance(ms);
}
