import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { jsx } from "repo:jsx/index";
import { defineIgniteConfig, igniteElementFactory, StateScope } from "repo:index";
import { type CaseContext, ensure, fc, runCheck } from "../lib/runner";
import { bigArb, Game, type Op, rendererArb, styleArb, tickArb } from "../lib/play";
import { actArb, type Kind, SHARED_KINDS, step } from "../lib/world";

const n = fc.nat({ max: 5 });
const acts = fc.array(actArb, { minLength: 1, maxLength: 2 });
const opArb: fc.Arbitrary<Op> = fc.oneof(
	{ weight: 3, arbitrary: fc.record({ op: fc.constant("new" as const), c: n, how: fc.constantFrom("connected", "connected", "create", "html") }) as fc.Arbitrary<Op> },
	{ weight: 6, arbitrary: fc.record({ op: fc.constant("connect" as const), e: n, at: fc.nat({ max: 2 }) }) },
	{ weight: 6, arbitrary: fc.record({ op: fc.constant("remove" as const), e: n }) },
	{ weight: 2, arbitrary: fc.record({ op: fc.constant("clear" as const) }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("hide" as const), at: fc.nat({ max: 2 }) }) },
	{ weight: 2, arbitrary: fc.record({ op: fc.constant("show" as const), at: fc.nat({ max: 2 }) }) },
	{ weight: 3, arbitrary: fc.record({ op: fc.constant("external" as const), e: n, acts, batch: fc.boolean() }) },
	{ weight: 3, arbitrary: fc.record({ op: fc.constant("send" as const), e: n, via: fc.constantFrom("render", "command", "dom", "click"), acts }) as fc.Arbitrary<Op> },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("later" as const), e: n, ms: fc.constantFrom(0, 5, 40) }) },
	{ weight: 3, arbitrary: tickArb() },
);

runCheck(
	"C08",
	{
		level: "exploration",
		rule: "histories of creating, connecting, moving, removing (singly, by subtree, all at once) and re-adding elements of 1-3 tags over one shared source, with cleanup on, off and defaulted, mixed with events and external changes; adapter stops are compared with a reference count, user sources with the reference model; non-trivial: the connected count returned to zero at least once and rose again",
		assumptions: [
			"the reference count covers all tags registered through one registration function",
			"moving the only connected element may or may not release in between",
		],
	},
	async (check) => {
		const planArb = (ops: fc.Arbitrary<Op[]>) =>
			fc.record({
				kind: fc.constantFrom<Kind>("custom-shared", "custom-shared", ...SHARED_KINDS),
				variant: fc.nat({ max: 3 }),
				style: styleArb,
				renderer: rendererArb,
				cleanup: fc.constantFrom<boolean | undefined>(undefined, true, false),
				tags: fc.integer({ min: 1, max: 3 }),
				first: fc.integer({ min: 1, max: 3 }),
				ops,
			});
		type Plan = ReturnType<typeof planArb> extends fc.Arbitrary<infer T> ? T : never;
		const run = async ({ kind, variant, style, renderer, cleanup, tags, first, ops }: Plan, c: CaseContext) => {
			const game = new Game({
				sources: [{ kind, variant }],
				cores: [{ source: 0, style, renderer, cleanup }],
				tags: Array.from({ length: tags }, () => 0),
			});
			try {
				const src = game.sources[0];
				let zeroes = 0;
				let rose = false;
				// the adapter elements expose; in use by the connected ones, or by none
				let exposed: any;
				const all: Op[] = [
					...Array.from({ length: first }, (_, i): Op => ({ op: "new", c: i, how: "connected" })),
					...ops,
				];
				for (const [i, op] of all.entries()) {
					const before = game.connected.length;
					await game.play(op);
					const now = game.connected.length;
					const where = `after op ${i} (${op.op}, ${before} -> ${now} connected)`;
					if (before > 0 && now === 0) zeroes++;
					if (zeroes && now > 0) rose = true;
					game.verifyErrors(where);
					game.verifyViews(where);
					game.verifySources(where);
					game.verifyResources(where);
					if (kind === "custom-shared") {
						const open = src.adapters.filter((a) => a.stops === 0).length;
						if (cleanup === false) {
							ensure(src.adapters.every((a) => a.stops === 0), () => `${where}: cleanup is off, yet the shared adapter was stopped`);
							ensure(src.adapters.length === 1, () => `${where}: ${src.adapters.length} adapters were created with cleanup off`);
						} else {
							ensure(open <= 1, () => `${where}: ${open} shared adapters are open`);
							if (now > 0) ensure(open === 1, () => `${where}: the shared adapter is stopped while elements are connected`);
							if (before > 0 && now === 0) ensure(open === 0, () => `${where}: the last element left and the shared adapter was not stopped`);
						}
						ensure(src.adapters.every((a) => a.subsAfterStop === 0), () => `${where}: an element subscribed to a stopped adapter`);
					}
					const adapters = [...new Set(game.connected.map((e) => (e.host as any).adapter).filter(Boolean))] as any[];
					ensure(adapters.length <= 1, () => `${where}: the connected elements use ${adapters.length} different adapters`);
					if (adapters[0]) {
						if (cleanup === false) ensure(!exposed || exposed === adapters[0], () => `${where}: the shared adapter was replaced although cleanup is off`);
						exposed = adapters[0];
					}
					if (now === 0 && game.els.every((e) => e.state !== "fresh"))
						ensure((src.cell?.observers?.() ?? 0) === 0, () => `${where}: no element is left but the ${kind} has subscriptions`);
				}
				if (cleanup === false && zeroes && game.els[0].core.rec(game.els[0].host).args) {
					// never released: what a view was given keeps acting on the source
					const el = game.els[0];
					if (el.state === "on") el.host.remove();
					for (const p of game.places) p.replaceChildren();
					game.sync();
					el.core.rec(el.host).args.act({ t: "inc" });
					el.model.m = step(el.model.m, { t: "inc" });
					game.verifySources("cleanup is off and no element is left: after a command of an earlier view");
					game.apply({ op: "show", at: 0 });
					game.apply({ op: "new", c: 0, how: "connected" });
					game.verifyErrors("with a new element at the end");
					game.verifyViews("with a new element at the end");
				}
				if (zeroes && rose) c.nontrivial();
				c.label(`${kind}${cleanup === false ? ", cleanup off" : ""}`);
			} finally {
				game.dispose();
			}
		};
		await check.prop("reference count", planArb(fc.array(opArb, { minLength: 2, maxLength: 18, size: "max" })), { quick: 1800, thorough: 50000, before: resetDom }, run);
		// many elements, leaving one after the other
		const thinning = fc
			.record({ count: fc.integer({ min: 5, max: 70 }), leave: fc.integer({ min: 0, max: 3 }), order: fc.nat({ max: 6 }), then: fc.array(opArb, { maxLength: 3 }), again: fc.boolean() })
			.map(({ count, leave, order, then, again }) => {
				const one: Op[] = [
					...Array.from({ length: count }, (_, i): Op => ({ op: "new", c: i, how: "connected" })),
					...Array.from({ length: count + 3 - leave }, (_, i): Op => ({ op: "remove", e: order % 2 ? count + 2 - i : i })),
				];
				return [...one, { op: "external", e: 0, acts: [{ t: "inc" }], batch: false } as Op, ...then, ...(again ? one : [])];
			});
		// Elements whose render fails are in the document like any other.
		await check.prop(
			"elements that fail to render",
			fc.record({
				cleanup: fc.constantFrom<boolean | undefined>(undefined, true, true, false),
				ops: fc.array(
					fc.oneof(
						{ weight: 4, arbitrary: fc.record({ op: fc.constant("add" as const), fails: fc.boolean(), leaves: fc.integer({ min: 0, max: 7 }).map((n) => n === 0) }) },
						{ weight: 3, arbitrary: fc.record({ op: fc.constant("remove" as const), e: fc.nat({ max: 9 }) }) },
						{ weight: 2, arbitrary: fc.record({ op: fc.constant("back" as const), e: fc.nat({ max: 9 }), fails: fc.boolean() }) },
						{ weight: 2, arbitrary: fc.record({ op: fc.constant("change" as const) }) },
					),
					{ minLength: 2, maxLength: 14, size: "max" },
				),
			}),
			{ quick: 600, thorough: 15000, before: resetDom },
			({ cleanup, ops }, c) => {
				defineIgniteConfig({});
				let value = 0;
				const listeners = new Set<(s: any) => void>();
				let open = 0;
				let made = 0;
				const register = igniteElementFactory(
					() => {
						made++;
						open++;
						let stopped = false;
						const mine = new Set<(s: any) => void>();
						return {
							getState: () => ({ v: value }),
							subscribe(l: (s: any) => void) {
								ensure(!stopped, "an element subscribed to a stopped adapter");
								mine.add(l);
								listeners.add(l);
								l({ v: value });
								return { unsubscribe: () => void (mine.delete(l), listeners.delete(l)) };
							},
							send() {},
							stop() {
								if (stopped) return;
								stopped = true;
								open--;
								for (const l of mine) listeners.delete(l);
							},
						} as any;
					},
					{ scope: StateScope.Shared, ...(cleanup === undefined ? {} : { cleanup }) },
				) as any;
				const tag = uniqueTag("x-fails");
				/** what happens in the next render */
				let next: "fail" | "leave" | null = null;
				let current: HTMLElement | null = null;
				register(tag, ({ state }: any) => {
					const what = next;
					next = null;
					if (what === "leave") current?.remove();
					if (what === "fail") throw new Error("render");
					return jsx("p", { children: String(state.v) });
				});
				const els: HTMLElement[] = [];
				const blank = new Set<HTMLElement>();
				let failed = 0;
				for (const [i, op] of ops.entries()) {
					const before = els.filter((e) => e.isConnected).length;
					if (op.op === "add") {
						const el = document.createElement(tag);
						els.push(el);
						current = el;
						next = op.leaves ? "leave" : op.fails ? "fail" : null;
						document.body.append(el);
						if (op.fails || op.leaves) {
							failed++;
							blank.add(el);
						}
					} else if (op.op === "remove") els[op.e % els.length]?.remove();
					else if (op.op === "back") {
						const el = els[op.e % els.length];
						if (el && !el.isConnected) {
							next = op.fails ? "fail" : null;
							document.body.append(el);
							if (op.fails) {
								failed++;
								blank.add(el);
							} else blank.delete(el);
						}
					} else {
						value++;
						for (const l of [...listeners]) l({ v: value });
						for (const e of els) if (e.isConnected) blank.delete(e);
					}
					next = null;
					const now = els.filter((e) => e.isConnected).length;
					const where = `after op ${i} (${op.op}, ${before} -> ${now} connected)`;
					if (cleanup === false) ensure(made === 1 && open === 1, () => `${where}: cleanup is off, ${made} adapters were made and ${open} are open`);
					else if (now > 0) ensure(open === 1, () => `${where}: ${open} shared adapters are open`);
					else if (before > 0) ensure(open === 0, () => `${where}: the last element left and ${open} shared adapters are open`);
					for (const e of els)
						if (e.isConnected && !blank.has(e)) ensure(e.shadowRoot?.textContent === String(value), () => `${where}: an element shows ${e.shadowRoot?.textContent}, the state is ${value}`);
				}
				ensure(windowErrors.every((e: any) => /render/.test(String(e?.message ?? e))), () => String((windowErrors.find((e: any) => !/render/.test(String(e?.message ?? e))) as any)?.stack));
				windowErrors.length = 0;
				if (failed) c.nontrivial();
				document.body.replaceChildren();
			},
		);
		await check.prop("a crowd leaves one by one", planArb(thinning), { quick: 30, thorough: 300, before: resetDom }, run);
		await check.prop("crowds and long histories", planArb(bigArb(opArb)), { quick: 14, thorough: 500, before: resetDom }, run);
	},
);
