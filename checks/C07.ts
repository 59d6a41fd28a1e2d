import { resetDom } from "../lib/dom";
import { defineIgniteConfig, setGlobalStyles } from "repo:index";
import { type CaseContext, ensure, fc, runCheck } from "../lib/runner";
import { bigArb, Game, type Op, opsArb, rendererArb, type Setup, styleArb } from "../lib/play";
import { actArb, defineComponent, KINDS, type Kind, makeCore, makeSource, SHARED_KINDS } from "../lib/world";

const setupArb: fc.Arbitrary<Setup> = fc
	.record({
		kind: fc.constantFrom<Kind>(...KINDS),
		variant: fc.nat({ max: 3 }),
		style: styleArb,
		renderer: rendererArb,
		cleanup: fc.constantFrom(undefined, undefined, false),
		cores: fc.integer({ min: 1, max: 2 }),
		tags: fc.integer({ min: 1, max: 2 }),
	})
	.map(({ kind, variant, style, renderer, cleanup, cores, tags }) => ({
		sources: [{ kind, variant }],
		cores: Array.from({ length: cores }, () => ({ source: 0, style, renderer, cleanup })),
		tags: Array.from({ length: tags }, (_, i) => i),
	}));

const tick = () => new Promise<void>((r) => setTimeout(r, 0));

runCheck(
	"C07",
	{
		level: "exploration",
		rule: "lifecycle/state histories over instrumented sources of every kind; after each operation disconnected elements must not have rendered, changed or forwarded events, and subscriptions and running machine instances are bounded by the live elements (zero when none are left); removal is also injected in the middle of a notification, and removed elements must become collectable; non-trivial: an element was disconnected and the state changed or an event was sent through it afterwards",
		assumptions: [
			"an element that was created but never connected may hold its subscription",
			"a removed element may be retained by at most 2 of 12 instances (caches of jsdom and of the JSX renderer)",
		],
	},
	async (check) => {
		const run = async ({ setup, ops }: { setup: Setup; ops: Op[] }, c: CaseContext) => {
			const game = new Game(setup);
			try {
				let hit = false;
				for (const [i, op] of ops.entries()) {
					const before = game.stats.effective + game.stats.ignored;
					await game.play(op);
					const where = `after op ${i} (${op.op})`;
					game.verifyErrors(where);
					game.verifyFrozen(where);
					game.verifyDead(where);
					game.verifyResources(where);
					if (game.els.some((e) => e.state === "off" || e.state === "dead") && game.stats.effective + game.stats.ignored > before) hit = true;
				}
				game.verifyViews("end");
				if (hit) c.nontrivial();
				c.label(setup.sources[0].kind);
				// everything leaves
				for (const el of game.els) if (el.state === "fresh") game.places[0].append(el.host);
				document.body.append(game.places[0]);
				game.sync();
				for (const p of game.places) p.remove();
				for (const el of game.els) el.host.remove();
				game.sync();
				ensure(game.connected.length === 0, "harness: elements left");
				game.verifyResources("after everything was removed");
				for (const src of game.sources) {
					const shared = src.cell?.observers?.() ?? 0;
					ensure(shared === 0, () => `after everything was removed ${shared} subscriptions are left on the ${src.kind}`);
					for (const cell of src.created)
						ensure((cell.observers?.() ?? 0) === 0, () => `after everything was removed a ${src.kind} instance is still subscribed`);
					if (src.kind === "xstate-machine") ensure(src.running() === 0, "a machine instance is still running");
				}
			} finally {
				game.dispose();
			}
		};
		await check.prop("inert after removal", fc.record({ setup: setupArb, ops: opsArb(14) }), { quick: 1600, thorough: 40000, before: resetDom }, run);
		await check.prop("crowds and long histories", fc.record({ setup: setupArb, ops: bigArb() }), { quick: 14, thorough: 500, before: resetDom }, run);

		await check.prop(
			"removal during a notification",
			fc.record({
				kind: fc.constantFrom<Kind>(...SHARED_KINDS),
				variant: fc.nat({ max: 3 }),
				renderer: rendererArb,
				count: fc.integer({ min: 2, max: 5 }),
				steps: fc.array(
					fc.record({
						act: actArb,
						via: fc.constantFrom("external", "render", "command"),
						trigger: fc.nat({ max: 4 }),
						victims: fc.uniqueArray(fc.nat({ max: 4 }), { minLength: 1, maxLength: 3 }),
						back: fc.boolean(),
						self: fc.boolean(),
					}),
					{ minLength: 1, maxLength: 5 },
				),
			}),
			{ quick: 600, thorough: 15000, before: resetDom },
			({ kind, variant, renderer, count, steps }, c) => {
				const game = new Game({
					sources: [{ kind, variant }],
					cores: [{ source: 0, style: "entry", renderer }],
					tags: [0],
				});
				try {
					for (let i = 0; i < count; i++) game.apply({ op: "new", c: 0, how: "connected" });
					const core = game.cores[0];
					for (const [i, s] of steps.entries()) {
						const trigger = game.els[s.trigger % count];
						// the element that renders may take out others, itself too if `self`
						const victims = s.victims.map((v) => game.els[v % count]).filter((v) => v !== trigger);
						if (s.self) victims.splice(s.victims[0] % (victims.length + 1), 0, trigger);
						let fired = false;
						core.hooks.onRender = (host) => {
							if (fired || host !== trigger.host) return;
							fired = true;
							for (const v of victims) {
								v.host.remove();
								game.sync();
							}
						};
						const actor = game.connected[0];
						if (s.via === "external" || !actor) game.apply({ op: "external", e: 0, acts: [s.act], batch: false });
						else game.send(actor, s.via, [s.act]);
						core.hooks.onRender = undefined;
						const where = `step ${i}`;
						// the render during which it left may finish
						if (s.self && trigger.frozen) trigger.frozen.html = trigger.host.shadowRoot?.innerHTML ?? "";
						game.verifyErrors(where);
						game.verifyFrozen(where);
						game.verifyViews(where);
						game.verifyResources(where);
						if (fired && victims.length) c.nontrivial();
						if (s.back)
							for (const v of game.els) {
								if (v.state !== "off") continue;
								game.places[1].append(v.host);
								game.sync();
							}
						game.verifyViews(`${where}, reconnected`);
						game.verifyErrors(where);
					}
					c.label(kind);
				} finally {
					game.dispose();
				}
			},
		);

		await check.prop(
			"removed elements can be collected",
			fc.record({
				kind: fc.constantFrom<Kind>(...KINDS),
				variant: fc.nat({ max: 3 }),
				renderer: fc.constantFrom<"ignite-jsx" | "lit">("ignite-jsx", "lit"),
				styles: fc.constantFrom<string | undefined>(undefined, "a.css"),
				cleanup: fc.constantFrom(undefined, false),
				acts: fc.array(actArb, { maxLength: 3 }),
				reconnect: fc.boolean(),
				keepOne: fc.boolean(),
			}),
			{ quick: 36, thorough: 400, before: resetDom },
			async ({ kind, variant, renderer, styles, cleanup, acts, reconnect, keepOne }, c) => {
				setGlobalStyles(styles);
				try {
					const source = makeSource(kind, variant);
					const core = makeCore(source, { renderer, cleanup });
					const comp = defineComponent(core);
					if (keepOne) document.body.append(document.createElement(comp.tag));
					const refs: WeakRef<HTMLElement>[] = [];
					const run = () => {
						const host = document.createElement(comp.tag);
						document.body.append(host);
						for (const a of acts) core.rec(host).args.send(source.event(a));
						host.remove();
						if (reconnect && source.shared) {
							document.body.append(host);
							host.remove();
						}
						refs.push(new WeakRef(host));
						core.recs.delete(host);
					};
					for (let i = 0; i < 12; i++) run();
					source.created.length = 0;
					let alive = refs.length;
					for (let i = 0; i < 6 && alive > 2; i++) {
						await tick();
						(globalThis as { gc?: () => void }).gc?.();
						alive = refs.filter((r) => r.deref()).length;
					}
					ensure(alive <= 2, () => `${alive} of ${refs.length} removed elements are still referenced (${kind}, ${renderer}, styles ${styles})`);
					c.nontrivial();
				} finally {
					setGlobalStyles(undefined);
					defineIgniteConfig({});
				}
			},
		);
	},
);
