import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { configureStore } from "@reduxjs/toolkit";
import { html as staticHtml, unsafeStatic } from "lit-html/static.js";
import { jsx, jsxs } from "repo:jsx/index";
import { defineIgniteConfig } from "repo:index";
import { igniteCore as coreRedux } from "repo:redux";
import "repo:renderers/lit";
import { type CaseContext, ensure, fc, runCheck } from "../lib/runner";
import { bigArb, Game, type Op, opsArb, rendererArb, type Setup, styleArb } from "../lib/play";
import { type Act, actArb, defineComponent, expectedView, initialModel, ISOLATED_KINDS, KINDS, type Kind, makeCore, makeSource, type Model, SHARED_KINDS, shown, step } from "../lib/world";

const universe = (kinds: readonly Kind[]): fc.Arbitrary<Setup> =>
	fc
		.record({
			sources: fc.array(fc.record({ kind: fc.constantFrom<Kind>(...kinds), variant: fc.nat({ max: 3 }) }), {
				minLength: 1,
				maxLength: 3,
			}),
			cores: fc.array(
				fc.record({
					source: fc.nat({ max: 2 }),
					style: styleArb,
					renderer: rendererArb,
					cleanup: fc.constantFrom(undefined, undefined, false),
				}),
				{ minLength: 1, maxLength: 3 },
			),
			tags: fc.array(fc.nat({ max: 2 }), { minLength: 1, maxLength: 4 }),
		});

runCheck(
	"C06",
	{
		level: "exploration",
		rule: "universes of 1-3 sources, 1-3 registrations over them and 1-4 tags, isolated and shared kinds mixed, driven by random lifecycle and event histories; every connected element is compared with its own model cell (isolated) or its source's cell (shared) after every operation; non-trivial: two or more elements were connected while an event took effect",
		assumptions: [
			"an isolated element that was disconnected is not reconnected",
			"jsdom stands for the browser",
		],
	},
	async (check) => {
		const run = async ({ setup, ops }: { setup: Setup; ops: Op[] }, c: CaseContext) => {
			const game = new Game(setup);
			try {
				let hit = false;
				for (const [i, op] of ops.entries()) {
					const before = game.stats.effective;
					await game.play(op);
					const where = `after op ${i} (${op.op})`;
					game.verifyErrors(where);
					game.verifyViews(where);
					if (game.stats.effective > before && game.connected.length > 1) hit = true;
				}
				if (hit) c.nontrivial();
				for (const s of setup.sources) c.label(s.kind);
			} finally {
				game.dispose();
			}
		};
		await check.prop("mixed universes", fc.record({ setup: universe(KINDS), ops: opsArb(14) }), { quick: 1000, thorough: 30000, before: resetDom }, run);
		await check.prop("crowds and long histories", fc.record({ setup: universe(KINDS), ops: bigArb() }), { quick: 14, thorough: 500, before: resetDom }, run);

		// all elements up first, then a storm of events through every path
		for (const [name, kinds] of [
			["isolated siblings", ISOLATED_KINDS],
			["shared siblings", SHARED_KINDS],
		] as const) {
			await check.prop(
				name,
				fc.record({
					kind: fc.constantFrom<Kind>(...kinds),
					variant: fc.nat({ max: 3 }),
					style: styleArb,
					renderer: rendererArb,
					cores: fc.integer({ min: 1, max: 2 }),
					tags: fc.integer({ min: 1, max: 3 }),
					count: fc.integer({ min: 2, max: 5 }),
					events: fc.array(
						fc.record({
							e: fc.nat({ max: 7 }),
							via: fc.constantFrom("render", "command", "dom", "click", "burst", "shout", "external", "batch", "newcomer"),
							/** time that passes before it; -1: none, not even for promises */
							wait: fc.constantFrom(-1, -1, 0, 20, 60_000),
							acts: fc.array(actArb, { minLength: 1, maxLength: 3 }),
						}),
						{ minLength: 1, maxLength: 10 },
					),
				}),
				{ quick: 400, thorough: 12000, before: resetDom },
				async ({ kind, variant, style, renderer, cores, tags, count, events }, c) => {
					const game = new Game({
						sources: [{ kind, variant }],
						cores: Array.from({ length: cores }, () => ({ source: 0, style, renderer })),
						tags: Array.from({ length: tags }, (_, i) => i),
					});
					try {
						for (let i = 0; i < count; i++) game.apply({ op: "new", c: i, how: i % 2 ? "connected" : "html" });
						game.verifyErrors("start");
						game.verifyViews("start");
						for (const [i, ev] of events.entries()) {
							if (ev.wait >= 0) {
								await game.play({ op: "tick", ms: ev.wait });
								game.verifyErrors(`before event ${i}, after ${ev.wait} ms`);
								game.verifyViews(`before event ${i}, after ${ev.wait} ms`);
							}
							if (ev.via === "newcomer") {
								game.apply({ op: "new", c: ev.e, how: ev.acts.length > 1 ? "connected" : "html" });
								game.verifyErrors(`newcomer ${i}`);
								game.verifyViews(`newcomer ${i}`);
								continue;
							}
							const el = game.pick(ev.e)!;
							const others = game.els.filter((x) => x !== el).map((x) => ({ x, view: shown(x.host), renders: x.core.rec(x.host).renders }));
							if (ev.via === "external" || ev.via === "batch")
								game.apply({ op: "external", e: ev.e, acts: ev.acts, batch: ev.via === "batch" });
							else game.send(el, ev.via, ev.acts);
							const where = `after event ${i} via ${ev.via} at element ${ev.e % game.els.length}`;
							game.verifyErrors(where);
							game.verifyViews(where);
							for (const o of others) {
								if (game.sources[0].shared)
									ensure(shown(o.x.host) === shown(el.host), () => `${where}: two elements over one ${kind} disagree`);
								else {
									ensure(shown(o.x.host) === o.view, () => `${where}: another isolated element (${kind}) changed`);
									ensure(
										o.x.core.rec(o.x.host).renders === o.renders,
										() => `${where}: another isolated element (${kind}) was re-rendered`,
									);
								}
							}
							// what each element's own command actor sees is its own state
							for (const x of game.els) {
								const r = x.core.rec(x.host);
								const seen = expectedView(x.comp.source.read(r.actor));
								ensure(seen === expectedView(x.model.m), () => `${where}: a command actor (${kind}) reads ${seen}, expected ${expectedView(x.model.m)}`);
							}
						}
						c.nontrivial();
						c.label(kind);
					} finally {
						game.dispose();
					}
				},
			);
		}

		// Elements with their own state inside a view that renders again and again.
		await check.prop(
			"isolated elements inside another component's view",
			fc.record({
				kind: fc.constantFrom<Kind>(...ISOLATED_KINDS),
				variant: fc.nat({ max: 3 }),
				outer: rendererArb,
				inner: rendererArb,
				parents: fc.integer({ min: 1, max: 2 }),
				kids: fc.nat({ max: 3 }),
				steps: fc.array(
					fc.oneof(
						fc.record({ p: fc.nat({ max: 1 }), grow: fc.boolean() }),
						fc.record({ p: fc.nat({ max: 1 }), kid: fc.nat({ max: 5 }), via: fc.constantFrom("render", "command", "dom", "click"), act: actArb }),
					),
					{ minLength: 1, maxLength: 10 },
				),
			}),
			{ quick: 400, thorough: 10000, before: resetDom },
			({ kind, variant, outer, inner, parents, kids, steps }, c) => {
				const source = makeSource(kind, variant);
				const core = makeCore(source, { renderer: inner });
				const child = defineComponent(core);
				defineIgniteConfig({ renderer: outer });
				const tag = uniqueTag("x-outer");
				const make = () =>
					configureStore({
						reducer: (s: { n: number; kids: number } = { n: 0, kids }, a: any) =>
							a.type === "grow" ? { n: s.n + 1, kids: s.kids + 1 } : a.type === "tick" ? { ...s, n: s.n + 1 } : s,
					});
				const name = unsafeStatic(child.tag);
				coreRedux({ source: make, commands: ({ host }: any) => ({ me: () => host }) } as any)(tag, ((args: any) => {
					const { n, kids: count } = args.state;
					args.me().push = args.send;
					const list = Array.from({ length: count }, (_, i) => i);
					if (outer === "lit") return staticHtml`<h2>${n}</h2><div title=${n}>${list.map((i) => staticHtml`<${name} title=${`${i}-${n}`}></${name}>`)}</div>`;
					return [jsx("h2", { children: n }), jsxs("div", { title: n, children: list.map((i) => jsx(child.tag, { title: `${i}-${n}` })) })];
				}) as any);
				const hosts = Array.from({ length: parents }, () => {
					const h = document.createElement(tag) as any;
					document.body.append(h);
					return h;
				});
				const model: Array<{ n: number; kids: Array<{ m: Model; node: Element | null }> }> = hosts.map(() => ({
					n: 0,
					kids: Array.from({ length: kids }, () => ({ m: initialModel(), node: null })),
				}));
				const look = (where: string) => {
					ensure(windowErrors.length === 0, () => `${where}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					hosts.forEach((h, p) => {
						const want = model[p];
						ensure(h.shadowRoot.querySelector("h2")?.textContent === String(want.n), () => `${where}: parent ${p} shows ${h.shadowRoot.querySelector("h2")?.textContent}, not ${want.n}`);
						const found = [...h.shadowRoot.querySelectorAll(child.tag)] as HTMLElement[];
						ensure(found.length === want.kids.length, () => `${where}: parent ${p} has ${found.length} elements for ${want.kids.length}`);
						found.forEach((k, i) => {
							want.kids[i].node ??= k;
							ensure(want.kids[i].node === k, () => `${where}: element ${i} of parent ${p} was replaced`);
							ensure(shown(k) === expectedView(want.kids[i].m), () => `${where}: element ${i} of parent ${p} shows ${shown(k)}, its own state is ${expectedView(want.kids[i].m)}`);
							ensure(k.title === `${i}-${want.n}`, () => `${where}: element ${i} of parent ${p} has title ${k.title}`);
						});
					});
				};
				look("start");
				let own = false;
				for (const [n, s] of steps.entries()) {
					const p = s.p % parents;
					if ("grow" in s) {
						model[p].n++;
						if (s.grow) model[p].kids.push({ m: initialModel(), node: null });
						hosts[p].push({ type: s.grow ? "grow" : "tick" });
						if (model[p].kids.some((k) => expectedView(k.m) !== expectedView(initialModel()))) own = true;
					} else {
						const list = model[p].kids;
						if (!list.length) continue;
						const k = list[s.kid % list.length];
						const node = k.node as HTMLElement;
						const r = core.rec(node);
						if (s.via === "render") r.args.send(source.event(s.act));
						else if (s.via === "command") r.args.act(s.act);
						else if (s.via === "dom") node.dispatchEvent(new CustomEvent("send", { detail: source.event(s.act) }));
						else node.shadowRoot?.querySelector("button")?.click();
						k.m = step(k.m, s.via === "click" ? { t: "inc" } : s.act);
					}
					look(`after step ${n}`);
				}
				if (own) c.nontrivial();
				c.label(kind);
				for (const h of hosts) h.remove();
			},
		);
	},
);
