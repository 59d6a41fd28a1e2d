import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { jsx } from "repo:jsx/index";
import { defineIgniteConfig } from "repo:index";
import { igniteCore as coreAny } from "repo:IgniteCore";
import { igniteCore as coreMobx } from "repo:mobx";
import { igniteCore as coreRedux } from "repo:redux";
import { igniteCore as coreXState } from "repo:xstate";
import { ensure, fc, runCheck, show } from "../lib/runner";
import { actArb, type Kind, KINDS, makeSource } from "../lib/world";

const ENTRY_KINDS = KINDS.filter((k) => !k.startsWith("custom"));
const coreFor = (kind: Kind, inferred: boolean): any =>
	inferred ? coreAny : kind.startsWith("xstate") ? coreXState : kind.startsWith("redux") ? coreRedux : coreMobx;

const nameArb = fc.oneof(
	{ weight: 4, arbitrary: fc.constantFrom("toggled", "counter:incremented", "checkout-submitted", "submitted", "a", "click", "change") },
	{ weight: 3, arbitrary: fc.constantFrom("toString", "constructor", "hasOwnProperty", "valueOf", "__proto__", "isPrototypeOf", "length", "name", "__payload", "then") },
	{ weight: 2, arbitrary: fc.string({ maxLength: 8 }).filter((s) => s !== "send") },
	{ weight: 1, arbitrary: fc.constantFrom("Toggled", "toggled ", " toggled", "TOGGLED", "counter", "counter:", "", "é", "🎉", "on:toggled", "ontoggled", "item.added", "a/b", "a b", "update:modelValue", "@toggled", "x-change") },
);

const payloadArb = fc.oneof(
	fc.constantFrom<unknown>(undefined, null, 0, "", false, NaN, 1n),
	fc.anything({ maxDepth: 2 }),
	fc.constant(() => 1),
	fc.date(),
	fc.constantFrom<unknown>(Object.freeze({ frozen: true }), new Map([[1, 2]]), Symbol("x")),
);

/** whether a payload can be changed, and what it holds */
const contentOfPayload = (v: any): unknown[] =>
	v && (typeof v === "object" || typeof v === "function") ? [Object.isExtensible(v), Object.getPrototypeOf(v), ...Reflect.ownKeys(v).flatMap((k) => [k, ...Object.values(Object.getOwnPropertyDescriptor(v, k) ?? {})])] : [v];
const samePayload = (a: unknown[], b: unknown[]) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));

const emitArb = fc.record({
	e: fc.nat({ max: 2 }),
	pick: fc.option(fc.nat({ max: 4 }), { nil: null }),
	other: nameArb,
	payload: payloadArb,
	act: fc.option(actArb, { nil: null }),
	detached: fc.integer({ min: 0, max: 7 }).map((n) => n === 0),
	/** with the user in a field of the element */
	focus: fc.boolean(),
});

runCheck(
	"C11",
	{
		level: "exploration",
		rule: "generated event maps (0-5 arbitrary names, names of built-in members included, maps with and without prototype), emissions of declared and undeclared names with arbitrary payloads from 1-3 elements nested 0-3 shadow roots deep, over every source kind, inside commands and after removal; every dispatch is recorded at host, ancestors, shadow hosts and document; non-trivial: at least one declared and one undeclared emission, or a nested host",
		assumptions: ["no event is called send (the element listens for that name itself)", "CustomEvent turns an absent detail into null (DOM standard)"],
	},
	async (check) => {
		await check.prop(
			"emissions",
			fc.record({
				kind: fc.constantFrom<Kind>(...ENTRY_KINDS),
				variant: fc.nat({ max: 1 }),
				inferred: fc.boolean(),
				declared: fc.oneof(
					{ weight: 1, arbitrary: fc.constant(null) },
					{ weight: 8, arbitrary: fc.uniqueArray(nameArb, { maxLength: 5 }) },
				),
				mapShape: fc.constantFrom("plain", "null-proto", "frozen"),
				env: fc.constantFrom<string | undefined>("test", "development", undefined, "staging", "production"),
				depths: fc.array(fc.nat({ max: 3 }), { minLength: 1, maxLength: 3 }),
				/** inside another element of the same component, and shadow roots in shadow roots without anything between */
				inside: fc.boolean(),
				direct: fc.boolean(),
				/** the elements carry the same id, name and class */
				alike: fc.constantFrom("no", "set", "parsed"),
				emits: fc.oneof(
					{ weight: 60, arbitrary: fc.array(emitArb, { minLength: 1, maxLength: 6 }) },
					{ weight: 1, arbitrary: fc.array(emitArb, { minLength: 40, maxLength: 120, size: "max" }) },
				),
			}),
			{ quick: 4000, thorough: 80000, before: resetDom },
			({ kind, variant, inferred, declared, mapShape, env, depths, inside, direct, alike, emits }, c) => {
				defineIgniteConfig({});
				const source = makeSource(kind, variant);
				const register = coreFor(kind, inferred)({
					source: source.value,
					...(declared
						? {
								events: (event: any) => {
									const map: any = mapShape === "null-proto" ? Object.create(null) : {};
									for (const n of declared) Object.defineProperty(map, n, { value: event(), enumerable: true, configurable: true, writable: true });
									return mapShape === "frozen" ? Object.freeze(map) : map;
								},
							}
						: {}),
					commands: ({ actor, emit, host }: any) => {
						emitters.set(host, { emit, actor });
						return {
							fire: (name: string, payload: unknown, act: any) => {
								if (act) source.perform(actor, act);
								return emit(name, payload);
							},
						};
					},
				});
				const emitters = new Map<HTMLElement, { emit: any; actor: any }>();
				const argsBy = new Map<HTMLElement, any>();
				const tag = uniqueTag("x-emit");
				let last: any;
				register(tag, (args: any) => {
					last = args;
					return jsx("p", { children: jsx("input", {}) });
				});
				const log: Array<{ at: EventTarget; event: any; path0: EventTarget }> = [];
				const allNames = new Set([...(declared ?? []), ...emits.map((e) => e.other)]);
				const listen = (t: EventTarget) => {
					for (const n of allNames) {
						const on = (event: Event) => void log.push({ at: t, event, path0: first(event) });
						t.addEventListener(n, on);
						if (t === document) undo.push(() => t.removeEventListener(n, on));
					}
				};
				// where the event started, as the first listener (the element's own) sees it
				const started = new Map<Event, EventTarget>();
				const first = (event: Event) => {
					if (!started.has(event)) started.set(event, event.composedPath()[0]);
					return started.get(event) as EventTarget;
				};
				const undo: Array<() => void> = [];
				listen(document);
				const targets: Array<{ host: HTMLElement; path: EventTarget[] }> = [];
				for (const depth of depths) {
					const path: EventTarget[] = [];
					let container: Node = document.createElement("div");
					document.body.append(container as HTMLElement);
					path.unshift(container);
					for (let d = 0; d < depth; d++) {
						const shell = document.createElement("section");
						container.appendChild(shell);
						const root = shell.attachShadow({ mode: d % 2 ? "closed" : "open" });
						path.unshift(shell);
						path.unshift(root);
						container = root;
						if (direct) continue;
						const inner = document.createElement("i");
						root.append(inner);
						path.unshift(inner);
						container = inner;
					}
					if (inside) {
						const outer = document.createElement(tag);
						container.appendChild(outer);
						path.unshift(outer);
						container = outer;
					}
					const holder = document.createElement("template");
					if (alike === "parsed") holder.innerHTML = `<${tag} id="same" name="same" class="same" slot="same" title="same"></${tag}>`;
					const host = (holder.content.firstElementChild as HTMLElement | null) ?? document.createElement(tag);
					if (alike === "set") for (const n of ["id", "name", "class", "slot", "title"]) host.setAttribute(n, "same");
					container.appendChild(host);
					path.unshift(host);
					(host as any).forceRender();
					argsBy.set(host, last);
					for (const t of path) listen(t);
					targets.push({ host, path });
				}
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
				const previous = process.env.NODE_ENV;
				let good = 0;
				let bad = 0;
				try {
					if (env === undefined) delete process.env.NODE_ENV;
					else process.env.NODE_ENV = env;
					for (const em of emits) {
						const { host, path } = targets[em.e % targets.length];
						const name = em.pick !== null && declared?.length ? declared[em.pick % declared.length] : em.other;
						const isDeclared = Boolean(declared?.includes(name));
						if (!isDeclared && env === "production") continue; // unspecified
						const removed = em.detached ? path.slice(0, 1) : path;
						const home = host.parentNode;
						const args = argsBy.get(host);
						const field = host.shadowRoot?.querySelector("input");
						if (em.focus) field?.focus();
						else field?.blur();
						if (em.detached) host.remove();
						log.length = 0;
						let threw: unknown = null;
						const payloadBefore = contentOfPayload(em.payload);
						try {
							// once removed, what it emits can only be seen on itself
							if (em.detached) emitters.get(host)!.emit(name, em.payload);
							else args.fire(name, em.payload, em.act);
						} catch (error) {
							threw = error;
						}
						if (em.detached && home) {
							if (kind === "xstate-actor" || kind === "redux-store" || kind === "mobx-store") home.appendChild(host);
							else {
								ensure(isDeclared === !threw, () => `emit("${name}") after removal: ${threw ? "threw" : "did not throw"}`);
								targets.splice(em.e % targets.length, 1);
								if (!targets.length) break;
								continue;
							}
							(host as any).forceRender();
							argsBy.set(host, last);
						}
						if (!isDeclared) {
							bad++;
							ensure(threw, () => `emitting undeclared ${show(name)} did not throw (declared: ${show(declared)}, NODE_ENV=${env})`);
							ensure(log.length === 0, () => `emitting undeclared ${show(name)} dispatched ${log.length} events`);
							continue;
						}
						good++;
						ensure(samePayload(payloadBefore, contentOfPayload(em.payload)), () => `emitting ${show(name)} changed its payload to ${show(em.payload)}`);
						ensure(!threw, () => `emitting declared ${show(name)} threw ${String((threw as Error)?.stack ?? threw)}`);
						const expectPath = em.detached ? removed : [...path, document];
						const got = log.filter((l) => l.event.type === name);
						ensure(log.length === got.length, () => `emitting ${show(name)} also dispatched ${log.map((l) => l.event.type)}`);
						ensure(got.length === expectPath.length, () => `emitting ${show(name)} was seen at ${got.length} places, expected ${expectPath.length}`);
						for (const [i, l] of got.entries()) {
							ensure(l.at === expectPath[i], () => `${show(name)}: listener ${i} in the wrong order or on the wrong element`);
							ensure(l.path0 === host, () => `${show(name)} was not dispatched at the element itself`);
							ensure(l.event === got[0].event, () => `${show(name)} was dispatched more than once`);
							ensure(l.event.bubbles && l.event.composed, () => `${show(name)} does not bubble out of shadow roots`);
							const want = em.payload === undefined ? null : em.payload;
							ensure(Object.is(l.event.detail, want) || (em.payload === undefined && l.event.detail === undefined), () => `${show(name)}: payload ${show(em.payload)} arrived as ${show(l.event.detail)}`);
						}
					}
				} finally {
					for (const u of undo) u();
					process.env.NODE_ENV = previous;
				}
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
				if ((good && bad) || (good && depths.some((d) => d > 0))) c.nontrivial();
				c.label(kind);
				document.body.replaceChildren();
			},
		);

		// Listeners that emit in turn, from their own element or another one: each emission is
		// one event, delivered at once, whatever is being dispatched already.
		await check.prop(
			"emissions answering emissions",
			fc.record({
				kind: fc.constantFrom<Kind>(...ENTRY_KINDS),
				inferred: fc.boolean(),
				names: fc.integer({ min: 1, max: 30 }),
				hosts: fc.integer({ min: 1, max: 3 }),
				reactions: fc.array(fc.record({ at: fc.nat({ max: 2 }), on: fc.nat({ max: 29 }), from: fc.nat({ max: 2 }), emit: fc.nat({ max: 29 }), same: fc.boolean() }), { minLength: 1, maxLength: 6 }),
				starts: fc.array(fc.record({ from: fc.nat({ max: 2 }), emit: fc.nat({ max: 29 }) }), { minLength: 1, maxLength: 4 }),
				budget: fc.integer({ min: 1, max: 20 }),
			}),
			{ quick: 800, thorough: 16000, before: resetDom },
			({ kind, inferred, names, hosts, reactions, starts, budget }, c) => {
				defineIgniteConfig({});
				const source = makeSource(kind, 0);
				const emitters = new Map<HTMLElement, (name: string, payload: unknown) => void>();
				const register = coreFor(kind, inferred)({
					source: source.value,
					events: (event: any) => Object.fromEntries(Array.from({ length: names }, (_, i) => [`ev-${i}`, event()])),
					commands: ({ emit, host }: any) => {
						emitters.set(host, emit);
						return {};
					},
				});
				const tag = uniqueTag("x-emit");
				register(tag, () => jsx("p", {}));
				const els = Array.from({ length: hosts }, () => document.body.appendChild(document.createElement(tag)));
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
				const payloads: object[] = [];
				/** plays the script with the given way to emit */
				const play = (emit: (from: number, name: string, payload: unknown) => void, log: string[], left: { n: number }) => {
					const react = (at: number, name: string, payload: any) => {
						log.push(`${at}:${name}:${payloads.indexOf(payload)}`);
						for (const r of reactions) {
							if (r.at % hosts !== at || `ev-${r.on % names}` !== name || left.n <= 0) continue;
							left.n--;
							const p = r.same ? payload : payloads[left.n % payloads.length];
							emit(r.from % hosts, `ev-${r.emit % names}`, p);
							log.push(`${at}:${name} done`);
						}
					};
					return react;
				};
				for (let i = 0; i < 5; i++) payloads.push({ i });
				const want: string[] = [];
				const model: (at: number, name: string, payload: any) => void = play((at, name, payload) => model(at, name, payload), want, { n: budget });
				const got: string[] = [];
				const emitReal = (at: number, name: string, payload: unknown) => (emitters.get(els[at]) as any)(name, payload);
				const real = play(emitReal, got, { n: budget });
				els.forEach((el, at) => {
					for (let i = 0; i < names; i++) el.addEventListener(`ev-${i}`, (e: any) => real(at, e.type, e.detail));
				});
				starts.forEach((s, i) => {
					model(s.from % hosts, `ev-${s.emit % names}`, payloads[i]);
					emitReal(s.from % hosts, `ev-${s.emit % names}`, payloads[i]);
				});
				ensure(show(got) === show(want), () => `events seen ${show(got)}, expected ${show(want)}`);
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
				if (want.length > starts.length) c.nontrivial();
				c.label(kind);
				document.body.replaceChildren();
			},
		);
	},
);
