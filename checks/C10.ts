import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { WAITS, wait, withClock } from "../lib/clock";
import { configureStore } from "@reduxjs/toolkit";
import { action, observable } from "mobx";
import { assign, createActor, createMachine } from "xstate";
import { jsx } from "repo:jsx/index";
import { defineIgniteConfig, igniteElementFactory, StateScope } from "repo:index";
import { igniteCore as coreAny } from "repo:IgniteCore";
import { igniteCore as coreMobx } from "repo:mobx";
import { igniteCore as coreRedux } from "repo:redux";
import { igniteCore as coreXState } from "repo:xstate";
import { ensure, ensureEqual, fc, runCheck, show } from "../lib/runner";
import { type Act, actArb, initialModel, isShared, type Kind, KINDS, makeSource, type Model, type Source, step } from "../lib/world";

const ENTRY_KINDS = KINDS.filter((k) => !k.startsWith("custom"));

const coreFor = (kind: Kind, inferred: boolean): any =>
	inferred ? coreAny : kind.startsWith("xstate") ? coreXState : kind.startsWith("redux") ? coreRedux : coreMobx;

const fnValue = () => 42;
/** derivations of a model: primitives, falsy values, objects, functions */
const DERIVE: Array<(m: Model) => unknown> = [
	(m) => m.count,
	(m) => m.count * 2,
	(m) => m.items,
	(m) => m.items.length,
	(m) => m.flag,
	(m) => m.label,
	(m) => ({ nested: { label: m.label, items: m.items.map((i) => ({ i })) } }),
	() => "constant",
	(m) => (m.flag ? undefined : 0),
	(m) => (m.count > 2 ? null : ""),
	() => fnValue,
	(m) => m.items.at(-1),
	(m) => new Map([[m.count, m.label]]),
];
const NAMES = ["a", "b", "count", "items", "value", "context", "toggle", "constructor", "toString", "hasOwnProperty", "length", "0", "name with space", "onClick", "render", "then", "host", "actor", "emit"];

/** runs a case as a development or a production build would */
async function inEnv(production: boolean, run: () => unknown) {
	const previous = process.env.NODE_ENV;
	if (production) process.env.NODE_ENV = "production";
	try {
		return await run();
	} finally {
		process.env.NODE_ENV = previous;
	}
}
const productionArb = fc.integer({ min: 0, max: 3 }).map((n) => n === 3);

type CmdKind = "act" | "read" | "watch" | "host" | "echo" | "burst" | "throw";

const manyNames = fc.integer({ min: 20, max: 90 }).map((n) => [...NAMES, ...Array.from({ length: n }, (_, i) => (i % 9 ? `key${i}` : `_${i}$`))]);
const keysArb = fc
	.oneof({ weight: 40, arbitrary: fc.uniqueArray(fc.constantFrom(...NAMES), { maxLength: 9, size: "max" }) }, { weight: 1, arbitrary: manyNames })
	.chain((names) =>
		fc
			.tuple(
				fc.array(fc.boolean(), { minLength: names.length, maxLength: names.length }),
				fc.array(fc.nat({ max: DERIVE.length - 1 }), { minLength: names.length, maxLength: names.length }),
				fc.array(fc.constantFrom<CmdKind>("act", "act", "read", "watch", "host", "echo", "burst", "throw"), { minLength: names.length, maxLength: names.length }),
			)
			.map(([isState, derive, cmd]) => ({
				states: names.map((n, i) => ({ n, d: derive[i] })).filter((_, i) => isState[i]),
				commands: names.map((n, i) => ({ n, k: cmd[i] })).filter((_, i) => !isState[i]),
			})),
	);

runCheck(
	"C10",
	{
		level: "exploration",
		rule: "generated states/commands callbacks (0-9 keys incl. names of built-in members, 13 kinds of derived value, 7 kinds of command, development and production) over every source kind, 1-3 elements and random histories; at every render each derived value must equal the callback applied to the state of that same render, and each command must act on its own element's source and host; invalid callback results must be rejected; non-trivial: there is at least one derived key or command and one state change",
		assumptions: ["the set of keys is the one returned for the initial state", "a derived key and a command do not share a name", "keys are not called state or send"],
	},
	async (check) => {
		await check.prop(
			"render arguments",
			fc.record({
				kind: fc.constantFrom<Kind>(...ENTRY_KINDS),
				variant: fc.nat({ max: 3 }),
				inferred: fc.boolean(),
				keys: keysArb,
				production: productionArb,
				omit: fc.constantFrom("none", "none", "none", "states", "commands"),
				count: fc.integer({ min: 1, max: 3 }),
				steps: fc.array(
					fc.record({ e: fc.nat({ max: 2 }), k: fc.nat({ max: 8 }), acts: fc.array(actArb, { minLength: 1, maxLength: 3 }), remount: fc.integer({ min: 0, max: 9 }).map((n) => n === 0), pause: fc.constantFrom(...WAITS) }),
					{ minLength: 1, maxLength: 8, size: "max" },
				),
			}),
			{ quick: 3000, thorough: 60000, before: resetDom },
			({ kind, variant, inferred, keys, omit, count, steps, production }, c) => inEnv(production, () => withClock(async (clock) => {
				defineIgniteConfig({});
				const source = makeSource(kind, variant);
				const commandsSeen = new Map<HTMLElement, { calls: number; fns: Record<string, any>; actor: any }>();
				let tearing: string | null = null;
				const args = new Map<HTMLElement, any>();
				const statesOf = (m: Model) => Object.fromEntries(keys.states.map(({ n, d }) => [n, DERIVE[d](m)]));
				const register = coreFor(kind, inferred)({
					source: source.value,
					...(omit === "states"
						? {}
						: {
								states: (snapshot: any) => {
									if (kind.startsWith("xstate"))
										ensure(snapshot.matches("off") === (snapshot.value === "off"), "the snapshot given to states lost its methods");
									return statesOf((source.stateOf ?? source.modelOf)(snapshot));
								},
							}),
					...(omit === "commands"
						? {}
						: {
								commands: ({ actor, host, emit }: any) => {
									ensure(typeof emit === "function", "commands got no emit");
									const seen = commandsSeen.get(host) ?? { calls: 0, fns: {}, actor };
									seen.calls++;
									seen.actor = actor;
									commandsSeen.set(host, seen);
									seen.fns = Object.fromEntries(
										keys.commands.map(({ n, k }) => [
											n,
											k === "act"
												? (a: Act) => source.perform(actor, a)
												: k === "burst"
													? (acts: Act[]) => acts.map((a) => source.perform(actor, a)).length
													: k === "read"
														? () => source.read(actor)
														: k === "watch"
															? (acts: Act[]) => {
																	// follows the source itself while acting on it
																	const seen: Model[] = [];
																	const off = kind.startsWith("redux") ? actor.subscribe(() => void seen.push(source.read(actor))) : () => {};
																	for (const a of acts) {
																		source.perform(actor, a);
																		if (!kind.startsWith("redux")) seen.push(source.read(actor));
																	}
																	off();
																	return seen;
																}
														: k === "host"
															? () => host
															: k === "echo"
																? (...xs: unknown[]) => xs
																: () => {
																		throw new Error("from the command");
																	},
										]),
									);
									return seen.fns;
								},
							}),
				});
				const tag = uniqueTag("x-facade");
				const expectKeys = [
					...(omit === "states" ? [] : keys.states.map((k) => k.n)),
					...(omit === "commands" ? [] : keys.commands.map((k) => k.n)),
					"state",
					"send",
				].sort();
				let rendering: HTMLElement | null = null;
				register(tag, (a: any) => {
					const m = (source.stateOf ?? source.modelOf)(a.state);
					if (rendering) args.set(rendering, a);
					last = a;
					if (omit !== "states") {
						const want = statesOf(m);
						for (const { n } of keys.states)
							if (show(a[n]) !== show(want[n])) tearing ??= `"${n}" is ${show(a[n])} in a render whose state gives ${show(want[n])}`;
					}
					const got = Object.keys(a).sort();
					if (show(got) !== show(expectKeys)) tearing ??= `render arguments are ${show(got)}, expected ${show(expectKeys)}`;
					return jsx("p", { children: JSON.stringify(m) });
				});
				let last: any = null;
				const els: Array<{ host: HTMLElement; cell: { m: Model } }> = [];
				const shared = { m: initialModel() };
				for (let i = 0; i < count; i++) {
					// from markup, with the attributes of the others, or by script
					const holder = document.createElement("template");
					holder.innerHTML = variant ? `<${tag} id="same" class="same"></${tag}>` : "";
					const host = (holder.content.firstElementChild as HTMLElement | null) ?? document.createElement(tag);
					rendering = host;
					document.body.append(host);
					rendering = null;
					els.push({ host, cell: isShared(kind) ? shared : { m: initialModel() } });
				}
				const argsOf = (host: HTMLElement) => {
					// forcing a render gives the arguments of that element
					(host as any).forceRender();
					return last;
				};
				const verify = (where: string) => {
					ensure(windowErrors.length === 0, () => `${where}: ${String((windowErrors[0] as any)?.stack)}`);
					ensure(!tearing, () => `${where}: ${tearing}`);
					for (const { host, cell } of els) {
						const a = argsOf(host);
						ensure(!tearing, () => `${where}: ${tearing}`);
						ensureEqual((source.stateOf ?? source.modelOf)(a.state), cell.m, `${where}: state (${kind})`);
						if (omit !== "states")
							for (const { n, d } of keys.states) ensureEqual(a[n], DERIVE[d](cell.m), `${where}: derived "${n}" (${kind})`);
						if (omit !== "commands") {
							const seen = commandsSeen.get(host);
							ensure(seen, () => `${where}: commands was not called for an element`);
							for (const { n } of keys.commands)
								ensure(a[n] === seen.fns[n], () => `${where}: command "${n}" is not the function the callback returned`);
							ensure(host.shadowRoot?.textContent === JSON.stringify(cell.m), () => `${where}: the view shows ${host.shadowRoot?.textContent}`);
						}
					}
				};
				verify("start");
				if (omit !== "commands")
					for (const { host } of els) ensure(commandsSeen.get(host)?.calls === 1, () => `commands was called ${commandsSeen.get(host)?.calls} times for an element`);
				let changed = false;
				for (const [i, s] of steps.entries()) {
					if (s.pause >= 0) {
						await wait(clock, s.pause);
						verify(`before step ${i}, after a pause`);
					}
					const el = els[s.e % count];
					if (s.remount && isShared(kind)) {
						const parent = el.host.parentNode!;
						el.host.remove();
						parent.appendChild(el.host);
					}
					const a = argsOf(el.host);
					const cmd = omit === "commands" || !keys.commands.length ? null : keys.commands[s.k % keys.commands.length];
					if (!cmd) {
						for (const act of s.acts) {
							a.send(source.event(act));
							el.cell.m = step(el.cell.m, act);
						}
						changed = true;
					} else if (cmd.k === "act") {
						for (const act of s.acts) {
							a[cmd.n](act);
							el.cell.m = step(el.cell.m, act);
						}
						changed = true;
					} else if (cmd.k === "burst") {
						ensure(a[cmd.n](s.acts) === s.acts.length, "a command's result was lost");
						for (const act of s.acts) el.cell.m = step(el.cell.m, act);
						changed = true;
					} else if (cmd.k === "watch") {
						const seen = a[cmd.n](s.acts);
						const want = s.acts.map((act) => (el.cell.m = step(el.cell.m, act)));
						ensureEqual(seen, want, `command "${cmd.n}" follows the source`);
						changed = true;
					} else if (cmd.k === "read") ensureEqual(a[cmd.n](), el.cell.m, `command "${cmd.n}" reads`);
					else if (cmd.k === "host") ensure(a[cmd.n]() === el.host, `command "${cmd.n}" has another host`);
					else if (cmd.k === "echo") ensureEqual(a[cmd.n](1, s.acts), [1, s.acts], `command "${cmd.n}" arguments`);
					else {
						let message = "";
						try {
							a[cmd.n]();
						} catch (error) {
							message = (error as Error).message;
						}
						ensure(message === "from the command", `command "${cmd.n}" lost its exception`);
					}
					verify(`step ${i}`);
				}
				if (changed && keys.states.length + keys.commands.length) c.nontrivial();
				c.label(kind);
				document.body.replaceChildren();
			})) as Promise<void>,
		);

		// states and derived values of any kind, compared by identity
		await check.prop(
			"odd values",
			fc.record({
				kind: fc.constantFrom("redux-store", "redux-factory", "xstate-machine", "xstate-actor", "mobx-store", "mobx-factory"),
				values: fc.array(fc.nat({ max: 19 }), { minLength: 2, maxLength: 8 }),
				/** what the callbacks return */
				shape: fc.constantFrom("literal", "literal", "no prototype", "instance", "frozen", "accessors"),
				production: productionArb,
			}),
			{ quick: 500, thorough: 8000, before: resetDom },
			({ kind, values, shape, production }, c) => inEnv(production, () => {
				defineIgniteConfig({});
				const shaped = <T extends object>(o: T): T => {
					if (shape === "no prototype") return Object.assign(Object.create(null), o);
					if (shape === "instance") return Object.assign(new (class Result {})(), o);
					if (shape === "frozen") return Object.freeze(o);
					if (shape === "accessors") return Object.defineProperties({}, Object.fromEntries(Object.entries(o).map(([k, v]) => [k, { get: () => v, enumerable: true }]))) as T;
					return o;
				};
				const ODD: unknown[] = [
					undefined, null, Number.NaN, 0, -0, "", false, 1n, Symbol("s"), () => 1, () => 2,
					new Map([[1, 2]]), new Map([[1, 3]]), new Set([1]), new Date(0), new Date(1), /x/, Number.POSITIVE_INFINITY, [undefined], [null],
				];
				const start = ODD[values[0]];
				const make = (): any => {
					if (kind.startsWith("redux"))
						return configureStore({
							reducer: ((s: any = { v: start }, a: any) => (a.type === "set" ? { v: a.v } : s)) as any,
							middleware: (g: any) => g({ serializableCheck: false, immutableCheck: false }),
						});
					if (kind.startsWith("xstate"))
						return createMachine({ context: { v: start }, on: { set: { actions: assign({ v: ({ event }: any) => event.v }) } } } as any);
					const store: any = observable({ v: start, set(x: unknown) { this.v = x; } }, { v: observable.ref, set: action.bound }, { deep: false });
					return store;
				};
				const instance = kind === "xstate-actor" ? createActor(make()) : kind.endsWith("factory") ? make : make();
				let tearing: string | null = null;
				let seen: any = null;
				const register = coreAny({
					source: instance,
					states: (s: any) => shaped({ same: s.v, boxed: [s.v], type: typeof s.v }),
					commands: ({ host }: any) => shaped({ me: () => host, twice: (x: unknown) => [x, x] }),
				});
				const tag = uniqueTag("x-odd");
				register(tag, (a: any) => {
					seen = a;
					if (!Object.is(a.same, a.state.v) && !kind.startsWith("mobx")) tearing ??= `derived ${show(a.same)} in a render whose state has ${show(a.state.v)}`;
					if (a.type !== typeof a.state.v) tearing ??= `derived type ${a.type} in a render whose state has ${show(a.state.v)}`;
					return jsx("p", { children: a.type });
				});
				const host = document.createElement(tag);
				document.body.append(host);
				values.forEach((v, i) => {
					const want = ODD[v];
					if (i > 0) seen.send(kind.startsWith("mobx") ? { type: "set", args: [want] } : { type: "set", v: want });
					ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
					ensure(!tearing, () => `${kind}, value ${i}: ${tearing}`);
					// MobX states are copies
					const equal = (x: unknown) => (kind.startsWith("mobx") && typeof want === "object" ? show(x) === show(want) : Object.is(x, want));
					ensure(equal(seen.state.v), () => `${kind}, value ${i}: the state has ${show(seen.state.v)}, expected ${show(want)}`);
					ensure(seen.me() === host && show(seen.twice(i)) === show([i, i]), () => `${kind}: a command returned something else`);
					ensure(equal(seen.same), () => `${kind}, value ${i}: derived ${show(seen.same)}, expected ${show(want)}`);
					ensure(host.shadowRoot?.textContent === typeof want, () => `${kind}, value ${i}: shows ${host.shadowRoot?.textContent}, expected ${typeof want}`);
				});
				c.nontrivial();
				c.label(kind);
				document.body.replaceChildren();
				if (kind === "xstate-actor") (instance as any).stop();
			}) as Promise<void>,
		);

		await check.prop(
			"invalid results are rejected",
			fc.record({
				kind: fc.constantFrom<Kind>(...ENTRY_KINDS),
				variant: fc.nat({ max: 1 }),
				what: fc.constantFrom("states", "commands", "command"),
				bad: fc.constantFrom<unknown>(null, undefined, 0, 1, "", "x", true, false, [], [1], () => ({}), Symbol("s"), 10n),
				badFn: fc.constantFrom<unknown>(null, undefined, 0, "x", {}, [], true, { call() {} }),
				others: fc.uniqueArray(fc.constantFrom("a", "b", "c"), { maxLength: 3 }),
				production: productionArb,
			}),
			{ quick: 800, thorough: 5000, before: resetDom },
			({ kind, variant, what, bad, badFn, others, production }, c) => inEnv(production, () => {
				defineIgniteConfig({});
				const source = makeSource(kind, variant);
				let rendered = 0;
				let thrown = false;
				const tag = uniqueTag("x-bad");
				try {
					const register = coreFor(kind, false)({
						source: source.value,
						...(what === "states" ? { states: () => bad } : {}),
						...(what === "commands" ? { commands: () => bad } : {}),
						...(what === "command"
							? { commands: () => ({ ...Object.fromEntries(others.map((o) => [o, () => {}])), broken: badFn }) }
							: {}),
					});
					register(tag, () => {
						rendered++;
						return jsx("p", {});
					});
					document.body.append(document.createElement(tag));
				} catch {
					thrown = true;
				}
				ensure(thrown || windowErrors.length > 0, () => `${kind}: ${what} result ${show(what === "command" ? badFn : bad)} was accepted`);
				ensure(rendered === 0, () => `${kind}: an element with an invalid ${what} result was rendered`);
				c.nontrivial();
				document.body.replaceChildren();
			}) as Promise<void>,
		);

		// igniteElementFactory: additional arguments, state and send
		await check.prop(
			"additional arguments",
			fc.record({
				shared: fc.boolean(),
				extras: fc.dictionary(fc.constantFrom("a", "b", "state", "send", "toString", "count"), fc.oneof(fc.integer(), fc.constant(null), fc.string()), { maxKeys: 5 }),
				count: fc.integer({ min: 1, max: 3 }),
				sends: fc.array(fc.tuple(fc.nat({ max: 2 }), fc.integer()), { maxLength: 5 }),
			}),
			{ quick: 600, thorough: 8000, before: resetDom },
			({ shared, extras, count, sends }, c) => {
				defineIgniteConfig({});
				const hosts: HTMLElement[] = [];
				const given = new Map<unknown, HTMLElement>();
				const register = igniteElementFactory(
					() => {
						let state = { v: 0 };
						const listeners = new Set<(s: any) => void>();
						return {
							getState: () => state,
							subscribe(l: (s: any) => void) {
								listeners.add(l);
								l(state);
								return { unsubscribe: () => void listeners.delete(l) };
							},
							send(v: any) {
								state = { v };
								for (const l of [...listeners]) l(state);
							},
							stop() {},
						};
					},
					{
						scope: shared ? StateScope.Shared : StateScope.Isolated,
						createAdditionalArgs: (_adapter: any, host: any) => {
							const token = {};
							given.set(token, host);
							return { ...extras, token } as any;
						},
					},
				) as any;
				const tag = uniqueTag("x-extra");
				let last: any = null;
				register(tag, (a: any) => {
					last = a;
					return jsx("p", { children: String(a.state.v) });
				});
				const models = Array.from({ length: count }, () => 0);
				for (let i = 0; i < count; i++) {
					const h = document.createElement(tag);
					hosts.push(h);
					document.body.append(h);
				}
				const verify = () => {
					ensure(windowErrors.length === 0, () => String(windowErrors[0]));
					for (const [i, h] of hosts.entries()) {
						(h as any).forceRender();
						const a = last;
						ensureEqual(a.state, { v: models[shared ? 0 : i] }, "state");
						ensure(typeof a.send === "function", "send was overridden by an additional argument");
						for (const [k, v] of Object.entries(extras)) if (k !== "state" && k !== "send") ensureEqual(a[k], v, `additional argument "${k}"`);
						ensure(given.get(a.token) === h, "additional arguments of another element");
					}
				};
				verify();
				for (const [e, v] of sends) {
					const i = e % count;
					(hosts[i] as any).forceRender();
					last.send(v || 1);
					models[shared ? 0 : i] = v || 1;
					verify();
				}
				if (sends.length) c.nontrivial();
				document.body.replaceChildren();
			},
		);
	},
);
