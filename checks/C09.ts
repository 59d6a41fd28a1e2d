import { logs, resetDom } from "../lib/dom";
import { isDeepStrictEqual } from "node:util";
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { autorun, makeAutoObservable, observable, runInAction } from "mobx";
import { assign, createActor, createMachine } from "xstate";
import createMobXAdapter from "repo:adapters/MobxAdapter";
import createReduxAdapter from "repo:adapters/ReduxAdapter";
import createXStateAdapter from "repo:adapters/XStateAdapter";
import { ensure, fc, runCheck, show } from "../lib/runner";
import { type Act, actArb, initialModel, isShared, type Kind, KINDS, makeSource, type Model, type Source, step } from "../lib/world";

const ADAPTER_KINDS = KINDS.filter((k) => !k.startsWith("custom"));

type Reaction =
	| { on: number; do: "unsubscribe"; other: number }
	| { on: number; do: "subscribe" }
	| { on: number; do: "send"; act: Act }
	| { on: number; do: "stop" };
type Op =
	| { op: "subscribe"; reaction: Reaction | null }
	| { op: "unsubscribe"; s: number }
	| { op: "send"; act: Act }
	| { op: "external"; act: Act }
	| { op: "batch"; acts: Act[] }
	| { op: "bogus" }
	| { op: "stop" };

const reactionArb: fc.Arbitrary<Reaction> = fc.oneof(
	fc.record({ on: fc.integer({ min: 1, max: 4 }), do: fc.constant("unsubscribe" as const), other: fc.nat({ max: 3 }) }),
	fc.record({ on: fc.integer({ min: 1, max: 4 }), do: fc.constant("subscribe" as const) }),
	fc.record({ on: fc.integer({ min: 1, max: 4 }), do: fc.constant("send" as const), act: actArb }),
	fc.record({ on: fc.integer({ min: 1, max: 5 }), do: fc.constant("stop" as const) }),
);
const opArb = (reactive: boolean, long = false): fc.Arbitrary<Op> =>
	fc.oneof(
		{
			weight: 4,
			arbitrary: fc.record({
				op: fc.constant("subscribe" as const),
				reaction: reactive ? fc.option(reactionArb, { nil: null }) : fc.constant(null),
			}) as fc.Arbitrary<Op>,
		},
		{ weight: long ? 2 : 3, arbitrary: fc.record({ op: fc.constant("unsubscribe" as const), s: fc.nat({ max: long ? 60 : 5 }) }) },
		{ weight: 6, arbitrary: fc.record({ op: fc.constant("send" as const), act: actArb }) },
		{ weight: 5, arbitrary: fc.record({ op: fc.constant("external" as const), act: actArb }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant("batch" as const), acts: fc.array(actArb, { minLength: 1, maxLength: 3 }) }) },
		{ weight: 1, arbitrary: fc.record({ op: fc.constant("bogus" as const) }) },
		...(long ? [] : [{ weight: 1, arbitrary: fc.record({ op: fc.constant("stop" as const) }) }]),
	);

const factoryFor = (source: Source): (() => any) & { scope: string } => {
	const make: any = source.kind.startsWith("xstate")
		? createXStateAdapter
		: source.kind.startsWith("redux")
			? createReduxAdapter
			: createMobXAdapter;
	return make(source.value);
};

const key = (m: Model) => JSON.stringify([m.count, m.items, m.flag, m.label]);
const dedupe = (list: string[]) => list.filter((x, i) => i === 0 || x !== list[i - 1]);

runCheck(
	"C09",
	{
		level: "exploration",
		rule: "sequences of up to 16 subscribe / unsubscribe / send / external change / batch / unknown event / stop calls on every adapter kind, with and without reactions inside a notification (unsubscribe, subscribe, send, stop), several adapters per factory; delivered states, reads and warnings compared with the contract model; non-trivial: at least one state change with a subscriber, or any call after stop",
		assumptions: ["listeners do not throw"],
	},
	async (check) => {
		for (const mode of ["contract", "contract with reactions", "long histories"]) {
			const reactive = mode === "contract with reactions";
			const long = mode === "long histories";
			await check.prop(
				mode,
				fc.record({
					kind: fc.constantFrom<Kind>(...ADAPTER_KINDS),
					variant: fc.nat({ max: 3 }),
					/** the state is read only once stopped and at the end */
					quiet: fc.integer({ min: 0, max: 3 }).map((n) => n === 0),
					ops: long
						? fc.array(opArb(false, true), { minLength: 100, maxLength: 220, size: "max" })
						: fc.array(opArb(reactive), { minLength: 2, maxLength: 16, size: "max" }),
				}),
				{ quick: long ? 40 : reactive ? 12000 : 14000, thorough: long ? 1000 : reactive ? 300000 : 400000, before: resetDom },
				({ kind, variant, quiet, ops }, c) => {
					const source = makeSource(kind, variant);
					const factory = factoryFor(source);
					ensure(factory.scope === (isShared(kind) ? "shared" : "isolated"), () => `${kind}: factory scope is ${factory.scope}`);
					const adapter = factory();
					ensure(adapter.scope === (isShared(kind) ? "shared" : "isolated"), () => `${kind}: scope is ${adapter.scope}`);
					const cell = source.cell ?? source.created.at(-1);
					let model = initialModel();
					const history: string[] = [key(model)];
					let exact = true; // the delivered sequence is determined
					let stoppedAt: Model | null = null;
					let lastSourceModel = model;
					const move = (a: Act) => {
						model = step(model, a);
						history.push(key(model));
					};
					const subs: Array<{
						live: boolean;
						dead: number; // received.length when it was unsubscribed
						from: number; // index in history
						received: string[];
						raw: Array<{ value: any; copy: string }>;
						handle: any;
						reaction: Reaction | null;
						inside: boolean;
					}> = [];
					let inNotification = 0;
					let late: string | null = null;
					let sentInside = false; // a listener sent an event during this operation
					const subscribe = (reaction: Reaction | null) => {
						const sub = {
							live: true,
							dead: -1,
							from: history.length - 1,
							received: [] as string[],
							raw: [] as Array<{ value: any; copy: string }>,
							handle: null as any,
							reaction,
							inside: inNotification > 0,
						};
						subs.push(sub);
						const listener = (state: any) => {
							// the source may swallow what a listener throws: kept, and judged below
							if (!sub.live) late ??= `${kind}: a listener was called after it unsubscribed or the adapter stopped`;
							const m = source.modelOf(state);
							if (kind.startsWith("xstate")) {
								ensure(state.count === state.context.count, () => `${kind}: context is not merged into the state`);
							}
							sub.received.push(key(m));
							sub.raw.push({ value: state, copy: key(m) });
							const r = sub.reaction;
							if (!r || sub.received.length !== r.on || stoppedAt) return;
							exact = false;
							inNotification++;
							if (r.do === "unsubscribe") {
								const other = subs[r.other % subs.length];
								if (other.handle) unsubscribe(other);
							} else if (r.do === "subscribe") subscribe(null);
							else if (r.do === "send") {
								model = step(model, r.act);
								history.push(key(model));
								sentInside = true;
								adapter.send(source.event(r.act));
							} else if (!sentInside) stop(m);
							inNotification--;
						};
						if (stoppedAt) {
							let got: any = null;
							try {
								got = adapter.subscribe(() => {
									late ??= `${kind}: a subscriber added after stop was called`;
								});
							} catch (error) {
								ensure((error as Error).name !== "Violation", String(error));
							}
							// a handle that is given all the same must be usable
							got?.unsubscribe();
							subs.pop();
							return;
						}
						sub.handle = adapter.subscribe(listener);
						ensure(sub.handle && typeof sub.handle.unsubscribe === "function", `${kind}: subscribe returned no handle`);
						if (!sub.inside && sub.reaction === null && inNotification === 0)
							ensure(sub.received.length > 0, () => `${kind}: a new subscriber was not given the current state`);
					};
					const unsubscribe = (sub: (typeof subs)[number]) => {
						sub.handle.unsubscribe();
						if (sub.live) sub.dead = sub.received.length;
						sub.live = false;
					};
					const stop = (at: Model) => {
						adapter.stop();
						stoppedAt ??= at;
						for (const s of subs) {
							if (s.live) s.dead = s.received.length;
							s.live = false;
						}
					};
					const settle = (where: string) => {
						ensure(late === null, () => `${where}: ${late}`);
						if (!quiet || stoppedAt || where === "at the end") {
							const state = adapter.getState();
							const want = stoppedAt ?? model;
							ensure(key(source.modelOf(state)) === key(want), () => `${where}: ${kind} reports ${key(source.modelOf(state))}, expected ${key(want)}`);
						}
						for (const [i, s] of subs.entries()) {
							if (!s.live) continue;
							ensure(
								s.received.at(-1) === key(model),
								() => `${where}: subscriber ${i} of ${kind} last received ${s.received.at(-1)}, current is ${key(model)}`,
							);
							if (exact)
								ensure(
									show(dedupe(s.received)) === show(dedupe(history.slice(s.from))),
									() => `${where}: subscriber ${i} of ${kind} received ${show(dedupe(s.received))}, the states were ${show(dedupe(history.slice(s.from)))}`,
								);
						}
						if (cell?.state && source.shared) {
							ensure(key(cell.state()) === key(lastSourceModel), () => `${where}: the ${kind} itself is at ${key(cell.state!())}, expected ${key(lastSourceModel)}`);
							ensure(cell.alive?.() !== false, () => `${where}: the ${kind} the adapter does not own was shut down`);
						}
						const liveSubs = subs.filter((s) => s.live).length;
						if (cell?.observers) {
							const n = cell.observers();
							ensure(n <= liveSubs, () => `${where}: ${n} subscriptions on the ${kind} for ${liveSubs} subscribers`);
							ensure(n > 0 || liveSubs === 0, () => `${where}: no subscription on the ${kind} for ${liveSubs} subscribers`);
						}
						if (kind === "xstate-machine")
							ensure(source.running() === (stoppedAt ? 0 : 1), () => `${where}: ${source.running()} owned machine instances running`);
					};
					settle("start");
					let changed = false;
					for (const [i, op] of ops.entries()) {
						const where = `after op ${i} (${op.op})${stoppedAt ? " once stopped" : ""}`;
						sentInside = false;
						if (stoppedAt) c.nontrivial();
						switch (op.op) {
							case "subscribe":
								subscribe(op.reaction);
								break;
							case "unsubscribe": {
								const s = subs[op.s % Math.max(1, subs.length)];
								if (s?.handle) unsubscribe(s);
								break;
							}
							case "send": {
								logs.length = 0;
								if (stoppedAt) {
									adapter.send(source.event(op.act));
									ensure(logs.some((l) => l.level === "warn"), () => `${where}: sending to a stopped ${kind} adapter gave no warning`);
								} else {
									const before = subs.some((s) => s.live);
									move(op.act);
									adapter.send(source.event(op.act));
									lastSourceModel = model;
									if (before && history.at(-1) !== history.at(-2)) changed = true;
								}
								break;
							}
							case "external": {
								if (!cell?.external) break;
								if (stoppedAt) {
									if (!source.shared) break;
									cell.external(op.act);
									lastSourceModel = step(lastSourceModel, op.act);
								} else {
									move(op.act);
									cell.external(op.act);
									lastSourceModel = model;
									if (subs.some((s) => s.live)) changed = true;
								}
								break;
							}
							case "batch": {
								if (!cell?.batch || stoppedAt) break;
								exact = false;
								for (const a of op.acts) move(a);
								cell.batch(op.acts);
								lastSourceModel = model;
								break;
							}
							case "bogus":
								adapter.send({ type: "__no_such_event__" });
								break;
							case "stop":
								stop(model);
								break;
						}
						if (!stoppedAt) lastSourceModel = model;
						settle(where);
					}
					settle("at the end");
					// delivered states do not change afterwards
					for (const s of subs)
						for (const r of s.raw)
							ensure(key(source.modelOf(r.value)) === r.copy, () => `${kind}: a delivered state changed later from ${r.copy} to ${key(source.modelOf(r.value))}`);
					if (changed) c.nontrivial();
					c.label(kind);
					if (stoppedAt) c.label("stopped");
					adapter.stop();
				},
			);
		}

		// code that reads while the source is in the middle of telling others, or of a batch
		await check.prop(
			"reads during a change",
			fc.record({
				kind: fc.constantFrom<Kind>("xstate-actor", "redux-store", "mobx-store"),
				variant: fc.nat({ max: 3 }),
				before: fc.nat({ max: 2 }),
				after: fc.nat({ max: 1 }),
				subscribers: fc.nat({ max: 2 }),
				changes: fc.array(fc.record({ acts: fc.array(actArb, { minLength: 1, maxLength: 3 }), via: fc.constantFrom("external", "send", "together") }), { minLength: 1, maxLength: 8 }),
			}),
			{ quick: 1500, thorough: 40000, before: resetDom },
			({ kind, variant, before, after, subscribers, changes }, c) => {
				const source = makeSource(kind, variant);
				const store: any = source.value;
				const factory: any = factoryFor(source);
				const adapter = factory();
				let reads = 0;
				const off: Array<() => void> = [];
				const compare = (where: string) => {
					reads++;
					const want = key(source.cell!.state!());
					const got = key(source.modelOf(adapter.getState()));
					ensure(got === want, () => `${where} ${kind}: the adapter reports ${got}, the source is at ${want}`);
					const facade = key((source.stateOf ?? source.modelOf)(factory.resolveStateSnapshot(adapter)));
					ensure(facade === want, () => `${where} ${kind}: derived values are given ${facade}, the source is at ${want}`);
				};
				const failures: unknown[] = [];
				const watch = () => {
					const on = () => {
						try {
							compare("in a notification of the");
						} catch (error) {
							failures.push(error); // the libraries report what listeners throw elsewhere
						}
					};
					if (kind === "mobx-store")
						off.push(
							autorun(() => {
								source.cell!.state!();
								on();
							}),
						);
					else if (kind === "redux-store") off.push(store.subscribe(on));
					else {
						const sub = store.subscribe(on);
						off.push(() => sub.unsubscribe());
					}
				};
				for (let i = 0; i < before; i++) watch();
				const delivered: string[] = [];
				for (let i = 0; i < subscribers; i++)
					adapter.subscribe((s: unknown) => {
						delivered[i] = key(source.modelOf(s as any));
					});
				for (let i = 0; i < after; i++) watch();
				for (const { acts, via } of changes) {
					if (via === "together" && kind === "mobx-store")
						runInAction(() => {
							for (const a of acts) {
								source.cell!.external!(a);
								compare("in a batch of the");
							}
						});
					else for (const a of acts) via === "send" ? adapter.send(source.event(a)) : source.cell!.external!(a);
					if (failures.length) throw failures[0];
					compare("after a change of the");
					const want = key(source.cell!.state!());
					for (const got of delivered) ensure(got === want, () => `${kind}: a subscriber was last given ${got}, the source is at ${want}`);
				}
				for (const f of off) f();
				adapter.stop();
				if (reads > changes.length && subscribers) c.nontrivial();
				c.label(kind);
			},
		);

		// what is sent arrives as it is
		await check.prop(
			"events arrive unchanged",
			fc.record({
				kind: fc.constantFrom("xstate-machine", "xstate-actor", "redux-store", "redux-factory", "redux-slice", "mobx"),
				sends: fc.array(
					fc.record({
						method: fc.constantFrom("none", "one", "two", "rest"),
						args: fc.option(fc.array(fc.jsonValue({ maxDepth: 2 }), { maxLength: 9 }), { nil: undefined }),
						payload: fc.option(fc.jsonValue({ maxDepth: 2 }), { nil: undefined, freq: 5 }),
						/** further fields of the event */
						more: fc.constantFrom<object>({}, {}, { meta: { at: 1 } }, { error: true, meta: undefined }, { args: [1] }),
						/** Redux: a thunk that dispatches it */
						thunk: fc.boolean(),
					}),
					{ minLength: 1, maxLength: 5 },
				),
			}),
			{ quick: 3000, thorough: 60000, before: resetDom },
			({ kind, sends }, c) => {
				const seen: unknown[] = [];
				let adapter: any;
				let event: (s: (typeof sends)[number]) => any = (s) => ({ type: "E", payload: s.payload, ...s.more });
				let expected: (s: (typeof sends)[number], e: any) => unknown = (_s, e) => e;
				if (kind.startsWith("xstate")) {
					const machine: any = createMachine({
						on: { E: { actions: ({ event: e }: any) => void seen.push(e) } },
					} as any);
					adapter = createXStateAdapter((kind === "xstate-actor" ? createActor(machine) : machine) as any)();
				} else if (kind.startsWith("redux")) {
					const reducer = (s: any = { n: 0 }, a: any) => {
						if (a.type !== "E" && a.type !== "s/E") return s;
						seen.push(a);
						return { n: s.n + 1 };
					};
					const make = () => configureStore({ reducer: reducer as any, middleware: (g: any) => g({ serializableCheck: false, immutableCheck: false }) });
					if (kind === "redux-slice") {
						const slice = createSlice({
							name: "s",
							initialState: { n: 0 },
							reducers: {
								E: (s: any, a: any) => {
									seen.push(a);
									s.n++;
								},
							},
						});
						event = (s) => ({ type: "s/E", payload: s.payload, ...s.more });
						adapter = createReduxAdapter(slice as any)();
					} else adapter = createReduxAdapter((kind === "redux-store" ? make() : make) as any)();
				} else {
					class Store {
						n = 0;
						none = function (this: any) {
							seen.push([...arguments]);
							ensure(this === store, "a store method was called with another receiver");
						};
						one = function (this: any, _a: unknown) {
							seen.push([...arguments]);
							ensure(this === store, "a store method was called with another receiver");
						};
						two = function (this: any, _a: unknown, _b: unknown) {
							seen.push([...arguments]);
							ensure(this === store, "a store method was called with another receiver");
						};
						rest = function (this: any, ..._a: unknown[]) {
							seen.push([...arguments]);
							ensure(this === store, "a store method was called with another receiver");
						};
						constructor() {
							makeAutoObservable(this, { none: false, one: false, two: false, rest: false } as any);
						}
					}
					const store: any = new Store();
					adapter = createMobXAdapter(store)();
					event = (s) => (s.args ? { type: s.method, args: s.args } : { type: s.method });
					expected = (s, e) => (s.args ? s.args : s.method === "one" || s.method === "two" ? [e] : []);
				}
				for (const s of sends) {
					seen.length = 0;
					const e = event(s);
					adapter.send(s.thunk && kind.startsWith("redux") ? (dispatch: any) => dispatch(e) : e);
					ensure(seen.length === 1, () => `${kind}: one event sent, ${seen.length} received`);
					ensure(show(seen[0]) === show(expected(s, e)), () => `${kind}: sent ${show(e)}, received ${show(seen[0])}`);
					if (kind !== "mobx") ensure(Object.is((seen[0] as any).payload, e.payload), () => `${kind}: the payload of ${show(e)} arrived as a copy`);
					else if (s.args) s.args.forEach((a, i) => ensure(Object.is((seen[0] as any)[i], a), () => `mobx: argument ${i} of ${show(e)} arrived as a copy`));
				}
				c.nontrivial();
				c.label(kind);
				adapter.stop();
			},
		);

		// the state of a machine: its snapshot, with the context's fields on top
		await check.prop(
			"machine states",
			fc.record({
				actor: fc.boolean(),
				contexts: fc.array(
					fc.dictionary(fc.constantFrom("count", "value", "status", "output", "error", "children", "tags", "a", "id"), fc.jsonValue({ maxDepth: 1 }), { maxKeys: 5, noNullPrototype: true }),
					{ minLength: 1, maxLength: 5 },
				),
				targets: fc.array(fc.boolean(), { minLength: 5, maxLength: 5 }),
				/** the machine reaches its final state in the end */
				finish: fc.boolean(),
			}),
			{ quick: 800, thorough: 15000, before: resetDom },
			({ actor, contexts, targets, finish }, c) => {
				const machine: any = createMachine({
					initial: "x",
					context: contexts[0],
					on: { SET: { actions: assign(({ event }: any) => event.context) }, END: ".z" },
					states: { x: { on: { GO: "y" } }, y: { tags: ["busy"], on: { GO: "x" } }, z: { type: "final" } },
					output: "the end",
				} as any);
				const value: any = actor ? createActor(machine) : machine;
				const adapter: any = createXStateAdapter(value)();
				let heard: any;
				adapter.subscribe((s: any) => {
					heard = s;
				});
				let context: Record<string, unknown> = { ...contexts[0] };
				let at = "x";
				const verify = (s: any, how: string) => {
					ensure(show(s.context) === show(context), () => `${how}: context ${show(s.context)}, expected ${show(context)}`);
					for (const [k, v] of Object.entries(context)) ensure(show(s[k]) === show(v), () => `${how}: context field ${k} reads ${show(s[k])}, expected ${show(v)}`);
					if (!("value" in context)) ensure(s.value === at, () => `${how}: value ${show(s.value)}, expected ${at}`);
					if (!("status" in context)) ensure(s.status === (at === "z" ? "done" : "active"), () => `${how}: status ${show(s.status)}`);
				};
				contexts.forEach((next, i) => {
					if (i > 0) {
						adapter.send({ type: "SET", context: next });
						context = { ...context, ...next };
					}
					if (targets[i]) {
						adapter.send({ type: "GO" });
						at = at === "x" ? "y" : "x";
					}
					verify(adapter.getState(), "getState");
					verify(heard, "subscriber");
				});
				if (finish) {
					adapter.send({ type: "END" });
					at = "z";
					verify(adapter.getState(), "getState of the finished machine");
					verify(heard, "subscriber of the finished machine");
					if (!("output" in context)) ensure(heard.output === "the end", () => `the output of the finished machine reads ${show(heard.output)}`);
					let late: any;
					adapter.subscribe((s: any) => {
						late = s;
					});
					verify(late, "new subscriber of the finished machine");
					c.label("finished");
				}
				adapter.stop();
				verify(adapter.getState(), "getState after stop");
				if (actor) value.stop();
				verify(adapter.getState(), "getState after the actor was stopped as well");
				if (Object.keys(context).some((k) => k !== "count" && k !== "a")) c.nontrivial();
			},
		);

		// A state may hold anything: values that look alike when written down are still different.
		const ANY: Array<() => unknown> = [
			() => 0,
			() => -0,
			() => Number.NaN,
			() => null,
			() => undefined,
			() => "",
			() => "0",
			() => [],
			() => [undefined],
			() => [null],
			() => ({}),
			() => ({ a: undefined }),
			() => ({ a: null }),
			() => ({ a: Number.NaN }),
			() => ({ a: { b: { c: 1 } } }),
			() => ({ a: { b: { c: 2 } } }),
			() => new Date(0),
			() => new Date(5),
			() => new Map([["a", 1]]),
			() => new Map([["a", 2]]),
			() => new Set([1]),
			() => () => 1,
			() => 10n,
			() => Symbol.for("x"),
			() => ({ toJSON: () => 1, n: Math.random() }),
			() => Object.create({ inherited: 1 }),
			() => /x/g,
		];
		await check.prop(
			"states of any shape",
			fc.record({
				kind: fc.constantFrom("redux", "redux bare", "redux factory", "xstate", "xstate actor", "mobx"),
				from: fc.nat({ max: ANY.length - 1 }),
				steps: fc.array(fc.record({ v: fc.nat({ max: ANY.length - 1 }), outside: fc.boolean(), sub: fc.boolean() }), { minLength: 1, maxLength: 6 }),
			}),
			{ quick: 3000, thorough: 60000, before: resetDom },
			({ kind, from, steps }, c) => {
				const initial = kind === "redux bare" && ANY[from]() === undefined ? null : ANY[from]();
				const bare = kind === "redux bare";
				const store = () =>
					configureStore({
						reducer: (s: any = bare ? initial : { v: initial }, a: any) => (a.type === "set" ? (bare ? a.v : { v: a.v }) : s),
						middleware: (get) => get({ serializableCheck: false, immutableCheck: false }),
					});
				const machine = () => createMachine({ context: { v: initial } as any, on: { set: { actions: assign({ v: ({ event }: any) => event.v }) } } } as any);
				let adapter: any;
				let outside: (v: unknown) => void;
				if (kind.startsWith("redux")) {
					const s = store();
					adapter = (createReduxAdapter as any)(kind === "redux factory" ? () => s : s)();
					outside = (v) => void s.dispatch({ type: "set", v } as any);
				} else if (kind.startsWith("xstate")) {
					const actor = kind === "xstate actor" ? createActor(machine()).start() : null;
					adapter = (createXStateAdapter as any)(actor ?? machine())();
					outside = (v) => (actor ?? adapter).send({ type: "set", v });
				} else {
					const s = observable({ v: initial as any, set(v: any) { this.v = v; } }, { v: observable.ref });
					adapter = (createMobXAdapter as any)(s)();
					outside = (v) => runInAction(() => (s.v = v));
				}
				const read = (s: any) => (bare ? s : s.v);
				let now = initial;
				const heard: unknown[] = [];
				const listen = () => {
					const i = heard.push(Symbol("nothing")) - 1;
					adapter.subscribe((s: any) => {
						heard[i] = read(s);
					});
				};
				// a state with equal contents is as good
				const same = (a: unknown, b: unknown) => Object.is(a, b) || isDeepStrictEqual(a, b);
				const verify = (where: string) => {
					const held = read(adapter.getState());
					ensure(same(held, now), () => `${where} (${kind}): the reported state holds ${show(held)}, the source ${show(now)}`);
					for (const [i, h] of heard.entries()) ensure(same(h, now), () => `${where} (${kind}): subscriber ${i} was last given ${show(h)}, the source is at ${show(now)}`);
				};
				listen();
				verify("start");
				for (const [i, s] of steps.entries()) {
					const v = bare && ANY[s.v]() === undefined ? null : ANY[s.v]();
					if (!Object.is(v, now)) c.nontrivial();
					now = v;
					if (s.outside) outside(v);
					else adapter.send(kind === "mobx" ? { type: "set", args: [v] } : { type: "set", v });
					verify(`step ${i}`);
					if (s.sub) listen();
					verify(`step ${i}, new subscriber`);
				}
				adapter.stop();
				const held = read(adapter.getState());
				ensure(same(held, now), () => `after stop (${kind}): the state holds ${show(held)}, it was ${show(now)}`);
				c.label(kind);
			},
		);

		// several adapters from one factory: independent when isolated, agreeing when shared
		await check.prop(
			"sibling adapters",
			fc.record({
				kind: fc.constantFrom<Kind>(...ADAPTER_KINDS),
				variant: fc.nat({ max: 3 }),
				count: fc.integer({ min: 2, max: 3 }),
				steps: fc.array(
					fc.oneof(
						{ weight: 6, arbitrary: fc.record({ a: fc.nat({ max: 2 }), act: fc.option(actArb, { nil: null, freq: 12 }) }) },
						{ weight: 1, arbitrary: fc.record({ a: fc.nat({ max: 2 }), act: fc.constant(null) }) },
					),
					{ minLength: 1, maxLength: 8 },
				),
			}),
			{ quick: 4000, thorough: 100000, before: resetDom },
			({ kind, variant, count, steps }, c) => {
				const source = makeSource(kind, variant);
				const factory = factoryFor(source);
				const adapters = Array.from({ length: count }, () => factory());
				const models = source.shared ? [initialModel()] : adapters.map(() => initialModel());
				const at = (i: number) => (source.shared ? 0 : i);
				const stopped: Array<Model | null> = adapters.map(() => null);
				const last: string[] = [];
				for (const [i, a] of adapters.entries())
					a.subscribe((s: any) => {
						last[i] = key(source.modelOf(s));
					});
				for (const { a, act } of steps) {
					const i = a % count;
					if (act === null) {
						adapters[i].stop();
						stopped[i] ??= models[at(i)];
					} else {
						adapters[i].send(source.event(act));
						if (!stopped[i]) models[at(i)] = step(models[at(i)], act);
					}
					for (let j = 0; j < count; j++) {
						const want = key(stopped[j] ?? models[at(j)]);
						const got = key(source.modelOf(adapters[j].getState()));
						ensure(got === want, () => `adapter ${j} of ${count} over a ${kind} reports ${got}, expected ${want}`);
						ensure(last[j] === want, () => `adapter ${j} of ${count} over a ${kind} last delivered ${last[j]}, expected ${want}`);
					}
				}
				c.nontrivial();
				c.label(kind);
				for (const a of adapters) a.stop();
			},
		);

		// The same function given to subscribe several times: each subscription counts for itself,
		// and ends once, however often it is asked to.
		await check.prop(
			"listeners used again",
			fc.record({
				kind: fc.constantFrom<Kind>(...ADAPTER_KINDS),
				variant: fc.nat({ max: 3 }),
				ops: fc.array(
					fc.oneof(
						{ weight: 3, arbitrary: fc.record({ op: fc.constant("sub" as const), f: fc.nat({ max: 1 }) }) },
						{ weight: 2, arbitrary: fc.record({ op: fc.constant("un" as const), s: fc.nat({ max: 6 }) }) },
						{ weight: 3, arbitrary: fc.record({ op: fc.constantFrom("send" as const, "external" as const), act: actArb }) },
					),
					{ minLength: 3, maxLength: 14 },
				),
			}),
			{ quick: 3000, thorough: 60000, before: resetDom },
			({ kind, variant, ops }, c) => {
				const source = makeSource(kind, variant);
				const adapter = factoryFor(source)();
				const cell = source.cell ?? source.created.at(-1);
				let model = initialModel();
				const calls: string[][] = [[], []];
				const fns = calls.map((list) => (s: any) => void list.push(key(source.modelOf(s))));
				const subs: Array<{ f: number; live: boolean; handle: any }> = [];
				let most = 0;
				for (const [i, op] of ops.entries()) {
					for (const list of calls) list.length = 0;
					const want = [0, 1].map((f) => subs.filter((s) => s.live && s.f === f).length);
					if (op.op === "sub") {
						subs.push({ f: op.f, live: true, handle: adapter.subscribe(fns[op.f]) });
						ensure(calls[op.f].at(-1) === key(model), () => `op ${i} (${kind}): a new subscriber was given ${calls[op.f].at(-1)}, the state is ${key(model)}`);
						ensure(calls[1 - op.f].length === 0, () => `op ${i} (${kind}): another listener was called`);
						most = Math.max(most, subs.filter((s) => s.live && s.f === op.f).length);
						continue;
					}
					if (op.op === "un") {
						if (!subs.length) continue;
						const s = subs[op.s % subs.length];
						s.handle.unsubscribe();
						s.live = false;
						ensure(calls.every((l) => l.length === 0), () => `op ${i} (${kind}): unsubscribing called a listener`);
						continue;
					}
					const before = model;
					model = step(model, op.act);
					if (op.op === "send" || !cell?.external) adapter.send(source.event(op.act));
					else cell.external(op.act);
					if (key(before) === key(model)) continue;
					for (const f of [0, 1]) {
						if (want[f] === 0) ensure(calls[f].length === 0, () => `op ${i} (${kind}): a listener without a subscription was called`);
						else {
							ensure(calls[f].at(-1) === key(model), () => `op ${i} (${kind}): a listener with ${want[f]} subscription(s) left was given ${calls[f].at(-1)}, the state is ${key(model)}`);
							ensure(calls[f].filter((x) => x === key(model)).length >= want[f], () => `op ${i} (${kind}): a listener with ${want[f]} subscriptions was called ${calls[f].length} times`);
						}
					}
				}
				adapter.stop();
				if (most > 1) c.nontrivial();
				c.label(kind);
			},
		);
	},
);
