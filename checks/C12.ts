import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { legacy_createStore } from "redux";
import { action, extendObservable, makeObservable, observable } from "mobx";
import { assign, createActor, createMachine, setup } from "xstate";
import { jsx } from "repo:jsx/index";
import { defineIgniteConfig, igniteElementFactory, StateScope } from "repo:index";
import { igniteCore } from "repo:IgniteCore";
import { ensure, fc, runCheck, show } from "../lib/runner";
import { type Act, actArb, type Kind, KINDS, makeSource, type Model, initialModel, isShared, step } from "../lib/world";

const core = igniteCore as any;
const ENTRY_KINDS = KINDS.filter((k) => !k.startsWith("custom"));

/** harmless members that sources of other libraries also have */
const DECOR: Record<Kind, string[]> = {
	"xstate-machine": ["name", "send", "dispatch", "getState", "reducer", "subscribe"],
	"xstate-actor": ["name", "dispatch", "getState", "reducer", "transition", "getInitialState", "actions"],
	"redux-slice": ["send", "dispatch", "getState", "start", "transition", "extra"],
	"redux-factory": ["send", "dispatch", "getState", "subscribe", "name2", "actions"],
	"redux-store": ["send", "start", "stop", "reducer", "actions", "getInitialState", "name", "transition"],
	"mobx-factory": ["send", "dispatch", "getState", "subscribe", "name2", "getSnapshot", "start"],
	"mobx-store": ["send", "dispatch", "getState", "start", "transition", "reducer"],
	"custom-isolated": [],
	"custom-shared": [],
};

function decorate(value: any, keys: string[]): any {
	for (const k of keys) {
		try {
			Object.defineProperty(value, k, { value: () => undefined, enumerable: false, configurable: true });
		} catch {
			/* observable proxies refuse some */
		}
	}
	return value;
}

const fn = () => {};
/** values that are no source of any supported library */
const junkArb: fc.Arbitrary<{ what: string; value: () => unknown }> = fc.oneof(
	fc.anything({ maxDepth: 2 }).map((v) => ({ what: show(v), value: () => v })),
	fc
		.uniqueArray(
			fc.constantFrom("getState", "dispatch", "subscribe", "send", "getSnapshot", "start", "stop", "transition", "getInitialSnapshot", "name", "reducer", "actions", "getInitialState"),
			{ maxLength: 9 },
		)
		.map((keys) => {
			const o: any = {};
			for (const k of keys) o[k] = k === "name" ? "x" : k === "actions" ? {} : fn;
			return { keys: new Set(keys), o };
		})
		// not a complete look-alike of a supported source
		.filter(
			({ keys: k }) =>
				!(k.has("getState") && k.has("dispatch") && k.has("subscribe")) &&
				!(k.has("transition") && k.has("getInitialSnapshot")) &&
				!(k.has("send") && k.has("subscribe") && k.has("getSnapshot") && (k.has("start") || k.has("stop"))) &&
				!(k.has("name") && k.has("reducer") && k.has("actions") && k.has("getInitialState")),
		)
		.map(({ o }) => ({ what: `{${Object.keys(o).join()}}`, value: () => o })),
	fc
		.record({
			getState: fc.constantFrom<unknown>(fn, 1, null),
			dispatch: fc.constantFrom<unknown>(fn, 1, "x"),
			subscribe: fc.constantFrom<unknown>(fn, {}, undefined),
		})
		.filter((o) => !Object.values(o).every((v) => typeof v === "function"))
		.map((o) => ({ what: show(o), value: () => o })),
	fc
		.record({
			name: fc.constantFrom<unknown>("n", 1, undefined),
			reducer: fc.constantFrom<unknown>(fn, {}, null),
			actions: fc.constantFrom<unknown>({}, null, undefined),
			getInitialState: fc.constantFrom<unknown>(fn, 1),
		})
		.filter((o) => !(typeof o.name === "string" && typeof o.reducer === "function" && o.actions && typeof o.getInitialState === "function"))
		.map((o) => ({ what: show(o), value: () => o })),
	fc.constantFrom(
		{ what: "Promise", value: () => Promise.resolve({}) },
		{ what: "class", value: () => class Foo {} },
		{ what: "Date", value: () => new Date() },
		{ what: "machine config", value: () => ({ initial: "a", states: { a: {} } }) },
		{ what: "element", value: () => document.createElement("div") },
		...["_atom", "$mobx", "$$observable"].map((k) => ({ what: `inherits ${k}`, value: () => Object.create({ [k]: {} }) })),
	),
);

runCheck(
	"C12",
	{
		level: "exploration",
		rule: "every supported source kind, with and without explicit adapter and decorated with members other libraries use, mounted on two elements and driven to tell library and scope apart; generated values that are no source (partial look-alikes, junk, factories returning junk or throwing) must be rejected when the component is declared; non-trivial: the source is decorated, or the value is an object or function",
		assumptions: ["sources satisfying two libraries' interfaces completely are outside the generated inputs", "a factory given together with an explicit adapter is judged when an element is made"],
	},
	async (check) => {
		await check.prop(
			"supported sources",
			fc.record({
				kind: fc.constantFrom<Kind>(...ENTRY_KINDS),
				variant: fc.nat({ max: 3 }),
				explicit: fc.boolean(),
				decor: fc.array(fc.nat({ max: 9 }), { maxLength: 3 }),
				acts: fc.array(fc.tuple(fc.nat({ max: 1 }), actArb), { minLength: 1, maxLength: 4 }),
			}),
			{ quick: 1500, thorough: 20000, before: resetDom },
			({ kind, variant, explicit, decor, acts }, c) => {
				defineIgniteConfig({});
				const source = makeSource(kind, variant);
				const keys = DECOR[kind];
				// a set of decorations that does not complete another library's interface
				const chosen = [...new Set(decor.map((d) => keys[d % keys.length]))].filter((k) => {
					if (kind === "redux-slice" && ["dispatch", "getState", "subscribe"].includes(k)) return false;
					if (kind === "mobx-store") return false;
					return true;
				});
				decorate(source.value, chosen);
				const register = core({ source: source.value, ...(explicit ? { adapter: kind.split("-")[0] } : {}) });
				const tag = uniqueTag("x-inf");
				let last: any;
				register(tag, (args: any) => {
					last = args;
					return jsx("p", { children: JSON.stringify((source.stateOf ?? source.modelOf)(args.state)) });
				});
				const els = [0, 1].map(() => {
					const host = document.createElement(tag);
					document.body.append(host);
					return { host, send: last?.send };
				});
				ensure(windowErrors.length === 0, () => `${kind} with ${chosen}: ${String((windowErrors[0] as any)?.stack)}`);
				const shared = isShared(kind);
				const models: Model[] = [initialModel(), initialModel()];
				for (const [e, act] of acts) {
					els[e].send(source.event(act));
					models[e] = step(models[e], act);
					if (shared) models[1 - e] = models[e];
					for (const i of [0, 1])
						ensure(
							els[i].host.shadowRoot?.textContent === JSON.stringify(models[i]),
							() => `${kind} with ${chosen}: element ${i} shows ${els[i].host.shadowRoot?.textContent}, expected ${JSON.stringify(models[i])}`,
						);
				}
				if (chosen.length || explicit) c.nontrivial();
				c.label(kind);
				document.body.replaceChildren();
			},
		);

		await check.prop(
			"other ways to build sources",
			fc.record({
				how: fc.constantFrom("legacy store", "legacy factory", "plain store", "frozen store", "frozen store factory", "class store", "store without prototype", "observable map", "observable array", "extended observable", "named function", "async state machine", "static", "slice without actions of its own", "slice with a path and selectors", "frozen slice", "machine from setup", "provided machine", "child actor", "annotated class", "subclass instance", "bound factory", "store with an enhancer", "factory with a parameter", "named mobx factory", "named mobx store"),
				n: fc.integer({ min: 1, max: 4 }),
			}),
			{ quick: 500, thorough: 3000, before: resetDom },
			({ how, n }, c) => {
				defineIgniteConfig({});
				const reducer = (s: any = { n: 0 }, a: any) => (a.type === "inc" ? { n: s.n + 1 } : s);
				let source: any;
				let read = (s: any) => s.n;
				let inc = (send: any): void => send({ type: "inc" });
				let shared = false;
				let adapter: string | undefined;
				const quiet = { middleware: (g: any) => g({ serializableCheck: false, immutableCheck: false }) };
				switch (how) {
					case "legacy store":
						source = legacy_createStore(reducer as any);
						shared = true;
						break;
					case "legacy factory":
						source = () => legacy_createStore(reducer as any);
						break;
					case "plain store": {
						let s = { n: 0 };
						const ls = new Set<() => void>();
						source = {
							getState: () => s,
							dispatch(a: any) {
								s = reducer(s, a);
								for (const l of ls) l();
								return a;
							},
							subscribe(l: () => void) {
								ls.add(l);
								return () => ls.delete(l);
							},
						};
						shared = true;
						break;
					}
					case "frozen store":
						source = Object.freeze(legacy_createStore(reducer as any));
						shared = true;
						break;
					case "frozen store factory":
						source = Object.freeze(() => Object.freeze(configureStore({ reducer: reducer as any, ...quiet } as any)));
						break;
					case "class store": {
						class Store {
							#inner = legacy_createStore(reducer as any);
							getState() {
								return this.#inner.getState();
							}
							dispatch(a: any) {
								return this.#inner.dispatch(a);
							}
							subscribe(l: () => void) {
								return this.#inner.subscribe(l);
							}
						}
						source = new Store();
						shared = true;
						break;
					}
					case "store without prototype":
						source = Object.assign(Object.create(null), legacy_createStore(reducer as any));
						shared = true;
						break;
					case "observable map": {
						const m = observable.map([["n", 0]]);
						source = m;
						read = (s) => (s instanceof Map ? s.get("n") : s.n);
						inc = () => void m.set("n", (m.get("n") as number) + 1);
						shared = true;
						break;
					}
					case "observable array": {
						const a = observable([0]);
						source = a;
						read = (s) => s[0];
						inc = () => void (a[0] = a[0] + 1);
						shared = true;
						break;
					}
					case "extended observable": {
						const o: any = extendObservable({}, { n: 0, inc() { (this as any).n++; } });
						source = o;
						shared = true;
						break;
					}
					case "named function":
						source = function makeStore() {
							return configureStore({ reducer: reducer as any, ...quiet } as any);
						};
						break;
					case "async state machine": {
						const actor: any = createActor(createMachine({ initial: "a", states: { a: { on: { inc: "b" } }, b: { on: { inc: "a" } } } } as any));
						source = actor;
						read = (s) => s.value;
						shared = true;
						break;
					}
					case "slice without actions of its own":
						source = createSlice({ name: "s", initialState: { n: 0 }, reducers: {}, extraReducers: (b: any) => b.addCase("inc", (s: any) => void s.n++) });
						read = (s) => s.s.n;
						break;
					case "slice with a path and selectors":
						source = createSlice({ name: "s", reducerPath: "p" as any, initialState: { n: 0 }, reducers: { inc: (s: any) => void s.n++ }, selectors: { n: (s: any) => s.n } });
						read = (s) => s.s.n;
						inc = (send) => send({ type: "s/inc" });
						break;
					case "frozen slice":
						source = Object.freeze(createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s: any) => void s.n++ } }));
						read = (s) => s.s.n;
						inc = (send) => send({ type: "s/inc" });
						break;
					case "machine from setup":
						source = setup({ actions: { bump: assign({ n: ({ context }: any) => context.n + 1 }) } } as any).createMachine({ context: { n: 0 }, on: { inc: { actions: "bump" } } } as any);
						break;
					case "provided machine":
						source = createMachine({ context: { n: 0 }, on: { inc: { actions: "bump" } } } as any).provide({ actions: { bump: assign({ n: ({ context }: any) => context.n + 1 }) } } as any);
						break;
					case "child actor": {
						const child = createMachine({ context: { n: 0 }, on: { inc: { actions: assign({ n: ({ context }: any) => context.n + 1 }) } } } as any);
						const parent: any = createActor(createMachine({ invoke: { id: "kid", src: child } } as any));
						parent.start();
						source = parent.getSnapshot().children.kid;
						shared = true;
						break;
					}
					case "annotated class": {
						class Store {
							n = 0;
							constructor() {
								makeObservable(this, { n: observable, inc: action });
							}
							inc() {
								this.n++;
							}
						}
						source = new Store();
						shared = true;
						break;
					}
					case "subclass instance": {
						class Base {
							n = 0;
							constructor() {
								makeObservable(this, { n: observable, inc: action });
							}
							inc() {
								this.n++;
							}
						}
						class Store extends Base {}
						source = () => new Store();
						break;
					}
					case "bound factory":
						source = function (this: any) {
							return configureStore({ reducer: this.reducer, ...quiet } as any);
						}.bind({ reducer });
						break;
					case "factory with a parameter":
						source = (preloaded: any) => configureStore({ reducer: reducer as any, preloadedState: preloaded, ...quiet } as any);
						break;
					case "named mobx factory":
					case "named mobx store": {
						// an observable that could pass for a Redux store: the named adapter decides
						const make = () => {
							const o: any = observable({ n: 0, inc() { this.n++; }, getState() { return { n: -1 }; }, dispatch() {}, subscribe() { return () => {}; } });
							return o;
						};
						adapter = "mobx";
						shared = how === "named mobx store";
						source = shared ? make() : make;
						break;
					}
					case "store with an enhancer":
						source = configureStore({ reducer: reducer as any, ...quiet, enhancers: (get: any) => get().concat((next: any) => (...a: any[]) => ({ ...next(...a), extra: true, send: fn, start: fn })) } as any);
						shared = true;
						break;
					case "static":
						source = undefined;
						read = (s) => Object.keys(s).length;
						inc = (send) => send({ type: "anything" });
						shared = true;
						break;
				}
				const register = how === "static" ? core() : core({ source, ...(adapter ? { adapter } : {}) });
				const tag = uniqueTag("x-way");
				let last: any;
				register(tag, (args: any) => {
					last = args;
					return jsx("p", { children: String(read(args.state)) });
				});
				const hosts = [0, 1].map(() => {
					const h = document.createElement(tag);
					document.body.append(h);
					return { h, send: last?.send };
				});
				ensure(windowErrors.length === 0, () => `${how}: ${String((windowErrors[0] as any)?.stack)}`);
				for (let i = 0; i < n; i++) inc(hosts[0].send);
				const want = how === "static" ? "0" : how === "async state machine" ? (n % 2 ? "b" : "a") : String(n);
				const rest = how === "static" ? "0" : "0";
				ensure(hosts[0].h.shadowRoot?.textContent === want, () => `${how}: shows ${hosts[0].h.shadowRoot?.textContent}, expected ${want}`);
				const other = shared ? want : rest;
				ensure(hosts[1].h.shadowRoot?.textContent === other, () => `${how}: the second element shows ${hosts[1].h.shadowRoot?.textContent}, expected ${other}`);
				c.nontrivial();
				c.label(how);
				document.body.replaceChildren();
			},
		);

		// the lower-level factory: a scope given explicitly wins over the one detected
		await check.prop(
			"scopes",
			fc.record({
				option: fc.constantFrom<any>(undefined, StateScope.Shared, StateScope.Isolated),
				detected: fc.constantFrom<any>(undefined, StateScope.Shared, StateScope.Isolated),
				acts: fc.array(fc.nat({ max: 2 }), { minLength: 1, maxLength: 4 }),
				tags: fc.integer({ min: 1, max: 2 }),
			}),
			{ quick: 300, thorough: 2000, before: resetDom },
			({ option, detected, acts, tags }, c) => {
				defineIgniteConfig({});
				const create: any = () => {
					let n = 0;
					const listeners = new Set<(s: any) => void>();
					return {
						subscribe(l: any) {
							listeners.add(l);
							l({ n });
							return { unsubscribe: () => void listeners.delete(l) };
						},
						send() {
							n++;
							for (const l of [...listeners]) l({ n });
						},
						getState: () => ({ n }),
						stop() {
							listeners.clear();
						},
					};
				};
				if (detected !== undefined) create.scope = detected;
				const register = igniteElementFactory(create, option === undefined ? {} : { scope: option }) as any;
				const names = Array.from({ length: tags }, () => uniqueTag("x-scope"));
				const sends = new Map<string, any>();
				for (const name of names)
					register(name, ({ state, send }: any) => {
						sends.set("last", send);
						return jsx("p", { children: state.n });
					});
				const els = [0, 1, 2].map((i) => {
					const host = document.createElement(names[i % tags]);
					document.body.append(host);
					return { host, send: sends.get("last") };
				});
				const shared = (option ?? detected ?? StateScope.Isolated) === StateScope.Shared;
				const want = [0, 0, 0];
				for (const a of acts) {
					els[a].send({ type: "inc" });
					if (shared) want.forEach((_, i) => want[i]++);
					else want[a]++;
					const shown = els.map((e) => e.host.shadowRoot?.textContent);
					ensure(show(shown) === show(want.map(String)), () => `scope ${option} given, ${detected} detected: the elements show ${show(shown)}, expected ${show(want)}`);
				}
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack));
				if (option !== undefined && option !== detected) c.nontrivial();
				document.body.replaceChildren();
			},
		);

		await check.prop(
			"unsupported sources",
			fc.record({
				junk: junkArb,
				wrap: fc.constantFrom("value", "value", "factory", "throwing factory"),
				explicit: fc.constantFrom<string | undefined>(undefined, undefined, undefined, "redux", "mobx", "xstate", "nope"),
				register: fc.boolean(),
			}),
			{ quick: 4000, thorough: 60000, before: resetDom },
			({ junk, wrap, explicit }, c) => {
				const v = junk.value();
				// a factory for a named adapter is judged when it is called, for an element
				const late = (wrap !== "value" || typeof v === "function") && (explicit === "redux" || explicit === "mobx");
				// fc.anything may build a complete look-alike only with vanishing chance
				const source = wrap === "value" ? v : wrap === "factory" ? () => v : () => { throw new Error("factory failed: 17"); };
				let error: unknown = null;
				try {
					const register = core({ source, ...(explicit ? { adapter: explicit } : {}) });
					if (late) {
						const tag = uniqueTag("x-late");
						register(tag, () => jsx("p", { children: "shown" }));
						windowErrors.length = 0;
						const host = document.createElement(tag);
						document.body.append(host);
						error = windowErrors[0] ?? null;
						windowErrors.length = 0;
						document.body.replaceChildren();
					}
				} catch (e) {
					error = e;
				}
				ensure(error, () => `${wrap} ${junk.what} with adapter ${explicit} was accepted`);
				if (wrap === "throwing factory" && (!explicit || late))
					ensure(String((error as Error)?.message ?? error).includes("factory failed: 17"), () => `the factory's own error is lost: ${String(error)}`);
				if (wrap !== "value" || (typeof v === "object" && v !== null)) c.nontrivial();
			},
		);
	},
);
