// Sources of every supported kind over one reference model, and the elements
// built on them.  The oracle is the pure `step` function below; nothing of the
// code under test is consulted to know what a source's state should be.
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { html } from "lit-html";
import { getObserverTree, makeAutoObservable, observable, runInAction } from "mobx";
import { assign, createActor, createMachine, fromCallback, raise } from "xstate";
import { jsx, jsxs } from "repo:jsx/index";
import { defineIgniteConfig, igniteElementFactory, StateScope } from "repo:index";
import { createComponentFactory } from "repo:createComponentFactory";
import { event as igniteEvent } from "repo:events";
import { igniteCore as coreAny } from "repo:IgniteCore";
import { igniteCore as coreMobx } from "repo:mobx";
import { igniteCore as coreRedux } from "repo:redux";
import { igniteCore as coreXState } from "repo:xstate";
import "repo:renderers/lit";
import "repo:renderers/ignite-jsx";
import { fc, show } from "./runner";
import { uniqueTag } from "./dom";

export type Model = { count: number; items: string[]; flag: boolean; label: string | null };
export type Act =
	| { t: "inc" }
	| { t: "add"; v: string }
	| { t: "drop" }
	| { t: "toggle" }
	| { t: "label"; v: string | null }
	| { t: "set"; v: number }
	| { t: "reset" };

export const initialModel = (): Model => ({ count: 0, items: [], flag: false, label: null });

export function step(m: Model, a: Act): Model {
	switch (a.t) {
		case "inc":
			return { ...m, count: m.count + 1 };
		case "add":
			return { ...m, items: [...m.items, a.v] };
		case "drop":
			return { ...m, items: m.items.slice(1) };
		case "toggle":
			return { ...m, flag: !m.flag };
		case "label":
			return { ...m, label: a.v };
		case "set":
			return { ...m, count: a.v };
		case "reset":
			return initialModel();
	}
}

export const actArb: fc.Arbitrary<Act> = fc.oneof(
	{ weight: 4, arbitrary: fc.constant<Act>({ t: "inc" }) },
	{ weight: 3, arbitrary: fc.constantFrom("a", "b", "c", "").map((v): Act => ({ t: "add", v })) },
	{ weight: 1, arbitrary: fc.constant<Act>({ t: "drop" }) },
	{ weight: 2, arbitrary: fc.constant<Act>({ t: "toggle" }) },
	{ weight: 2, arbitrary: fc.constantFrom(null, "", "x", "yy").map((v): Act => ({ t: "label", v })) },
	{ weight: 1, arbitrary: fc.constantFrom(0, -1, 7).map((v): Act => ({ t: "set", v })) },
	{ weight: 1, arbitrary: fc.constant<Act>({ t: "reset" }) },
);

export const KINDS = [
	"xstate-machine",
	"xstate-actor",
	"redux-slice",
	"redux-factory",
	"redux-store",
	"mobx-factory",
	"mobx-store",
	"custom-isolated",
	"custom-shared",
] as const;
export type Kind = (typeof KINDS)[number];
export const isShared = (k: Kind) =>
	k === "xstate-actor" || k === "redux-store" || k === "mobx-store" || k === "custom-shared";
export const SHARED_KINDS = KINDS.filter(isShared);
export const ISOLATED_KINDS = KINDS.filter((k) => !isShared(k));

/** One instance of state: what a user would call "the store". */
export interface Cell {
	/** act on the source directly, as other application code would */
	external?: (a: Act) => void;
	/** several acts in one batch/transaction, where the library has that */
	batch?: (acts: Act[]) => void;
	/** observers the code under test keeps registered on the user's source */
	observers?: () => number;
	/** false once the source itself has been shut down */
	alive?: () => boolean;
	/** read directly from the user's source */
	state?: () => Model;
}

export interface Source {
	kind: Kind;
	shared: boolean;
	/** the shared instance */
	cell?: Cell;
	/** isolated: instances created so far, in creation order */
	created: Cell[];
	/** owned xstate actors that are running */
	running: () => number;
	/** custom adapters: bookkeeping */
	adapters: Array<{ stops: number; subs: number; sendsAfterStop: number; subsAfterStop: number }>;
	value: unknown;
	event(a: Act): any;
	/** the same for the state a render function gets, when that has more to it */
	stateOf?(s: any): Model;
	modelOf(state: any): Model;
	/** the acts as seen by a command's actor */
	perform(actor: any, a: Act): void;
	/** the model as seen by a command's actor */
	read(actor: any): Model;
}

let nth = 0;

function xstateEvents(a: Act): any {
	return a.t === "inc" || a.t === "drop" || a.t === "toggle" || a.t === "reset"
		? { type: a.t.toUpperCase() }
		: { type: a.t.toUpperCase(), v: (a as { v: unknown }).v };
}

function buildMachine(onRun: (delta: number) => void) {
	return createMachine({
		// different machines often bear the same name, or none
		...(nth++ % 2 ? { id: "counter" } : {}),
		initial: "off",
		context: () => ({ count: 0, items: [] as string[], label: null as string | null }),
		invoke: {
			src: fromCallback(() => {
				onRun(1);
				return () => onRun(-1);
			}),
		},
		on: {
			INC: { actions: assign({ count: ({ context }: any) => context.count + 1 }) },
			ADD: { actions: assign({ items: ({ context, event }: any) => [...context.items, event.v] }) },
			DROP: { actions: assign({ items: ({ context }: any) => context.items.slice(1) }) },
			LABEL: { actions: assign({ label: ({ event }: any) => event.v }) },
			SET: { actions: assign({ count: ({ event }: any) => event.v }) },
			LATER: { actions: raise({ type: "INC" }, { delay: ({ event }: any) => event.ms }) },
			RESET: {
				target: ".off",
				actions: assign({ count: 0, items: () => [], label: null }),
			},
		},
		states: {
			off: { on: { TOGGLE: "on" } },
			on: {
				initial: "warm",
				states: { warm: {} },
				on: { TOGGLE: "off" },
			},
		},
	} as any);
}
const xstateModel = (s: any): Model => ({
	count: s.context.count,
	items: [...s.context.items],
	flag: s.value !== "off",
	label: s.context.label,
});
/** the state a component sees: a snapshot, with the context's fields on it as well */
const xstateState = (s: any): Model => {
	const m = xstateModel(s);
	const agrees =
		s.count === m.count && show(s.items) === show(m.items) && s.label === m.label && s.matches("off") === !m.flag && s.matches({ on: "warm" }) === m.flag;
	return { ...m, ...(agrees ? {} : { label: "the snapshot's fields, context and value disagree" }) };
};

function buildSlice(reducerPath?: string) {
	return createSlice({
		name: "model",
		// where the slice would live elsewhere; its state is still found under its name
		...(reducerPath ? { reducerPath } : {}),
		initialState: initialModel(),
		reducers: {
			inc(s) {
				s.count++;
			},
			add(s, { payload }: { payload: string }) {
				s.items.push(payload);
			},
			drop(s) {
				s.items.shift();
			},
			toggle(s) {
				s.flag = !s.flag;
			},
			label(s, { payload }: { payload: string | null }) {
				s.label = payload;
			},
			set(s, { payload }: { payload: number }) {
				s.count = payload;
			},
			reset: () => initialModel(),
		},
	});
}
const pick = (s: any): Model => ({
	count: s.count,
	items: [...s.items],
	flag: s.flag,
	label: s.label,
});

class MobxModel {
	count = 0;
	items: string[] = [];
	flag = false;
	label: string | null = null;
	constructor() {
		makeAutoObservable(this);
	}
	get doubled() {
		return this.count * 2;
	}
	get listing() {
		return this.items.map((i) => ({ i, on: this.flag }));
	}
	inc() {
		this.count++;
	}
	add(v: string) {
		this.items.push(v);
	}
	drop() {
		this.items.shift();
	}
	toggle() {
		this.flag = !this.flag;
	}
	setLabel(v: string | null) {
		this.label = v;
	}
	set(v: number) {
		this.count = v;
	}
	reset() {
		this.count = 0;
		this.items = [];
		this.flag = false;
		this.label = null;
	}
}
function mobxObject() {
	return observable({
		count: 0,
		items: [] as string[],
		flag: false,
		label: null as string | null,
		get doubled(): number {
			return this.count * 2;
		},
		get listing(): unknown {
			return this.items.map((i) => ({ i, on: this.flag }));
		},
		inc() {
			this.count++;
		},
		add(v: string) {
			this.items.push(v);
		},
		drop() {
			this.items.shift();
		},
		toggle() {
			this.flag = !this.flag;
		},
		setLabel(v: string | null) {
			this.label = v;
		},
		set(v: number) {
			this.count = v;
		},
		reset() {
			this.count = 0;
			this.items = [];
			this.flag = false;
			this.label = null;
		},
	});
}
/** computed values are part of the state: they must be there and agree with it */
const mobxModel = (s: any): Model => {
	const agrees = s.doubled === s.count * 2 && show(s.listing) === show(s.items.map((i: string) => ({ i, on: s.flag })));
	return { ...pick(s), ...(agrees ? {} : { label: `computed values: ${show(s.doubled)} ${show(s.listing)}` }) };
};
const mobxEvent = (a: Act): any => {
	const type = a.t === "label" ? "setLabel" : a.t;
	return "v" in a ? { type, args: [a.v] } : { type };
};
const mobxPerform = (store: any, a: Act) => {
	const e = mobxEvent(a);
	store[e.type](...(e.args ?? []));
};
const mobxCell = (store: any): Cell => ({
	external: (a) => mobxPerform(store, a),
	batch: (acts) =>
		runInAction(() => {
			for (const a of acts) mobxPerform(store, a);
		}),
	observers: () => getObserverTree(store, "label").observers?.length ?? 0,
	alive: () => true,
	state: () => pick(store),
});

/** A plain source with manual subscription, for custom adapters. */
function plainStore(inPlace: boolean) {
	let model = initialModel();
	const listeners = new Set<(m: Model) => void>();
	return {
		get: () => model,
		act(a: Act) {
			// a store may also change its one state object in place
			if (inPlace) Object.assign(model, structuredClone(step(structuredClone(model), a)));
			else model = step(model, a);
			for (const l of [...listeners]) l(model);
		},
		listeners,
	};
}

/** factories as people write them: with no, an optional or a rest parameter */
function factory(variant: number, make: () => any): (...a: any[]) => any {
	if (variant < 2) return () => make();
	if (variant === 2) return (_preloaded: unknown) => make();
	return function build(...rest: unknown[]) {
		return rest.length > 9 ? null : make();
	};
}

/** a command actor tells the state in two ways */
function xstateRead(actor: any): Model {
	const model = xstateModel(actor.getSnapshot());
	const other = xstateModel(actor.state);
	if (JSON.stringify(model) !== JSON.stringify(other))
		throw new Error(`the command actor's getSnapshot() says ${JSON.stringify(model)}, its state ${JSON.stringify(other)}`);
	return model;
}

/** a store whose methods need their receiver */
class StoreObject {
	#store: any;
	constructor(store: any) {
		this.#store = store;
	}
	getState() {
		return this.#store.getState();
	}
	dispatch(a: any) {
		return this.#store.dispatch(a);
	}
	subscribe(l: () => void) {
		return this.#store.subscribe(l);
	}
}

export function makeSource(kind: Kind, variant: number): Source {
	const created: Cell[] = [];
	let running = 0;
	const base = {
		kind,
		shared: isShared(kind),
		created,
		running: () => running,
		adapters: [] as Source["adapters"],
	};
	switch (kind) {
		case "xstate-machine":
			return {
				...base,
				value: buildMachine((d) => {
					running += d;
				}),
				event: xstateEvents,
				modelOf: xstateModel,
				stateOf: xstateState,
				perform: (actor, a) => actor.send(xstateEvents(a)),
				read: xstateRead,
			};
		case "xstate-actor": {
			const actor: any = createActor(buildMachine((d) => { running += d; }) as any, variant % 2 ? {} : { id: "counter" });
			let subs = 0;
			const subscribe = actor.subscribe.bind(actor);
			actor.subscribe = (...args: any[]) => {
				const s = subscribe(...args);
				subs++;
				let open = true;
				return {
					unsubscribe() {
						if (open) {
							open = false;
							subs--;
						}
						s.unsubscribe();
					},
				};
			};
			if (variant % 2) actor.start();
			return {
				...base,
				value: actor,
				cell: {
					external: (a) => actor.send(xstateEvents(a)),
					observers: () => subs,
					alive: () => actor.getSnapshot().status === "active",
					state: () => xstateModel(actor.getSnapshot()),
				},
				event: xstateEvents,
				modelOf: xstateModel,
				stateOf: xstateState,
				perform: (act, a) => act.send(xstateEvents(a)),
				read: xstateRead,
			};
		}
		case "redux-slice":
		case "redux-factory":
		case "redux-store": {
			const slice = buildSlice(kind === "redux-slice" && variant >= 2 ? "elsewhere" : undefined);
			const make = () => {
				const store: any = configureStore({
					reducer: variant % 2 ? { model: slice.reducer, other: (s = 0) => s } : { model: slice.reducer },
					middleware: (get) => get({ serializableCheck: false, immutableCheck: false }),
				});
				let subs = 0;
				const counted = {
					...store,
					subscribe(l: () => void) {
						const un = store.subscribe(l);
						subs++;
						let open = true;
						return () => {
							if (open) {
								open = false;
								subs--;
							}
							un();
						};
					},
				};
				const cell: Cell = {
					external: (a) => store.dispatch((slice.actions as any)[a.t]((a as any).v)),
					observers: () => subs,
					alive: () => true,
					state: () => pick(store.getState().model),
				};
				return { counted: variant >= 2 ? new StoreObject(counted) : counted, cell };
			};
			const common = {
				...base,
				event: (a: Act) => (slice.actions as any)[a.t]((a as any).v),
				modelOf: (s: any) => pick(s.model),
				perform: (actor: any, a: Act) => actor.dispatch((slice.actions as any)[a.t]((a as any).v)),
				read: (actor: any) => pick(actor.getState().model),
			};
			if (kind === "redux-slice") return { ...common, value: slice };
			if (kind === "redux-factory")
				return {
					...common,
					value: factory(variant, () => {
						const { counted, cell } = make();
						created.push(cell);
						return counted;
					}),
				};
			const { counted, cell } = make();
			return { ...common, value: counted, cell };
		}
		case "mobx-factory":
		case "mobx-store": {
			const make = (): any => (variant % 2 ? new MobxModel() : mobxObject());
			const common = {
				...base,
				event: mobxEvent,
				modelOf: mobxModel,
				perform: mobxPerform,
				read: mobxModel,
			};
			if (kind === "mobx-factory")
				return {
					...common,
					value: factory(variant, () => {
						const store = make();
						created.push(mobxCell(store));
						return store;
					}),
				};
			const store = make();
			return { ...common, value: store, cell: mobxCell(store) };
		}
		case "custom-isolated":
		case "custom-shared": {
			const adapters = base.adapters;
			const inPlace = variant >= 2;
			const sharedStore = plainStore(inPlace);
			const createAdapter = () => {
				const store = kind === "custom-shared" ? sharedStore : plainStore(inPlace);
				const info = { stops: 0, subs: 0, sendsAfterStop: 0, subsAfterStop: 0 };
				adapters.push(info);
				let stopped = false;
				const mine = new Set<(m: Model) => void>();
				if (kind === "custom-isolated")
					created.push({
						external: (a) => store.act(a),
						observers: () => store.listeners.size,
						alive: () => !stopped,
					});
				const adapter: any = {
					subscribe(l: (m: Model) => void) {
						if (stopped) {
							info.subsAfterStop++;
							throw new Error("adapter is stopped");
						}
						const mineL = (m: Model) => l(m);
						store.listeners.add(mineL);
						mine.add(mineL);
						info.subs++;
						if (variant % 2) l(store.get());
						return {
							unsubscribe() {
								if (mine.delete(mineL)) info.subs--;
								store.listeners.delete(mineL);
							},
						};
					},
					send(a: Act) {
						if (stopped) {
							info.sendsAfterStop++;
							return;
						}
						store.act(a);
					},
					getState: () => store.get(),
					stop() {
						stopped = true;
						info.stops++;
						for (const l of mine) store.listeners.delete(l);
						mine.clear();
						info.subs = 0;
					},
				};
				return adapter;
			};
			const value: any = createAdapter;
			return {
				...base,
				value,
				cell:
					kind === "custom-shared"
						? {
								external: (a) => sharedStore.act(a),
								observers: () => sharedStore.listeners.size,
								alive: () => true,
								state: () => sharedStore.get(),
							}
						: undefined,
				event: (a) => a,
				modelOf: pick,
				perform: (actor, a) => actor.send(a),
				read: (actor) => pick(actor.getState()),
			};
		}
	}
}

export interface Rec {
	host: HTMLElement;
	renders: number;
	args: any;
	/** the actor the commands callback was given (the last one) */
	actor: any;
	commandCalls: number;
}

export interface Component {
	tag: string;
	recs: Map<HTMLElement, Rec>;
	renderer: "ignite-jsx" | "lit";
	source: Source;
	renderErrors: unknown[];
}

export type CoreStyle = "entry" | "inferred" | "explicit";

/** Calls igniteCore / igniteElementFactory once; the result registers tags. */
export function makeCore(
	source: Source,
	options: { style?: CoreStyle; renderer?: "ignite-jsx" | "lit"; cleanup?: boolean; strategy?: string },
) {
	const renderer = options.renderer ?? "ignite-jsx";
	defineIgniteConfig({ renderer, strategy: options.strategy ?? "diff" });
	const recs = new Map<HTMLElement, Rec>();
	const rec = (host: HTMLElement) => {
		let r = recs.get(host);
		if (!r) {
			r = { host, renders: 0, args: null, actor: null, commandCalls: 0 };
			recs.set(host, r);
		}
		return r;
	};
	const commandsFor = (actor: any, host: HTMLElement, emit?: any) => ({
		hostRef: () => host,
		act: (a: Act) => source.perform(actor, a),
		burst: (acts: Act[]) => {
			for (const a of acts) source.perform(actor, a);
		},
		shout: (detail: unknown) => emit?.("shout", detail),
	});
	const states = (snapshot: any) => {
		const m = (source.stateOf ?? source.modelOf)(snapshot);
		return { double: m.count * 2, size: m.items.length, caption: m.label ?? "none" };
	};
	let register: (tag: string, renderer: any) => void;
	const custom = source.kind === "custom-isolated" || source.kind === "custom-shared";
	if (custom && (options.style ?? "entry") !== "entry") {
		// an adapter of the user's own, with the library's state and command callbacks
		register = createComponentFactory(source.value as any, {
			scope: source.shared ? StateScope.Shared : StateScope.Isolated,
			...(options.style === "explicit" ? { resolveStateSnapshot: (a: any) => a.getState(), resolveCommandActor: (a: any) => a } : {}),
			...(options.cleanup === undefined ? {} : { cleanup: options.cleanup }),
			events: { shout: igniteEvent() },
			states,
			commands: ({ actor, emit, host }: any) => {
				const r = rec(host);
				r.actor = actor;
				r.commandCalls++;
				return commandsFor(actor, host, emit);
			},
		} as any) as any;
	} else if (custom) {
		register = igniteElementFactory(source.value as any, {
			scope: source.shared ? StateScope.Shared : StateScope.Isolated,
			cleanup: options.cleanup,
			createAdditionalArgs: (adapter: any, host: any) => {
				const r = rec(host);
				r.actor = adapter;
				r.commandCalls++;
				const extra: any = {
					...commandsFor(adapter, host, (type: string, detail: unknown) =>
						host.dispatchEvent(new CustomEvent(type, { detail, bubbles: true, composed: true })),
					),
				};
				for (const key of ["double", "size", "caption"])
					Object.defineProperty(extra, key, {
						enumerable: true,
						get: () => (states(adapter.getState()) as any)[key],
					});
				return extra;
			},
		} as any) as any;
	} else {
		const style = options.style ?? "entry";
		const adapter = source.kind.split("-")[0];
		const core: any =
			style === "entry"
				? adapter === "xstate"
					? coreXState
					: adapter === "redux"
						? coreRedux
						: coreMobx
				: coreAny;
		register = core({
			source: source.value,
			...(style === "explicit" ? { adapter } : {}),
			...(options.cleanup === undefined ? {} : { cleanup: options.cleanup }),
			events: (event: any) => ({ shout: event() }),
			states,
			commands: ({ actor, emit, host }: any) => {
				const r = rec(host);
				r.actor = actor;
				r.commandCalls++;
				return commandsFor(actor, host, emit);
			},
		});
	}
	const hooks: { onRender?: (host: HTMLElement) => void } = {};
	return { register, recs, rec, renderer, source, hooks };
}

export type Core = ReturnType<typeof makeCore>;

export function defineComponent(core: Core, tag = uniqueTag("x-w"), nested?: (m: Model) => string[]): Component {
	const { recs, renderer, source } = core;
	const component: Component = { tag, recs, renderer, source, renderErrors: [] };
	core.register(tag, (args: any) => {
		const host = args.hostRef();
		const r = core.rec(host);
		r.renders++;
		r.args = args;
		core.hooks.onRender?.(host);
		const m = (source.stateOf ?? source.modelOf)(args.state);
		const onClick = () => args.send(source.event({ t: "inc" }));
		const kids = nested?.(m) ?? [];
		if (renderer === "lit") {
			return html`<section data-flag=${String(m.flag)}>
				<h1>${m.count}</h1><p>${args.double}/${args.size}/${args.caption}</p>
				<ul>${m.items.map((i) => html`<li>${i}</li>`)}</ul>
				${m.flag ? html`<em>on</em>` : null}<q>${m.label}</q>
				<button @click=${onClick}>+</button>
				${kids.map((k) => document.createElement(k))}
			</section>`;
		}
		return jsxs("section", {
			"data-flag": String(m.flag),
			children: [
				jsx("h1", { children: m.count }),
				jsxs("p", { children: [args.double, "/", args.size, "/", args.caption] }),
				jsx("ul", { children: m.items.map((i, n) => jsx("li", { children: i }, String(n))) }),
				m.flag && jsx("em", { children: "on" }),
				jsx("q", { children: m.label }),
				jsx("button", { onClick, children: "+" }),
				...kids.map((k) => jsx(k, {})),
			],
		});
	});
	return component;
}

/** What the element shows, read from its shadow DOM. */
export function shown(host: HTMLElement): string {
	const root = host.shadowRoot;
	if (!root) return "(no shadow root)";
	const sections = root.querySelectorAll("section");
	if (sections.length !== 1) return `(${sections.length} sections)`;
	const s = sections[0];
	const text = (sel: string) => s.querySelector(sel)?.textContent ?? "(absent)";
	return JSON.stringify([
		s.getAttribute("data-flag"),
		text("h1"),
		text("p"),
		[...s.querySelectorAll("li")].map((l) => l.textContent),
		s.querySelectorAll("em").length,
		text("q"),
		s.querySelectorAll("button").length,
	]);
}

export function expectedView(m: Model): string {
	return JSON.stringify([
		String(m.flag),
		String(m.count),
		`${m.count * 2}/${m.items.length}/${m.label ?? "none"}`,
		m.items,
		m.flag ? 1 : 0,
		m.label ?? "",
		1,
	]);
}
