import { newBareRealm, bundleText } from "../lib/realm";
import { ensure, ensureEqual, fc, runCheck, show } from "../lib/runner";

const ENTRIES = ["index", "xstate", "redux", "mobx", "renderers/ignite-jsx", "renderers/lit", "config/loadIgniteConfig", "config/vite", "config/webpack", "jsx/index", "jsx/jsx-runtime", "jsx/jsx-dev-runtime"] as const;
type Entry = (typeof ENTRIES)[number];
const GLOBALS = ["HTMLElement", "customElements", "window", "document", "CustomEvent", "Event", "Element", "ShadowRoot", "navigator"] as const;

/** how the existing globals look: complete, bare (few members), own members plus accessors on the realm, or hollow (no usable member: a stand-in some other tool put there) */
type Shape = "full" | "bare" | "accessor" | "hollow";
const SHAPES: Shape[] = ["full", "bare", "accessor"];

/** existing globals: recognisable, and recording any change made to them */
function sentinels(names: readonly string[], frozen: boolean, shape: Shape = "full") {
	const calls: string[] = [];
	const defined = new Map<string, unknown>();
	const made: Record<string, any> = {};
	for (const n of names) {
		if (n === "customElements" && shape === "hollow") made[n] = Object.create(null);
		else if (n === "customElements")
			made[n] = {
				define: (tag: string, ctor: unknown) => {
					calls.push(`define ${tag}`);
					defined.set(tag, ctor);
				},
				get: (tag: string) => defined.get(tag),
				...(shape === "bare" ? {} : { whenDefined: async () => {}, upgrade: () => {}, getName: () => null }),
			};
		else if (n === "document")
			made[n] = { createElement: () => ({ setAttribute() {}, appendChild() {}, content: {} }), createTreeWalker: () => ({}), createComment: () => ({}), createTextNode: () => ({}), importNode: () => ({}), querySelector: () => null };
		else if (n === "window" || n === "navigator") made[n] = { name: n };
		else if (n === "HTMLElement" && shape === "full")
			made[n] = class {
				static marker = n;
				attachShadow() {
					return { host: this };
				}
			};
		else
			made[n] = class {
				static marker = n;
			};
		if (frozen) {
			Object.freeze(made[n]);
			if (typeof made[n] === "function") Object.freeze(made[n].prototype);
		}
	}
	return { made, calls, defined };
}

/** a realm with these globals, as plain or as accessor properties */
function realmWith(made: Record<string, unknown>, shape: Shape) {
	if (shape !== "accessor") return newBareRealm(made);
	const realm = newBareRealm();
	for (const [n, v] of Object.entries(made)) Object.defineProperty(realm.global, n, { get: () => v, enumerable: true, configurable: true });
	return realm;
}

const snapshot = (v: any) =>
	Reflect.ownKeys(v).map((k) => [k, Object.getOwnPropertyDescriptor(v, k)?.value] as const);
const same = (a: ReturnType<typeof snapshot>, b: ReturnType<typeof snapshot>) =>
	a.length === b.length && a.every(([k, v], i) => b[i][0] === k && Object.is(b[i][1], v));

/** declare components and load configurations the way an application's module does */
const USE: Partial<Record<Entry, (m: any, libs: any) => void>> = {
	xstate: (m, libs) => {
		const machine = libs.createMachine({ initial: "a", context: { n: 1 }, states: { a: { on: { GO: "b" } }, b: {} } });
		for (const source of [machine, libs.createActor(machine)])
			m.igniteCore({ source, states: (s: any) => ({ n: s.context?.n }), commands: ({ actor }: any) => ({ go: () => actor.send({ type: "GO" }) }) })(
				`x-ssr-${libs.next()}`,
				() => null,
			);
	},
	redux: (m, libs) => {
		const slice = libs.createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s: any) => ({ n: s.n + 1 }) } });
		const make = () => libs.configureStore({ reducer: slice.reducer });
		for (const source of [slice, make, make()]) m.igniteCore({ source, commands: () => ({ x: () => {} }) })(`x-ssr-${libs.next()}`, { render: () => null });
	},
	mobx: (m, libs) => {
		const make = () => libs.observable({ n: 0 });
		for (const source of [make, make()]) m.igniteCore({ source })(`x-ssr-${libs.next()}`, class { render() { return null; } });
	},
};

runCheck(
	"C17",
	{
		level: "exploration",
		rule: "every public entry point imported, in random orders and combinations, into a new realm that has a chosen subset of the DOM globals (complete, minimal or, for imports alone, hollow; plain or accessor properties, possibly frozen); components are declared for every source kind, configurations loaded; every existing global must be the same, unmodified object afterwards; non-trivial: at least one global was missing",
		assumptions: ["realms are Node vm contexts; the entry points are bundled from source"],
	},
	async (check) => {
		const libs = `export { createMachine, createActor } from "xstate"; export { createSlice, configureStore } from "@reduxjs/toolkit"; export { observable } from "mobx";`;
		const code = new Map<string, string>();
		for (const e of ENTRIES) code.set(e, await bundleText(`export * from "repo:${e}";`));
		// one bundle for combinations, each entry evaluated on demand
		const all = await bundleText(
			`export const entries = { ${ENTRIES.map((e) => `${JSON.stringify(e)}: () => require("repo:${e}")`).join(", ")} };\n${libs}`,
		);

		const verify = (realm: ReturnType<typeof newBareRealm>, names: readonly string[], made: any, before: Map<string, any>, at: string) => {
			for (const n of names) {
				ensure(realm.global[n] === made[n], `${at}: the existing ${n} was replaced`);
				ensure(same(snapshot(made[n]), before.get(n)), `${at}: the existing ${n} was modified`);
				if (typeof made[n] === "function") ensure(same(snapshot(made[n].prototype), before.get(`${n}.prototype`)), `${at}: the prototype of the existing ${n} was modified`);
			}
			ensure(typeof realm.global.HTMLElement === "function" || !names.includes("HTMLElement"), `${at}: HTMLElement`);
		};
		const remember = (names: readonly string[], made: any) => {
			const before = new Map<string, any>();
			for (const n of names) {
				before.set(n, snapshot(made[n]));
				if (typeof made[n] === "function") before.set(`${n}.prototype`, snapshot(made[n].prototype));
			}
			return before;
		};

		const subsets: string[][] = [];
		for (let m = 0; m < 16; m++) subsets.push(GLOBALS.slice(0, 4).filter((_, i) => m & (1 << i)));
		const single = ENTRIES.flatMap((entry) => subsets.flatMap((names) => [...SHAPES, "hollow" as const].flatMap((shape) => [false, true].map((frozen) => ({ entry, names, frozen, shape })))));
		await check.each("each entry point alone", single, {}, ({ entry, names, frozen, shape }, c) => {
			const { made } = sentinels(names, frozen, shape);
			const before = remember(names, made);
			const realm = realmWith(made, shape);
			const at = `importing ${entry} with ${names.length ? `${names.join()} (${shape})` : "no DOM globals"}`;
			let exported: any;
			try {
				exported = realm.load(code.get(entry) as string);
			} catch (e) {
				ensure(false, `${at} threw ${String((e as Error)?.stack ?? e)}`);
			}
			ensure(Object.keys(exported).length > 0, `${at}: nothing exported`);
			verify(realm, names, made, before, at);
			if (names.length < 4) c.nontrivial();
			c.label(entry);
		});

		await check.prop(
			"combinations",
			fc.record({
				order: fc.uniqueArray(fc.constantFrom(...ENTRIES), { minLength: 1, maxLength: ENTRIES.length }),
				names: fc.subarray([...GLOBALS]),
				frozen: fc.boolean(),
				shape: fc.constantFrom(...SHAPES),
				twice: fc.boolean(),
				config: fc.record({ renderer: fc.constantFrom("lit", "ignite-jsx"), styles: fc.constant("/a.css"), strategy: fc.constantFrom("diff", "replace") }, { requiredKeys: [] }),
			}),
			{ quick: 1500, thorough: 20000 },
			async ({ order, names, frozen, shape, twice, config }, c) => {
				const { made, calls } = sentinels(names, frozen, shape);
				const before = remember(names, made);
				const realm = realmWith(made, shape);
				const at = `importing ${order.join(", ")} with ${names.length ? `${names.join()} (${shape})` : "no DOM globals"}`;
				let expectedDefinitions = 0;
				try {
					const loaded = realm.load(all);
					let i = 0;
					const lib = { ...loaded, next: () => i++ };
					const modules = new Map<string, any>();
					for (const e of order) {
						const m = loaded.entries[e]();
						modules.set(e, m);
						if (USE[e]) {
							const from = i;
							USE[e]?.(m, lib);
							expectedDefinitions += i - from;
						}
						if (e === "config/loadIgniteConfig" || e === "index") {
							const got = await m.loadIgniteConfig(async () => ({ default: config }));
							ensure(got, () => `${at}: the configuration was not loaded`);
							ensureEqual({ renderer: got.renderer, styles: got.styles, strategy: got.strategy }, { renderer: config.renderer, styles: config.styles, strategy: config.strategy }, `${at}: loaded configuration`);
							if (e === "index") ensureEqual(m.getIgniteConfig()?.renderer, config.renderer, `${at}: configuration in force`);
						}
						if (e === "jsx/index") ensure(m.jsx("p", { children: "x" })?.type === "p", `${at}: jsx`);
					}
					if (twice) realm.load(all).entries[order[0]]();
				} catch (e) {
					if ((e as Error)?.name === "Violation") throw e;
					ensure(false, `${at} threw ${String((e as Error)?.stack ?? e)}`);
				}
				verify(realm, names, made, before, at);
				// where a registry exists, declarations reach it
				if (names.includes("customElements")) ensureEqual(calls.length, expectedDefinitions, `${at}: definitions`);
				if (names.length < GLOBALS.length) c.nontrivial();
				c.label(`${names.length} globals`);
			},
		);
		void show;
	},
);
