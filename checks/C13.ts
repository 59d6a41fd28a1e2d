import { bundleText, newBareRealm, newPage } from "../lib/realm";
import { ensure, ensureEqual, fc, runCheck, show } from "../lib/runner";

// lit is reachable only the way applications reach it: through loadIgniteConfig
const LIB = `
export * as lib from "repo:index";
export { igniteCore } from "repo:redux";
export { igniteCore as anyCore } from "repo:IgniteCore";
export { configureStore, createSlice } from "@reduxjs/toolkit";
export { jsx } from "repo:jsx/index";
export { html } from "lit-html";
export { clearRegisteredRenderStrategiesForTests as clear } from "repo:renderers/resolveConfiguredRenderStrategy";
`;

type Cfg = Record<string, unknown>;
const styleArb = fc.constantFrom<unknown>("", "/a.css", "./b.scss?v=1", { href: "/c.css" }, { href: "/d.css", integrity: "sha256-x", crossOrigin: "anonymous" });
const rendererArb = fc.oneof(
	{ weight: 4, arbitrary: fc.constantFrom<unknown>("lit", "ignite-jsx") },
	{ weight: 1, arbitrary: fc.constantFrom<unknown>("LIT", "jsx", "", "react", "toString", "__proto__", "constructor", " lit", 0, 1, false, true, null, ["lit"], {}) },
);
const strategyArb = fc.constantFrom<unknown>("diff", "replace", "replace", "Replace", "other", "", undefined);
const loggingArb = fc.constantFrom<unknown>("off", "warn", "debug", "warn", "debug", "verbose", "", undefined);
const cfgArb: fc.Arbitrary<Cfg> = fc
	.record(
		{ styles: styleArb, globalStyles: styleArb, renderer: rendererArb, strategy: strategyArb, logging: loggingArb, future: fc.constantFrom(1, "x") },
		{ requiredKeys: [] },
	)
	.map((c) => ({ ...c }));

type Op =
	| { o: "define"; cfg: Cfg; proto: boolean; copy: number }
	| { o: "load"; cfg: Cfg; how: "config" | "default" | "namespace"; copy: number }
	| { o: "junk"; junk: number; copy: number }
	| { o: "reject"; copy: number }
	| { o: "strategy"; name: string; copy: number }
	| { o: "component"; copy: number; core: boolean; sends: number };
const copy = fc.constantFrom(0, 0, 1);
const opArb: fc.Arbitrary<Op> = fc.oneof(
	{ weight: 3, arbitrary: fc.record({ o: fc.constant("define" as const), cfg: cfgArb, proto: fc.boolean(), copy }) },
	{ weight: 3, arbitrary: fc.record({ o: fc.constant("load" as const), cfg: cfgArb, how: fc.constantFrom("config" as const, "default" as const, "namespace" as const), copy }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("junk" as const), junk: fc.nat({ max: 99 }), copy }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("reject" as const), copy }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("strategy" as const), name: fc.constantFrom("lit", "ignite-jsx", "mine"), copy }) },
	{ weight: 5, arbitrary: fc.record({ o: fc.constant("component" as const), copy, core: fc.boolean(), sends: fc.integer({ min: 1, max: 3 }) }) },
);

const JUNK: unknown[] = [undefined, null, 0, 1, "", "config", true, false, Symbol("s"), () => ({}), { default: undefined }, { default: null }, { default: "x" }, { default: 7 }, { default: () => ({}) }];

function normal(cfg: Cfg) {
	const out: Cfg = {};
	const styles = "styles" in cfg ? cfg.styles : cfg.globalStyles;
	if (styles !== undefined) out.styles = styles;
	if ("renderer" in cfg) out.renderer = cfg.renderer === "ignite-jsx" ? "ignite-jsx" : "lit";
	if (cfg.strategy !== undefined) out.strategy = cfg.strategy;
	if (cfg.logging !== undefined) out.logging = cfg.logging;
	return out;
}
const view = (c: any) => {
	if (c === undefined) return undefined;
	const out: Cfg = {};
	for (const k of ["styles", "renderer", "strategy", "logging"]) if (c[k] !== undefined) out[k] = c[k];
	return out;
};

function freeze<T>(v: T): T {
	if (v && typeof v === "object") {
		Object.values(v).forEach(freeze);
		Object.freeze(v);
	}
	return v;
}

runCheck(
	"C13",
	{
		level: "exploration",
		rule: "random sequences of define/load (plain config, module, default export, junk, failing loader), strategy registrations and component registrations over two copies of the library in a new page each time; after every step the configuration, warnings, renderer used, update mode, log output and style link are compared with a model; non-trivial: a component is used after a configuration was set",
		assumptions: ["explicit `undefined` for styles or renderer is not generated", "config properties are own or inherited data properties"],
	},
	async (check) => {
		const code = await bundleText(LIB);
		// an application that imports the lit renderer itself, before anything else
		const litCode = await bundleText(`import "repo:renderers/lit";${LIB}`);

		const sequenceArb = fc.record({ litFirst: fc.nat({ max: 3 }).map((x) => x === 3), ops: fc.array(opArb, { minLength: 1, maxLength: 9 }) });
		await check.prop("sequences", sequenceArb, { quick: 1100, thorough: 6000 }, async ({ litFirst, ops }, c) => {
			const page = newPage();
			const { window, logs } = page;
			const copies = litFirst ? [page.load(litCode), page.load(litCode)] : [page.load(code), page.load(code)];
			let current: Cfg | undefined;
			const styles: unknown[] = [undefined, undefined]; // per copy
			const litIn = new Set<number>(litFirst ? [0, 1] : []);
			/** what each registry name stands for; the newest registration wins */
			const registry = new Map<string, string>([["ignite-jsx", "jsx"]]);
			if (litFirst) registry.set("lit", "lit");
			let tags = 0;
			let configured = false;
			const fakes: any[] = [];
			const here = () => `${litFirst ? "with the lit renderer imported, " : ""}${show(ops)}: `;

			const expectWarnings = (cfg: Cfg) => {
				const warns = logs.filter((l) => l.level === "warn").map((l) => l.text);
				const alias = !("styles" in cfg) && cfg.globalStyles !== undefined;
				const unknown = "renderer" in cfg && cfg.renderer !== "lit" && cfg.renderer !== "ignite-jsx";
				ensure(warns.some((w) => w.includes("globalStyles")) === alias, () => `${here()}alias warning for ${show(cfg)}: ${show(warns)}`);
				ensure(warns.some((w) => /renderer/i.test(w)) === unknown, () => `${here()}renderer warning for ${show(cfg)}: ${show(warns)}`);
				ensure(warns.length === Number(alias) + Number(unknown), () => `${here()}unexpected warnings ${show(warns)}`);
			};

			for (const op of ops) {
				logs.length = 0;
				const { lib, igniteCore, anyCore, configureStore, createSlice, jsx, html } = copies[op.copy];
				if (op.o === "define") {
					const given: any = freeze(op.proto ? Object.create(freeze({ ...op.cfg })) : { ...op.cfg });
					const got = lib.defineIgniteConfig(given);
					current = normal(op.cfg);
					configured = true;
					if ("styles" in current) styles[op.copy] = current.styles;
					ensureEqual(view(got), current, `${here()}defineIgniteConfig result`);
					expectWarnings(op.cfg);
				} else if (op.o === "load") {
					const given: any = freeze({ ...op.cfg });
					const module =
						op.how === "config" ? given : op.how === "default" ? { default: given } : Object.assign(Object.create(null), { default: given, other: 1, [Symbol.toStringTag]: "Module" });
					let calls = 0;
					const got = await lib.loadIgniteConfig(async () => {
						calls++;
						await null;
						return module;
					});
					current = normal(op.cfg);
					configured = true;
					if ("styles" in current) styles[op.copy] = current.styles;
					ensure(calls === 1, () => `${here()}the loader ran ${calls} times`);
					ensureEqual(view(got), current, `${here()}loadIgniteConfig result`);
					expectWarnings(op.cfg);
					// the configured renderer is made available by loading
					if (current.renderer === "lit" && !litIn.has(op.copy)) {
						registry.set("lit", "lit");
						litIn.add(op.copy);
					}
				} else if (op.o === "junk") {
					const got = await lib.loadIgniteConfig(async () => JUNK[op.junk % JUNK.length]);
					ensure(got === undefined, () => `${here()}loading ${show(JUNK[op.junk % JUNK.length])} gave ${show(got)}`);
				} else if (op.o === "reject") {
					let error: unknown;
					await lib
						.loadIgniteConfig(async () => {
							throw new Error("no such file 41");
						})
						.catch((e: unknown) => {
							error = e;
						});
					ensure(String(error).includes("no such file 41"), () => `${here()}a failing loader ended with ${String(error)}`);
				} else if (op.o === "strategy") {
					const label = `fake${fakes.length}`;
					fakes.push(label);
					lib.registerRenderStrategy(op.name, () => {
						let host: any;
						return {
							attach(h: any) {
								host = h;
							},
							render(v: unknown) {
								host.textContent = `${label}:${String((v as any)?.plain)}`;
							},
						};
					});
					registry.set(op.name, label);
				} else {
					const wanted = (current?.renderer as string) ?? "ignite-jsx";
					const used = registry.get(wanted) ?? (registry.get("ignite-jsx") as string);
					const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s: any) => ({ n: s.n + 1 }) } });
					const register = (op.core ? anyCore : igniteCore)({
						source: op.core ? slice : configureStore({ reducer: slice.reducer, middleware: (g: any) => g({ serializableCheck: false, immutableCheck: false }) }),
					});
					const fellBack = !registry.has(wanted);
					const early = logs.filter((l) => l.level === "warn");
					ensure(early.some((l) => l.text.includes(`"${wanted}"`)) === fellBack && early.length === Number(fellBack), () => `${here()}warnings for renderer ${wanted}: ${show(early)}`);
					logs.length = 0;
					const tag = `x-cfg-${op.copy}-${tags++}`;
					let last: any;
					register(tag, (args: any) => {
						last = args;
						const plain = `n${(args.state.s ?? args.state).n}`;
						if (used === "lit") return html`<p>${plain}</p>`;
						if (used === "jsx") return jsx("p", { children: plain });
						return { plain };
					});
					const host = window.document.createElement(tag);
					window.document.body.append(host);
					const text = (n: number) => (used === "lit" || used === "jsx" ? `n${n}` : `${used}:n${n}`);
					const shown = () => host.shadowRoot?.textContent;
					ensure(page.errors.length === 0, () => `${here()}${tag} with ${used}: ${String((page.errors[0] as any)?.stack ?? page.errors[0])}`);
					ensure(shown() === text(0), () => `${here()}${tag} should be rendered by ${used}, shows ${show(shown())}`);
					const style = styles[op.copy];
					const links = [...(host.shadowRoot?.querySelectorAll("link") ?? [])].map((l: any) => l.getAttribute("href"));
					if (used === "lit" || used === "jsx") {
						// a strategy loaded with the other copy of the library knows that copy's styles
						const candidates = [styles[0], styles[1]].map((s) => (s ? [typeof s === "string" ? s : (s as any).href] : []));
						if (styles[0] === styles[1]) ensureEqual(links, style ? candidates[op.copy] : [], `${here()}style links of ${tag}`);
						else ensure(candidates.some((x) => show(x) === show(links)), () => `${here()}style links of ${tag}: ${show(links)}`);
					}
					for (let i = 1; i <= op.sends; i++) {
						const before = host.shadowRoot?.querySelector("p");
						logs.length = 0;
						last.send({ type: "s/inc" });
						ensure(shown() === text(i), () => `${here()}${tag} after ${i} sends shows ${show(shown())}`);
						if (used !== "jsx") continue;
						const replace = current?.strategy === "replace";
						const after = host.shadowRoot?.querySelector("p");
						ensure((before === after) === !replace, () => `${here()}${tag}: strategy ${show(current?.strategy)}, node kept: ${before === after}`);
						const level = current?.logging;
						const want = replace && (level === "warn" || level === "debug") ? level : null;
						const said = logs.map((l) => l.level);
						ensure(want ? said.length >= 1 && said.every((s) => s === want) : said.length === 0, () => `${here()}${tag}: logging ${show(level)}, strategy ${show(current?.strategy)}, output ${show(logs)}`);
					}
					ensure(page.errors.length === 0, () => `${here()}${tag}: ${String((page.errors[0] as any)?.stack ?? page.errors[0])}`);
					if (configured) c.nontrivial();
					c.label(`used ${used.startsWith("fake") ? "registered strategy" : used}${fellBack ? " (fallback)" : ""}`);
				}
				for (const k of [0, 1]) ensureEqual(view(copies[k].lib.getIgniteConfig()), current, `${here()}configuration in force (copy ${k}) after ${show(op)}`);
			}
			page.close();
		});

		// the same without a page: loading and defining on a server
		await check.prop(
			"server",
			fc.array(
				fc.oneof(
					{ weight: 2, arbitrary: fc.record({ o: fc.constant("define" as const), cfg: cfgArb }) },
					{ weight: 4, arbitrary: fc.record({ o: fc.constant("load" as const), cfg: cfgArb, how: fc.constantFrom("config" as const, "default" as const) }) },
					{ weight: 1, arbitrary: fc.record({ o: fc.constant("junk" as const), junk: fc.nat({ max: 99 }) }) },
					{ weight: 1, arbitrary: fc.record({ o: fc.constant("reject" as const) }) },
				),
				{ minLength: 1, maxLength: 6 },
			),
			{ quick: 200, thorough: 1500 },
			async (ops, c) => {
				const realm = newBareRealm();
				const { lib } = realm.load(code);
				let current: Cfg | undefined;
				for (const op of ops) {
					const at = `without a page, ${show(ops)}: `;
					realm.logs.length = 0;
					if (op.o === "define" || op.o === "load") {
						const given = freeze({ ...op.cfg });
						let calls = 0;
						const got =
							op.o === "define"
								? lib.defineIgniteConfig(given)
								: await lib.loadIgniteConfig(async () => {
										calls++;
										return op.how === "config" ? given : { default: given };
									});
						current = normal(op.cfg);
						ensure(op.o === "define" || calls === 1, () => `${at}the loader ran ${calls} times`);
						ensureEqual(view(got), current, `${at}result of ${op.o}`);
						const warns = realm.logs.filter((l) => l.level === "warn").length;
						const alias = !("styles" in op.cfg) && op.cfg.globalStyles !== undefined;
						const unknown = "renderer" in op.cfg && op.cfg.renderer !== "lit" && op.cfg.renderer !== "ignite-jsx";
						ensure(warns === Number(alias) + Number(unknown), () => `${at}${warns} warnings for ${show(op.cfg)}: ${show(realm.logs)}`);
						c.nontrivial();
					} else if (op.o === "junk") {
						const got = await lib.loadIgniteConfig(async () => JUNK[op.junk % JUNK.length]);
						ensure(got === undefined, () => `${at}loading ${show(JUNK[op.junk % JUNK.length])} gave ${show(got)}`);
					} else {
						const error = await lib
							.loadIgniteConfig(async () => {
								throw new Error("no such file 41");
							})
							.then(
								() => null,
								(e: unknown) => e,
							);
						ensure(String(error).includes("no such file 41"), () => `${at}a failing loader ended with ${String(error)}`);
					}
					ensureEqual(view(lib.getIgniteConfig()), current, `${at}configuration in force after ${show(op)}`);
				}
			},
		);

		// loads under way at the same time, and one config object changed and used again
		await check.prop(
			"overlapping loads",
			fc.record({
				server: fc.boolean(),
				tasks: fc.array(fc.record({ cfg: cfgArb, how: fc.constantFrom("config", "default", "config", "default", "reject", "junk"), rank: fc.nat({ max: 99 }), late: fc.boolean() }), { minLength: 2, maxLength: 4 }),
				again: fc.array(fc.record({ cfg: cfgArb, load: fc.boolean() }), { maxLength: 3 }),
			}),
			{ quick: 250, thorough: 2000 },
			async ({ server, tasks, again }, c) => {
				const place = server ? newBareRealm() : newPage();
				const { lib } = place.load(code);
				const at = `${server ? "without" : "in"} a page, ${show({ tasks, again })}: `;
				const settle = async () => {
					for (let i = 0; i < 4; i++) await new Promise((r) => setImmediate(r));
				};
				let current: Cfg | undefined;
				const inForce = (when: string) => ensureEqual(view(lib.getIgniteConfig()), current, `${at}configuration in force ${when}`);
				const runs = tasks.map((t) => ({ ...t, calls: 0, finish: () => {}, outcome: "pending" as unknown }));
				const start = (r: (typeof runs)[number]) => {
					const module: any = r.how === "config" ? freeze({ ...r.cfg }) : r.how === "default" ? { default: freeze({ ...r.cfg }) } : null;
					lib
						.loadIgniteConfig(
							() =>
								new Promise((resolve, reject) => {
									r.calls++;
									r.finish = () => (r.how === "reject" ? reject(new Error("no such file 41")) : resolve(module));
								}),
						)
						.then(
							(v: unknown) => {
								r.outcome = v === undefined ? "nothing" : view(v);
							},
							(e: unknown) => {
								r.outcome = String(e);
							},
						);
				};
				const early = runs.filter((r) => !r.late);
				for (const r of early) start(r);
				await settle();
				for (const r of [...early].sort((a, b) => a.rank - b.rank)) {
					const i = runs.indexOf(r);
					ensure(r.calls === 1, () => `${at}the loader of load ${i} ran ${r.calls} times`);
					r.finish();
					// the others start while this one is being finished
					for (const l of runs) if (l.late && l.calls === 0 && l.rank <= r.rank) start(l);
					await settle();
					if (r.how === "config" || r.how === "default") current = normal(r.cfg);
					inForce(`once load ${i} has finished`);
				}
				for (const r of runs) {
					const i = runs.indexOf(r);
					if (r.late) {
						if (r.calls === 0) start(r);
						await settle();
						ensure(r.calls === 1, () => `${at}the loader of load ${i} ran ${r.calls} times`);
						r.finish();
						await settle();
						if (r.how === "config" || r.how === "default") current = normal(r.cfg);
						inForce(`once load ${i} has finished`);
					}
					const want = r.how === "reject" ? "Error: no such file 41" : r.how === "junk" ? "nothing" : normal(r.cfg);
					ensureEqual(r.outcome, want, `${at}outcome of load ${i}`);
				}
				const object: any = {};
				for (const { cfg, load } of again) {
					for (const k of Object.keys(object)) delete object[k];
					Object.assign(object, cfg);
					const got = load ? await lib.loadIgniteConfig(async () => ({ default: object })) : lib.defineIgniteConfig(object);
					current = normal(cfg);
					ensureEqual(view(got), current, `${at}result of using a config object again`);
					inForce("after using a config object again");
				}
				if (!server) (place as ReturnType<typeof newPage>).close();
				if (tasks.filter((t) => t.how === "config" || t.how === "default").length > 1) c.nontrivial();
			},
		);

		const page = newPage();
		const { lib, clear } = page.load(code);
		await check.prop(
			"registry contents",
			fc.record({
				names: fc.array(fc.constantFrom("ignite-jsx", "lit", "mine", "other"), { maxLength: 5 }),
				renderer: fc.constantFrom<string | undefined>(undefined, "ignite-jsx", "lit"),
			}),
			{ quick: 600, thorough: 3000 },
			({ names, renderer }, c) => {
				clear();
				const factories = new Map<string, () => unknown>();
				for (const n of names) {
					const f = () => ({ attach() {}, render() {} });
					factories.set(n, f);
					lib.registerRenderStrategy(n, f);
				}
				lib.defineIgniteConfig(renderer ? { renderer } : {});
				page.logs.length = 0;
				let got: unknown;
				let error: unknown = null;
				try {
					got = lib.resolveConfiguredRenderStrategy();
				} catch (e) {
					error = e;
				}
				const at = `renderer ${renderer}, registered ${names}`;
				const wanted = renderer ?? "ignite-jsx";
				if (factories.size === 0) {
					ensure(error, `${at}: no error without any strategy`);
					return;
				}
				ensure(error === null, () => `${at}: ${String(error)}`);
				const best = factories.get(wanted) ?? factories.get("ignite-jsx");
				if (best) ensure(got === best, `${at}: another strategy was resolved`);
				else ensure([...factories.values()].includes(got as any), `${at}: an unregistered strategy was resolved`);
				const warned = page.logs.some((l) => l.level === "warn" && l.text.includes(wanted));
				if (factories.has(wanted)) ensure(page.logs.length === 0, `${at}: logged ${show(page.logs)}`);
				else if (wanted !== "ignite-jsx") ensure(warned, `${at}: no warning about ${wanted}`);
				if (names.length > 1) c.nontrivial();
			},
		);
		page.close();
	},
);
