import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { configureStore, createSlice } from "@reduxjs/toolkit";
import { action, observable } from "mobx";
import { assign, createActor, createMachine } from "xstate";
import { html, nothing } from "lit-html";
import { jsx } from "repo:jsx/index";
import { defineIgniteConfig, igniteElementFactory, StateScope } from "repo:index";
import { igniteCore as coreAny } from "repo:IgniteCore";
import { igniteCore as coreRedux } from "repo:redux";
import { type CaseContext, ensure, fc, runCheck } from "../lib/runner";
import { bigArb, Game, type Op, opsArb, rendererArb, type Setup, styleArb } from "../lib/play";
import { type Act, actArb, defineComponent, expectedView, KINDS, type Kind, makeCore, makeSource, initialModel, SHARED_KINDS, shown, step } from "../lib/world";

const setupArb: fc.Arbitrary<Setup> = fc
	.record({
		kind: fc.constantFrom<Kind>(...KINDS),
		variant: fc.nat({ max: 3 }),
		style: styleArb,
		renderer: rendererArb,
		cleanup: fc.constantFrom(undefined, undefined, true, false),
		strategy: fc.constantFrom("diff", "diff", "replace"),
		tags: fc.integer({ min: 1, max: 2 }),
	})
	.map(({ kind, variant, style, renderer, cleanup, strategy, tags }) => ({
		sources: [{ kind, variant }],
		cores: [{ source: 0, style, renderer, cleanup, strategy }],
		tags: Array.from({ length: tags }, () => 0),
	}));

class Ready extends HTMLElement {
	connectedCallback(): void {
		this.dispatchEvent(new CustomEvent("ready", { bubbles: true }));
	}
}
customElements.define("x-verif-ready", Ready);

runCheck(
	"C05",
	{
		level: "exploration",
		rule: "histories of up to 14 operations (create by API/HTML/constructor/fragment, connect, move, remove, hide or show a whole subtree, send by render argument, command, DOM event, click or emitted event, change the source from outside, singly or batched) over every source kind, entry point and renderer; after each operation every connected element's shadow DOM is compared with the reference model; non-trivial: at least one state change happened with an element connected",
		assumptions: [
			"an isolated element that was disconnected is not reconnected (its state is gone by design)",
			"commands are only called on connected elements",
			"jsdom stands for the browser",
		],
	},
	async (check) => {
		const run = async ({ setup, ops }: { setup: Setup; ops: Op[] }, c: CaseContext) => {
			const game = new Game(setup);
			try {
				game.verifyErrors("start");
				let changed = false;
				for (const [i, op] of ops.entries()) {
					const before = game.stats.effective;
					await game.play(op, true);
					const where = `after op ${i} (${op.op})`;
					game.verifyErrors(where);
					game.verifyViews(where);
					if (game.stats.effective > before && game.connected.length) changed = true;
				}
				if (changed) c.nontrivial();
				c.label(setup.sources[0].kind);
				if (game.stats.reconnects) c.label("reconnected");
				if (game.stats.multi) c.label("several connected");
			} finally {
				game.dispose();
			}
		};
		await check.prop("view follows source", fc.record({ setup: setupArb, ops: opsArb(14) }), { quick: 1600, thorough: 40000, before: resetDom }, run);
		await check.prop("crowds and long histories", fc.record({ setup: setupArb, ops: bigArb() }), { quick: 14, thorough: 600, before: resetDom }, run);

		// A component whose view creates and removes other components of the same
		// source, so that elements appear and disappear in the middle of a notification.
		await check.prop(
			"nested components",
			fc.record({
				kind: fc.constantFrom<Kind>(...SHARED_KINDS),
				variant: fc.nat({ max: 1 }),
				renderer: fc.constantFrom<"ignite-jsx">("ignite-jsx"),
				sameCore: fc.boolean(),
				siblingsBefore: fc.nat({ max: 2 }),
				siblingsAfter: fc.nat({ max: 2 }),
				acts: fc.array(fc.record({ act: actArb, via: fc.constantFrom("external", "parent", "child", "batch") }), {
					minLength: 1,
					maxLength: 8,
				}),
			}),
			{ quick: 500, thorough: 12000, before: resetDom },
			({ kind, variant, renderer, sameCore, siblingsBefore, siblingsAfter, acts }, c) => {
				const source = makeSource(kind, variant);
				const core = makeCore(source, { renderer });
				const childCore = sameCore ? core : makeCore(source, { renderer });
				const child = defineComponent(childCore);
				const parent = defineComponent(core, uniqueTag("x-parent"), (m) => m.items.map(() => child.tag));
				let model = initialModel();
				const hosts: HTMLElement[] = [];
				const append = (tag: string) => {
					const h = document.createElement(tag);
					document.body.append(h);
					hosts.push(h);
					return h;
				};
				for (let i = 0; i < siblingsBefore; i++) append(child.tag);
				const parentEl = append(parent.tag);
				for (let i = 0; i < siblingsAfter; i++) append(child.tag);
				const settle = (where: string) => {
					for (const h of hosts) {
						ensure(shown2(h) === expectedView(model), () => `${where}: <${h.localName}> shows ${shown2(h)}, source is at ${expectedView(model)}`);
					}
					const kids = [...(parentEl.shadowRoot?.querySelectorAll(child.tag) ?? [])] as HTMLElement[];
					ensure(kids.length === model.items.length, () => `${where}: ${kids.length} nested elements for ${model.items.length} items`);
					for (const k of kids)
						ensure(shown(k) === expectedView(model), () => `${where}: a nested element shows ${shown(k)}, source is at ${expectedView(model)}`);
				};
				const shown2 = shown;
				settle("start");
				for (const [i, { act, via }] of acts.entries()) {
					const kid = parentEl.shadowRoot?.querySelector(child.tag) as HTMLElement | null;
					if (via === "parent") core.rec(parentEl).args.act(act);
					else if (via === "child" && kid) childCore.rec(kid).args.send(source.event(act));
					else if (via === "batch" && source.cell?.batch) source.cell.batch([act]);
					else source.cell?.external?.(act);
					model = step(model, act);
					settle(`after act ${i} via ${via}`);
				}
				if (model.items.length || acts.some((a) => a.act.t === "add")) c.nontrivial();
				for (const h of hosts) h.remove();
			},
		);

		// States that are not objects, falsy ones included.
		await check.prop(
			"primitive states",
			fc.record({
				states: fc.array(fc.constantFrom<unknown>(0, 1, "", "x", false, true, null, NaN, -0), { minLength: 1, maxLength: 6 }),
				source: fc.constantFrom("redux-store", "redux-factory", "custom-shared", "custom-isolated"),
				renderer: rendererArb,
			}),
			{ quick: 400, thorough: 4000, before: resetDom },
			({ states, source, renderer }, c) => {
				defineIgniteConfig({ renderer });
				let current = states[0];
				let push: (v: unknown) => void = () => {};
				let register: any;
				if (source.startsWith("redux")) {
					const make = () => {
						const store = configureStore({
							reducer: (s: unknown = null, a: any) => (a.type === "set" ? a.v : s),
							preloadedState: current as any,
							middleware: (get) => get({ serializableCheck: false, immutableCheck: false }),
						});
						push = (v) => store.dispatch({ type: "set", v } as any);
						return store;
					};
					register = coreRedux({ source: (source === "redux-store" ? make() : make) as any });
				} else {
					const listeners = new Set<(v: unknown) => void>();
					push = (v) => {
						current = v;
						for (const l of listeners) l(v);
					};
					register = igniteElementFactory(
						() => ({
							subscribe(l: (v: unknown) => void) {
								listeners.add(l);
								return { unsubscribe: () => void listeners.delete(l) };
							},
							getState: () => current,
							send: (v: any) => push(v),
							stop() {},
						}),
						{ scope: source === "custom-shared" ? StateScope.Shared : StateScope.Isolated },
					);
				}
				const tag = uniqueTag("x-prim");
				const seen: unknown[] = [];
				register(tag, ({ state }: any) => {
					seen.push(state);
					const text = `<${String(state)}>`;
					return renderer === "lit" ? html`<p>${text}</p>` : jsx("p", { children: text });
				});
				const el = document.createElement(tag);
				document.body.append(el);
				const text = () => el.shadowRoot?.querySelector("p")?.textContent;
				ensure(text() === `<${String(states[0])}>`, () => `initial state ${String(states[0])} shown as ${text()}`);
				for (const v of states.slice(1)) {
					push(v);
					ensure(text() === `<${String(v)}>`, () => `state ${String(v)} shown as ${text()}`);
				}
				if (states.some((v) => !v)) c.nontrivial();
				el.remove();
			},
		);

		// Views that show nothing, or only text, in some states.
		const blanks = ["null", "undefined", "false", "empty text", "empty list", "nothing", "text", "element", "list", "number"] as const;
		await check.prop(
			"blank views",
			fc.record({
				renderer: rendererArb,
				strategy: fc.constantFrom("diff" as const, "diff" as const, "replace" as const),
				views: fc.array(fc.constantFrom(...blanks), { minLength: 2, maxLength: 7 }),
				shared: fc.boolean(),
				again: fc.boolean(),
			}),
			{ quick: 700, thorough: 10000, before: resetDom },
			({ renderer, strategy, views, shared, again }, c) => {
				const lit = renderer === "lit";
				defineIgniteConfig({ renderer, strategy });
				const el1 = (t: string) => (lit ? html`<b>${t}</b>` : jsx("b", { children: t }));
				const view = (i: number): unknown => {
					switch (views[i]) {
						case "null":
							return null;
						case "undefined":
							return undefined;
						case "false":
							// lit-html shows false as a text of its own
							return lit ? nothing : false;
						case "empty text":
							return "";
						case "empty list":
							return [];
						case "nothing":
							return lit ? nothing : null;
						case "text":
							return `t${i}`;
						case "element":
							return el1(`e${i}`);
						case "list":
							return [el1(`l${i}`), el1(`m${i}`)];
						case "number":
							return i;
					}
				};
				const want = (i: number) =>
					({ text: `t${i}`, element: `<b>e${i}</b>`, list: `<b>l${i}</b><b>m${i}</b>`, number: String(i) })[views[i] as string] ?? "";
				const make = () =>
					configureStore({ reducer: (s: number = 0, a: any) => (a.type === "go" ? a.to : s) });
				const register = coreRedux({ source: (shared ? make() : make) as any } as any);
				const tag = uniqueTag("x-blank");
				let send: any;
				register(tag, ((args: any) => {
					send = args.send;
					return view(args.state);
				}) as any);
				const el = document.createElement(tag);
				document.body.append(el);
				const content = () => {
					const flat = (n: Node): string => {
						if (n.nodeType === 8) return "";
						if (n.nodeType === 3) return n.textContent ?? "";
						const inner = [...n.childNodes].map(flat).join("");
						return n.nodeName === "B" ? `<b>${inner}</b>` : inner;
					};
					return [...(el.shadowRoot?.childNodes ?? [])].map(flat).join("");
				};
				const look = (i: number, from: string) =>
					ensure(content() === want(i), () => `${from}: the view for the current state is ${views[i]} (${want(i)}), shown is ${content()}`);
				look(0, "at first");
				for (let i = 1; i < views.length; i++) {
					send({ type: "go", to: i });
					look(i, `after ${views[i - 1]}`);
					if (again && shared) {
						el.remove();
						document.body.append(el);
						look(i, "after coming back");
					}
				}
				if (views.some((v, i) => want(i) === "" && i > 0) && views.some((_, i) => want(i) !== "")) c.nontrivial();
				el.remove();
			},
		);

		// The markup is there first, the component is registered later.
		await check.prop(
			"registered after the markup",
			fc.record({
				kind: fc.constantFrom<Kind>(...KINDS),
				variant: fc.nat({ max: 3 }),
				style: styleArb,
				renderer: rendererArb,
				count: fc.integer({ min: 1, max: 4 }),
				depth: fc.nat({ max: 2 }),
				before: fc.array(actArb, { maxLength: 3 }),
				between: fc.array(actArb, { maxLength: 2 }),
				after: fc.array(fc.record({ e: fc.nat({ max: 3 }), act: actArb, via: fc.constantFrom("render", "command", "dom", "external") }), { maxLength: 5 }),
				gone: fc.boolean(),
			}),
			{ quick: 500, thorough: 10000, before: resetDom },
			({ kind, variant, style, renderer, count, depth, before, between, after, gone }, c) => {
				const source = makeSource(kind, variant);
				const tag = uniqueTag("x-late");
				const body = `<${tag} title="t"></${tag}>`.repeat(count);
				const box = document.createElement("div");
				box.innerHTML = "<section>".repeat(depth) + body + "</section>".repeat(depth);
				document.body.append(box);
				let shared = initialModel();
				const change = (a: Act) => {
					if (!source.shared || !source.cell?.external) return;
					if (kind === "xstate-actor" && !source.cell.alive?.()) return;
					source.cell.external(a);
					shared = step(shared, a);
				};
				before.forEach(change);
				const core = makeCore(source, { style, renderer });
				between.forEach(change);
				const hosts = [...box.querySelectorAll(tag)] as HTMLElement[];
				// one of them leaves before it becomes an element of the component
				const left = gone && count > 1 ? hosts.pop() : undefined;
				left?.remove();
				defineComponent(core, tag);
				const own = hosts.map(() => initialModel());
				const look = (where: string) => {
					ensure(windowErrors.length === 0, () => `${where}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					hosts.forEach((h, i) => {
						const want = expectedView(source.shared ? shared : own[i]);
						ensure(shown(h) === want, () => `${where}: element ${i} (${kind}) shows ${shown(h)}, its source is at ${want}`);
						ensure(h.getAttribute("title") === "t", () => `${where}: an attribute was lost`);
					});
				};
				look("once registered");
				if (left) {
					box.append(left);
					hosts.push(left);
					own.push(initialModel());
					look("with the one that had left");
				}
				for (const [n, { e, act, via }] of after.entries()) {
					const i = e % hosts.length;
					const r = core.rec(hosts[i]);
					if (via === "external" || source.kind.startsWith("custom")) {
						if (source.shared) change(act);
						else {
							r.args.send(source.event(act));
							own[i] = step(own[i], act);
						}
					} else {
						if (via === "render") r.args.send(source.event(act));
						else if (via === "command") r.args.act(act);
						else hosts[i].dispatchEvent(new CustomEvent("send", { detail: source.event(act) }));
						if (source.shared) shared = step(shared, act);
						else own[i] = step(own[i], act);
					}
					look(`after change ${n} via ${via}`);
				}
				if (after.length) c.nontrivial();
				c.label(kind);
				box.remove();
			},
		);

		// Components without any source.
		await check.prop(
			"without a source",
			fc.record({
				renderer: rendererArb,
				form: fc.constantFrom("function", "object", "class"),
				ops: fc.array(fc.record({ o: fc.constantFrom("add", "html", "remove", "back", "send", "force"), i: fc.nat({ max: 3 }) }), { minLength: 1, maxLength: 8 }),
				text: fc.constantFrom("hello", "", "<b>", "é"),
			}),
			{ quick: 400, thorough: 4000, before: resetDom },
			({ renderer, form, ops, text }, c) => {
				defineIgniteConfig({ renderer });
				const tag = uniqueTag("x-static");
				const render = (args: any) => {
					ensure(args.state !== null && typeof args.state === "object", () => `state is ${String(args.state)}`);
					ensure(typeof args.send === "function", "no send");
					args.state; // nothing to read
					return renderer === "lit" ? html`<p @click=${() => args.send({ type: "x" })}>${text}</p>` : jsx("p", { onClick: () => args.send({ type: "x" }), children: text });
				};
				class Form {
					render(args: any) {
						return render(args);
					}
				}
				(coreAny as any)()(tag, form === "function" ? render : form === "object" ? { render } : Form);
				const els: HTMLElement[] = [];
				for (const [n, { o, i }] of ops.entries()) {
					const el = els.length ? els[i % els.length] : undefined;
					if (o === "add") {
						const h = document.createElement(tag);
						document.body.append(h);
						els.push(h);
					} else if (o === "html") {
						const box = document.createElement("div");
						document.body.append(box);
						box.innerHTML = `<${tag}></${tag}>`;
						els.push(box.firstElementChild as HTMLElement);
					} else if (o === "remove") el?.remove();
					else if (o === "back") {
						if (el) document.body.append(el);
					} else if (o === "send") {
						el?.shadowRoot?.querySelector("p")?.dispatchEvent(new Event("click"));
						el?.dispatchEvent(new CustomEvent("send", { detail: { type: "x" } }));
					} else (el as any)?.forceRender();
					ensure(windowErrors.length === 0, () => `after op ${n}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					els.forEach((h, k) => {
						const found = [...(h.shadowRoot?.querySelectorAll("p") ?? [])].map((p) => p.textContent);
						ensure(found.length === 1 && found[0] === text, () => `after op ${n} (${o}): element ${k} shows ${JSON.stringify(found)}, its view is ${JSON.stringify(text)}`);
					});
				}
				if (els.length) c.nontrivial();
			},
		);

		// A render that changes the state in turn: the view sends, or a child emits as it is connected. Some renders fail.
		await check.prop(
			"changes while rendering",
			fc.record({
				kind: fc.constantFrom("machine", "actor", "slice", "store", "storeFactory", "observable", "observableFactory"),
				renderer: rendererArb,
				strategy: fc.constantFrom("diff", "diff", "replace"),
				two: fc.boolean(),
				sendAt: fc.uniqueArray(fc.nat({ max: 8 }), { maxLength: 4 }),
				readyAt: fc.uniqueArray(fc.nat({ max: 8 }), { maxLength: 4 }),
				throwAt: fc.oneof({ weight: 2, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.uniqueArray(fc.nat({ max: 8 }), { maxLength: 3 }) }),
				mod: fc.integer({ min: 2, max: 3 }),
				ops: fc.array(fc.constantFrom("inc", "inc", "inc", "outside", "off", "on", "force"), { minLength: 1, maxLength: 8 }),
			}),
			{ quick: 700, thorough: 12000, before: resetDom },
			({ kind, renderer, strategy, two, sendAt, readyAt, throwAt, mod, ops }, c) => {
				defineIgniteConfig({ renderer, strategy });
				const shared = kind === "actor" || kind === "store" || kind === "observable";
				const faulty = kind === "machine" || kind === "actor" || (two && shared) ? [] : throwAt; // XState reports them elsewhere; others may not be told
				let n = 0;
				const slice = createSlice({ name: "counter", initialState: { n: 0 }, reducers: { inc: (s) => ({ n: s.n + 1 }) } });
				const machine = createMachine({ context: { n: 0 }, on: { inc: { actions: assign({ n: ({ context }: any) => context.n + 1 }) } } } as any);
				const newObservable = () =>
					observable(
						{
							n: 0,
							inc() {
								this.n++;
							},
						},
						{ inc: action },
					);
				const xstate = kind === "machine" || kind === "actor";
				const mobx = kind.startsWith("observable");
				const source: any =
					kind === "machine"
						? machine
						: kind === "actor"
							? createActor(machine).start()
							: kind === "slice"
								? slice
								: kind === "store"
									? configureStore({ reducer: slice.reducer })
									: kind === "storeFactory"
										? () => configureStore({ reducer: slice.reducer })
										: kind === "observable"
											? newObservable()
											: newObservable;
				const event = { type: xstate || mobx ? "inc" : "counter/inc" };
				const read = (state: any): number => (xstate ? state.context.n : kind === "slice" ? state.counter.n : state.n);
				const tag = uniqueTag("x-reenter");
				let nested = 0;
				let rendering = 0;
				const inc = (send: (e: any) => void) => {
					if (rendering) nested++;
					n++;
					send(event);
				};
				(coreAny as any)({ source })(tag, ({ state, send }: any) => {
					const at = read(state);
					if (sendAt.includes(at)) {
						rendering++;
						try {
							inc(send);
						} finally {
							rendering--;
						}
					}
					if (faulty.includes(at)) throw new Error("planned failure");
					const onReady = () => {
						nested++;
						inc(send);
					};
					const kid = readyAt.includes(at);
					return renderer === "lit"
						? html`<div class=${`m${at % mod}`} @ready=${onReady}><p title=${at % mod}>${at}</p>${kid ? html`<x-verif-ready></x-verif-ready>` : nothing}<b>${at}</b></div>`
						: jsx("div", {
								className: `m${at % mod}`,
								onReady,
								children: [jsx("p", { title: String(at % mod), children: at }), kid ? jsx("x-verif-ready", {}) : null, jsx("b", { children: at })],
							});
				});
				const guarded = (f: () => void) => {
					try {
						f();
					} catch (error) {
						if (!faulty.length || !String(error).includes("planned failure")) throw error;
					}
				};
				const els = Array.from({ length: two && shared ? 2 : 1 }, () => document.createElement(tag) as any);
				const verify = (where: string) => {
					const bad = windowErrors.filter((e: any) => !faulty.length || !String(e?.message ?? e).includes("planned failure"));
					windowErrors.length = 0;
					ensure(bad.length === 0, () => `${where}: ${String((bad[0] as any)?.stack ?? bad[0])}`);
					if (faulty.includes(n)) return;
					const m = n % mod;
					const want = `<div class="m${m}"><p title="${m}">${n}</p>${readyAt.includes(n) ? "<x-verif-ready></x-verif-ready>" : ""}<b>${n}</b></div>`;
					els.forEach((el, k) => {
						if (!el.isConnected) return;
						const root = renderer === "lit" ? el.shadowRoot : el.shadowRoot.querySelector("[data-ignite-jsx-root]");
						const got = root.innerHTML.replace(/<!--.*?-->/g, "");
						ensure(got === want, () => `${where}: the state is ${n}, element ${k} shows ${got} instead of ${want}`);
					});
				};
				for (const el of els) {
					guarded(() => document.body.append(el));
					verify("after connecting");
				}
				for (const [i, op] of ops.entries()) {
					const el = els[i % els.length];
					if (op === "inc") {
						if (!el.isConnected) continue;
						guarded(() => inc((e) => el.dispatchEvent(new CustomEvent("send", { detail: e }))));
					} else if (op === "force") {
						if (!el.isConnected) continue;
						guarded(() => el.forceRender());
					} else if (!shared) continue;
					else if (op === "outside") guarded(() => inc((e) => (kind === "actor" ? source.send(e) : kind === "store" ? source.dispatch(e) : source.inc())));
					else if (op === "off") el.remove();
					else if (!el.isConnected) guarded(() => document.body.append(el));
					verify(`after op ${i} (${op})`);
				}
				for (const el of els) el.remove();
				if (nested) c.nontrivial();
				if (faulty.length) c.label("failing renders");
				c.label(kind);
			},
		);

		// Redux accepts functions and extended actions wherever it accepts actions.
		await check.prop(
			"thunks",
			fc.record({
				kind: fc.constantFrom("slice", "store", "storeFactory"),
				renderer: rendererArb,
				ops: fc.array(
					fc.record({ via: fc.constantFrom("send", "dom", "command"), what: fc.constantFrom("action", "meta", "frozen", "thunk", "nested thunk", "async thunk"), by: fc.integer({ min: -3, max: 3 }) }),
					{ minLength: 1, maxLength: 7 },
				),
			}),
			{ quick: 400, thorough: 6000, before: resetDom },
			async ({ kind, renderer, ops }, c) => {
				defineIgniteConfig({ renderer });
				const slice = createSlice({ name: "counter", initialState: { n: 0 }, reducers: { add: (s, a: { payload: number }) => ({ n: s.n + a.payload }) } });
				const make = () => configureStore({ reducer: slice.reducer });
				const source: any = kind === "slice" ? slice : kind === "store" ? make() : make;
				const read = (state: any): number => (kind === "slice" ? state.counter.n : state.n);
				const tag = uniqueTag("x-thunk");
				let args: any;
				(coreAny as any)({ source, commands: ({ actor }: any) => ({ give: (e: unknown) => actor.dispatch(e) }) })(tag, (a: any) => {
					args = a;
					return renderer === "lit" ? html`<p>${read(a.state)}</p>` : jsx("p", { children: read(a.state) });
				});
				const el = document.createElement(tag);
				document.body.append(el);
				let n = 0;
				for (const [i, { via, what, by }] of ops.entries()) {
					const plain = slice.actions.add(by);
					let done: Promise<void> | undefined;
					const value: unknown =
						what === "action"
							? plain
							: what === "meta"
								? { ...plain, meta: { from: "test" }, error: false }
								: what === "frozen"
									? Object.freeze(plain)
									: what === "thunk"
										? (dispatch: any, getState: any) => {
												ensure(read(getState()) === n, () => `op ${i}: the thunk reads ${read(getState())}, the state is ${n}`);
												dispatch(plain);
											}
										: what === "nested thunk"
											? (dispatch: any) => dispatch((again: any) => again(plain))
											: (dispatch: any) => {
													done = Promise.resolve().then(() => dispatch(plain));
												};
					if (via === "send") args.send(value);
					else if (via === "dom") el.dispatchEvent(new CustomEvent("send", { detail: value }));
					else args.give(value);
					ensure(windowErrors.length === 0, () => `op ${i} (${what} by ${via}): ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					await done;
					n += by;
					const got = el.shadowRoot?.querySelector("p")?.textContent;
					ensure(got === String(n), () => `op ${i} (${what} by ${via}, ${kind}): the element shows ${got}, the state is ${n}`);
				}
				el.remove();
				if (ops.some((o) => o.what.includes("thunk") && o.by)) c.nontrivial();
				c.label(kind);
			},
		);
		// A machine may reach its end: elements show it then, and ever after.
		await check.prop(
			"machines that finish",
			fc.record({
				live: fc.boolean(),
				renderer: rendererArb,
				count: fc.integer({ min: 1, max: 3 }),
				goal: fc.integer({ min: 1, max: 4 }),
				ops: fc.array(
					fc.record({ e: fc.nat({ max: 3 }), via: fc.constantFrom("send", "dom", "command", "source", "add", "move", "remove") }),
					{ minLength: 1, maxLength: 12 },
				),
			}),
			{ quick: 500, thorough: 8000, before: resetDom },
			({ live, renderer, count, goal, ops }, c) => {
				defineIgniteConfig({ renderer });
				const machine: any = createMachine({
					initial: "open",
					context: { n: 0 },
					states: {
						open: { on: { STEP: [{ guard: ({ context }: any) => context.n + 1 >= goal, target: "closed", actions: assign({ n: ({ context }: any) => context.n + 1 }) }, { actions: assign({ n: ({ context }: any) => context.n + 1 }) }] } },
						closed: { type: "final" },
					},
				} as any);
				const actor: any = live ? createActor(machine) : null;
				const tag = uniqueTag("x-end");
				const args = new Map<HTMLElement, any>();
				let host: HTMLElement | null = null;
				(coreAny as any)({
					source: actor ?? machine,
					states: (s: any) => ({ twice: s.context.n * 2 }),
					commands: ({ actor: a, host: h }: any) => ({ step: () => a.send({ type: "STEP" }), me: () => h }),
				})(tag, (a: any) => {
					args.set(a.me(), a);
					const text = `${a.state.value} ${a.state.n} ${a.twice} ${a.state.status}`;
					return renderer === "lit" ? html`<p>${text}</p>` : jsx("p", { children: text });
				});
				const els: Array<{ h: HTMLElement; n: { n: number }; off: boolean }> = [];
				const sharedN = { n: 0 };
				const add = () => {
					host = document.createElement(tag);
					document.body.append(host);
					els.push({ h: host, n: live ? sharedN : { n: 0 }, off: false });
				};
				const verify = (where: string) => {
					ensure(windowErrors.length === 0, () => `${where}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					for (const [i, el] of els.entries()) {
						if (el.off) continue;
						const want = `${el.n.n >= goal ? "closed" : "open"} ${el.n.n} ${el.n.n * 2} ${el.n.n >= goal ? "done" : "active"}`;
						const got = el.h.shadowRoot?.querySelector("p")?.textContent;
						ensure(got === want, () => `${where}: element ${i} shows ${got}, the state is ${want}`);
					}
				};
				for (let i = 0; i < count; i++) add();
				verify("at first");
				for (const [i, op] of ops.entries()) {
					const el = els[op.e % els.length];
					if (op.via === "add") add();
					else if (el.off) continue;
					else if (op.via === "remove") {
						el.h.remove();
						el.off = true;
					} else if (op.via === "move") {
						if (live) document.body.append(el.h);
					} else {
						if (op.via === "source" && !live) continue;
						if (op.via === "source") actor.send({ type: "STEP" });
						else if (op.via === "send") args.get(el.h).send({ type: "STEP" });
						else if (op.via === "dom") el.h.dispatchEvent(new CustomEvent("send", { detail: { type: "STEP" } }));
						else args.get(el.h).step();
						if (el.n.n < goal) el.n.n++;
						else c.label("event after the end");
					}
					verify(`op ${i} (${op.via})`);
				}
				if (els.some((e) => e.n.n >= goal)) c.nontrivial();
				document.body.replaceChildren();
			},
		);

		// Events are whatever the source defines: fields named like those of DOM events included.
		await check.prop(
			"events with fields of their own",
			fc.record({
				kind: fc.constantFrom<Kind>(...KINDS.filter((k) => !k.startsWith("custom"))),
				variant: fc.nat({ max: 3 }),
				renderer: rendererArb,
				ops: fc.array(fc.record({ act: actArb, other: actArb, field: fc.constantFrom("detail", "target", "currentTarget", "state", "event", "data"), value: fc.constantFrom("event", 0, 1, "", "x", null, true), dom: fc.boolean() }), { minLength: 1, maxLength: 6 }),
			}),
			{ quick: 400, thorough: 6000, before: resetDom },
			({ kind, variant, renderer, ops }, c) => {
				defineIgniteConfig({ renderer });
				const source = makeSource(kind, variant);
				const tag = uniqueTag("x-fields");
				let args: any;
				(coreAny as any)({ source: source.value })(tag, (a: any) => {
					args = a;
					const text = JSON.stringify((source.stateOf ?? source.modelOf)(a.state));
					return renderer === "lit" ? html`<p>${text}</p>` : jsx("p", { children: text });
				});
				const el = document.createElement(tag);
				document.body.append(el);
				let model = initialModel();
				for (const [i, { act, other, field, value, dom }] of ops.entries()) {
					const event = { ...(source.event(act) as object), [field]: value === "event" ? source.event(other) : value };
					if (dom) el.dispatchEvent(new CustomEvent("send", { detail: event }));
					else args.send(event);
					model = step(model, act);
					ensure(windowErrors.length === 0, () => `op ${i}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					const got = el.shadowRoot?.querySelector("p")?.textContent;
					ensure(got === JSON.stringify(model), () => `op ${i} (${kind}, event with a field ${field}): the element shows ${got}, the state is ${JSON.stringify(model)}`);
				}
				el.remove();
				if (ops.some((o) => o.value === "event")) c.nontrivial();
				c.label(kind);
			},
		);
	},
);
