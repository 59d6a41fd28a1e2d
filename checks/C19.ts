import { resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { html } from "lit-html";
import { jsx } from "repo:jsx/index";
import { ensure, fc, runCheck, show } from "../lib/runner";
import { rendererArb, styleArb } from "../lib/play";
import { type Act, actArb, initialModel, isShared, KINDS, type Kind, makeCore, makeSource, type Model, step } from "../lib/world";

type Make = (text: (args: any) => string, view: (s: string) => any) => any;

/** elements whose renderer object was swapped between renders */
const lostReceiver: object[] = [];
/** how often a class instance rendered for a second element */
let sharedInstances = 0;
const rendersSeen = new WeakMap<object, number>();

/** every documented form of the same render logic; methods need their own receiver */
const FORMS: Record<string, Make> = {
	arrow: (text, view) => (args: any) => view(text(args)),
	function: (text, view) =>
		function render(args: any) {
			return view(text(args));
		},
	"bound function": (text, view) =>
		function (this: any, args: any) {
			return view(this.t(args));
		}.bind({ t: text }),
	"function with members": (text, view) => Object.assign((args: any) => view(text(args)), { displayName: "X", extra: {} }),
	object: (text, view) => ({
		own: text,
		render(args: any) {
			return view(this.own(args));
		},
	}),
	"frozen object": (text, view) =>
		Object.freeze({
			own: text,
			render(args: any) {
				return view(this.own(args));
			},
		}),
	"object with inherited render": (text, view) => {
		class Base {
			own = text;
			render(args: any) {
				return view(this.own(args));
			}
		}
		return new (class Sub extends Base {})();
	},
	"bare object": (text, view) =>
		Object.assign(Object.create(null), {
			own: text,
			render(this: any, args: any) {
				return view(this.own(args));
			},
		}),
	"object with private state": (text, view) =>
		new (class {
			#own = text;
			#text(args: any) {
				return this.#own(args);
			}
			helper(args: any) {
				return this.#text(args);
			}
			render(args: any) {
				return view(this.helper(args));
			}
		})(),
	"object changed from outside": (text, view) => {
		const renderer = {
			changes: 0,
			render(args: any) {
				renderer.changes++;
				if (this.changes !== renderer.changes) lostReceiver.push(args.hostRef());
				return view(text(args));
			},
		};
		return renderer;
	},
	"object with arrow": (text, view) => ({ render: (args: any) => view(text(args)) }),
	class: (text, view) =>
		class {
			own = text;
			render(args: any) {
				return view(this.own(args));
			}
		},
	"class with parameters": (text, view) =>
		class {
			constructor(
				public options?: { prefix?: string },
				...rest: unknown[]
			) {
				if (rest.length) this.options = {};
			}
			render(args: any) {
				return view(text(args));
			}
		},
	"class with private state": (text, view) =>
		class {
			#own = text;
			static made = 0;
			constructor() {
				if (!new.target) throw new Error("not constructed");
			}
			#renders = new WeakMap<object, number>();
			#hosts = new Set<object>();
			render(args: any) {
				const host = args.hostRef();
				this.#hosts.add(host);
				if (this.#hosts.size > 1) sharedInstances++;
				const n = (this.#renders.get(host) ?? 0) + 1;
				this.#renders.set(host, n);
				rendersSeen.set(host, (rendersSeen.get(host) ?? 0) + 1);
				if (rendersSeen.get(host) !== n) lostReceiver.push(host);
				return view(this.#own(args));
			}
		},
	"derived class": (text, view) => {
		class Base {
			own = text;
			render(args: any) {
				return this.wrap(args);
			}
			wrap(_args: any): any {
				return null;
			}
		}
		return class extends Base {
			override wrap(args: any) {
				return view(this.own(args));
			}
		};
	},
	"constructor function": (text, view) => {
		function R(this: any) {
			this.own = text;
		}
		R.prototype.render = function (args: any) {
			return view(this.own(args));
		};
		return R;
	},
};
const FORM_NAMES = Object.keys(FORMS);

const INVALID: unknown[] = [undefined, null, 0, 1, "", "render", true, Symbol("r"), {}, [], { view: () => null }, { render: null }, { render: "x" }, { render: 3 }, new Date(0), Object.freeze({ Render: () => null })];

interface Op {
	e: number;
	act: Act;
	via: "send" | "dup" | "bad" | "add";
	pick: number;
}

const text = (source: any) => (args: any) => `${JSON.stringify((source.stateOf ?? source.modelOf)(args.state))}|${args.double}|${args.size}`;
const expected = (m: Model) => `${JSON.stringify(m)}|${m.count * 2}|${m.items.length}`;

runCheck(
	"C19",
	{
		level: "exploration",
		rule: "the same render logic given in several renderer forms (functions, objects, classes, inheritance, private members), registered over the same kind of source and driven by the same history, with attempts to register taken names and invalid renderers in between; every element is compared with the model and all forms with each other after each step; non-trivial: at least two forms and one event",
		assumptions: ["a renderer that is rejected only when an element is created (isolated sources), or with a render member that is no function when it is first shown, counts as rejected"],
	},
	async (check) => {
		await check.prop(
			"forms",
			fc.record({
				kind: fc.constantFrom<Kind>(...KINDS),
				variant: fc.nat({ max: 3 }),
				style: styleArb,
				renderer: rendererArb,
				strategy: fc.constantFrom("diff", "replace"),
				forms: fc.uniqueArray(fc.constantFrom(...FORM_NAMES), { minLength: 1, maxLength: 4 }),
				perForm: fc.integer({ min: 1, max: 2 }),
				ops: fc.array(
					fc.record({ e: fc.nat({ max: 9 }), act: actArb, via: fc.constantFrom("send" as const, "send" as const, "send" as const, "dup" as const, "bad" as const, "add" as const), pick: fc.nat({ max: 99 }) }),
					{ maxLength: 8 },
				),
			}),
			{ quick: 1800, thorough: 20000, before: resetDom },
			({ kind, variant, style, renderer, strategy, forms, perForm, ops }, c) => {
				lostReceiver.length = 0;
				sharedInstances = 0;
				const source = makeSource(kind, variant);
				const core = makeCore(source, { style, renderer, strategy });
				const view = renderer === "lit" ? (s: string) => html`<p>${s}</p>` : (s: string) => jsx("p", { children: s });
				const shared = isShared(kind);
				const args = new Map<Element, any>();
				const tags: string[] = [];
				const els: Array<{ host: Element; form: string; m: { m: Model } }> = [];
				const common = { m: initialModel() };
				const renderText = (a: any) => {
					args.set(a.hostRef(), a);
					return text(source)(a);
				};
				const make = (tag: string, form: string) => {
					const host = document.createElement(tag);
					document.body.append(host);
					els.push({ host, form, m: shared ? common : { m: initialModel() } });
				};
				const formOf = new Map<string, string>();
				for (const form of forms) {
					const tag = uniqueTag("x-form");
					core.register(tag, FORMS[form](renderText, view));
					tags.push(tag);
					formOf.set(tag, form);
					for (let i = 0; i < perForm; i++) make(tag, form);
				}
				const verify = (when: string) => {
					ensure(windowErrors.length === 0, () => `${when}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					ensure(lostReceiver.length === 0, `${when}: a renderer lost what it kept since the element's last render`);
					ensure(shared || sharedInstances === 0, `${when}: two isolated elements (${kind}) share the instance of a class renderer`);
					for (const [i, e] of els.entries()) {
						const got = e.host.shadowRoot?.querySelector("p")?.textContent;
						ensure(got === expected(e.m.m), () => `${when}: element ${i} (${e.form}, ${kind}) shows ${got}, expected ${expected(e.m.m)}`);
					}
				};
				verify("start");
				for (const [i, op] of (ops as Op[]).entries()) {
					const when = `op ${i} (${op.via})`;
					const el = els[op.e % els.length];
					if (op.via === "send") {
						args.get(el.host).send(source.event(op.act));
						el.m.m = step(el.m.m, op.act);
					} else if (op.via === "add") {
						const tag = tags[op.pick % tags.length];
						make(tag, formOf.get(tag) as string);
					} else if (op.via === "dup") {
						const taken = tags[op.pick % tags.length];
						const before = customElements.get(taken);
						// the same registration function, or another component's
						const register = op.e % 2 ? core.register : makeCore(makeSource(KINDS[op.pick % KINDS.length], variant), { renderer }).register;
						let error: any = null;
						let ran = false;
						try {
							register(
								taken,
								FORMS[FORM_NAMES[op.pick % FORM_NAMES.length]](
									() => {
										ran = true;
										return "other";
									},
									view,
								),
							);
						} catch (e) {
							error = e;
						}
						ensure(error, () => `${when}: registering "${taken}" twice was accepted`);
						ensure(String(error?.message).includes(taken), () => `${when}: the error does not name "${taken}": ${String(error)}`);
						ensure(customElements.get(taken) === before && !ran, () => `${when}: the first component was disturbed`);
						make(taken, formOf.get(taken) as string);
					} else {
						const bad = INVALID[op.pick % INVALID.length];
						const tag = uniqueTag("x-bad");
						let rejected = false;
						try {
							core.register(tag, bad);
						} catch {
							rejected = true;
						}
						if (!rejected) {
							try {
								const made = document.createElement(tag);
								// a "render" that is no function may only show when it is called
								if (bad && typeof bad === "object" && "render" in bad) {
									document.body.append(made);
									made.remove();
								}
							} catch {
								rejected = true;
							}
							if (windowErrors.length) rejected = true;
							windowErrors.length = 0;
						}
						ensure(rejected, () => `${when}: the renderer ${show(bad)} was accepted (${kind})`);
					}
					verify(when);
				}
				if (forms.length > 1 && ops.some((o) => o.via === "send")) c.nontrivial();
				for (const f of forms) c.label(f);
				document.body.replaceChildren();
			},
		);

		await check.prop(
			"names taken by others",
			fc.record({ kind: fc.constantFrom<Kind>(...KINDS), variant: fc.nat({ max: 3 }), form: fc.constantFrom(...FORM_NAMES), native: fc.boolean() }),
			{ quick: 150, thorough: 1500, before: resetDom },
			({ kind, variant, form, native }, c) => {
				const tag = native ? uniqueTag("x-nat") : uniqueTag("bad").replace("-", "");
				if (native) customElements.define(tag, class extends HTMLElement {});
				const before = customElements.get(tag);
				let error: unknown = null;
				try {
					makeCore(makeSource(kind, variant), {}).register(tag, FORMS[form](() => "x", (s) => jsx("p", { children: s })));
				} catch (e) {
					error = e;
				}
				ensure(error, () => `registering ${native ? "a name defined elsewhere" : "an invalid element name"} "${tag}" was accepted`);
				ensure(customElements.get(tag) === before, `"${tag}" was redefined`);
				c.nontrivial();
			},
		);
	},
);
