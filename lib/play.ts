// Histories over elements: create / connect / move / disconnect / send / act,
// against the reference model.
import { ensure, fc } from "./runner";
import { Clock, microtasks } from "./clock";
import { asyncErrors, windowErrors } from "./dom";
import {
	type Act,
	actArb,
	type Cell,
	type Component,
	type Core,
	type CoreStyle,
	defineComponent,
	expectedView,
	initialModel,
	type Kind,
	makeCore,
	makeSource,
	type Model,
	shown,
	type Source,
	step,
} from "./world";

export type Op =
	| { op: "new"; c: number; how: "create" | "html" | "ctor" | "fragment" | "connected" | "clone" | "template" }
	/** ask for a render, from outside */
	| { op: "force"; e: number }
	| { op: "connect"; e: number; at: number }
	| { op: "remove"; e: number }
	| { op: "hide"; at: number }
	| { op: "show"; at: number }
	| { op: "clear" }
	| { op: "send"; e: number; via: "render" | "command" | "dom" | "click" | "burst" | "shout"; acts: Act[] }
	| { op: "external"; e: number; acts: Act[]; batch: boolean }
	/** a change that comes by itself after a while */
	| { op: "later"; e: number; ms: number }
	/** time passes (0: only what is already due as a promise reaction) */
	| { op: "tick"; ms: number };

const small = fc.nat({ max: 7 });
const actsArb = fc.oneof(
	{ weight: 60, arbitrary: fc.array(actArb, { minLength: 1, maxLength: 3 }) },
	// many at once
	{ weight: 1, arbitrary: fc.array(actArb, { minLength: 33, maxLength: 70, size: "max" }) },
);
export function tickArb(): fc.Arbitrary<Op> {
	return fc.record({ op: fc.constant("tick" as const), ms: fc.constantFrom(0, 0, 0, 1, 20, 100, 5000, 600_000) });
}
export const opArb: fc.Arbitrary<Op> = fc.oneof(
	{
		weight: 2,
		arbitrary: fc.record({
			op: fc.constant("new" as const),
			c: small,
			how: fc.constantFrom("create", "html", "ctor", "fragment", "clone", "template", "connected", "connected", "connected"),
		}) as fc.Arbitrary<Op>,
	},
	{ weight: 4, arbitrary: fc.record({ op: fc.constant("connect" as const), e: small, at: fc.nat({ max: 2 }) }) },
	{ weight: 3, arbitrary: fc.record({ op: fc.constant("remove" as const), e: small }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("hide" as const), at: fc.nat({ max: 2 }) }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("show" as const), at: fc.nat({ max: 2 }) }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("clear" as const) }) },
	{
		weight: 7,
		arbitrary: fc.record({
			op: fc.constant("send" as const),
			e: small,
			via: fc.constantFrom("render", "command", "dom", "click", "burst", "shout"),
			acts: actsArb,
		}) as fc.Arbitrary<Op>,
	},
	{
		weight: 4,
		arbitrary: fc.record({
			op: fc.constant("external" as const),
			e: small,
			acts: actsArb,
			batch: fc.boolean(),
		}),
	},
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("force" as const), e: small }) },
	{ weight: 1, arbitrary: fc.record({ op: fc.constant("later" as const), e: small, ms: fc.constantFrom(0, 5, 40, 3000) }) },
	{ weight: 3, arbitrary: tickArb() },
);

/** histories that start with one to three elements */
export const opsArb = (max: number): fc.Arbitrary<Op[]> =>
	fc
		.tuple(
			fc.array(
				fc.record({
					op: fc.constant("new" as const),
					c: small,
					how: fc.constantFrom("connected", "connected", "html", "create", "ctor"),
				}) as fc.Arbitrary<Op>,
				{ minLength: 1, maxLength: 3 },
			),
			fc.array(opArb, { minLength: 1, maxLength: max, size: "max" }),
		)
		.map(([a, b]) => [...a, ...b]);

/** the same operations over many elements, or many operations over a few */
export const bigArb = (one: fc.Arbitrary<Op> = opArb): fc.Arbitrary<Op[]> =>
	fc
		.oneof(
			fc.record({ count: fc.integer({ min: 15, max: 80 }), ops: fc.array(one, { minLength: 15, maxLength: 40, size: "max" }) }),
			fc.record({ count: fc.integer({ min: 2, max: 12 }), ops: fc.array(one, { minLength: 80, maxLength: 200, size: "max" }) }),
		)
		.map(({ count, ops }) => [
			...Array.from({ length: count }, (_, i): Op => ({ op: "new", c: i, how: i % 7 === 3 ? "create" : i % 5 === 2 ? "html" : "connected" })),
			// spread over all elements
			...ops.map((op, i): Op => ("e" in op ? { ...op, e: op.e * 13 + i * 7 } : op)),
		]);

export type El = {
	host: HTMLElement;
	comp: Component;
	core: Core;
	state: "fresh" | "on" | "off" | "dead";
	model: { m: Model };
	cell?: Cell;
	/** view and render count when it went off/dead */
	frozen?: { renders: number; html: string };
};

export type Setup = {
	sources: Array<{ kind: Kind; variant: number }>;
	cores: Array<{ source: number; style: CoreStyle; renderer: "ignite-jsx" | "lit"; cleanup?: boolean; strategy?: string }>;
	tags: number[]; // core index per tag
};

export class Game {
	sources: Source[];
	models: Array<{ m: Model }>;
	cores: Core[];
	comps: Array<{ comp: Component; core: Core; source: number }>;
	els: El[] = [];
	places: HTMLElement[];
	stats = { sends: 0, ignored: 0, reconnects: 0, effective: 0, multi: 0 };

	clock = new Clock();
	constructor(readonly setup: Setup) {
		this.clock.install();
		this.sources = setup.sources.map((s) => makeSource(s.kind, s.variant));
		this.models = this.sources.map(() => ({ m: initialModel() }));
		this.cores = setup.cores.map((c) => makeCore(this.sources[c.source % this.sources.length], c));
		this.comps = setup.tags.map((t) => {
			const i = t % this.cores.length;
			return {
				comp: defineComponent(this.cores[i]),
				core: this.cores[i],
				source: setup.cores[i].source % this.sources.length,
			};
		});
		this.places = [0, 1, 2].map(() => document.createElement("main"));
		// where an element is plays no part in what it shows
		this.places[1].setAttribute("aria-hidden", "true");
		this.places[1].setAttribute("inert", "");
		this.places[2].hidden = true;
		for (const p of this.places) document.body.append(p);
	}

	get connected() {
		return this.els.filter((e) => e.state === "on");
	}
	pick(i: number): El | undefined {
		return this.els.length ? this.els[i % this.els.length] : undefined;
	}
	placeLive(p: HTMLElement) {
		return p.isConnected;
	}

	private adopt(host: HTMLElement, ci: number): El {
		const { comp, core, source } = this.comps[ci];
		const src = this.sources[source];
		// nor does an attribute of its own
		if (this.els.length % 3 === 2) host.hidden = true;
		const el: El = {
			host,
			comp,
			core,
			state: "fresh",
			model: src.shared ? this.models[source] : { m: initialModel() },
			cell: src.shared ? src.cell : src.created.at(-1),
		};
		this.els.push(el);
		return el;
	}

	/** the model's view of connection changes, after a DOM operation */
	sync() {
		for (const el of this.els) {
			const now = el.host.isConnected;
			if (now && (el.state === "fresh" || el.state === "off")) {
				if (el.state === "off") this.stats.reconnects++;
				el.state = "on";
				el.frozen = undefined;
			} else if (!now && el.state === "on") {
				el.state = el.comp.source.shared ? "off" : "dead";
				this.freeze(el);
			}
		}
	}
	private freeze(el: El) {
		el.frozen = {
			renders: el.core.rec(el.host).renders,
			html: el.host.shadowRoot?.innerHTML ?? "",
		};
	}

	/** an operation, or the passing of time */
	async play(op: Op, atOnce = false): Promise<boolean> {
		if (op.op !== "tick") {
			const done = this.apply(op);
			// nothing has to wait
			if (atOnce) this.verifyViews(`at once after ${op.op}`);
			return done;
		}
		if (op.ms === 0) await microtasks();
		else await this.clock.advance(op.ms);
		return true;
	}

	apply(op: Op): boolean {
		switch (op.op) {
			case "tick":
				throw new Error("harness: a tick is asynchronous");
			case "later": {
				const el = this.pick(op.e);
				if (!el || el.state !== "on") return false;
				const src = el.comp.source;
				if (src.kind.startsWith("xstate")) {
					// the machine itself schedules the event
					const model = el.model;
					const r = el.core.rec(el.host);
					r.actor.send({ type: "LATER", ms: op.ms });
					setTimeout(() => {
						if (el.state !== "dead") model.m = step(model.m, { t: "inc" });
					}, op.ms);
				} else setTimeout(() => void this.apply({ op: "external", e: this.els.indexOf(el), acts: [{ t: "inc" }], batch: false }), op.ms);
				return true;
			}
			case "new": {
				const ci = op.c % this.comps.length;
				const { comp } = this.comps[ci];
				let host: HTMLElement;
				switch (op.how) {
					case "create":
						host = document.createElement(comp.tag);
						break;
					case "ctor":
						host = new (customElements.get(comp.tag) as any)();
						break;
					case "html": {
						const slot = document.createElement("div");
						this.places[op.c % 3].append(slot);
						slot.innerHTML = `<p><${comp.tag} id="same" class="same" name="same"></${comp.tag}></p>`;
						host = slot.querySelector(comp.tag) as HTMLElement;
						// not upgraded yet when the place is detached: upgraded on first connection
						if (!slot.isConnected) customElements.upgrade(slot);
						break;
					}
					case "clone": {
						// a copy of an element of the same component, wherever it is
						const like = this.els.find((e) => e.comp === comp)?.host ?? document.createElement(comp.tag);
						if (!this.els.some((e) => e.host === like)) this.adopt(like, ci);
						host = like.cloneNode(true) as HTMLElement;
						this.adopt(host, ci);
						this.places[op.c % 3].append(host);
						this.sync();
						return true;
					}
					case "template": {
						const template = document.createElement("template");
						template.innerHTML = `<p><${comp.tag}></${comp.tag}></p>`;
						const copy = document.importNode(template.content, true);
						host = copy.querySelector(comp.tag) as HTMLElement;
						this.adopt(host, ci);
						this.places[op.c % 3].append(copy);
						this.sync();
						return true;
					}
					case "fragment": {
						const frag = document.createDocumentFragment();
						host = document.createElement(comp.tag);
						frag.append(document.createElement("i"), host);
						this.adopt(host, ci);
						this.places[op.c % 3].append(frag);
						this.sync();
						return true;
					}
					case "connected":
						host = document.createElement(comp.tag);
						this.adopt(host, ci);
						this.places[op.c % 3].append(host);
						this.sync();
						return true;
				}
				this.adopt(host, ci);
				this.sync();
				return true;
			}
			case "connect": {
				const el = this.pick(op.e);
				if (!el || el.state === "dead") return false;
				// moving an isolated element shuts it down: that is removal, not connection
				if (el.state === "on" && !el.comp.source.shared) return false;
				this.places[op.at].append(el.host);
				this.sync();
				return true;
			}
			case "remove": {
				const el = this.pick(op.e);
				if (!el) return false;
				el.host.remove();
				this.sync();
				return true;
			}
			case "force": {
				const el = this.pick(op.e);
				if (!el) return false;
				(el.host as any).forceRender();
				return true;
			}
			case "hide":
				this.places[op.at].remove();
				this.sync();
				return true;
			case "show":
				if (this.places[op.at].isConnected) return false;
				// dead elements inside would be reconnected: leave those out
				for (const el of this.els) if (el.state === "dead") el.host.remove();
				document.body.append(this.places[op.at]);
				this.sync();
				return true;
			case "clear":
				for (const p of this.places) p.replaceChildren();
				this.sync();
				return true;
			case "send": {
				const el = this.pick(op.e);
				if (!el) return false;
				return this.send(el, op.via, op.acts);
			}
			case "external": {
				const el = this.pick(op.e);
				let cell: Cell | undefined;
				let model: { m: Model } | undefined;
				if (el) {
					cell = el.cell;
					model = el.model;
					if (el.state === "dead") return false;
				} else {
					// no element yet: a shared source can change all the same
					cell = this.sources[0].cell;
					model = this.models[0];
				}
				if (!cell?.external || !model) return false;
				if (this.sources.some((s) => s.kind === "xstate-actor" && s.cell === cell && !cell?.alive?.())) return false;
				if (op.batch && cell.batch) cell.batch(op.acts);
				else for (const a of op.acts) cell.external(a);
				for (const a of op.acts) model.m = step(model.m, a);
				this.stats.effective++;
				return true;
			}
		}
	}

	send(el: El, via: string, acts: Act[]): boolean {
		const r = el.core.rec(el.host);
		const src = el.comp.source;
		const live = el.state === "on";
		this.stats.sends++;
		switch (via) {
			case "render":
				if (!r.args) return false;
				// an event, or a DOM event that carries one
				for (const [i, a] of acts.entries())
					r.args.send((i + this.stats.sends) % 4 === 0 ? new CustomEvent("anything", { detail: src.event(a) }) : src.event(a));
				break;
			case "dom":
				// on the element itself, or on something it shows
				for (const [i, a] of acts.entries()) {
					const inner = (i + acts.length + this.stats.sends) % 3 === 0 ? el.host.shadowRoot?.querySelector("h1") : null;
					const all = (this.stats.sends + i) % 2 === 0;
					if (!inner && (i + this.stats.sends) % 5 === 0) {
						// from something the page put inside the element
						const child = el.host.appendChild(document.createElement("em"));
						child.dispatchEvent(new CustomEvent("send", { detail: src.event(a), bubbles: true }));
						child.remove();
						continue;
					}
					(inner ?? el.host).dispatchEvent(new CustomEvent("send", { detail: src.event(a), bubbles: Boolean(inner) || all, composed: Boolean(inner) || all, cancelable: all }));
				}
				break;
			case "click": {
				acts = [{ t: "inc" }];
				const b = el.host.shadowRoot?.querySelector("button");
				if (!b) return false;
				b.click();
				break;
			}
			// commands act on the source, so they are only used while connected
			case "command":
				if (!live) return false;
				for (const a of acts) r.args.act(a);
				break;
			case "burst":
				if (!live) return false;
				r.args.burst(acts);
				break;
			case "shout": {
				// a listener outside the element reacts to its event by sending to it
				if (!live) return false;
				const on = (event: any) => {
					for (const a of event.detail) r.args.send(src.event(a));
				};
				el.host.parentNode?.addEventListener("shout", on);
				r.args.shout(acts);
				el.host.parentNode?.removeEventListener("shout", on);
				break;
			}
		}
		if (live) {
			for (const a of acts) el.model.m = step(el.model.m, a);
			this.stats.effective++;
		} else this.stats.ignored++;
		return true;
	}

	/** every connected element shows the current state of its source */
	verifyViews(where: string) {
		for (const [i, el] of this.els.entries()) {
			if (el.state !== "on") continue;
			const want = expectedView(el.model.m);
			const got = shown(el.host);
			ensure(
				got === want,
				() => `${where}: element ${i} (${el.comp.source.kind}, ${el.comp.renderer}) shows ${got}, its source is at ${want}`,
			);
			const r = el.core.rec(el.host);
			const seen = expectedView((el.comp.source.stateOf ?? el.comp.source.modelOf)(r.args.state));
			ensure(seen === want, () => `${where}: element ${i} was last rendered with state ${seen}, its source is at ${want}`);
			const held = expectedView((el.comp.source.stateOf ?? el.comp.source.modelOf)((el.host as any).currentState));
			ensure(held === want, () => `${where}: element ${i} gives ${held} as its current state, its source is at ${want}`);
		}
		if (this.connected.length > 1) this.stats.multi++;
	}
	verifyErrors(where: string) {
		ensure(asyncErrors.length + this.clock.errors.length === 0, () => {
			const e = (asyncErrors[0] ?? this.clock.errors[0]) as any;
			return `${where}: an error was thrown asynchronously: ${String(e?.stack ?? e)}`;
		});
		ensure(windowErrors.length === 0, () => `${where}: an error was reported: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
	}
	/** disconnected elements neither render nor change */
	verifyFrozen(where: string) {
		for (const [i, el] of this.els.entries()) {
			if (!el.frozen || el.state === "on") continue;
			const r = el.core.rec(el.host);
			ensure(r.renders === el.frozen.renders, () => `${where}: element ${i} (${el.comp.source.kind}) rendered while disconnected`);
			ensure(
				(el.host.shadowRoot?.innerHTML ?? "") === el.frozen.html,
				() => `${where}: the content of disconnected element ${i} changed`,
			);
		}
	}
	/** subscriptions held on user sources, owned actors running */
	verifyResources(where: string) {
		for (const [i, src] of this.sources.entries()) {
			const mine = this.els.filter((e) => this.comps.some((x) => x.comp === e.comp && x.source === i));
			const holding = mine.filter((e) => e.state === "on" || e.state === "fresh").length;
			if (src.shared) {
				const n = src.cell?.observers?.() ?? 0;
				ensure(n <= holding, () => `${where}: ${n} subscriptions on the ${src.kind} for ${holding} live elements`);
				ensure(src.cell?.alive?.() !== false || !mine.length, () => `${where}: the user's ${src.kind} was stopped`);
			} else {
				for (const e of mine) {
					const n = e.cell?.observers?.() ?? 0;
					const max = e.state === "dead" ? 0 : 1;
					ensure(n <= max, () => `${where}: ${n} subscriptions on the ${src.kind} source of a ${e.state} element`);
				}
				if (src.kind === "xstate-machine")
					ensure(src.running() === holding, () => `${where}: ${src.running()} machine instances running for ${holding} live elements`);
				if (src.kind === "custom-isolated") {
					const stopped = src.adapters.filter((a) => a.stops > 0).length;
					const dead = mine.filter((e) => e.state === "dead").length;
					ensure(stopped === dead, () => `${where}: ${stopped} adapters stopped for ${dead} removed elements`);
				}
			}
			for (const a of src.adapters) {
				ensure(a.sendsAfterStop === 0, () => `${where}: an event was sent to a stopped adapter`);
				ensure(a.stops <= 1, () => `${where}: an adapter was stopped ${a.stops} times`);
			}
		}
	}
	/** the user's shared sources hold exactly what was sent to them */
	verifySources(where: string) {
		for (const [i, src] of this.sources.entries()) {
			if (!src.cell?.state) continue;
			if (src.kind === "xstate-actor" && this.comps.length === 0) continue;
			const got = expectedView(src.cell.state());
			const want = expectedView(this.models[i].m);
			ensure(got === want, () => `${where}: the user's ${src.kind} is at ${got}, expected ${want}`);
			ensure(src.cell.alive?.() !== false, () => `${where}: the user's ${src.kind} was stopped`);
		}
	}
	/** a removed isolated element's own state no longer moves */
	verifyDead(where: string) {
		for (const el of this.els) {
			if (el.state !== "dead") continue;
			const r = el.core.rec(el.host);
			if (!r.actor) continue;
			const seen = expectedView(el.comp.source.read(r.actor));
			ensure(seen === expectedView(el.model.m), () => `${where}: the source of a removed ${el.comp.source.kind} element went to ${seen}`);
		}
	}
	dispose() {
		this.clock.uninstall();
		for (const p of this.places) p.remove();
		for (const el of this.els) el.host.remove();
	}
}

export const styleArb = fc.constantFrom<CoreStyle>("entry", "inferred", "explicit");
export const rendererArb = fc.constantFrom<"ignite-jsx" | "lit">("ignite-jsx", "ignite-jsx", "lit");
