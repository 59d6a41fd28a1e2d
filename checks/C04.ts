import { resetDom, windowErrors } from "../lib/dom";
import { Fragment, jsx, jsxs } from "repo:jsx/index";
import { createIgniteJsxRenderStrategy } from "repo:renderers/ignite-jsx";
import { defineIgniteConfig } from "repo:index";
import { ensure, fc, runCheck } from "../lib/runner";
import { contentOf, newShadow } from "../lib/jsxdom";

/** handler prop -> event it listens to */
const NAMES: Record<string, string> = {
	onClick: "click",
	onclick: "click",
	onInput: "input",
	onChange: "change",
	onFocus: "focus",
	onBlur: "blur",
	onKeyDown: "key-down",
	onkeydown: "keydown",
	onScroll: "scroll",
	onError: "error",
	onSubmit: "submit",
	onToggled: "toggled",
	ontoggled: "toggled",
	onCheckoutSubmitted: "checkout-submitted",
	"oncheckout-submitted": "checkout-submitted",
	"on-checkout-submitted": "checkout-submitted",
	onItem_added: "item-added",
	onHTMLLoaded: "html-loaded",
	onStep2Done: "step2-done",
	onXChanged: "x-changed",
	onURL: "url",
	onXMLReadHTMLDone: "xml-read-html-done",
	onFoo_Bar_baz: "foo-bar-baz",
	onWheel: "wheel",
	ontouchstart: "touchstart",
	onMouseenter: "mouseenter",
	onLoad: "load",
};
const KEYS = Object.keys(NAMES);
const EVENTS = [...new Set(Object.values(NAMES))];

type H = number | null | undefined | false | "str";
type El = { tag: string; on: Record<string, H>; kids: El[]; text?: string };

const handlerArb: fc.Arbitrary<H> = fc.oneof(
	{ weight: 6, arbitrary: fc.nat({ max: 4 }) as fc.Arbitrary<H> },
	{ weight: 1, arbitrary: fc.constantFrom<H>(null, undefined, false, "str") },
);

const onOf = (minLength: number, maxLength: number) =>
	fc
		.uniqueArray(fc.tuple(fc.constantFrom(...KEYS), handlerArb), {
			minLength,
			maxLength,
			size: "max",
			selector: ([k]) => NAMES[k],
		})
		.map((l) => Object.fromEntries(l) as Record<string, H>);
const onArb = fc.oneof({ weight: 30, arbitrary: onOf(0, 4) }, { weight: 1, arbitrary: onOf(15, 22) });

const TAGS = ["div", "button", "x-child", "svg", "span"];
const elArb = (depth: number): fc.Arbitrary<El> =>
	fc.record({
		tag: fc.constantFrom(...TAGS),
		on: onArb,
		kids: depth > 0 ? fc.array(elArb(depth - 1), { maxLength: 3 }) : fc.constant([]),
		text: fc.option(fc.constantFrom("a", "b"), { nil: undefined }),
	});

/** successor: same shape with other handlers, or another tree */
type Step = { fresh: El } | { re: Array<Record<string, H> | null>; append?: El };
const stepArb: fc.Arbitrary<Step> = fc.oneof(
	{ weight: 1, arbitrary: elArb(2).map((fresh) => ({ fresh })) },
	{
		weight: 5,
		arbitrary: fc.record({
			re: fc.array(fc.option(onArb, { nil: null, freq: 2 }), { minLength: 1, maxLength: 6 }),
			append: fc.option(elArb(1), { nil: undefined, freq: 4 }),
		}),
	},
);
function apply(prev: El, s: Step): El {
	if ("fresh" in s) return s.fresh;
	let i = 0;
	const walk = (e: El): El => {
		const r = s.re[i++ % s.re.length];
		return { ...e, on: r ?? e.on, kids: e.kids.map(walk) };
	};
	const out = walk(prev);
	return s.append ? { ...out, kids: [...out.kids, s.append] } : out;
}

runCheck(
	"C04",
	{
		level: "exploration",
		rule: "histories of 2-6 element trees whose handler props are added, swapped, shared, nulled or removed, in diff and replace mode; after every render every event is dispatched at every element; non-trivial: some handler prop changed between two renders",
		assumptions: [
			"no element declares two props for the same event",
			"multi-word native events (e.g. onKeyDown) are outside the generated names",
		],
	},
	async (check) => {
		await check.prop(
			"current handler exactly once",
			fc.record({
				first: elArb(2),
				steps: fc.array(stepArb, { minLength: 1, maxLength: 5 }),
				replace: fc.boolean(),
			}),
			{ quick: 2500, thorough: 50000, before: resetDom },
			({ first, steps, replace }, c) => {
				defineIgniteConfig({ strategy: replace ? "replace" : "diff" });
				const calls: Array<{ id: number; type: string; target: EventTarget | null; event: Event }> = [];
				const handlers = Array.from({ length: 5 }, (_, id) => (event: Event) => {
					calls.push({ id, type: event.type, target: event.currentTarget, event });
					if (id % 2) event.preventDefault();
				});
				const toView = (e: El): any => {
					const props: Record<string, unknown> = {};
					for (const [k, h] of Object.entries(e.on)) props[k] = typeof h === "number" ? handlers[h] : h;
					const kids = [...(e.text ? [e.text] : []), ...e.kids.map(toView)];
					return kids.length > 1
						? jsxs(e.tag, { ...props, children: kids })
						: jsx(e.tag, { ...props, children: kids[0] });
				};
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				let tree = first;
				let previous: Element[] = [];
				const verify = (step: number) => {
					const els: Element[] = [];
					const collect = (n: Element) => {
						for (const child of Array.from(n.children)) {
							els.push(child);
							collect(child);
						}
					};
					collect(contentOf(shadow));
					const specs: Array<{ e: El; parents: number[] }> = [];
					const flat = (e: El, parents: number[]) => {
						const me = specs.length;
						specs.push({ e, parents });
						for (const k of e.kids) flat(k, [me, ...parents]);
					};
					flat(tree, []);
					ensure(specs.length === els.length, `rendered ${els.length} elements for ${specs.length}`);
					const current = (i: number, type: string): number | null => {
						for (const [k, h] of Object.entries(specs[i].e.on))
							if (NAMES[k] === type && typeof h === "number") return h;
						return null;
					};
					for (let i = 0; i < els.length; i++) {
						for (const type of EVENTS) {
							for (const bubbles of [false, true]) {
								calls.length = 0;
								const ev = new CustomEvent(type, { bubbles, cancelable: true, detail: { i } });
								els[i].dispatchEvent(ev);
								const expected: Array<[number, Element]> = [];
								for (const at of bubbles ? [i, ...specs[i].parents] : [i]) {
									const h = current(at, type);
									if (h !== null) expected.push([h, els[at]]);
								}
								ensure(
									calls.length === expected.length,
									() => `render ${step}: "${type}" at element ${i} (bubbles=${bubbles}) ran handlers [${calls.map((x) => x.id)}], expected [${expected.map((x) => x[0])}]`,
								);
								ensure(ev.defaultPrevented === expected.some(([h]) => h % 2 === 1), () => `render ${step}: "${type}" at element ${i}: what the handlers decided about the default action was lost`);
								calls.forEach((call, n) => {
									ensure(
										call.id === expected[n][0] && call.target === expected[n][1] && call.event === ev,
										() => `render ${step}: "${type}" at element ${i} ran handler ${call.id}, expected ${expected[n][0]}`,
									);
								});
							}
						}
					}
					previous = els;
				};
				strategy.render(toView(tree));
				verify(0);
				let changed = false;
				steps.forEach((s, n) => {
					const next = apply(tree, s);
					if (JSON.stringify(next) !== JSON.stringify(tree)) changed = true;
					tree = next;
					strategy.render(toView(tree));
					verify(n + 1);
				});
				void previous;
				ensure(windowErrors.length === 0, () => `error during dispatch: ${windowErrors[0]}`);
				if (changed) c.nontrivial();
				c.label(replace ? "replace" : "diff");
			},
		);

		await check.prop(
			"rerender from within a handler",
			fc.record({
				clicks: fc.integer({ min: 1, max: 6 }),
				fresh: fc.boolean(),
				nested: fc.boolean(),
				replace: fc.boolean(),
			}),
			{ quick: 150, thorough: 1000, before: resetDom },
			({ clicks, fresh, nested, replace }, c) => {
				defineIgniteConfig({ strategy: replace ? "replace" : "diff" });
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				let count = 0;
				let outer = 0;
				const stable = () => {
					count++;
					draw();
				};
				const draw = () => {
					const onClick = fresh
						? () => {
								count++;
								draw();
							}
						: stable;
					const button = jsx("button", { onClick, children: count });
					strategy.render(nested ? jsx("div", { onClick: () => outer++, children: button }) : jsxs(Fragment, { children: [button] }));
				};
				draw();
				for (let i = 1; i <= clicks; i++) {
					const b = contentOf(shadow).querySelector("button") as HTMLButtonElement;
					b.dispatchEvent(new Event("click", { bubbles: true }));
					ensure(count === i, () => `after ${i} clicks the handler ran ${count} times`);
					const now = contentOf(shadow).querySelector("button") as HTMLButtonElement;
					ensure(now.textContent === String(i), () => `after ${i} clicks the view shows ${now.textContent}`);
				}
				void outer;
				c.nontrivial();
			},
		);

		// A list whose items each have handlers made for that item in that render.
		await check.prop(
			"lists of items with handlers",
			fc.record({
				size: fc.oneof({ weight: 5, arbitrary: fc.nat({ max: 6 }) }, { weight: 1, arbitrary: fc.integer({ min: 20, max: 150 }) }),
				keyed: fc.boolean(),
				replace: fc.constantFrom(false, false, false, true),
				wrap: fc.constantFrom("plain", "div", "fragment", "component"),
				steps: fc.array(
					fc.record({
						op: fc.constantFrom("same", "append", "prepend", "remove", "swap", "reverse", "toggle", "mute", "clear"),
						at: fc.nat({ max: 149 }),
						by: fc.integer({ min: 1, max: 3 }),
					}),
					{ minLength: 1, maxLength: 6 },
				),
			}),
			{ quick: 900, thorough: 20000, before: resetDom },
			({ size, keyed, replace, wrap, steps }, c) => {
				defineIgniteConfig({ strategy: replace ? "replace" : "diff" });
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				type Item = { id: number; on: boolean; both: boolean };
				let nextId = 0;
				const item = (): Item => ({ id: nextId++, on: nextId % 4 !== 3, both: nextId % 3 === 0 });
				let list = Array.from({ length: size }, item);
				let calls: string[] = [];
				const draw = (n: number) => {
					const one = (x: Item) => {
						const props: Record<string, unknown> = { title: `i${x.id}`, children: `item ${x.id}` };
						if (x.on) props.onClick = () => calls.push(`click ${x.id}@${n}`);
						if (x.both) props.onItemPicked = () => calls.push(`picked ${x.id}@${n}`);
						const Item = (p: any) => jsx("button", p);
						const button = wrap === "component" ? jsx(Item, props, keyed ? x.id : undefined) : jsx("button", props, keyed ? x.id : undefined);
						return wrap === "div" ? jsx("div", { children: button }, keyed ? x.id : undefined) : button;
					};
					strategy.render(wrap === "fragment" ? jsxs(Fragment, { children: [jsx("i", {}), list.map(one)] }) : jsx("ul", { children: list.map(one) }));
					const buttons = [...contentOf(shadow).querySelectorAll("button")];
					ensure(buttons.length === list.length, () => `render ${n}: ${buttons.length} buttons for ${list.length} items`);
					buttons.forEach((b, i) => {
						const x = list[i];
						calls = [];
						b.click();
						b.dispatchEvent(new CustomEvent("item-picked"));
						const want = [...(x.on ? [`click ${x.id}@${n}`] : []), ...(x.both ? [`picked ${x.id}@${n}`] : [])];
						ensure(calls.join() === want.join(), () => `render ${n}: item ${i} of ${list.length} (id ${x.id}) ran [${calls}], expected [${want}]`);
					});
				};
				draw(0);
				steps.forEach((st, k) => {
					const at = list.length ? st.at % list.length : 0;
					list = [...list];
					switch (st.op) {
						case "append":
							for (let j = 0; j < st.by; j++) list.push(item());
							break;
						case "prepend":
							list.unshift(item());
							break;
						case "remove":
							list.splice(at, st.by);
							break;
						case "swap":
							if (list.length) [list[0], list[at]] = [list[at], list[0]];
							break;
						case "reverse":
							list.reverse();
							break;
						case "toggle":
							list = list.map((x, i) => (i % st.by === at % st.by ? { ...x, on: !x.on } : x));
							break;
						case "mute":
							list = list.map((x) => ({ ...x, on: false, both: false }));
							break;
						case "clear":
							list = [];
					}
					draw(k + 1);
				});
				ensure(windowErrors.length === 0, () => `error during dispatch: ${windowErrors[0]}`);
				if (size + list.length > 1) c.nontrivial();
			},
		);
	},
);
