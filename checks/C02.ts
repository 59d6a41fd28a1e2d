import { resetDom } from "../lib/dom";
import { Fragment, jsx, jsxs } from "repo:jsx/index";
import { defineIgniteConfig } from "repo:index";
import {
	clearNoDiffDenylistForTests,
	createIgniteJsxRenderStrategy,
	registerNoDiffDenylistTag,
} from "repo:renderers/jsx/IgniteJsxRenderStrategy";
import { ensure, fc, runCheck, show } from "../lib/runner";
import {
	childrenArb,
	countElements,
	diffSnaps,
	expectedSnaps,
	propsArb,
	propTable,
	realTag,
	type PropSpec,
	type Spec,
	snapChildren,
	specArb,
	toJsx,
	viewArb,
} from "../lib/jsxgen";
import { contentOf, defineProbe, newShadow } from "../lib/jsxdom";

defineProbe();
const api = { jsx, jsxs, Fragment };

/* An edit script applied by walking the tree: numbers are consumed in order. */
type Edits = { texts: boolean[]; empties: boolean; length: number; props: Array<{ on: boolean; pick: number; val: number; drop: boolean }>; appends: Array<Spec[] | null> };
const editsArb: fc.Arbitrary<Edits> = fc.record({
	texts: fc.array(fc.boolean(), { minLength: 1, maxLength: 8 }),
	/** some of the texts become empty */
	empties: fc.boolean(),
	length: fc.constantFrom(0, 0, 0, 0, 100, 1200, 9000),
	props: fc.array(
		fc.record({ on: fc.boolean(), pick: fc.nat({ max: 40 }), val: fc.nat({ max: 79 }), drop: fc.boolean() }),
		{ minLength: 1, maxLength: 6 },
	),
	appends: fc.array(
		fc.option(fc.array(specArb(1), { minLength: 1, maxLength: 2 }), { nil: null, freq: 3 }),
		{ minLength: 1, maxLength: 5 },
	),
});

const poolCache = new Map<string, unknown[]>();
function pool(tag: string, svg: boolean, name: string): unknown[] {
	const key = `${svg ? "svg" : tag}/${name}`;
	let v = poolCache.get(key);
	if (!v) {
		v = fc.sample(propTable(tag, svg)[name].arb, { seed: 3, numRuns: 80 });
		poolCache.set(key, v);
	}
	return v;
}

const NO_KIDS = new Set(["input", "input:checkbox", "img", "textarea", "progress", "select"]);

/** Same shape, possibly with children added at the end of element (or root) lists. */
function stableSuccessor(view: Spec, e: Edits, step: number): Spec {
	let t = 0;
	let p = 0;
	let a = 0;
	let unique = 0;
	const walk = (s: Spec, svg: boolean): Spec => {
		switch (s.k) {
			case "text":
				return e.texts[t++ % e.texts.length] ? { k: "text", v: e.empties && (unique + step) % 3 === 0 && ++unique ? "" : `new-${step}-${unique++}`.padEnd(e.length, " lorem ipsum") } : s;
			case "empty":
			case "unknown":
				return s;
			case "arr":
			case "frag":
			case "comp":
				return { ...s, c: s.c.map((c) => walk(c, svg)) };
			case "el": {
				const isSvg = svg || s.tag === "svg";
				if (s.tag === "option") return s;
				const edit = e.props[p++ % e.props.length];
				if (s.tag === "select") {
					if (!edit.on) return s;
					const rest = s.props.filter((q) => q.n !== "disabled");
					return { ...s, props: rest.length === s.props.length ? [...rest, { n: "disabled", v: true }] : rest };
				}
				let props: PropSpec[] = [...s.props];
				if (edit.on) {
					if (edit.drop && props.length) props.splice(edit.pick % props.length, 1);
					else {
						const names = Object.keys(propTable(s.tag, isSvg));
						const n = names[edit.pick % names.length];
						const values = pool(s.tag, isSvg, n);
						props = props.filter((q) => q.n !== n && !(isClass(q.n) && isClass(n)));
						props.push({ n, v: values[edit.val % values.length] });
						if (edit.pick % 11 === 0) {
							// and a lot of others
							props = props.filter((q) => !/^data-w\d/.test(q.n));
							props.push(...Array.from({ length: edit.val * 3 }, (_, i) => ({ n: `data-w${i}`, v: String((i * edit.val + step) % 5) })));
						}
					}
				}
				const c = s.c.map((x) => walk(x, isSvg && s.tag !== "foreignObject"));
				const extra = e.appends[a++ % e.appends.length];
				if (extra && !isSvg && !NO_KIDS.has(s.tag)) c.push(...extra);
				// keys play no part: the place and the type decide
				const key = edit.on ? [s.key, undefined, "k9", step][edit.val % 4] : s.key;
				return { ...s, props, c, key };
			}
		}
	};
	return walk(view, false);
}
const isClass = (n: string) => n === "class" || n === "className";

/** selects the end of every text */
function selectTexts(root: Element) {
	const out: Array<{ range: Range; text: Text; value: string; from: number }> = [];
	const walk = document.createTreeWalker(root, NodeFilter.SHOW_TEXT);
	for (let n = walk.nextNode() as Text | null; n; n = walk.nextNode() as Text | null) {
		if (!n.data || (n.parentNode as Element).localName === "option") continue;
		const range = document.createRange();
		const from = n.data.length >> 1;
		range.setStart(n, from);
		range.setEnd(n, n.data.length);
		out.push({ range, text: n, value: n.data, from });
	}
	return out;
}

type Pos = { node: Node; path: string };
function positions(root: Node): Pos[] {
	const out: Pos[] = [];
	const go = (n: Node, path: string) => {
		Array.from(n.childNodes).forEach((child, i) => {
			const here = `${path}/${i}<${child.nodeName.toLowerCase()}>`;
			if (child.nodeType !== 8) out.push({ node: child, path: here });
			go(child, here);
		});
	};
	go(root, "");
	return out;
}
const allNodes = (root: Node) => new Set(positions(root).map((p) => p.node));

function textControls(root: Element): Array<HTMLInputElement | HTMLTextAreaElement> {
	return Array.from(root.querySelectorAll("input,textarea")).filter(
		(e) => (e as HTMLInputElement).type !== "checkbox",
	) as HTMLInputElement[];
}

/** In DOM order, does the view declare a value for each text control? */
function declaredValues(s: Spec): boolean[] {
	switch (s.k) {
		case "el": {
			const own =
				s.tag === "input" || s.tag === "textarea"
					? [s.props.some((p) => p.n === "value")]
					: [];
			return [...own, ...s.c.flatMap(declaredValues)];
		}
		case "arr":
		case "frag":
		case "comp":
			return s.c.flatMap(declaredValues);
		default:
			return [];
	}
}

/** In DOM order: can the user's choice in each checkbox and select be lost to the view? */
function declaredChoices(s: Spec): boolean[] {
	switch (s.k) {
		case "el": {
			const own =
				s.tag === "select" || s.tag === "input:checkbox"
					? [s.props.some((p) => p.n === "value" || p.n === "checked")]
					: [];
			return [...own, ...s.c.flatMap(declaredChoices)];
		}
		case "arr":
		case "frag":
		case "comp":
			return s.c.flatMap(declaredChoices);
		default:
			return [];
	}
}

type Choice = { el: Element; state: () => string };
/** The user flips every free checkbox and picks the last option of every free select. */
function choose(root: Element, current: Spec, next: Spec): Choice[] {
	const els = Array.from(root.querySelectorAll("select,input[type=checkbox]"));
	const a = declaredChoices(current);
	const b = declaredChoices(next);
	if (a.length !== b.length || a.length !== els.length) return [];
	return els.flatMap((el, i): Choice[] => {
		if (a[i] || b[i]) return [];
		if (el.localName === "select") {
			const s = el as HTMLSelectElement;
			if (s.options.length) s.selectedIndex = s.options.length - 1;
			return [{ el, state: () => `option ${s.selectedIndex}` }];
		}
		const box = el as HTMLInputElement;
		box.checked = !box.checked;
		return [{ el, state: () => `checked ${box.checked}` }];
	});
}

const caretOf = (el: HTMLInputElement) => `${el.selectionStart}-${el.selectionEnd}`;
/** the user puts the caret somewhere in the text, or selects some of it */
function setCaret(el: HTMLInputElement, step: number) {
	if (el.selectionStart === null || !el.value) return null;
	const start = step % el.value.length;
	el.setSelectionRange(start, Math.min(el.value.length, start + (step % 3)));
	return { at: caretOf(el), value: el.value, type: el.type };
}

runCheck(
	"C02",
	{
		level: "exploration",
		rule: "a generated view followed by 1-4 shape-preserving successors (text changed to fresh text, props changed/removed, children appended at the end of lists), rendered in diff mode with user edits, choices and focus in between; and the same histories in every replace mode; non-trivial: the view has an element and some successor differs",
		assumptions: [
			"jsdom implements the DOM",
			"a sibling list that is a permutation of the previous one may be rebuilt (documented append-only guard), so changed texts are fresh",
		],
	},
	async (check) => {
		const reset = () => {
			resetDom();
			delete process.env.IGNITE_DIFF_ENABLED;
			clearNoDiffDenylistForTests();
			defineIgniteConfig({});
		};
		await check.prop(
			"diff keeps nodes and user state",
			fc.record({
				view: viewArb,
				edits: fc.array(editsArb, { minLength: 1, maxLength: 4 }),
				focus: fc.nat({ max: 10 }),
				flag: fc.constantFrom(undefined, undefined, "true", "1", ""),
				config: fc.constantFrom<any>({}, { strategy: "diff" }, { strategy: undefined }, { logging: "off" }),
				rootAppend: fc.array(specArb(1), { maxLength: 2 }),
				around: fc.constantFrom(null, null, "data-ignite-nodiff", "data-ignite-hydrated"),
			}),
			{ quick: 3500, thorough: 70000, before: reset },
			({ view, edits, focus, flag, config, rootAppend, around }, c) => {
				defineIgniteConfig(config);
				if (flag !== undefined) process.env.IGNITE_DIFF_ENABLED = flag;
				const shadow = newShadow("div", true);
				if (around) {
					// only the host's own attributes ask for replacing
					const outer = document.createElement("section");
					outer.setAttribute(around, "");
					shadow.host.replaceWith(outer);
					outer.append(shadow.host);
				}
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const content = contentOf(shadow);
				const watch = new MutationObserver(() => {});
				watch.observe(content, { childList: true, subtree: true });
				let current = view;
				strategy.render(toJsx(api, current));
				let changed = false;
				edits.forEach((e, step) => {
					let next = stableSuccessor(current, e, step);
					if (step === edits.length - 1 && rootAppend.length && next.k === "arr")
						next = { ...next, c: [...next.c, ...rootAppend] };
					if (fc.stringify(next) !== fc.stringify(current)) changed = true;
					const before = positions(content);
					// the user edits controls the views leave alone
					const controls = textControls(content);
					const free = controls.map(
						(_, i) => !declaredValues(current)[i] && !declaredValues(next)[i],
					);
					const typed = controls.filter((_, i) => free[i]);
					// appended lists may add controls at the end of nested lists; only trust
					// positions when the number of controls is unchanged
					const trust = declaredValues(next).length === declaredValues(current).length;
					if (trust) typed.forEach((el, i) => { el.value = `typed-${step}-${i}`; });
					const chosen = choose(content, current, next).map((ch) => ({ ...ch, was: ch.state() }));
					const focusable = controls.filter((el) => !el.disabled && !(el as HTMLElement).hidden);
					let focused: Element | null = null;
					if (focusable.length) {
						const target = focusable[focus % focusable.length];
						target.focus();
						focused = shadow.activeElement === target ? target : null;
					}
					const caret = focused && setCaret(focused as HTMLInputElement, step);
					watch.takeRecords();
					const selected = selectTexts(content);
					strategy.render(toJsx(api, next));
					for (const { range, text, value, from } of selected)
						if (text.data === value && text.isConnected)
							ensure(range.startContainer === text && range.startOffset === from && range.endOffset === value.length, () => `step ${step}: the selection in the unchanged text ${show(value)} went from ${from}-${value.length} to ${range.startOffset}-${range.endOffset}`);
					const kept = new Set(before.map((p) => p.node));
					for (const record of watch.takeRecords())
						for (const gone of Array.from(record.removedNodes))
							ensure(!kept.has(gone), () => `step ${step}: <${gone.nodeName.toLowerCase()}> was taken out of the document although the view kept its shape`);
					const after = new Map(positions(content).map((p) => [p.path, p.node]));
					for (const { node, path } of before) {
						ensure(
							after.get(path) === node,
							() => `step ${step}: ${path} was recreated or moved although the view kept its shape`,
						);
					}
					if (trust)
						typed.forEach((el, i) =>
							ensure(el.value === `typed-${step}-${i}`, () => `step ${step}: user text lost: ${el.value}`),
						);
					for (const ch of chosen)
						ensure(ch.state() === ch.was, () => `step ${step}: the user's choice ${ch.was} became ${ch.state()}`);
					if (chosen.length) c.label("chosen");
					if (focused && !(focused as HTMLInputElement).disabled)
						ensure(shadow.activeElement === focused, `step ${step}: focus lost`);
					const field = focused as HTMLInputElement | null;
					if (field && caret && field.value === caret.value && field.type === caret.type) {
						ensure(caretOf(field) === caret.at, () => `step ${step}: the caret went from ${caret.at} to ${caretOf(field)}`);
						c.label("caret");
					}
					if (focused) c.label("focus");
					if (trust && typed.length) c.label("typed");
					current = next;
				});
				watch.disconnect();
				if (!edits.length || !changed || countElements(view) === 0) return;
				c.nontrivial();
			},
		);

		await check.prop(
			"composition is not clobbered",
			fc.record({
				tag: fc.constantFrom("input", "textarea"),
				values: fc.array(fc.constantFrom("a", "b", "ab", "", "xyz"), { minLength: 2, maxLength: 6 }),
				composing: fc.array(fc.boolean(), { minLength: 6, maxLength: 6 }),
			}),
			{ quick: 500, thorough: 8000, before: reset },
			({ tag, values, composing }, c) => {
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const view = (v: string, i: number) => jsx(tag, { value: v, title: `t${i}` });
				strategy.render(view(values[0], 0));
				const el = contentOf(shadow).firstChild as HTMLInputElement & { isComposing?: boolean };
				ensure(el.value === values[0], "initial value not shown");
				for (let i = 1; i < values.length; i++) {
					el.isComposing = composing[i];
					if (composing[i]) el.value = `ime-${i}`;
					const before = el.value;
					strategy.render(view(values[i], i));
					ensure(contentOf(shadow).firstChild === el, "control recreated");
					if (composing[i]) {
						ensure(el.value === before, `text being composed was overwritten with ${el.value}`);
						c.nontrivial();
					} else if (values[i] !== values[i - 1]) {
						ensure(el.value === values[i], `value ${values[i]} not applied, shows ${el.value}`);
					}
					ensure(el.title === `t${i}`, "other props not applied while composing");
				}
			},
		);

		// The user types into a field whose value the view declares: each edit comes back
		// as the declared value of the next view.
		await check.prop(
			"typing into a declared value",
			fc.record({
				tag: fc.constantFrom("input", "textarea"),
				depth: fc.nat({ max: 3 }),
				edits: fc.array(
					fc.record({ at: fc.nat({ max: 12 }), del: fc.nat({ max: 2 }), text: fc.constantFrom("", "a", "B", " ", "é", "xyz", "0") }),
					{ minLength: 1, maxLength: 8 },
				),
				siblings: fc.boolean(),
			}),
			{ quick: 500, thorough: 8000, before: reset },
			({ tag, depth, edits, siblings }, c) => {
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				let value = "start";
				const draw = (n: number) => {
					let view: any = jsx(tag, { value, title: `t${n}` });
					if (siblings) view = jsxs("label", { children: [`typed ${value.length} in ${n}`, view, jsx("i", { children: value })] });
					for (let i = 0; i < depth; i++) view = jsx("div", { className: `c${n}`, children: view });
					strategy.render(view);
				};
				draw(0);
				const el = contentOf(shadow).querySelector(tag) as HTMLInputElement;
				el.focus();
				edits.forEach((e, n) => {
					const at = Math.min(e.at, value.length);
					value = value.slice(0, at) + e.text + value.slice(at + e.del);
					el.value = value;
					const caret = at + e.text.length;
					el.setSelectionRange(caret, caret);
					draw(n + 1);
					ensure(contentOf(shadow).querySelector(tag) === el, () => `edit ${n}: the field was recreated`);
					ensure(shadow.activeElement === el, () => `edit ${n}: focus lost`);
					ensure(el.value === value, () => `edit ${n}: the field shows ${show(el.value)}, typed was ${show(value)}`);
					ensure(caretOf(el) === `${caret}-${caret}`, () => `edit ${n}: the caret went from ${caret} to ${caretOf(el)}`);
				});
				c.nontrivial();
			},
		);

		const MODES = ["config", "env", "nodiff", "hydrated", "nodiff-late", "hydrated-late", "denylist", "denylist-case", "all"] as const;
		await check.prop(
			"replace modes rebuild",
			fc.record({
				mode: fc.constantFrom(...MODES),
				view: viewArb,
				edits: fc.array(editsArb, { minLength: 1, maxLength: 3 }),
				same: fc.boolean(),
				value: fc.constantFrom("", "", "true", "1", "data-ignite-nodiff"),
			}),
			{ quick: 1500, thorough: 30000, before: reset },
			({ mode, view, edits, same, value }, c) => {
				if (mode === "config" || mode === "all") defineIgniteConfig({ strategy: "replace" });
				if (mode === "env" || mode === "all") process.env.IGNITE_DIFF_ENABLED = "false";
				if (mode === "denylist" || mode === "all") registerNoDiffDenylistTag("x-verif-deny-host");
				if (mode === "denylist-case") registerNoDiffDenylistTag("X-Verif-Deny-HOST");
				const host = document.createElement(mode.startsWith("denylist") || mode === "all" ? "x-verif-deny-host" : "section");
				if (mode === "nodiff" || mode === "all") host.setAttribute("data-ignite-nodiff", value);
				if (mode === "hydrated") host.setAttribute("data-ignite-hydrated", value);
				const shadow = host.attachShadow({ mode: "open" });
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				if (mode === "nodiff-late") host.setAttribute("data-ignite-nodiff", value);
				if (mode === "hydrated-late") host.setAttribute("data-ignite-hydrated", value);
				// the choice is made for this component: later config changes do not matter
				if (mode === "config") defineIgniteConfig({ strategy: "diff" });
				const content = contentOf(shadow);
				let current = view;
				strategy.render(toJsx(api, current));
				edits.forEach((e, step) => {
					const before = allNodes(content);
					current = same ? current : stableSuccessor(current, e, step);
					strategy.render(toJsx(api, current));
					for (const { node, path } of positions(content)) {
						ensure(!before.has(node), () => `mode ${mode}, step ${step}: ${path} survived a replace render`);
					}
					const d = diffSnaps(snapChildren(content), expectedSnaps(current));
					ensure(!d, () => `mode ${mode}: ${d}`);
				});
				c.label(mode);
				if (countElements(view) > 0) c.nontrivial();
			},
		);

		await check.prop(
			"denylisted children rebuild, siblings stay",
			fc.record({
				before: childrenArb(1),
				inner: childrenArb(1),
				after: childrenArb(1),
				steps: fc.array(editsArb, { minLength: 1, maxLength: 3 }),
				props: propsArb("div", false, 2),
			}),
			{ quick: 800, thorough: 15000, before: reset },
			({ before, inner, after, steps, props }, c) => {
				registerNoDiffDenylistTag("x-Verif-deny-child");
				const shadow = newShadow();
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const content = contentOf(shadow);
				const mk = (b: Spec[], i: Spec[], a: Spec[]): Spec => ({
					k: "el",
					tag: "div",
					props: [],
					c: [...b, { k: "el", tag: "x-verif-deny-child", props, c: i }, ...a],
				});
				let cur = { b: before, i: inner, a: after };
				strategy.render(toJsx(api, mk(cur.b, cur.i, cur.a)));
				steps.forEach((e, step) => {
					// `before`/`after` keep their shape and nothing is appended to them
					const keep = { ...e, appends: [null] };
					const next = {
						b: cur.b.map((s, n) => stableSuccessor(s, keep, step * 1000 + n)),
						i: cur.i.map((s, n) => stableSuccessor(s, e, step * 1000 + 100 + n)),
						a: cur.a.map((s, n) => stableSuccessor(s, keep, step * 1000 + 200 + n)),
					};
					const deny = content.querySelector("x-verif-deny-child") as Element;
					const inside = new Set([deny as Node, ...allNodes(deny)]);
					const outside = positions(content).filter((p) => !inside.has(p.node));
					strategy.render(toJsx(api, mk(next.b, next.i, next.a)));
					const now = new Map(positions(content).map((p) => [p.path, p.node]));
					for (const { node, path } of outside)
						ensure(now.get(path) === node, () => `step ${step}: ${path} outside the denylisted child was recreated`);
					for (const [path, node] of now)
						ensure(!inside.has(node), () => `step ${step}: ${path} inside the denylisted child survived`);
					const d = diffSnaps(snapChildren(content), expectedSnaps(mk(next.b, next.i, next.a)));
					ensure(!d, () => `step ${step}: ${d}`);
					cur = next;
				});
				c.nontrivial();
			},
		);

		// Rows change places while something in one of them changes as well: not a mere
		// permutation, so every row stays where it is and takes over its new content.
		await check.prop(
			"rows that swap and change",
			fc.record({
				rows: fc.array(fc.array(fc.constantFrom("a", "b", "c", "d", "e"), { minLength: 1, maxLength: 7 }), { minLength: 2, maxLength: 12 }),
				order: fc.array(fc.nat({ max: 11 }), { minLength: 1, maxLength: 6 }),
				changes: fc.array(fc.record({ row: fc.nat({ max: 11 }), cell: fc.nat({ max: 6 }) }), { minLength: 1, maxLength: 2 }),
				cells: fc.constantFrom("text", "element", "deep", "mixed"),
				field: fc.boolean(),
			}),
			{ quick: 800, thorough: 15000, before: reset },
			({ rows, order, changes, cells, field }, c) => {
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const content = contentOf(shadow);
				const width = Math.max(...rows.map((r) => r.length));
				// rows of one width: the cells keep their places too
				let table = rows.map((r) => Array.from({ length: width }, (_, i) => r[i % r.length]));
				const cell = (t: string, j: number) =>
					cells === "mixed" && j === 0 ? t : cells === "text" ? jsx("td", { children: t }) : cells === "element" ? jsx("td", { children: jsx("b", { children: t }) }) : jsx("td", { children: jsxs("div", { children: ["cell", jsx("i", { children: t })] }) });
				const draw = () =>
					strategy.render(jsx("table", { children: table.map((r) => jsxs("tr", { children: [...r.map(cell), ...(field ? [jsx("input", { type: "text" })] : [])] })) }));
				draw();
				const trs = [...content.querySelectorAll("tr")];
				const inside = trs.map((tr) => positions(tr));
				const fields = trs.map((tr) => tr.querySelector("input"));
				fields.forEach((f, i) => {
					if (f) f.value = `typed ${i}`;
				});
				const old = table;
				table = [...table];
				order.forEach((o, i) => {
					const a = i % table.length;
					const b = o % table.length;
					[table[a], table[b]] = [table[b], table[a]];
				});
				changes.forEach(({ row, cell: at }, i) => {
					const r = row % table.length;
					table[r] = table[r].map((t, j) => (j === at % width ? `fresh ${i}` : t));
				});
				draw();
				const now = [...content.querySelectorAll("tr")];
				ensure(now.length === trs.length, () => `${now.length} rows instead of ${trs.length}`);
				trs.forEach((tr, i) => {
					ensure(now[i] === tr, () => `row ${i} was recreated although the rows are not a mere permutation of the old ones`);
					// the cells of a row may themselves be a permutation of those shown there before
					if (show(old[i]) !== show(table[i]) && show([...old[i]].sort()) === show([...table[i]].sort())) return;
					const after = new Map(positions(tr).map((p) => [p.path, p.node]));
					for (const { node, path } of inside[i]) ensure(after.get(path) === node, () => `row ${i}: ${path} was recreated although its siblings kept their shape`);
					ensure(!fields[i] || fields[i]?.value === `typed ${i}`, () => `the text typed in row ${i} became ${show(fields[i]?.value)}`);
				});
				const texts = [...content.querySelectorAll("tr")].map((tr) => [...tr.childNodes].filter((n) => n.nodeName.toLowerCase() !== "input").map((td) => (td.textContent ?? "").replace(/^cell/, "")));
				ensure(show(texts) === show(table), () => `the rows show ${show(texts)}, not ${show(table)}`);
				c.nontrivial();
			},
		);

		// What other scripts put into an element the view leaves empty (a map, a chart) stays.
		await check.prop(
			"content added by other scripts",
			fc.record({
				view: viewArb,
				tag: fc.constantFrom("div", "canvas", "section", "x-verif-map"),
				added: fc.array(fc.constantFrom("text", "svg", "p", "input"), { minLength: 1, maxLength: 3 }),
				steps: fc.array(editsArb, { minLength: 1, maxLength: 3 }),
				place: fc.constantFrom("first", "nested"),
			}),
			{ quick: 500, thorough: 8000, before: reset },
			({ view, tag, added, steps, place }, c) => {
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const content = contentOf(shadow);
				const draw = (v: Spec, n: number) => {
					const slot = jsx(tag, { id: "outlet", title: `t${n}` });
					const other = jsx("main", { children: toJsx(api, v) });
					strategy.render(place === "first" ? [slot, other] : jsxs("div", { children: [`n${n}`, jsx("section", { children: slot }), other] }));
				};
				draw(view, 0);
				const outlet = content.querySelector(`${tag}[id=outlet]`) as Element;
				const nodes = added.map((a) => (a === "text" ? document.createTextNode("by a script") : document.createElement(a)));
				outlet.append(...nodes);
				let current = view;
				steps.forEach((e, k) => {
					current = stableSuccessor(current, e, k);
					draw(current, k + 1);
					ensure(content.contains(outlet) && (outlet as HTMLElement).title === `t${k + 1}`, () => `step ${k}: the element was recreated or not updated`);
					const now = Array.from(outlet.childNodes);
					ensure(now.length === nodes.length && now.every((x, i) => x === nodes[i]), () => `step ${k}: of ${nodes.length} nodes a script put into an element without content in the view, ${now.length} are left`);
				});
				c.nontrivial();
			},
		);

		// Long lists of fields: rows change and are added at the end while the user types.
		await check.prop(
			"growing lists of fields",
			fc.record({
				size: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 1, max: 8 }) }, { weight: 1, arbitrary: fc.integer({ min: 30, max: 250 }) }),
				keyed: fc.boolean(),
				depth: fc.constantFrom(0, 0, 1, 3, 40),
				footer: fc.boolean(),
				steps: fc.array(fc.record({ add: fc.constantFrom(0, 0, 1, 2, 60), change: fc.integer({ min: 1, max: 5 }), focus: fc.nat({ max: 300 }) }), { minLength: 1, maxLength: 4 }),
			}),
			{ quick: 200, thorough: 4000, before: reset },
			({ size, keyed, depth, footer, steps }, c) => {
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const content = contentOf(shadow);
				let rows = Array.from({ length: size }, (_, i) => ({ id: i, label: `l${i}` }));
				const draw = (n: number) => {
					const row = (r: { id: number; label: string }) =>
						jsxs("li", { title: r.label, children: [r.label, jsx("input", { type: "text", placeholder: r.label }), jsx("textarea", { rows: n + 1 })] }, keyed ? r.id : undefined);
					let view = jsxs("ul", { children: rows.map(row) });
					for (let d = 0; d < depth; d++) view = jsx("div", { title: `d${n}`, children: view });
					strategy.render(footer ? [view, jsx("p", { children: `${rows.length} rows, render ${n}` })] : view);
				};
				draw(0);
				steps.forEach((st, k) => {
					const fields = [...content.querySelectorAll("input,textarea")] as HTMLInputElement[];
					const items = [...content.querySelectorAll("li")];
					fields.forEach((f, i) => {
						f.value = `typed ${k} ${i}`;
					});
					const focused = fields[st.focus % fields.length];
					focused.focus();
					rows = rows.map((r, i) => (i % st.change === 0 ? { ...r, label: `c${k}-${i}` } : r));
					for (let j = 0; j < st.add; j++) rows.push({ id: rows.length, label: `n${rows.length}` });
					draw(k + 1);
					const now = [...content.querySelectorAll("li")];
					ensure(now.length === rows.length, () => `step ${k}: ${now.length} rows for ${rows.length}`);
					items.forEach((li, i) => ensure(now[i] === li, () => `step ${k}: row ${i} of ${items.length} was recreated or moved`));
					const fieldsNow = [...content.querySelectorAll("input,textarea")] as HTMLInputElement[];
					fields.forEach((f, i) => {
						ensure(fieldsNow[i] === f, () => `step ${k}: field ${i} of ${fields.length} was recreated or moved`);
						ensure(f.value === `typed ${k} ${i}`, () => `step ${k}: the text typed in field ${i} became ${show(f.value)}`);
					});
					ensure(shadow.activeElement === focused, () => `step ${k}: focus lost`);
					rows.forEach((r, i) => ensure(now[i].textContent === r.label, () => `step ${k}: row ${i} shows ${now[i].textContent}, not ${r.label}`));
				});
				c.nontrivial();
			},
		);
		void realTag;
	},
);
