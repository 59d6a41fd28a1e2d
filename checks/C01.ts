import { resetDom } from "../lib/dom";
import { Fragment, jsx, jsxs } from "repo:jsx/index";
import { createIgniteJsxRenderStrategy } from "repo:renderers/ignite-jsx";
import { type CaseContext, ensure, fc, runCheck } from "../lib/runner";
import { bigHistoryArb, childHistoryArb, countElements, diffSnaps, historyArb, propHistoryArb, propTransitions, type Spec, snapChildren, specArb, toJsx, typedInputArb, wideHistoryArb } from "../lib/jsxgen";
import { contentOf, defineProbe, newShadow } from "../lib/jsxdom";

defineProbe();
const api = { jsx, jsxs, Fragment };

runCheck(
	"C01",
	{
		level: "exploration",
		rule: "histories of 2-7 generated views (first view random, successors by 0-3 structural/prop mutations, a fresh view, or a return to an earlier view); non-trivial: at least two views differ and some view has two or more elements",
		assumptions: [
			"jsdom implements the DOM",
			"CSS values are valid longhands; one prop per DOM feature per element (but for class+className)",
		],
	},
	async (check) => {
		const run = (history: Spec[], c: CaseContext) => {
			const incremental = newShadow();
			const strategy = createIgniteJsxRenderStrategy();
			strategy.attach(incremental);
			for (let i = 0; i < history.length; i++) {
				strategy.render(toJsx(api, history[i]));
				const freshShadow = newShadow();
				const fresh = createIgniteJsxRenderStrategy();
				fresh.attach(freshShadow);
				fresh.render(toJsx(api, history[i]));
				const d = diffSnaps(
					snapChildren(contentOf(incremental)),
					snapChildren(contentOf(freshShadow)),
				);
				ensure(!d, () => `after view ${i}, incremental vs fresh: ${d}`);
			}
			const kinds = new Set(history.map((h) => fc.stringify(h)));
			if (kinds.size > 1 && history.some((h) => countElements(h) > 0)) c.nontrivial();
			c.label(`len${history.length}`);
		};
		await check.each("every prop, every transition", propTransitions(), { before: resetDom }, run);
		await check.prop("tree histories", historyArb(6), { quick: 3000, thorough: 60000, before: resetDom }, run);
		await check.prop("prop histories", propHistoryArb, { quick: 6000, thorough: 120000, before: resetDom }, run);
		await check.prop("typed inputs", typedInputArb, { quick: 1500, thorough: 30000, before: resetDom }, run);
		// The user edits a control between renders; whenever the view declares another
		// value than before, that is the value shown.
		await check.prop(
			"declared values over user edits",
			fc.record({
				control: fc.constantFrom("input", "number", "textarea", "checkbox", "select", "multiple"),
				steps: fc.array(
					fc.record({ value: fc.nat({ max: 3 }), user: fc.option(fc.nat({ max: 3 }), { nil: null }), other: fc.boolean(), focus: fc.boolean() }),
					{ minLength: 2, maxLength: 8 },
				),
				wrap: fc.boolean(),
			}),
			{ quick: 1000, thorough: 20000, before: resetDom },
			({ control, steps, wrap }, c) => {
				const VALUES: Record<string, unknown[]> = {
					input: ["", "a", "ab", "0"],
					number: [0, 1, 2.5, -1],
					textarea: ["", "x", "x\ny", "0"],
					checkbox: [true, false, true, false],
					select: ["a", "b", "c", ""],
					multiple: ["a", "b", "c", ""],
				};
				const vals = VALUES[control];
				const view = (i: number, other: boolean, n: number) => {
					const common = { title: `t${other ? n : 0}`, "data-n": n };
					const el =
						control === "select" || control === "multiple"
							? jsx("select", { ...(control === "multiple" ? { multiple: true } : {}), ...common, value: vals[i], children: (vals as string[]).map((v) => jsx("option", { value: v, children: `o${v}` })) })
							: control === "checkbox"
								? jsx("input", { type: "checkbox", ...common, checked: vals[i] })
								: control === "textarea"
									? jsx("textarea", { ...common, value: vals[i] })
									: jsx("input", { type: control === "number" ? "number" : "text", ...common, value: vals[i] });
					return wrap ? jsx("label", { children: ["L", el] }) : el;
				};
				const shadow = newShadow("div", true);
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				let edits = 0;
				steps.forEach((s, n) => {
					const el = contentOf(shadow).querySelector("input,select,textarea") as HTMLInputElement | null;
					if (el && s.focus) el.focus();
					if (el && s.user !== null) {
						if (control === "checkbox") el.checked = Boolean(vals[s.user]);
						else el.value = String(vals[s.user]);
						edits++;
					}
					strategy.render(view(s.value, s.other, n));
					const now = contentOf(shadow).querySelector("input,select,textarea") as HTMLInputElement;
					const declared = vals[s.value];
					if (n > 0 && Object.is(vals[steps[n - 1].value], declared)) return;
					const shown = control === "checkbox" ? now.checked : now.value;
					const want = control === "checkbox" ? declared : String(declared);
					ensure(shown === want, () => `step ${n}: the view declares ${String(want)}, ${control} shows ${String(shown)}`);
				});
				if (edits) c.nontrivial();
				c.label(control);
			},
		);
		// Parts of a view kept in variables and handed to several renders, while what their
		// components read, or the lists they were given, change.
		await check.prop(
			"kept views",
			fc.record({
				views: fc.array(fc.record({ inner: fc.array(fc.tuple(specArb(1), specArb(2)), { minLength: 1, maxLength: 1 }), pick: fc.nat({ max: 2 }), keep: fc.nat({ max: 3 }) }), { minLength: 2, maxLength: 6 }),
				props: fc.boolean(),
			}),
			{ quick: 1200, thorough: 24000, before: resetDom },
			({ views, props }, c) => {
				let now = views[0].inner[0];
				const list: any[] = [];
				// one style object, changed in place
				const look: Record<string, unknown> = {};
				const p = props ? { title: "t", "data-x": "1", style: look } : {};
				const Hole = () => toJsx(api, now[0]);
				const Deep = () => jsx("b", { children: [toJsx(api, now[1]), "!"] });
				const hole = jsx(Hole, {});
				const kept = [
					jsx("section", { ...p, children: [hole, "x", jsx("p", { children: jsx(Deep, {}) })] }),
					jsxs("section", { ...p, children: [jsx("p", { children: hole }), jsx(Fragment, { children: [hole, jsx(Deep, {})] })] }),
					jsx("ul", { ...p, children: list }),
				];
				const whole = [() => kept[0], () => jsx("div", { children: kept[1] }), () => [kept[2], hole], () => jsx("div", { children: [kept[0], kept[0], kept[2]] })];
				const incremental = newShadow();
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(incremental);
				views.forEach((v, i) => {
					now = v.inner[0];
					const name = ["color", "width", "--x", "backgroundColor"][(v.pick + v.keep) % 4];
					if (v.keep % 2) delete look[name];
					else look[name] = name.endsWith("olor") ? ["red", "blue", null][v.pick] : `${i + 1}px`;
					list.splice(v.pick, 1, ...[toJsx(api, now[0]), toJsx(api, now[1])].slice(v.keep % 2));
					const view = whole[i && v.pick ? views[0].keep : v.keep]();
					strategy.render(view);
					const freshShadow = newShadow();
					const fresh = createIgniteJsxRenderStrategy();
					fresh.attach(freshShadow);
					fresh.render(view);
					const d = diffSnaps(snapChildren(contentOf(incremental)), snapChildren(contentOf(freshShadow)));
					ensure(!d, () => `after render ${i} of a kept view, incremental vs fresh: ${d}`);
				});
				if (new Set(views.map((v) => fc.stringify(v.inner))).size > 1) c.nontrivial();
				c.label(props ? "with props" : "bare");
			},
		);
		// One of a group of radio buttons is the chosen one; the user may choose another.
		await check.prop(
			"radio groups",
			fc.record({
				size: fc.integer({ min: 2, max: 4 }),
				steps: fc.array(fc.record({ chosen: fc.nat({ max: 3 }), off: fc.constantFrom(false, null, undefined, "absent"), user: fc.option(fc.nat({ max: 3 }), { nil: null }) }), { minLength: 2, maxLength: 8 }),
				named: fc.boolean(),
				nested: fc.boolean(),
			}),
			{ quick: 600, thorough: 12000, before: resetDom },
			({ size, steps, named, nested }, c) => {
				const shadow = newShadow();
				const strategy = createIgniteJsxRenderStrategy();
				strategy.attach(shadow);
				const radios = () => [...contentOf(shadow).querySelectorAll("input")] as HTMLInputElement[];
				let before = -1;
				steps.forEach((s, n) => {
					if (n && named && s.user !== null) radios()[s.user % size].checked = true;
					const chosen = s.chosen % size;
					strategy.render(
						Array.from({ length: size }, (_, i) => {
							const props: Record<string, unknown> = { type: "radio", value: `v${i}` };
							if (named) props.name = "g";
							if (i === chosen) props.checked = true;
							else if (s.off !== "absent") props.checked = s.off;
							const el = jsx("input", props);
							return nested ? jsx("label", { children: [el, `L${i}`] }) : el;
						}),
					);
					if (chosen === before) return;
					before = chosen;
					const shown = radios().map((r) => r.checked);
					ensure(shown.every((x, i) => x === (i === chosen)), () => `step ${n}: radio ${chosen} of ${size} is declared checked, the page shows ${shown.join()}`);
				});
				if (new Set(steps.map((s) => s.chosen % size)).size > 1) c.nontrivial();
				c.label(named ? "named" : "no name");
			},
		);
		await check.prop("many props, deep nesting", wideHistoryArb, { quick: 600, thorough: 12000, before: resetDom }, run);
		await check.prop("large views", bigHistoryArb, { quick: 40, thorough: 600, before: resetDom }, run);
		await check.prop("child list histories", childHistoryArb, { quick: 5000, thorough: 100000, before: resetDom }, run);
	},
);
