import { resetDom } from "../lib/dom";
import { Fragment, jsx, jsxs } from "repo:jsx/index";
import { jsxDEV } from "repo:jsx/jsx-dev-runtime";
import { createIgniteJsxRenderStrategy } from "repo:renderers/ignite-jsx";
import { ensure, fc, runCheck, type CaseContext } from "../lib/runner";
import {
	bigHistoryArb,
	countElements,
	diffSnaps,
	expectedSnaps,
	historyArb,
	propHistoryArb,
	propTransitions,
	type Spec,
	snapChildren,
	toJsx,
	typedInputArb,
	viewArb,
	wideHistoryArb,
} from "../lib/jsxgen";
import { contentOf, defineProbe, newShadow } from "../lib/jsxdom";

defineProbe();

const dev = {
	jsx: (t: any, p: any, k?: any) => jsxDEV(t, p, k, false, { fileName: "f", lineNumber: 1 }, undefined),
	jsxs: (t: any, p: any, k?: any) => jsxDEV(t, p, k, true, undefined, {}),
	Fragment,
};
const prod = { jsx, jsxs, Fragment };

runCheck(
	"C03",
	{
		level: "exploration",
		rule: "generated views (text, numbers, empty/unknown children, arrays, fragments, components, HTML and SVG elements with attributes, properties, class, style, select/option) compared with a hand-written model of the DOM they denote; non-trivial: the view contains an element",
		assumptions: ["jsdom implements the DOM and its reflection of attributes"],
	},
	async (check) => {
		const matches = (view: Spec, api: typeof prod, what: string) => {
			const shadow = newShadow();
			const strategy = createIgniteJsxRenderStrategy();
			strategy.attach(shadow);
			strategy.render(toJsx(api, view));
			const d = diffSnaps(snapChildren(contentOf(shadow)), expectedSnaps(view));
			ensure(!d, () => `${what}: rendered vs expected: ${d}`);
		};
		const mark = (v: Spec, c: CaseContext) => {
			if (countElements(v) > 0) c.nontrivial();
		};
		await check.each("every prop", propTransitions(), { before: resetDom }, (history, c) => {
			matches(history[1], prod, "element");
			mark(history[1], c);
		});
		await check.prop("views", fc.tuple(viewArb, fc.boolean()), { quick: 6000, thorough: 120000, before: resetDom }, ([view, useDev], c) => {
			matches(view, useDev ? dev : prod, useDev ? "dev runtime" : "runtime");
			mark(view, c);
		});
		await check.prop("single elements", propHistoryArb, { quick: 4000, thorough: 80000, before: resetDom }, (history, c) => {
			for (const v of history) matches(v, prod, "element");
			mark(history[0], c);
		});
		await check.prop("typed inputs", typedInputArb, { quick: 1500, thorough: 30000, before: resetDom }, (history, c) => {
			for (const v of history) matches(v, prod, "element");
			mark(history[0], c);
		});
		const follow = (history: Spec[], c: CaseContext) => {
			const shadow = newShadow();
			const strategy = createIgniteJsxRenderStrategy();
			strategy.attach(shadow);
			history.forEach((view, i) => {
				strategy.render(toJsx(prod, view));
				const d = diffSnaps(snapChildren(contentOf(shadow)), expectedSnaps(view));
				ensure(!d, () => `view ${i}: rendered vs expected: ${d}`);
			});
			mark(history[0], c);
		};
		await check.prop("updated views", historyArb(4), { quick: 1500, thorough: 40000, before: resetDom }, follow);
		await check.prop("many props, deep nesting", wideHistoryArb, { quick: 400, thorough: 12000, before: resetDom }, follow);
		await check.prop("large views", bigHistoryArb, { quick: 25, thorough: 500, before: resetDom }, follow);
	},
);
