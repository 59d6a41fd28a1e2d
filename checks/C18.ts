import { resetDom } from "../lib/dom";
import { createRequire } from "node:module";
import * as classic from "repo:jsx/index";
import * as runtime from "repo:jsx/jsx-runtime";
import * as devRuntime from "repo:jsx/jsx-dev-runtime";
import { createIgniteJsxRenderStrategy } from "repo:renderers/ignite-jsx";
import { ensure, fc, repoDir, runCheck, show } from "../lib/runner";
import { countElements, diffSnaps, expectedSnaps, historyArb, type JsxApi, realTag, type Spec, snapChildren, toJsx, viewArb } from "../lib/jsxgen";
import { contentOf, defineProbe, newShadow } from "../lib/jsxdom";
import { bundleText } from "../lib/realm";

defineProbe();
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const ts = createRequire(`${repoDir}/package.json`)("typescript");

const R: any = { ...runtime };
const D: any = { ...devRuntime };
const X: any = { ...classic };
const dev = (f: any, statics: boolean) => (t: any, p: any, k?: any) => f(t, p, k, statics, { fileName: "f.tsx", lineNumber: 3, columnNumber: 1 }, undefined);
/** the factories of a second copy of the library in the page */
const copy: any = await (async () => {
	const module = { exports: {} as any };
	new Function("module", "exports", "require", await bundleText('export * from "repo:jsx/index";'))(module, module.exports, createRequire(`${repoDir}/package.json`));
	return module.exports;
})();
const APIS: Record<string, JsxApi> = {
	runtime: { jsx: R.jsx, jsxs: R.jsxs, Fragment: R.Fragment },
	"jsx only": { jsx: R.jsx, jsxs: R.jsx, Fragment: R.Fragment },
	"jsxs only": { jsx: R.jsxs, jsxs: R.jsxs, Fragment: X.Fragment },
	index: { jsx: X.jsx, jsxs: X.jsxs, Fragment: X.Fragment },
	"index dev": { jsx: dev(X.jsxDEV, false), jsxs: dev(X.jsxDEV, true), Fragment: X.Fragment },
	dev: { jsx: dev(D.jsxDEV, false), jsxs: dev(D.jsxDEV, true), Fragment: D.Fragment },
	"another copy": { jsx: copy.jsx, jsxs: copy.jsxs, Fragment: copy.Fragment },
	mixed: { jsx: R.jsx, jsxs: dev(D.jsxDEV, true), Fragment: D.Fragment },
};

function deepFreeze(v: any, seen = new Set<unknown>()): any {
	if (!v || typeof v !== "object" || seen.has(v) || v instanceof Date) return v;
	seen.add(v);
	Object.values(v).forEach((x) => deepFreeze(x, seen));
	return Object.freeze(v);
}
/** structure of a value, functions and objects by identity where they are leaves */
function shape(v: any, depth = 0): string {
	if (Array.isArray(v)) return `[${v.map((x) => shape(x, depth + 1)).join()}]`;
	if (v && typeof v === "object" && !(v instanceof Date)) return `{${Reflect.ownKeys(v).map((k) => `${String(k)}:${shape(v[k], depth + 1)}`).join()}}`;
	return typeof v === "string" ? JSON.stringify(v) : String(v);
}

/** the api, with every argument recorded (and frozen if asked) so changes to them show */
function guarded(api: JsxApi, frozen: boolean) {
	const inputs: Array<{ props: any; before: string }> = [];
	const wrap = (f: any) => (t: any, p: any, k?: any) => {
		if (frozen) deepFreeze(p);
		inputs.push({ props: p, before: shape(p) });
		const view = f(t, p, k);
		ensure(shape(p) === inputs[inputs.length - 1].before, () => `creating an element changed its props to ${shape(p)}`);
		if (frozen) deepFreeze(view);
		return view;
	};
	return {
		api: { jsx: wrap(api.jsx), jsxs: wrap(api.jsxs), Fragment: api.Fragment } as JsxApi,
		unchanged: (when: string) => {
			for (const i of inputs) ensure(shape(i.props) === i.before, () => `${when} changed the props ${i.before} to ${shape(i.props)}`);
		},
	};
}

function mount() {
	const shadow = newShadow();
	const strategy = createIgniteJsxRenderStrategy();
	strategy.attach(shadow);
	return { render: (v: any) => strategy.render(v), snap: () => snapChildren(contentOf(shadow)) };
}

/* ---------------- JSX programs ---------------- */

/** source text of a view; values that are not literals come from V */
function toSource(s: Spec, V: unknown[], style: number): string {
	const value = (v: unknown) => {
		V.push(v);
		return `V[${V.length - 1}]`;
	};
	const child = (c: Spec): string => {
		if (c.k === "text" && typeof c.v === "string" && style % 2 && /^[a-z ]*[a-z]$/.test(c.v) && !c.v.startsWith(" ")) return c.v;
		if (c.k === "el" || c.k === "frag" || c.k === "comp") return toSource(c, V, style);
		return `{${toSource(c, V, style)}}`;
	};
	switch (s.k) {
		case "text":
			return typeof s.v === "string" ? JSON.stringify(s.v) : value(s.v);
		case "empty":
			return String(s.v);
		case "unknown":
			return value([{ some: "object" }, () => "fn", new Date(0)][s.v]);
		case "arr":
			return `[${s.c.map((c) => toSource(c, V, style)).join(", ")}]`;
		case "frag":
			return `<>${s.c.map(child).join("")}</>`;
		case "comp":
			return s.how % 2 ? `<Pass>${s.c.map(child).join("")}</Pass>` : `<Items items={[${s.c.map((c) => toSource(c, V, style)).join(", ")}]} />`;
		case "el": {
			const tag = realTag(s.tag);
			const key = s.key === undefined || s.key === null ? "" : ` key={${JSON.stringify(s.key)}}`;
			let props = s.tag === "input:checkbox" ? ' type="checkbox"' : "";
			s.props.forEach((p, i) => {
				if ((style + i) % 3 === 0) props += ` {...{${JSON.stringify(p.n)}: ${value(p.v)}}}`;
				else if (typeof p.v === "string" && /^[a-z0-9 :;.-]*$/i.test(p.v) && i % 2) props += ` ${p.n}="${p.v}"`;
				else props += ` ${p.n}={${value(p.v)}}`;
			});
			const kids = s.c.map(child).join("");
			return kids ? `<${tag}${key}${props}>${kids}</${tag}>` : `<${tag}${key}${props} />`;
		}
	}
}

const modules: Record<string, unknown> = {
	"ignite-element/jsx/jsx-runtime": R,
	"ignite-element/jsx/jsx-dev-runtime": D,
	"ignite-element/jsx": X,
};

const COMPILERS = ["esbuild", "esbuild dev", "typescript", "typescript dev"] as const;
function compile(source: string, how: (typeof COMPILERS)[number]): string {
	if (how.startsWith("esbuild"))
		return esbuild.transformSync(source, { loader: "tsx", format: "cjs", jsx: "automatic", jsxImportSource: "ignite-element/jsx", jsxDev: how.endsWith("dev") }).code;
	return ts.transpileModule(source, {
		fileName: "view.tsx",
		compilerOptions: { jsx: how.endsWith("dev") ? ts.JsxEmit.ReactJSXDev : ts.JsxEmit.ReactJSX, jsxImportSource: "ignite-element/jsx", module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 },
	}).outputText;
}

runCheck(
	"C18",
	{
		level: "exploration",
		rule: "generated views created through every factory and entry module (with frozen inputs, or inputs compared before and after), JSX source programs compiled by esbuild and TypeScript in production and development form, and view objects reused in several places, hosts and renders; each compared with the model of the view's DOM; non-trivial: the view has at least two elements",
		assumptions: ["JSX programs put a key before any spread (the other order needs a createElement export, which the package does not offer)"],
	},
	async (check) => {
		await check.prop(
			"factories",
			fc.record({ view: viewArb, frozen: fc.boolean() }),
			{ quick: 1500, thorough: 30000, before: resetDom },
			({ view, frozen }, c) => {
				const expected = expectedSnaps(view);
				for (const [name, raw] of Object.entries(APIS)) {
					const g = guarded(raw, frozen);
					const jsx = toJsx(g.api, view);
					const before = shape(jsx);
					const m = mount();
					m.render(jsx);
					const d = diffSnaps(m.snap(), expected);
					ensure(!d, () => `${name}: ${d}`);
					g.unchanged(`${name}: rendering`);
					ensure(shape(jsx) === before, () => `${name}: rendering changed the view`);
				}
				if (countElements(view) >= 2) c.nontrivial();
			},
		);

		// what a created element says about itself
		await check.prop(
			"elements",
			fc.record({
				type: fc.oneof(fc.constantFrom<unknown>("p", "x-el", "svg", R.Fragment), fc.constant(() => null)),
				props: fc.option(fc.dictionary(fc.string({ maxLength: 6 }).filter((k) => k !== "children" && k !== "__proto__"), fc.anything({ maxDepth: 1 }), { maxKeys: 5, noNullPrototype: true }), { nil: null }),
				children: fc.option(fc.oneof(fc.constantFrom<unknown>("t", 0, "", false, null, undefined), fc.array(fc.constantFrom<unknown>("a", 0, null, true, ["b", ["c"]], undefined), { maxLength: 4 })), { nil: undefined }),
				key: fc.oneof(fc.constantFrom<unknown>(undefined, null, "", 0, -0, "0", " ", -1, 1.5), fc.string(), fc.integer()),
				frozen: fc.boolean(),
			}),
			{ quick: 1500, thorough: 20000 },
			({ type, props, children, key, frozen }, c) => {
				const flat = (v: any): unknown[] => (Array.isArray(v) ? v.flatMap(flat) : v === undefined || v === null || typeof v === "boolean" ? [] : [v]);
				for (const [name, api] of Object.entries(APIS))
					for (const f of ["jsx", "jsxs"] as const) {
						const given: any = props ? { ...props } : children === undefined ? null : {};
						if (children !== undefined) given.children = children;
						if (frozen) {
							if (Array.isArray(children)) Object.freeze(children);
							if (given) Object.freeze(given);
						}
						const view: any = (api as any)[f](type, given, key);
						const at = `${name} ${f}`;
						ensure(view.type === type, () => `${at}: the type became ${show(view.type)}`);
						ensure((key ?? null) === (view.key ?? null), () => `${at}: the key ${show(key)} became ${show(view.key)}`);
						for (const k of Object.keys(props ?? {})) ensure(Object.is(view.props[k], (props as any)[k]), () => `${at}: prop ${show(k)} became ${show(view.props[k])}`);
						for (const k of Object.keys(view.props)) ensure(k === "children" || (props && k in props), () => `${at}: an added prop ${show(k)}`);
						const a = flat(view.props.children);
						const b = flat(children);
						ensure(a.length === b.length && a.every((v, i) => v === b[i]), () => `${at}: the children became ${show(view.props.children)}`);
						// a component receives its children as they were given, lists within lists included
						if (Array.isArray(children)) {
							const kids = view.props.children;
							ensure(Array.isArray(kids) && kids.length === children.length && kids.every((v: unknown, i: number) => v === children[i]), () => `${at}: the children ${show(children)} became ${show(kids)}`);
						}
					}
				if (key !== undefined && key !== null && props && Object.keys(props).length) c.nontrivial();
			},
		);

		await check.prop(
			"programs",
			fc.record({ view: viewArb, compiler: fc.constantFrom(...COMPILERS), style: fc.nat({ max: 5 }) }),
			{ quick: 1200, thorough: 20000, before: resetDom },
			({ view, compiler, style }, c) => {
				const V: unknown[] = [];
				const body = toSource(view, V, style);
				const source = `const Pass = (p) => p.children;\nconst Items = ({ items }) => <>{items}</>;\nexport const view = (V) => (${view.k === "arr" || view.k === "text" || view.k === "empty" || view.k === "unknown" ? body : `\n${body}\n`});\n`;
				const code = compile(source, compiler);
				const module = { exports: {} as any };
				new Function("module", "exports", "require", code)(module, module.exports, (id: string) => {
					if (!(id in modules)) throw new Error(`module ${id}`);
					return modules[id];
				});
				const m = mount();
				m.render(module.exports.view(V));
				const d = diffSnaps(m.snap(), expectedSnaps(view));
				ensure(!d, () => `${compiler}: ${d} in ${body}`);
				if (countElements(view) >= 2) c.nontrivial();
				c.label(compiler);
			},
		);

		await check.prop(
			"reused views",
			fc.record({
				history: historyArb(4),
				order: fc.array(fc.tuple(fc.nat({ max: 4 }), fc.nat({ max: 2 }), fc.constantFrom("alone", "twice", "nested", "listed")), { minLength: 2, maxLength: 8 }),
				api: fc.constantFrom(...Object.keys(APIS)),
				frozen: fc.boolean(),
			}),
			{ quick: 1500, thorough: 30000, before: resetDom },
			({ history, order, api, frozen }, c) => {
				const g = guarded(APIS[api], frozen);
				const views = history.map((s) => toJsx(g.api, s));
				const before = views.map((v) => shape(v));
				const hosts = [mount(), mount(), mount()];
				const el = (c2: Spec[], tag = "div"): Spec => ({ k: "el", tag, props: [], c: c2 });
				for (const [vi, hi, where] of order) {
					const i = vi % views.length;
					const v = views[i];
					const s = history[i];
					const { jsx, jsxs } = g.api;
					const [shown, spec]: [any, Spec] =
						where === "alone"
							? [v, s]
							: where === "twice"
								? [jsxs("section", { children: [jsx("div", { children: v }), jsx("div", { children: v })] }), el([el([s]), el([s])], "section")]
								: where === "nested"
									? [jsx("div", { children: jsx(g.api.Fragment, { children: v }) }), el([s])]
									: [[jsx("p", { children: "x" }), jsx("div", { children: [v] })], { k: "arr", c: [el([{ k: "text", v: "x" }], "p"), el([s])] }];
					hosts[hi].render(shown);
					const d = diffSnaps(hosts[hi].snap(), expectedSnaps(spec));
					ensure(!d, () => `view ${i} shown ${where} in host ${hi}: ${d}`);
				}
				views.forEach((v, i) => ensure(shape(v) === before[i], () => `view ${i} was changed by rendering`));
				g.unchanged("rendering");
				if (new Set(order.map((o) => o[0] % views.length)).size < order.length) c.nontrivial();
			},
		);
		void show;
	},
);
