// Generated view descriptions ("specs"), their translation to JSX, a reference
// model of the DOM they must produce, and a DOM observer.
import fc from "fast-check";

export const SVG_NS = "http://www.w3.org/2000/svg";
export const HTML_NS = "http://www.w3.org/1999/xhtml";

export type PropSpec = { n: string; v: unknown };
export type Spec =
	| { k: "text"; v: string | number }
	| { k: "empty"; v: null | undefined | boolean }
	| { k: "unknown"; v: number }
	| { k: "arr"; c: Spec[] }
	| { k: "frag"; c: Spec[]; via: "jsx" | "jsxs" }
	| { k: "comp"; c: Spec[]; how: number }
	| { k: "el"; tag: string; props: PropSpec[]; c: Spec[]; key?: string | number | null };

/* ------------------------------------------------------------------ */
/* props                                                               */
/* ------------------------------------------------------------------ */

const nothing = fc.constantFrom<unknown>(null, undefined, false);
const maybe = (arb: fc.Arbitrary<unknown>) =>
	fc.oneof({ weight: 5, arbitrary: arb }, { weight: 1, arbitrary: nothing });

const word = fc.constantFrom("a", "b", "alpha", "Beta-1", "x y", "0", "é✓", 'q"<&>');
const wordOrEmpty = fc.oneof({ weight: 6, arbitrary: word }, { weight: 1, arbitrary: fc.constant("") });
/** values of text fields: mostly text, sometimes a number */
const fieldValue = fc.oneof(
	{ weight: 6, arbitrary: wordOrEmpty as fc.Arbitrary<unknown> },
	{ weight: 2, arbitrary: fc.constantFrom<unknown>(0, 1, -3, 2.5) },
);
const attrValue = fc.oneof(
	word,
	fc.constant(""),
	fc.constantFrom<unknown>(0, 1, -3, 2.5, true, Number.NaN),
);

/** camelCase name -> css property, values that jsdom keeps */
export const STYLE_KEYS: Record<string, { css: string; values: unknown[] }> = {
	color: { css: "color", values: ["red", "blue", "green"] },
	display: { css: "display", values: ["none", "block", "flex"] },
	opacity: { css: "opacity", values: ["0.5", "1", 0, 1] },
	width: { css: "width", values: ["10px", "50%", "auto"] },
	zIndex: { css: "z-index", values: [1, 20, "3", 0] },
	fontSize: { css: "font-size", values: ["12px", "2em"] },
	marginTop: { css: "margin-top", values: ["1px", "4px"] },
	borderTopWidth: { css: "border-top-width", values: ["1px", "3px"] },
	"--accent": { css: "--accent", values: ["1", "teal", 7] },
	"--rowGap": { css: "--rowGap", values: ["2px", "Wide", 3] },
	"text-align": { css: "text-align", values: ["left", "right"] },
};

const styleObject = fc
	.uniqueArray(
		fc.constantFrom(...Object.keys(STYLE_KEYS)).chain((key) =>
			fc.tuple(
				fc.constant(key),
				fc.oneof(
					{ weight: 5, arbitrary: fc.constantFrom<unknown>(...STYLE_KEYS[key].values) },
					{ weight: 1, arbitrary: fc.constantFrom<unknown>(null, undefined) },
				),
			),
		),
		{ selector: (t) => t[0], maxLength: 4 },
	)
	.map((entries) => Object.fromEntries(entries) as Record<string, unknown>);

const styleValue = fc.oneof(
	{ weight: 6, arbitrary: styleObject as fc.Arbitrary<unknown> },
	{
		weight: 2,
		arbitrary: fc.constantFrom<unknown>(
			"",
			"color: red",
			"color: blue; display: none;",
			"opacity: 0.5;",
		),
	},
	{ weight: 1, arbitrary: fc.constantFrom<unknown>(null, undefined, false) },
);

const classValue = fc.oneof(
	fc.constantFrom<unknown>("a", "b", "a b", "card is-open", "z-1", " pad ", "a  b", "b\ta"),
	fc.constantFrom<unknown>("", null, undefined, false, 0, 7),
);

type PropKind =
	/** string DOM property reflected in `attr` */
	| { kind: "string"; attr: string; arb: fc.Arbitrary<unknown> }
	/** boolean DOM property reflected in presence of `attr` */
	| { kind: "bool"; attr: string; arb: fc.Arbitrary<unknown> }
	/** numeric DOM property reflected in `attr` */
	| { kind: "number"; attr: string; arb: fc.Arbitrary<unknown> }
	/** plain attribute */
	| { kind: "attr"; attr: string; arb: fc.Arbitrary<unknown> }
	/** live property with no attribute */
	| { kind: "live"; prop: string; absent: unknown; arb: fc.Arbitrary<unknown> }
	| { kind: "class"; arb: fc.Arbitrary<unknown> }
	| { kind: "style"; arb: fc.Arbitrary<unknown> }
	/** never reaches the DOM */
	| { kind: "ignored"; arb: fc.Arbitrary<unknown> };

const bool = fc.boolean() as fc.Arbitrary<unknown>;
const smallInt = fc.integer({ min: 1, max: 9 }) as fc.Arbitrary<unknown>;

export const PAYLOADS: object[] = [{ a: 1 }, { a: 1 }, [1, 2], { nested: { x: [] } }, Object.freeze({ f: 0 })];

const HTML_COMMON: Record<string, PropKind> = {
	id: { kind: "string", attr: "id", arb: wordOrEmpty },
	title: { kind: "string", attr: "title", arb: wordOrEmpty },
	lang: { kind: "string", attr: "lang", arb: fc.constantFrom("en", "fr", "") },
	hidden: { kind: "bool", attr: "hidden", arb: bool },
	tabIndex: { kind: "number", attr: "tabindex", arb: fc.integer({ min: -1, max: 5 }) },
	"data-x": { kind: "attr", attr: "data-x", arb: attrValue },
	"data-long-name": { kind: "attr", attr: "data-long-name", arb: attrValue },
	"aria-label": { kind: "attr", attr: "aria-label", arb: attrValue },
	"aria-hidden": { kind: "attr", attr: "aria-hidden", arb: fc.constantFrom<unknown>(true, "true", "false") },
	part: { kind: "attr", attr: "part", arb: word },
	slot: { kind: "string", attr: "slot", arb: fc.constantFrom("s1", "s2") },
	unknownattr: { kind: "attr", attr: "unknownattr", arb: attrValue },
	unknownCamel: { kind: "attr", attr: "unknowncamel", arb: attrValue },
	under_score: { kind: "attr", attr: "under_score", arb: attrValue },
	role: { kind: "attr", attr: "role", arb: fc.constantFrom("button", "list") },
	dir: { kind: "string", attr: "dir", arb: fc.constantFrom("ltr", "rtl") },
	accessKey: { kind: "string", attr: "accesskey", arb: fc.constantFrom("k", "s") },
	draggable: { kind: "attr", attr: "draggable", arb: fc.constant(true) },
	class: { kind: "class", arb: classValue },
	className: { kind: "class", arb: classValue },
	style: { kind: "style", arb: styleValue },
	ref: { kind: "ignored", arb: fc.constantFrom<unknown>("r", () => {}, { current: null }) },
};

const HTML_BY_TAG: Record<string, Record<string, PropKind>> = {
	input: {
		type: { kind: "string", attr: "type", arb: fc.constantFrom("text", "search", "password") },
		value: { kind: "live", prop: "value", absent: "", arb: fieldValue },
		pattern: { kind: "string", attr: "pattern", arb: word },
		autocomplete: { kind: "string", attr: "autocomplete", arb: fc.constantFrom("on", "off") },
		minLength: { kind: "number", attr: "minlength", arb: fc.integer({ min: 0, max: 9 }) },
		multiple: { kind: "bool", attr: "multiple", arb: bool },
		placeholder: { kind: "string", attr: "placeholder", arb: wordOrEmpty },
		name: { kind: "string", attr: "name", arb: word },
		disabled: { kind: "bool", attr: "disabled", arb: bool },
		readOnly: { kind: "bool", attr: "readonly", arb: bool },
		required: { kind: "bool", attr: "required", arb: bool },
		maxLength: { kind: "number", attr: "maxlength", arb: fc.integer({ min: 0, max: 30 }) },
		size: { kind: "number", attr: "size", arb: fc.integer({ min: 1, max: 30 }) },
		list: { kind: "attr", attr: "list", arb: word },
		form: { kind: "attr", attr: "form", arb: fc.constantFrom("f1", "f2") },
		indeterminate: { kind: "live", prop: "indeterminate", absent: false, arb: bool },
	},
	"input:checkbox": {
		checked: { kind: "live", prop: "checked", absent: false, arb: bool },
		disabled: { kind: "bool", attr: "disabled", arb: bool },
		name: { kind: "string", attr: "name", arb: word },
	},
	"input:typed": {
		type: { kind: "string", attr: "type", arb: fc.constantFrom("text", "number", "range", "email", "url", "date") },
		min: { kind: "string", attr: "min", arb: fc.constantFrom<unknown>("0", "10", 30) },
		max: { kind: "string", attr: "max", arb: fc.constantFrom<unknown>("20", "60", 200) },
		step: { kind: "string", attr: "step", arb: fc.constantFrom<unknown>("1", "7", 0.5) },
		value: { kind: "live", prop: "value", absent: "", arb: fc.constantFrom<unknown>("", "abc", "5", "50", "150", 25, 0, "a@b.c", " x@y.z ", "2020-02-03") },
	},
	"input:default": {
		defaultValue: { kind: "string", attr: "value", arb: wordOrEmpty },
		placeholder: { kind: "string", attr: "placeholder", arb: wordOrEmpty },
	},
	"checkbox:default": {
		defaultChecked: { kind: "bool", attr: "checked", arb: bool },
		name: { kind: "string", attr: "name", arb: word },
	},
	form: {
		acceptCharset: { kind: "string", attr: "accept-charset", arb: fc.constantFrom("utf-8", "ascii") },
		method: { kind: "string", attr: "method", arb: fc.constantFrom("get", "post") },
		action: { kind: "string", attr: "action", arb: fc.constantFrom("/x", "/y?z=1") },
		noValidate: { kind: "bool", attr: "novalidate", arb: bool },
	},
	ol: {
		start: { kind: "number", attr: "start", arb: fc.integer({ min: 0, max: 9 }) },
		reversed: { kind: "bool", attr: "reversed", arb: bool },
		type: { kind: "string", attr: "type", arb: fc.constantFrom("1", "a") },
	},
	time: {
		dateTime: { kind: "string", attr: "datetime", arb: fc.constantFrom("2020-01-01", "12:00") },
	},
	meter: {
		value: { kind: "number", attr: "value", arb: fc.constantFrom(0, 0.25, 0.5, 1) },
		max: { kind: "number", attr: "max", arb: fc.constantFrom(1, 2) },
	},
	video: {
		controls: { kind: "bool", attr: "controls", arb: bool },
		autoplay: { kind: "bool", attr: "autoplay", arb: bool },
		poster: { kind: "string", attr: "poster", arb: fc.constantFrom("/p.png", "") },
	},
	th: {
		colSpan: { kind: "number", attr: "colspan", arb: fc.integer({ min: 2, max: 5 }) },
		rowSpan: { kind: "number", attr: "rowspan", arb: fc.integer({ min: 2, max: 5 }) },
		scope: { kind: "string", attr: "scope", arb: fc.constantFrom("row", "col") },
	},
	blockquote: {
		cite: { kind: "string", attr: "cite", arb: fc.constantFrom("/a", "https://e.org/") },
	},
	meta: {
		httpEquiv: { kind: "string", attr: "http-equiv", arb: fc.constantFrom("refresh", "x") },
		content: { kind: "string", attr: "content", arb: word },
		name: { kind: "string", attr: "name", arb: word },
	},
	slot: {
		name: { kind: "string", attr: "name", arb: fc.constantFrom("s1", "head") },
	},
	fieldset: {
		disabled: { kind: "bool", attr: "disabled", arb: bool },
		name: { kind: "string", attr: "name", arb: word },
	},
	dialog: {
		open: { kind: "bool", attr: "open", arb: bool },
	},
	canvas: {
		width: { kind: "number", attr: "width", arb: smallInt },
		height: { kind: "number", attr: "height", arb: smallInt },
	},
	output: {
		name: { kind: "string", attr: "name", arb: word },
	},
	textarea: {
		value: { kind: "live", prop: "value", absent: "", arb: fieldValue },
		rows: { kind: "number", attr: "rows", arb: smallInt },
		placeholder: { kind: "string", attr: "placeholder", arb: wordOrEmpty },
		disabled: { kind: "bool", attr: "disabled", arb: bool },
	},
	button: {
		disabled: { kind: "bool", attr: "disabled", arb: bool },
		type: { kind: "string", attr: "type", arb: fc.constantFrom("button", "submit") },
		name: { kind: "string", attr: "name", arb: word },
		form: { kind: "attr", attr: "form", arb: fc.constantFrom("f1", "f2") },
	},
	a: {
		href: { kind: "string", attr: "href", arb: fc.constantFrom("/x", "#h", "https://e.org/?a=1", "") },
		target: { kind: "string", attr: "target", arb: fc.constantFrom("_blank", "_self") },
		rel: { kind: "string", attr: "rel", arb: fc.constantFrom("noopener", "") },
		download: { kind: "string", attr: "download", arb: fc.constantFrom("f.txt", "") },
		hreflang: { kind: "string", attr: "hreflang", arb: fc.constantFrom("en", "fr") },
	},
	label: {
		htmlFor: { kind: "string", attr: "for", arb: word },
	},
	img: {
		alt: { kind: "string", attr: "alt", arb: wordOrEmpty },
		crossOrigin: { kind: "string", attr: "crossorigin", arb: fc.constantFrom("anonymous", "use-credentials") },
		width: { kind: "number", attr: "width", arb: smallInt },
	},
	li: {
		value: { kind: "number", attr: "value", arb: fc.integer({ min: 0, max: 9 }) },
	},
	progress: {
		value: { kind: "number", attr: "value", arb: fc.constantFrom(0, 0.25, 0.5, 1) },
	},
	td: {
		colSpan: { kind: "number", attr: "colspan", arb: fc.integer({ min: 2, max: 5 }) },
	},
	details: {
		open: { kind: "bool", attr: "open", arb: bool },
	},
	"x-verif-props": {
		payload: { kind: "live", prop: "payload", absent: undefined, arb: fc.constantFrom<unknown>(...PAYLOADS, "s", "", 5, 0, Number.NaN, true) },
	},
};

const SVG_COMMON: Record<string, PropKind> = {
	id: { kind: "attr", attr: "id", arb: word },
	class: { kind: "class", arb: classValue },
	className: { kind: "class", arb: classValue },
	style: { kind: "style", arb: styleValue },
	fill: { kind: "attr", attr: "fill", arb: fc.constantFrom<unknown>("red", "none", "") },
	strokeWidth: { kind: "attr", attr: "stroke-width", arb: attrValue },
	strokeLinecap: { kind: "attr", attr: "stroke-linecap", arb: fc.constantFrom("round", "butt") },
	viewBox: { kind: "attr", attr: "viewBox", arb: fc.constantFrom("0 0 1 1", "0 0 24 24") },
	preserveAspectRatio: { kind: "attr", attr: "preserveAspectRatio", arb: fc.constantFrom("none", "xMidYMid") },
	gradientUnits: { kind: "attr", attr: "gradientUnits", arb: fc.constantFrom("userSpaceOnUse") },
	clipPathUnits: { kind: "attr", attr: "clipPathUnits", arb: fc.constantFrom("userSpaceOnUse") },
	patternUnits: { kind: "attr", attr: "patternUnits", arb: fc.constantFrom("userSpaceOnUse") },
	spreadMethod: { kind: "attr", attr: "spreadMethod", arb: fc.constantFrom("pad") },
	startOffset: { kind: "attr", attr: "startOffset", arb: attrValue },
	textLength: { kind: "attr", attr: "textLength", arb: attrValue },
	lengthAdjust: { kind: "attr", attr: "lengthAdjust", arb: fc.constantFrom("spacing") },
	gradientTransform: { kind: "attr", attr: "gradientTransform", arb: fc.constantFrom("rotate(4)") },
	pathLength: { kind: "attr", attr: "pathLength", arb: attrValue },
	markerWidth: { kind: "attr", attr: "markerWidth", arb: attrValue },
	refX: { kind: "attr", attr: "refX", arb: attrValue },
	stdDeviation: { kind: "attr", attr: "stdDeviation", arb: attrValue },
	...Object.fromEntries(
		// the SVG attributes written in camelCase
		("attributeName attributeType baseFrequency baseProfile calcMode diffuseConstant edgeMode filterUnits glyphRef kernelMatrix kernelUnitLength " +
			"keyPoints keySplines keyTimes limitingConeAngle markerHeight markerUnits maskContentUnits maskUnits numOctaves patternContentUnits " +
			"patternTransform pointsAtX pointsAtY pointsAtZ preserveAlpha primitiveUnits refY repeatCount repeatDur requiredExtensions requiredFeatures " +
			"specularConstant specularExponent stitchTiles surfaceScale systemLanguage tableValues targetX targetY viewTarget xChannelSelector yChannelSelector zoomAndPan")
			.split(" ")
			.map((n): [string, PropKind] => [n, { kind: "attr", attr: n, arb: fc.constantFrom("1", "x") }]),
	),
	clipPath: { kind: "attr", attr: "clip-path", arb: fc.constantFrom("url(#a)") },
	...Object.fromEntries(
		// presentation attributes of two words and more
		(["fontSizeAdjust font-size-adjust", "colorInterpolationFilters color-interpolation-filters", "glyphOrientationVertical glyph-orientation-vertical",
			"dataFooBar data-foo-bar", "stopColor stop-color", "dominantBaseline dominant-baseline", "strokeDasharray stroke-dasharray"])
			.map((pair) => pair.split(" "))
			.map(([n, attr]): [string, PropKind] => [n, { kind: "attr", attr, arb: fc.constantFrom("1", "x") }]),
	),
	textAnchor: { kind: "attr", attr: "text-anchor", arb: fc.constantFrom("start", "end") },
	x1: { kind: "attr", attr: "x1", arb: attrValue },
	r: { kind: "attr", attr: "r", arb: attrValue },
	d: { kind: "attr", attr: "d", arb: fc.constantFrom("M0 0L1 1", "") },
	dataFoo: { kind: "attr", attr: "data-foo", arb: attrValue },
	ariaLabel: { kind: "attr", attr: "aria-label", arb: attrValue },
	"data-x": { kind: "attr", attr: "data-x", arb: attrValue },
	"xlink:href": { kind: "attr", attr: "xlink:href", arb: fc.constantFrom("#a", "#b") },
};

export const SVG_TAGS = ["g", "circle", "path", "rect", "text", "linearGradient", "use", "clipPath", "defs", "tspan", "symbol", "title", "a", "desc", "style", "image", "filter", "feGaussianBlur", "marker", "mask", "animate", "textPath", "radialGradient", "polygon", "stop", "pattern"];
export const HTML_TAGS = [
	"div",
	"span",
	"p",
	"section",
	"ul",
	"li",
	"button",
	"a",
	"label",
	"input",
	"input:checkbox",
	"textarea",
	"img",
	"progress",
	"td",
	"details",
	"form",
	"ol",
	"time",
	"meter",
	"video",
	"th",
	"blockquote",
	"meta",
	"output",
	"fieldset",
	"dialog",
	"canvas",
	"h2",
	"pre",
	"table",
	"tr",
	"x-unknown",
	"x-verif-props",
];
/** Forms of a tag that are not mixed with its other forms in one history (a control that goes from `value` to `defaultValue`). */
export const LONE_TAGS = ["input:typed", "input:default", "checkbox:default"];
const VOID = new Set(["input", "input:checkbox", ...LONE_TAGS, "img", "textarea", "progress", "meta", "meter", "video"]);

export function propTable(tag: string, svg: boolean): Record<string, PropKind> {
	if (svg) return SVG_COMMON;
	return { ...HTML_COMMON, ...(HTML_BY_TAG[tag] ?? {}) };
}

export function propsArb(tag: string, svg: boolean, max = 4): fc.Arbitrary<PropSpec[]> {
	const table = propTable(tag, svg);
	const common = Object.keys(table);
	const special = svg ? [] : Object.keys(HTML_BY_TAG[tag] ?? {});
	const name = special.length
		? fc.oneof(fc.constantFrom(...special), fc.constantFrom(...common))
		: fc.constantFrom(...common);
	return fc.uniqueArray(
		name.chain((n) => maybe(table[n].arb).map((v) => ({ n, v }))),
		{
			maxLength: max,
			// "class" and "className" name the same thing; keep one per element
			selector: (p) => (p.n === "className" ? "class" : p.n),
		},
	);
}

/* ------------------------------------------------------------------ */
/* views                                                               */
/* ------------------------------------------------------------------ */

export const textArb: fc.Arbitrary<Spec> = fc
	.oneof(
		{ weight: 6, arbitrary: fc.constantFrom<string | number>("a", "b", "hello", "x & <y>", "", " ", " a", "a ", "a\u00a0b", "\u00a0", "a\tb", "&amp;", "<b>b</b>", "\u200b", "\u202e", "\n  ", "a\r\nb", "\r", "0", "é✓", "null", "t:a|t:b") },
		{ weight: 2, arbitrary: fc.string({ maxLength: 8 }) },
		{ weight: 3, arbitrary: fc.constantFrom<string | number>(0, 1, -1, 2.5, Number.NaN, -0, 1e21, Number.POSITIVE_INFINITY) },
	)
	.map((v) => ({ k: "text", v }));

const emptyArb: fc.Arbitrary<Spec> = fc
	.constantFrom<null | undefined | boolean>(null, undefined, true, false)
	.map((v) => ({ k: "empty", v }));
const unknownArb: fc.Arbitrary<Spec> = fc.nat({ max: 2 }).map((v) => ({ k: "unknown", v }));

const keyArb = fc.option(fc.oneof(fc.constantFrom("k1", "k2"), fc.nat({ max: 3 })), {
	nil: undefined,
	freq: 4,
});

export function specArb(depth: number, svg = false): fc.Arbitrary<Spec> {
	const leaf = fc.oneof(
		{ weight: 8, arbitrary: textArb },
		{ weight: 3, arbitrary: emptyArb },
		{ weight: 1, arbitrary: unknownArb },
	);
	if (depth <= 0) return leaf;
	const children = childrenArb(depth - 1, svg);
	return fc.oneof(
		{ weight: 4, arbitrary: leaf },
		{ weight: 9, arbitrary: elementArb(depth, svg) },
		{ weight: 1, arbitrary: children.map((c): Spec => ({ k: "arr", c })) },
		{
			weight: 1,
			arbitrary: fc
				.tuple(children, fc.constantFrom<"jsx" | "jsxs">("jsx", "jsxs"))
				.map(([c, via]): Spec => ({ k: "frag", c, via })),
		},
		{
			weight: 1,
			arbitrary: fc
				.tuple(children, fc.nat({ max: 3 }))
				.map(([c, how]): Spec => ({ k: "comp", c, how })),
		},
	);
}

const cache = new Map<string, fc.Arbitrary<Spec[]>>();
export function childrenArb(depth: number, svg = false, max = 5): fc.Arbitrary<Spec[]> {
	const key = `${depth}/${svg}/${max}`;
	let a = cache.get(key);
	if (!a) {
		a = fc.array(specArb(depth, svg), { maxLength: max, depthIdentifier: key });
		cache.set(key, a);
	}
	return a;
}

export function elementArb(depth: number, svg = false): fc.Arbitrary<Spec> {
	const build = (tag: string, isSvg: boolean, childSvg: boolean, noChildren = false) =>
		fc
			.tuple(
				propsArb(tag, isSvg),
				noChildren ? fc.constant([] as Spec[]) : childrenArb(depth - 1, childSvg),
				keyArb,
			)
			.map(([props, c, key]): Spec => ({ k: "el", tag, props, c, key }));
	if (svg) {
		return fc.oneof(
			{ weight: 8, arbitrary: fc.constantFrom(...SVG_TAGS).chain((t) => build(t, true, true)) },
			{ weight: 2, arbitrary: build("foreignObject", true, false) },
			{ weight: 1, arbitrary: build("svg", true, true) },
		);
	}
	return fc.oneof(
		{
			weight: 14,
			arbitrary: fc.constantFrom(...HTML_TAGS).chain((t) => build(t, false, false, VOID.has(t))),
		},
		{ weight: 2, arbitrary: build("svg", true, true) },
		{ weight: 1, arbitrary: build("slot", false, false) },
		{
			weight: 1,
			arbitrary: selectArb,
		},
	);
}

/** A <select> whose options are given by value/label, with a declared value. */
const optionArb = fc.record({
	value: fc.option(fc.constantFrom<string | number>("", "a", "b", "c", 0, 1), { nil: undefined }),
	label: fc.constantFrom("Choose", "A", "B"),
});
const selectArb: fc.Arbitrary<Spec> = fc
	.tuple(
		fc.uniqueArray(optionArb, { maxLength: 4, selector: (o) => String(o.value ?? o.label) }),
		fc.option(fc.constantFrom<string | number>("", "a", "b", "c", 0, 1, "0"), { nil: undefined }),
		fc.boolean(),
	)
	.map(([options, value, disabled]): Spec => {
		const props: PropSpec[] = [];
		// only declare a value that one of the options carries
		if (value !== undefined && options.some((o) => o.value !== undefined && String(o.value) === String(value))) {
			props.push({ n: "value", v: value });
		}
		if (disabled) props.push({ n: "disabled", v: true });
		return {
			k: "el",
			tag: "select",
			props,
			c: options.map((o) => ({
				k: "el",
				tag: "option",
				props: o.value === undefined ? [] : [{ n: "value", v: o.value }],
				c: [{ k: "text", v: o.label }],
			})),
		};
	});

export const viewArb: fc.Arbitrary<Spec> = fc.oneof(
	{ weight: 6, arbitrary: elementArb(3) },
	{ weight: 2, arbitrary: specArb(3) },
	{ weight: 2, arbitrary: fc.array(specArb(2), { maxLength: 5 }).map((c): Spec => ({ k: "arr", c })) },
	{
		weight: 2,
		arbitrary: fc
			.tuple(fc.array(specArb(2), { maxLength: 5 }))
			.map(([c]): Spec => ({ k: "frag", c, via: "jsxs" })),
	},
);

/* ------------------------------------------------------------------ */
/* mutations: realistic successors of a view                           */
/* ------------------------------------------------------------------ */

export type Mutation = {
	at: number[];
	op:
		| { o: "setText"; v: string | number }
		| { o: "setProp"; which: number; val: number; existing: boolean }
		| { o: "dropProp"; which: number }
		| { o: "append"; s: Spec }
		| { o: "insert"; i: number; s: Spec }
		| { o: "remove"; i: number }
		| { o: "swap"; i: number; j: number }
		| { o: "reverse" }
		| { o: "replace"; s: Spec }
		| { o: "truncate"; n: number }
		| { o: "toggleEmpty"; i: number };
};

const opArb: fc.Arbitrary<Mutation["op"]> = fc.oneof(
	{ weight: 4, arbitrary: fc.record({ o: fc.constant("setText" as const), v: textArb.map((t) => (t as { v: string | number }).v) }) },
	{
		weight: 6,
		arbitrary: fc.record({
			o: fc.constant("setProp" as const),
			which: fc.nat({ max: 40 }),
			val: fc.nat({ max: 119 }),
			existing: fc.boolean(),
		}),
	},
	{ weight: 3, arbitrary: fc.record({ o: fc.constant("dropProp" as const), which: fc.nat({ max: 6 }) }) },
	{ weight: 3, arbitrary: fc.record({ o: fc.constant("append" as const), s: specArb(2) }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("insert" as const), i: fc.nat({ max: 4 }), s: specArb(1) }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("remove" as const), i: fc.nat({ max: 4 }) }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("swap" as const), i: fc.nat({ max: 4 }), j: fc.nat({ max: 4 }) }) },
	{ weight: 1, arbitrary: fc.constant({ o: "reverse" as const }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("replace" as const), s: specArb(2) }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("truncate" as const), n: fc.nat({ max: 3 }) }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("toggleEmpty" as const), i: fc.nat({ max: 4 }) }) },
);

export type FullMutation = Mutation;

export const mutationArb: fc.Arbitrary<FullMutation> = fc.record({
	at: fc.array(fc.nat({ max: 5 }), { maxLength: 4 }),
	op: opArb,
});

// Fixed pools of prop values and selects, indexed by the generated numbers.
const pools = new Map<string, unknown[]>();
function pool(tag: string, svg: boolean, name: string): unknown[] {
	const key = `${svg ? "svg" : tag}/${name}`;
	let values = pools.get(key);
	if (!values) {
		values = fc.sample(maybe(propTable(tag, svg)[name].arb), { seed: 7, numRuns: 80 });
		pools.set(key, values);
	}
	return values;
}
let selects: Spec[] | null = null;
const selectPool = () => {
	selects ??= fc.sample(selectArb, { seed: 7, numRuns: 120 });
	return selects;
};

const hasChildren = (s: Spec): s is Extract<Spec, { c: Spec[] }> =>
	s.k === "arr" || s.k === "frag" || s.k === "comp" || (s.k === "el" && !VOID.has(s.tag) && s.tag !== "select");

export function mutate(view: Spec, m: FullMutation): Spec {
	const clone = structuredCloneSpec(view);
	// walk
	let parent: { c: Spec[] } | null = null;
	let index = 0;
	let node: Spec = clone;
	let svg = false;
	for (const step of m.at) {
		if (!hasChildren(node) || node.c.length === 0) break;
		if (node.k === "el") {
			if (node.tag === "svg") svg = true;
			else if (node.tag === "foreignObject") svg = false;
		}
		parent = node;
		index = step % node.c.length;
		node = node.c[index];
	}
	const isSvgEl = node.k === "el" && (svg || node.tag === "svg");
	const childSvg = node.k === "el" ? (isSvgEl && node.tag !== "foreignObject") : svg;
	const put = (s: Spec) => {
		if (parent) parent.c[index] = s;
		else return s;
		return clone;
	};
	const fit = (s: Spec, inSvg: boolean): Spec => (inSvg ? svgify(s) : s);
	const op = m.op;
	switch (op.o) {
		case "setText":
			if (node.k === "text") node.v = op.v;
			else if (hasChildren(node)) {
				const t = node.c.find((c) => c.k === "text");
				if (t && t.k === "text") t.v = op.v;
				else node.c.push({ k: "text", v: op.v });
			}
			return clone;
		case "setProp": {
			if (node.k !== "el" || node.tag === "option") return clone;
			if (node.tag === "select") {
				const other = selectPool()[op.val % selectPool().length] as typeof node;
				if (!op.existing) return put(other);
				// keep the options, declare another of their values (or none)
				const values = node.c.flatMap((o) => (o as typeof node).props.map((p) => p.v));
				node.props = node.props.filter((p) => p.n !== "value");
				if (values.length && op.which % 5) node.props.push({ n: "value", v: values[op.which % values.length] });
				return clone;
			}
			const names =
				op.existing && node.props.length
					? node.props.map((p) => p.n)
					: Object.keys(propTable(node.tag, isSvgEl));
			const n = names[op.which % names.length];
			const values = pool(node.tag, isSvgEl, n);
			const seed = { n, v: values[op.val % values.length] };
			const i = node.props.findIndex((p) => p.n === n || (isClass(p.n) && isClass(n)));
			if (i >= 0) node.props[i] = seed;
			else node.props.splice(op.val % (node.props.length + 1), 0, seed);
			return clone;
		}
		case "dropProp":
			if (node.k === "el" && node.tag !== "select" && node.props.length)
				node.props.splice(op.which % node.props.length, 1);
			return clone;
		case "append":
			if (hasChildren(node)) node.c.push(fit(op.s, childSvg));
			return clone;
		case "insert":
			if (hasChildren(node)) node.c.splice(op.i % (node.c.length + 1), 0, fit(op.s, childSvg));
			return clone;
		case "remove":
			if (hasChildren(node) && node.c.length) node.c.splice(op.i % node.c.length, 1);
			return clone;
		case "swap":
			if (hasChildren(node) && node.c.length > 1) {
				const a = op.i % node.c.length;
				const b = op.j % node.c.length;
				[node.c[a], node.c[b]] = [node.c[b], node.c[a]];
			}
			return clone;
		case "reverse":
			if (hasChildren(node)) node.c.reverse();
			return clone;
		case "replace":
			return put(fit(op.s, svg));
		case "truncate":
			if (hasChildren(node)) node.c.length = Math.min(node.c.length, op.n);
			return clone;
		case "toggleEmpty":
			if (hasChildren(node) && node.c.length) {
				const i = op.i % node.c.length;
				node.c[i] =
					node.c[i].k === "empty" ? { k: "text", v: "now" } : { k: "empty", v: false };
			}
			return clone;
	}
}

const isClass = (n: string) => n === "class" || n === "className";

function svgify(s: Spec): Spec {
	switch (s.k) {
		case "el":
			if (s.tag === "svg") return s;
			return { k: "el", tag: "g", props: s.props.filter((p) => p.n in SVG_COMMON && p.n !== "style"), c: s.c.map(svgify) };
		case "arr":
		case "frag":
		case "comp":
			return { ...s, c: s.c.map(svgify) };
		default:
			return s;
	}
}

function structuredCloneSpec(s: Spec): Spec {
	if (s.k === "el") return { ...s, props: [...s.props], c: s.c.map(structuredCloneSpec) };
	if (s.k === "arr" || s.k === "frag" || s.k === "comp") return { ...s, c: s.c.map(structuredCloneSpec) };
	return { ...s };
}

/** A history of views: a first view, then successors by mutation or from scratch. */
export const historyArb = (maxLen: number): fc.Arbitrary<Spec[]> =>
	fc
		.tuple(
			viewArb,
			fc.array(
				fc.oneof(
					{ weight: 7, arbitrary: fc.array(mutationArb, { minLength: 0, maxLength: 3 }).map((m) => ({ m })) },
					{ weight: 1, arbitrary: viewArb.map((v) => ({ v })) },
					{ weight: 1, arbitrary: fc.nat({ max: 4 }).map((back) => ({ back })) },
				),
				{ minLength: 1, maxLength: maxLen },
			),
		)
		.map(([first, steps]) => {
			const out: Spec[] = [first];
			for (const step of steps as Array<{ m?: FullMutation[]; v?: Spec; back?: number }>) {
				if (step.v) out.push(step.v);
				else if (step.back !== undefined) out.push(out[Math.max(0, out.length - 1 - step.back)]);
				else out.push((step.m ?? []).reduce(mutate, out[out.length - 1]));
			}
			return out;
		});

/** One element whose props go through a history; few prop names, many values. */
export const propHistoryArb: fc.Arbitrary<Spec[]> = fc
	.oneof(
		{ weight: 4, arbitrary: fc.constantFrom(...HTML_TAGS, "input:default", "checkbox:default").map((tag) => ({ tag, svg: false })) },
		{ weight: 1, arbitrary: fc.constantFrom(...SVG_TAGS).map((tag) => ({ tag, svg: true })) },
		{ weight: 1, arbitrary: fc.constant({ tag: "select", svg: false }) },
	)
	.chain(({ tag, svg }) => {
		if (tag === "select") {
			return fc.array(selectArb, { minLength: 2, maxLength: 6 });
		}
		const all = Object.keys(propTable(tag, svg)).filter((n) => n !== "className");
		const own = svg ? [] : Object.keys(HTML_BY_TAG[tag] ?? {});
		return fc
			.uniqueArray(fc.constantFrom(...all, "style", ...own, ...own), { minLength: 1, maxLength: 3 })
			.chain((names) =>
				fc.array(
					fc
						.tuple(
							...names.map((n) =>
								fc.option(
									fc.tuple(
										maybe(propTable(tag, svg)[n].arb),
										n === "class" ? fc.constantFrom("class", "className") : fc.constant(n),
									),
									{ nil: null, freq: 4 },
								),
							),
						)
						.map((vals): Spec => {
							const el: Spec = {
								k: "el",
								tag,
								props: vals.flatMap((v) => (v ? [{ n: v[1] as string, v: v[0] }] : [])),
								c: [],
							};
							return svg ? { k: "el", tag: "svg", props: [], c: [el] } : el;
						}),
					{ minLength: 2, maxLength: 6 },
				),
			);
	});

/** A control whose declared value its declared type and limits may not admit, in any order. */
export const typedInputArb: fc.Arbitrary<Spec[]> = (() => {
	const table = HTML_BY_TAG["input:typed"];
	const names = ["type", "min", "max", "step", "value"];
	const one = fc
		.tuple(
			fc.tuple(
				...names.map((n) =>
					n === "type" || n === "value"
						? table[n].arb.map((v): PropSpec | null => ({ n, v }))
						: fc.option(table[n].arb.map((v): PropSpec => ({ n, v })), { nil: null, freq: 2 }),
				),
			),
			fc.shuffledSubarray(names, { minLength: 5, maxLength: 5 }),
			fc.nat({ max: 3 }),
		)
		.map(([props, order, keep]) => ({ props: Object.fromEntries(props.flatMap((p) => (p ? [[p.n, p]] : []))), order, keep }));
	return fc.array(one, { minLength: 1, maxLength: 6 }).map((list) => {
		let value: PropSpec | null = null;
		return list.map(({ props, order, keep }): Spec => {
			// often the value stays while the type or limits change
			if (!value || keep === 0) value = props.value;
			const all: Record<string, PropSpec> = { ...props, value };
			return { k: "el", tag: "input:typed", props: order.flatMap((n) => (all[n] ? [all[n]] : [])), c: [] };
		});
	});
})();

/** Every prop of every element alone: all pairs of a few of its values and its absence. */
export function propTransitions(): Spec[][] {
	const out: Spec[][] = [];
	const add = (tag: string, svg: boolean, n: string) => {
		const values: unknown[] = [];
		for (const v of pool(tag, svg, n)) {
			// what a custom element is given counts by identity
			const same = (w: unknown) => (n === "payload" ? Object.is(w, v) : fc.stringify(w) === fc.stringify(v));
			if (values.length < (n === "payload" ? 11 : 6) && !values.some(same)) values.push(v);
		}
		const el = (props: PropSpec[]): Spec => {
			const e: Spec = { k: "el", tag, props, c: [] };
			return svg ? { k: "el", tag: "svg", props: [], c: [e] } : e;
		};
		const states = [el([]), ...values.map((v) => el([{ n, v }]))];
		for (let i = 0; i < states.length; i++)
			for (let j = 0; j < states.length; j++) if (i !== j) out.push([states[i], states[j]]);
	};
	for (const n of Object.keys(SVG_COMMON)) add("g", true, n);
	for (const n of Object.keys(HTML_COMMON)) add("div", false, n);
	for (const [tag, own] of Object.entries(HTML_BY_TAG))
		if (tag !== "input:typed") for (const n of Object.keys(own)) add(tag, false, n);
	return out;
}

/** Child lists over a small alphabet, so that kinds, tags and orders collide often. */
export const childHistoryArb: fc.Arbitrary<Spec[]> = (() => {
	const item: fc.Arbitrary<Spec> = fc.oneof(
		{ weight: 4, arbitrary: fc.constantFrom("a", "b", "c").map((v): Spec => ({ k: "text", v })) },
		{ weight: 1, arbitrary: fc.constantFrom<Spec>({ k: "empty", v: null }, { k: "unknown", v: 0 }) },
		{
			weight: 6,
			arbitrary: fc
				.tuple(
					fc.constantFrom("p", "li", "span"),
					fc.array(fc.constantFrom("a", "b", "c"), { maxLength: 2 }),
					fc.option(fc.constantFrom("1", "2"), { nil: undefined }),
					fc.option(fc.constantFrom("k1", "k2"), { nil: undefined }),
				)
				.map(
					([tag, texts, id, key]): Spec => ({
						k: "el",
						tag,
						props: id ? [{ n: "id", v: id }] : [],
						c: texts.map((v) => ({ k: "text", v })),
						key,
					}),
				),
		},
	);
	const list = fc.array(item, { maxLength: 5 });
	return fc
		.tuple(
			list,
			fc.array(
				fc.oneof(
					{ weight: 2, arbitrary: list.map((l) => ({ l })) },
					{ weight: 2, arbitrary: fc.array(fc.nat({ max: 5 }), { maxLength: 6 }).map((perm) => ({ perm })) },
					{ weight: 1, arbitrary: fc.array(item, { maxLength: 3 }).map((app) => ({ app })) },
				),
				{ minLength: 1, maxLength: 6 },
			),
			fc.boolean(),
		)
		.map(([first, steps, nested]) => {
			const lists: Spec[][] = [first];
			for (const s of steps as Array<{ l?: Spec[]; perm?: number[]; app?: Spec[] }>) {
				const prev = lists[lists.length - 1];
				if (s.l) lists.push(s.l);
				else if (s.app) lists.push([...prev, ...s.app]);
				else lists.push((s.perm ?? []).filter((i) => i < prev.length).map((i) => prev[i]));
			}
			return lists.map((c): Spec => (nested ? { k: "el", tag: "ul", props: [], c } : { k: "arr", c }));
		});
})();

/** elements with many props and styles, among children wrapped in many layers of lists, fragments and components */
export const wideHistoryArb: fc.Arbitrary<Spec[]> = fc
	.record({ props: fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 1, max: 40 }) }, { weight: 1, arbitrary: fc.integer({ min: 80, max: 160 }) }), styles: fc.integer({ min: 0, max: 24 }), svg: fc.boolean() })
	.chain(({ props, styles, svg }) => {
		const slots = (n: number) => fc.array(fc.option(fc.nat({ max: 2 }), { nil: null, freq: 3 }), { minLength: n, maxLength: n });
		const cls = fc.option(fc.constantFrom<unknown>("a", "b", "", null), { nil: undefined, freq: 2 });
		const view = fc
			.record({
				values: slots(props),
				style: slots(styles),
				cls: fc.tuple(cls, cls, fc.boolean()),
				layers: fc.array(fc.constantFrom<"arr" | "frag" | "comp">("arr", "arr", "frag", "comp"), { maxLength: 14 }),
				items: fc.array(fc.constantFrom("a", "b", "c"), { maxLength: 4 }),
				tail: fc.boolean(),
			})
			.map(({ values, style, cls, layers, items, tail }): Spec => {
				const list: PropSpec[] = values.flatMap((v, i) => (v === null ? [] : [{ n: `data-p${i}`, v: `v${v}` }]));
				const css = style.flatMap((v, i) => (v === null ? [] : [[`--s${i}`, `w${v}`]]));
				if (styles) list.splice(values[0] ?? 0, 0, { n: "style", v: Object.fromEntries(css) });
				// both names of the class: the later one counts
				for (const n of cls[2] ? ["class", "className"] : ["className", "class"]) {
					const v = cls[n === "class" ? 0 : 1];
					if (v !== undefined) list.push({ n, v });
				}
				let inner: Spec[] = items.map((v, i): Spec => (i % 2 ? { k: "text", v } : { k: "el", tag: svg ? "g" : "p", props: [], c: [{ k: "text", v }] }));
				layers.forEach((k, i) => {
					const layer: Spec = k === "arr" ? { k, c: inner } : k === "frag" ? { k, c: inner, via: i % 2 ? "jsx" : "jsxs" } : { k, c: inner, how: i % 4 };
					inner = tail && i % 3 === 0 ? [layer, { k: "text", v: `t${i}` }] : [layer];
				});
				return { k: "el", tag: svg ? "svg" : "div", props: list, c: inner };
			});
		return fc.array(view, { minLength: 2, maxLength: 5 });
	});

/** a few views of hundreds of items, of great depth, or with much text */
export const bigHistoryArb: fc.Arbitrary<Spec[]> = fc
	.record({
		shape: fc.constantFrom("items", "keyed", "texts", "rows", "fragments"),
		size: fc.oneof({ weight: 12, arbitrary: fc.integer({ min: 30, max: 320 }) }, { weight: 1, arbitrary: fc.integer({ min: 600, max: 1500 }) }),
		depth: fc.oneof(fc.constant(0), fc.integer({ min: 1, max: 8 }), fc.integer({ min: 20, max: 120 })),
		length: fc.constantFrom(1, 1, 300, 20_000),
		steps: fc.array(
			fc.record({
				op: fc.constantFrom("grow", "cut", "drop", "edit", "swap", "reverse", "rotate", "insert", "prepend", "sparse", "clear"),
				at: fc.nat({ max: 319 }),
				by: fc.integer({ min: 1, max: 150 }),
			}),
			{ minLength: 1, maxLength: 4 },
		),
	})
	.map(({ shape, size, depth, length, steps }) => {
		let next = size;
		let list = Array.from({ length: size }, (_, i) => ({ id: i, text: `t${i}` }));
		const lists = [list];
		for (const s of steps) {
			const fresh = (n: number) => Array.from({ length: n }, () => ({ id: next++, text: `n${next}` }));
			const at = list.length ? s.at % list.length : 0;
			list = [...list];
			switch (s.op) {
				case "grow":
					list.push(...fresh(s.by));
					break;
				case "prepend":
					list.unshift(...fresh(s.by));
					break;
				case "insert":
					list.splice(at, 0, ...fresh(s.by));
					break;
				case "cut":
					list.length = at;
					break;
				case "drop":
					list.splice(at, s.by);
					break;
				case "edit":
					list = list.map((x, i) => (i % s.by === at % s.by ? { ...x, text: `e${i}` } : x));
					break;
				case "swap":
					if (list.length) [list[0], list[at]] = [list[at], list[0]];
					break;
				case "reverse":
					list.reverse();
					break;
				case "rotate":
					list = [...list.slice(at), ...list.slice(0, at)];
					break;
				case "sparse":
					list = list.filter((_, i) => i % (s.by + 1) !== at % (s.by + 1));
					break;
				case "clear":
					list = [];
			}
			lists.push(list);
		}
		const long = "lorem é✓ <b>&amp; ".repeat(Math.ceil(length / 17)).slice(0, length);
		const item = (x: { id: number; text: string }): Spec => {
			const text: Spec = { k: "text", v: x.text };
			switch (shape) {
				case "texts":
					return text;
				case "rows":
					return {
						k: "el",
						tag: "p",
						props: [
							{ n: "id", v: `r${x.id}` },
							{ n: "data-x", v: x.text },
							{ n: "className", v: x.id % 3 ? "odd" : "even" },
						],
						c: [{ k: "el", tag: "span", props: [], c: [text] }, text],
						key: x.id,
					};
				case "fragments":
					return { k: "frag", via: "jsxs", c: [text, { k: "el", tag: "span", props: [{ n: "title", v: x.text }], c: [] }] };
				default:
					return { k: "el", tag: "li", props: [{ n: "id", v: `i${x.id}` }], c: [text], key: shape === "keyed" ? x.id : undefined };
			}
		};
		return lists.map((l): Spec => {
			let view: Spec = { k: "el", tag: "ul", props: [{ n: "title", v: long }], c: [...l.map(item), ...(length > 1 ? [{ k: "text", v: long } as Spec] : [])] };
			for (let d = 0; d < depth; d++) view = { k: "el", tag: d % 3 ? "div" : "section", props: d % 5 ? [] : [{ n: "title", v: `d${d}-${l.length}` }], c: d % 4 ? [view] : [{ k: "text", v: `d${d}` }, view] };
			return view;
		});
	});

/* ------------------------------------------------------------------ */
/* spec -> JSX                                                         */
/* ------------------------------------------------------------------ */

export type JsxApi = {
	jsx: (type: any, props: any, key?: any) => any;
	jsxs: (type: any, props: any, key?: any) => any;
	jsxDEV?: (type: any, props: any, key?: any, ...rest: any[]) => any;
	Fragment: unknown;
};

const UNKNOWNS: unknown[] = [{ some: "object" }, () => "fn", new Date(0)];

const isCheckbox = (tag: string) => tag === "input:checkbox" || tag === "checkbox:default";

export function realTag(tag: string): string {
	return tag === "input:checkbox" || LONE_TAGS.includes(tag) ? "input" : tag;
}

export function toJsx(api: JsxApi, s: Spec): any {
	switch (s.k) {
		case "text":
		case "empty":
			return s.v;
		case "unknown":
			return UNKNOWNS[s.v];
		case "arr":
			return s.c.map((c) => toJsx(api, c));
		case "frag": {
			const kids = s.c.map((c) => toJsx(api, c));
			return s.via === "jsxs"
				? api.jsxs(api.Fragment, { children: kids })
				: api.jsx(api.Fragment, { children: kids.length === 1 ? kids[0] : kids });
		}
		case "comp": {
			const kids = s.c.map((c) => toJsx(api, c));
			if (s.how === 0) return api.jsx(() => kids, {});
			if (s.how === 1) return api.jsx((p: any) => p.children, { children: kids });
			if (s.how === 2)
				return api.jsx((p: any) => api.jsxs(api.Fragment, { children: p.items }), { items: kids });
			return api.jsx(
				(p: any) => api.jsx((q: any) => q.children, { children: p.children }),
				{ children: kids },
			);
		}
		case "el": {
			const props: Record<string, unknown> = {};
			if (isCheckbox(s.tag)) props.type = "checkbox";
			for (const p of s.props) props[p.n] = p.v;
			const kids = s.c.map((c) => toJsx(api, c));
			if (kids.length === 1) props.children = kids[0];
			else if (kids.length > 1) props.children = kids;
			return (kids.length > 1 ? api.jsxs : api.jsx)(realTag(s.tag), props, s.key);
		}
	}
}

/* ------------------------------------------------------------------ */
/* DOM observation                                                     */
/* ------------------------------------------------------------------ */

export type Snap =
	| { t: "#text"; v: string }
	| { t: "#comment" }
	| {
			t: string;
			ns: string;
			a: Record<string, string>;
			s: Record<string, string>;
			p: Record<string, unknown>;
			c: Snap[];
	  };

export function styleMap(el: Element): Record<string, string> {
	const style = (el as HTMLElement).style;
	const out: Record<string, string> = {};
	if (!style) return out;
	for (let i = 0; i < style.length; i++) {
		out[style[i]] = style.getPropertyValue(style[i]);
	}
	return sorted(out);
}

const sorted = <T>(o: Record<string, T>): Record<string, T> =>
	Object.fromEntries(Object.entries(o).sort(([a], [b]) => (a < b ? -1 : a > b ? 1 : 0)));

const payloadId = (v: unknown) => {
	const i = PAYLOADS.indexOf(v as object);
	return i >= 0 ? `payload#${i}` : v;
};

export function liveProps(el: Element): Record<string, unknown> {
	const tag = el.localName;
	if (el.namespaceURI !== HTML_NS) return {};
	const e = el as any;
	switch (tag) {
		case "input":
			return { value: e.type === "checkbox" ? null : e.value, checked: e.checked, indeterminate: e.indeterminate };
		case "textarea":
			return { value: e.value };
		case "select":
			return { value: e.value, selectedIndex: e.selectedIndex };
		case "option":
			return { value: e.value };
		case "x-verif-props":
			return { payload: payloadId(e.payload) };
		default:
			return {};
	}
}

export function snapNode(node: Node): Snap {
	if (node.nodeType === 3) return { t: "#text", v: node.nodeValue ?? "" };
	if (node.nodeType === 8) return { t: "#comment" };
	const el = node as Element;
	const a: Record<string, string> = {};
	for (const attr of Array.from(el.attributes)) {
		if (attr.name === "style") continue;
		a[attr.name] = attr.value;
	}
	return {
		t: el.localName,
		ns: el.namespaceURI ?? "",
		a: sorted(a),
		s: styleMap(el),
		p: liveProps(el),
		c: snapChildren(el),
	};
}

export const snapChildren = (parent: Node): Snap[] => Array.from(parent.childNodes).map(snapNode);

/** What a user can see: placeholders (comments) and text node boundaries are not. */
export function visible(list: Snap[]): Snap[] {
	const out: Snap[] = [];
	for (const s of list) {
		if (s.t === "#comment") continue;
		if (s.t === "#text") {
			const text = (s as { v: string }).v;
			const last = out[out.length - 1];
			if (last?.t === "#text") out[out.length - 1] = { t: "#text", v: (last as { v: string }).v + text };
			else if (text !== "") out.push(s);
			continue;
		}
		out.push(s);
	}
	return out;
}

/** First visible difference between two lists of DOM nodes, or null. */
export function diffSnaps(a0: Snap[], b0: Snap[], where = ""): string | null {
	const a = visible(a0);
	const b = visible(b0);
	if (a.length !== b.length) return `${where || "root"}: ${a.length} vs ${b.length} children`;
	for (let i = 0; i < a.length; i++) {
		const x = a[i];
		const y = b[i];
		const at = `${where}/${i}<${x.t}>`;
		if (x.t !== y.t) return `${at}: ${x.t} vs ${y.t}`;
		if (x.t === "#text" || x.t === "#comment") {
			if ((x as any).v !== (y as any).v) return `${at}: text ${JSON.stringify((x as any).v)} vs ${JSON.stringify((y as any).v)}`;
			continue;
		}
		const ex = x as Extract<Snap, { c: Snap[] }>;
		const ey = y as Extract<Snap, { c: Snap[] }>;
		if (ex.ns !== ey.ns) return `${at}: namespace ${ex.ns} vs ${ey.ns}`;
		for (const part of ["a", "s", "p"] as const) {
			const sx = fc.stringify(ex[part]);
			const sy = fc.stringify(ey[part]);
			if (sx !== sy)
				return `${at}: ${part === "a" ? "attributes" : part === "s" ? "style" : "properties"} ${sx} vs ${sy}`;
		}
		const inner = diffSnaps(ex.c, ey.c, at);
		if (inner) return inner;
	}
	return null;
}

/* ------------------------------------------------------------------ */
/* reference model: what DOM a view denotes                            */
/* ------------------------------------------------------------------ */

export function expectedSnaps(s: Spec, svg = false): Snap[] {
	switch (s.k) {
		case "text":
			return [{ t: "#text", v: String(s.v) }];
		case "empty":
		case "unknown":
			return [{ t: "#comment" }];
		case "arr":
		case "frag":
		case "comp":
			return s.c.flatMap((c) => expectedSnaps(c, svg));
		case "el":
			return [expectedElement(s, svg)];
	}
}

const off = (v: unknown) => v === null || v === undefined || v === false;

function expectedElement(s: Extract<Spec, { k: "el" }>, svg: boolean): Snap {
	const isSvg = svg || s.tag === "svg";
	const tag = realTag(s.tag);
	const a: Record<string, string> = {};
	let style: Record<string, string> = {};
	const p: Record<string, unknown> = {};
	if (!isSvg) {
		if (tag === "input") Object.assign(p, { value: isCheckbox(s.tag) ? null : "", checked: false, indeterminate: false });
		if (tag === "textarea") p.value = "";
		if (tag === "x-verif-props") p.payload = undefined;
		if (isCheckbox(s.tag)) a.type = "checkbox";
	}
	const table: Record<string, PropKind> =
		tag === "select"
			? { disabled: { kind: "bool", attr: "disabled", arb: bool }, value: { kind: "ignored", arb: bool } }
			: tag === "option"
				? { value: { kind: "string", attr: "value", arb: bool } }
				: propTable(s.tag, isSvg);
	for (const { n, v } of s.props) {
		const k: PropKind = table[n] ?? (n.startsWith("data-") ? { kind: "attr", attr: n, arb: bool } : undefined);
		switch (k.kind) {
			case "ignored":
				break;
			case "class": {
				const c = off(v) ? "" : String(v);
				if (c) a.class = c;
				else delete a.class;
				break;
			}
			case "style":
				style = expectedStyle(v);
				break;
			case "bool":
				if (!off(v) && v) a[k.attr] = "";
				break;
			case "live":
				if (!off(v)) p[k.prop] = payloadId(v);
				break;
			case "string":
			case "number":
			case "attr":
				if (!off(v)) a[k.attr] = String(v);
				break;
		}
	}
	if (tag === "input" && !isCheckbox(s.tag)) {
		// the value the DOM keeps, given the declared type and limits
		const probe = document.createElement("input");
		for (const n of ["type", "min", "max", "step", "multiple", "value"]) if (n in a) probe.setAttribute(n, a[n]);
		if (s.props.some((q) => q.n === "value" && !off(q.v))) probe.value = String(p.value);
		p.value = probe.value;
	}
	if (tag === "textarea") p.value = String(p.value);
	if (s.tag === "checkbox:default") p.checked = "checked" in a;
	const childSvg = isSvg && s.tag !== "foreignObject";
	const c = s.c.flatMap((x) => expectedSnaps(x, childSvg));
	if (tag === "select") {
		const values = s.c.map((o) => {
			const el = o as Extract<Spec, { k: "el" }>;
			return el.props.length ? String(el.props[0].v) : String((el.c[0] as { v: unknown }).v);
		});
		const declared = s.props.find((q) => q.n === "value");
		const idx = declared ? values.indexOf(String(declared.v)) : values.length ? 0 : -1;
		p.value = idx >= 0 ? values[idx] : "";
		p.selectedIndex = idx;
	}
	if (tag === "option") {
		p.value = a.value ?? (c[0] as { v: string })?.v;
	}
	return { t: tag, ns: isSvg ? SVG_NS : HTML_NS, a: sorted(a), s: style, p, c };
}

function expectedStyle(v: unknown): Record<string, string> {
	const probe = document.createElement("div");
	if (off(v)) return {};
	if (typeof v === "string") {
		probe.setAttribute("style", v);
		return styleMap(probe);
	}
	for (const [key, value] of Object.entries(v as Record<string, unknown>)) {
		if (value === null || value === undefined) continue;
		probe.style.setProperty(STYLE_KEYS[key]?.css ?? key, String(value));
	}
	return styleMap(probe);
}

/** Size measure used for "non-trivial" rules. */
export function countElements(s: Spec): number {
	switch (s.k) {
		case "el":
			return 1 + s.c.reduce((n, c) => n + countElements(c), 0);
		case "arr":
		case "frag":
		case "comp":
			return s.c.reduce((n, c) => n + countElements(c), 0);
		default:
			return 0;
	}
}

export function flatten(s: Spec): Spec[] {
	if (s.k === "arr" || s.k === "frag" || s.k === "comp") return s.c.flatMap(flatten);
	return [s];
}
