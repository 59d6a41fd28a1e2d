import { logs, resetDom, uniqueTag, windowErrors } from "../lib/dom";
import { createSlice } from "@reduxjs/toolkit";
import { html, nothing } from "lit-html";
import { jsx, jsxs, Fragment } from "repo:jsx/index";
import { defineIgniteConfig, loadIgniteConfig, setGlobalStyles } from "repo:index";
import { igniteCore } from "repo:redux";
import "repo:renderers/lit";
import { ensure, ensureEqual, fc, runCheck, show } from "../lib/runner";

type Style = string | { href: string; integrity?: string; crossOrigin?: string };
type Value = { ok: boolean; v: Style };

const seg = fc.constantFrom("a", "theme", "dist/x", "../up", "https://cdn.example/x", "é", "a b", "v1.css.d", "x.js", "p?q.css/z", "h#i");
const validString = fc
	.tuple(
		fc.constantFrom("/", "./", "", "//host/"),
		fc.constantFrom("a", "theme", "dist/x", "é", "a b", "v1.css.d", "x.js", "deep/er/path", "https://cdn.example/x"),
		fc.constantFrom(".css", ".scss"),
		fc.constantFrom("", "?v=1", "#h", "?v=1#h", "?f=x.txt", "#a?b", "?v=1?2"),
		fc.constantFrom("", "", " ", "\n"),
		fc.constantFrom("", "", " "),
	)
	.map(([a, b, ext, q, end, start]): Value => ({ ok: true, v: `${start}${a}${b}${ext}${q}${end}` }));
const invalidString = fc
	.tuple(seg, fc.constantFrom(".txt", "", ".js?x=a.css", ".css.map", "#b.css", "?.scss", "css", ".less", ".css/", "body{color:red}"))
	.map(([a, b]): Value => ({ ok: false, v: `/${a.replace(/[?#].*/, "")}${b}` }));
const objectStyle = fc
	.record(
		{
			href: fc.oneof(validString.map((x) => (x.v as string).trim()), fc.constantFrom("https://fonts.example/css2?family=Inter", "/style")),
			integrity: fc.constantFrom("sha384-abc", "sha256-x sha512-y", "md5-x", "SHA512-Q", "0"),
			crossOrigin: fc.constantFrom("anonymous", "use-credentials", ""),
		},
		{ requiredKeys: ["href"] },
	)
	.map((v): Value => ({ ok: true, v }));
const invalidOther = fc
	.constantFrom<any>({}, { integrity: "sha384-abc" }, { href: undefined }, { href: null }, { href: 5 }, { href: "" }, { href: ["/a.css"] }, 42, true, () => "/a.css")
	.map((v): Value => ({ ok: false, v }));
const validArb = fc.oneof(validString, objectStyle);
const valueArb = fc.oneof({ weight: 5, arbitrary: validArb }, { weight: 1, arbitrary: invalidString }, { weight: 1, arbitrary: invalidOther });

type Op =
	| { o: "set"; val: Value | null }
	| { o: "array" }
	| { o: "define"; val: Value | null; alias: boolean }
	| { o: "load"; val: Value | null; alias: boolean }
	| { o: "create"; kind: number; connect: boolean; parser: boolean }
	| { o: "connect"; i: number }
	| { o: "remove"; i: number }
	| { o: "move"; i: number }
	| { o: "send"; i: number; n: number };
const idx = fc.nat({ max: 9 });
const opArb: fc.Arbitrary<Op> = fc.oneof(
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("set" as const), val: fc.option(valueArb) }) },
	{ weight: 1, arbitrary: fc.constant<Op>({ o: "array" }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("define" as const), val: fc.option(valueArb), alias: fc.boolean() }) },
	{ weight: 3, arbitrary: fc.record({ o: fc.constant("load" as const), val: fc.option(valueArb, { freq: 4 }), alias: fc.boolean() }) },
	{ weight: 6, arbitrary: fc.record({ o: fc.constant("create" as const), kind: fc.nat({ max: 4 }), connect: fc.boolean(), parser: fc.boolean() }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("connect" as const), i: idx }) },
	{ weight: 2, arbitrary: fc.record({ o: fc.constant("remove" as const), i: idx }) },
	{ weight: 1, arbitrary: fc.record({ o: fc.constant("move" as const), i: idx }) },
	{ weight: 4, arbitrary: fc.record({ o: fc.constant("send" as const), i: idx, n: fc.nat({ max: 5 }) }) },
);

const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { set: (_s: { n: number }, a: { payload: number }) => ({ n: a.payload }) } });

/** views whose whole shape changes with the state */
function jsxView(n: number): any {
	switch (n % 6) {
		case 0:
			return jsx("p", { children: "zero" });
		case 1:
			return null;
		case 2:
			return jsxs(Fragment, { children: [jsx("link", { rel: "prefetch", href: "/own" }), "text"] });
		case 3:
			return [jsx("i", { children: "a" }, "a"), jsx("b", { children: "b" }, "b")];
		case 4:
			return [jsx("b", { children: "b" }, "b")];
		default:
			return "text";
	}
}
function litView(n: number): any {
	switch (n % 6) {
		case 0:
			return html`<p>zero</p>`;
		case 1:
			return nothing;
		case 2:
			return html`<link rel="prefetch" href="/own" />text`;
		case 3:
			return html`<i>a</i><b>b</b>`;
		case 4:
			return html`${[1, 2].map((x) => html`<b>${x}</b>`)}`;
		default:
			return html`text`;
	}
}

interface El {
	host: Element;
	send?: (e: unknown) => void;
	/** links it must have, or null while either is possible */
	link: Style | "none" | null;
	/** created while nothing was configured and not styled yet */
	pending: boolean;
	connected: boolean;
	everConnected: boolean;
	/** a configuration was loaded while it was out of the document */
	due: boolean;
	/** a valid style was loaded before it was ever in the document: it has a link once it is */
	must: boolean;
	n: number;
}

const attrs = (s: Style) =>
	typeof s === "string"
		? { href: s, integrity: null, crossorigin: null }
		: { href: s.href, integrity: s.integrity ?? null, crossorigin: s.crossOrigin ?? null };
const linksOf = (host: Element) =>
	[...(host.shadowRoot?.querySelectorAll('link[rel="stylesheet"]') ?? [])].map((l) => ({
		href: l.getAttribute("href"),
		// jsdom reflects only some of these properties as attributes
		integrity: l.getAttribute("integrity") ?? (l as any).integrity ?? null,
		crossorigin: l.getAttribute("crossorigin") ?? (l as any).crossOrigin ?? null,
	}));

const KINDS = ["jsx", "jsx-replace", "lit", "jsx", "lit"];

runCheck(
	"C14",
	{
		level: "exploration",
		rule: "random orders of setting styles (valid and invalid strings and objects, arrays, other values), defining and loading configurations, creating, connecting, moving, removing and re-rendering elements with both renderers; after each step every shadow root's stylesheet links are compared with the model; non-trivial: an element has a link and rendered again, or got its link by a later load",
		assumptions: ["an element keeps the first stylesheet it was given; whether elements restyle when the configuration changes later is not asserted", "a stylesheet set without loading a configuration may or may not reach elements created before"],
	},
	async (check) => {
		const tags = new Map<string, string>();
		const renders = new WeakMap<Element, any>();
		const tagFor = (kind: string) => {
			let tag = tags.get(kind);
			if (!tag) {
				tag = uniqueTag("x-sty");
				defineIgniteConfig({ renderer: kind === "lit" ? "lit" : "ignite-jsx" });
				igniteCore({ source: slice, commands: ({ host }: any) => ({ me: () => host }) } as any)(tag, ((args: any) => {
						renders.set(args.me(), args);
					return kind === "lit" ? litView(args.state.s.n) : jsxView(args.state.s.n);
				}) as any);
				tags.set(kind, tag);
			}
			return tag;
		};
		await check.prop(
			"histories",
			fc.array(opArb, { minLength: 2, maxLength: 14 }),
			{ quick: 8000, thorough: 80000, before: resetDom, after: () => setGlobalStyles(undefined) },
			async (ops, c) => {
				setGlobalStyles(undefined);
				defineIgniteConfig({});
				let current: Value | null = null;
				const els: El[] = [];
				const parent = [document.createElement("div"), document.createElement("section")];
				document.body.append(...parent);
				let interesting = false;

				const styled = (e: El) => {
					// the element is given the current styles, if there are any
					if (!e.pending || !current) return;
					e.pending = false;
					e.link = current.ok ? current.v : "none";
				};

				/** set but perhaps not loaded since it was created: it may get the link now */
				const unsure = (e: El) => {
					if (!e.pending || !current) return;
					e.link = null;
					if (!current.ok) e.pending = false;
				};

				for (const op of ops) {
					logs.length = 0;
					switch (op.o) {
						case "set":
							setGlobalStyles(op.val?.v);
							current = op.val;
							break;
						case "array": {
							let threw = false;
							try {
								setGlobalStyles(["/a.css"] as any);
							} catch {
								threw = true;
							}
							ensure(threw, "an array of styles was accepted");
							break;
						}
						case "define":
							defineIgniteConfig(op.val ? { [op.alias ? "globalStyles" : "styles"]: op.val.v } : {});
							if (op.val) current = op.val;
							break;
						case "load": {
							await loadIgniteConfig(async () => ({ default: op.val ? { [op.alias ? "globalStyles" : "styles"]: op.val.v } : {} }) as any);
							if (op.val) current = op.val;
							for (const e of els)
								if (e.pending && current) {
									if (e.link === null) {
										unsure(e);
									} else if (e.connected) {
										styled(e);
										if (current.ok) interesting = true;
									} else if (e.everConnected) {
										e.due = true; // gets it when it comes back
									} else {
										if (current.ok && e.link === "none") e.must = true;
										unsure(e);
									}
								}
							break;
						}
						case "create": {
							const kind = KINDS[op.kind];
							const tag = tagFor(kind);
							defineIgniteConfig({ renderer: kind === "lit" ? "lit" : "ignite-jsx", ...(kind === "jsx-replace" ? { strategy: "replace" as const } : {}) });
							logs.length = 0;
							let host: Element;
							if (op.parser && op.connect) {
								const box = document.createElement("div");
								document.body.append(box);
								box.innerHTML = `<${tag}></${tag}>`;
								host = box.firstElementChild as Element;
							} else {
								host = document.createElement(tag);
								if (op.connect) parent[0].append(host);
							}
							const e: El = { host, link: "none", pending: true, connected: op.connect, everConnected: op.connect, due: false, must: false, n: 0 };
							e.link = "none";
							const cur = current as Value | null;
							styled(e);
							if (cur && !cur.ok) ensure(logs.some((l) => l.level === "warn" && (typeof cur.v !== "string" || l.text.includes(cur.v))), () => `no warning about ${show(cur.v)}: ${show(logs)}`);
							if (cur?.ok) ensure(!logs.some((l) => l.level === "warn"), () => `warning for ${show(cur.v)}: ${show(logs)}`);
							els.push(e);
							break;
						}
						default: {
							if (!els.length) break;
							const e = els[op.i % els.length];
							if (op.o === "connect" && !e.everConnected) {
								parent[0].append(e.host);
								e.connected = e.everConnected = true;
								unsure(e);
								if (e.must) {
									ensure(linksOf(e.host).length === 1, () => `element ${els.indexOf(e)}, created before styles were loaded and connected after, has ${linksOf(e.host).length} stylesheet links`);
									interesting = true;
								}
							} else if (op.o === "remove" && e.connected) {
								e.host.remove();
								e.connected = false;
							} else if (op.o === "connect" && !e.connected) {
								// back in the document: anything configured meanwhile may arrive now
								parent[1].append(e.host);
								e.connected = true;
								if (e.due) styled(e);
								else unsure(e);
								e.due = false;
							} else if (op.o === "move" && e.connected) {
								parent[1].append(e.host);
								unsure(e);
							} else if (op.o === "send" && e.connected) {
								const args = renders.get(e.host);
								args?.send({ type: "s/set", payload: op.n });
								if (e.link && e.link !== "none") interesting = true;
							}
						}
					}
					ensure(windowErrors.length === 0, () => `${show(op)}: ${String((windowErrors[0] as any)?.stack ?? windowErrors[0])}`);
					for (const [i, e] of els.entries()) {
						const found = linksOf(e.host);
						const at = () => `element ${i} after ${show(op)}`;
						if (e.link === null) {
							ensure(found.length <= 1, () => `${at()}: ${show(found)}`);
							if (found.length) {
								const known = ops.flatMap((x) => ("val" in x && x.val?.ok ? [show(attrs(x.val.v))] : []));
								ensure(known.includes(show(found[0])), () => `${at()}: link ${show(found[0])} was never configured`);
								// from here on it is settled
								e.link = (ops.find((x) => "val" in x && x.val?.ok && show(attrs(x.val.v)) === show(found[0])) as any).val.v;
								e.pending = false;
							}
						} else if (e.link === "none") {
							if (!(e.pending && current)) ensureEqual(found, [], `links of ${at()}`);
							else ensure(found.length <= 1, () => `${at()}: ${show(found)}`);
							if (e.pending && current && found.length) e.link = null;
						} else ensureEqual(found, [attrs(e.link)], `links of ${at()}`);
					}
				}
				if (interesting) c.nontrivial();
			},
		);

		// Many elements waiting for the same styles.
		await check.prop(
			"crowds",
			fc.record({
				count: fc.integer({ min: 20, max: 400 }),
				kinds: fc.array(fc.nat({ max: 4 }), { minLength: 1, maxLength: 3 }),
				/** what happens to every so many elements before the load */
				leave: fc.array(fc.integer({ min: 2, max: 9 }), { maxLength: 2 }),
				late: fc.integer({ min: 2, max: 9 }),
				loads: fc.integer({ min: 1, max: 2 }),
				val: validArb,
				send: fc.boolean(),
			}),
			{ quick: 30, thorough: 400, before: resetDom, after: () => setGlobalStyles(undefined) },
			async ({ count, kinds, leave, late, loads, val, send }, c) => {
				setGlobalStyles(undefined);
				defineIgniteConfig({});
				const hosts: Element[] = [];
				for (let i = 0; i < count; i++) {
					const kind = KINDS[kinds[i % kinds.length]];
					const tag = tagFor(kind);
					defineIgniteConfig({ renderer: kind === "lit" ? "lit" : "ignite-jsx" });
					const host = document.createElement(tag);
					hosts.push(host);
					if (i % late) document.body.append(host);
				}
				for (const n of leave) hosts.forEach((h, i) => i % n === 0 && h.remove());
				for (let i = 0; i < loads; i++) await loadIgniteConfig(async () => ({ default: { styles: val.v } }) as any);
				const look = (when: string) => {
					for (const [i, h] of hosts.entries())
						if (h.isConnected) ensureEqual(linksOf(h), [attrs(val.v)], `${when}: links of element ${i} of ${count}`);
				};
				look("after the load");
				for (const h of hosts) if (!h.isConnected) document.body.append(h);
				look("all in the document");
				if (send) {
					hosts.forEach((h, i) => renders.get(h)?.send({ type: "s/set", payload: i % 6 }));
					look("after an update");
				}
				ensure(windowErrors.length === 0, () => String((windowErrors[0] as any)?.stack ?? windowErrors[0]));
				c.nontrivial();
			},
		);
	},
);
