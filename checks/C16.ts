import fs from "node:fs";
import path from "node:path";
import { IgniteConfigWebpackPlugin } from "repo:config/webpack";
import { ensure, ensureEqual, fc, runCheck, scratchDir, show } from "../lib/runner";
import { runLoaderScript } from "../lib/script";

console.warn = () => {};

type Descriptor = string | string[] | Record<string, unknown>;
const moduleArb = fc.constantFrom("./src/index.ts", "./a.js", "./b.js", "pkg", "./polyfills", "ignite.config.ts", "./ignite.config.ts", "data:text/javascript,1", "./src/loadIgniteConfig.js", "", "./a.js?x");
const listArb = fc.oneof({ weight: 40, arbitrary: fc.array(moduleArb, { maxLength: 4 }) }, { weight: 1, arbitrary: fc.array(moduleArb, { minLength: 20, maxLength: 60, size: "max" }) });
const extraArb = fc.record(
	{
		dependOn: fc.constantFrom<unknown>("shared", ["a", "b"]),
		filename: fc.constantFrom("[name].js", "x.js"),
		runtime: fc.constantFrom<unknown>("rt", false),
		library: fc.constant({ type: "umd", name: ["x"] }),
		chunkLoading: fc.constant(false),
		layer: fc.constantFrom<unknown>(null, "l"),
		publicPath: fc.constant("/p/"),
	},
	{ requiredKeys: [] },
);
const descriptorArb: fc.Arbitrary<Descriptor> = fc.oneof(
	moduleArb.filter((m) => m !== ""),
	listArb,
	fc.tuple(fc.oneof(moduleArb.filter((m) => m !== ""), listArb), extraArb, fc.boolean()).map(([i, extra, first]) => (first ? { import: i, ...extra } : { ...extra, import: i })),
);
type Static = { s: "string"; v: string } | { s: "list"; v: string[] } | { s: "object"; v: Record<string, Descriptor> };
const nameArb = fc.constantFrom("main", "app", "admin", "shared", "import", "a/b", "constructor", "toString", "1", "0", "é", "import2", "filename", "default");
const staticArb: fc.Arbitrary<Static> = fc.oneof(
	{ weight: 12, arbitrary: fc.record({ s: fc.constant("string" as const), v: moduleArb.filter((m) => m !== "") }) },
	{ weight: 12, arbitrary: fc.record({ s: fc.constant("list" as const), v: listArb }) },
	{
		weight: 1,
		arbitrary: fc
			.array(descriptorArb, { minLength: 20, maxLength: 60, size: "max" })
			.map((l) => ({ s: "object" as const, v: Object.fromEntries(l.map((d, i) => [`e${i}`, d])) })),
	},
	{ weight: 36, arbitrary: fc.record({ s: fc.constant("object" as const), v: fc.dictionary(nameArb, descriptorArb, { maxKeys: 4, noNullPrototype: true }) }) },
);
type Wrap = "sync" | "async" | "none";
const caseArb = fc.record({
	entry: fc.option(staticArb, { freq: 8 }),
	wraps: fc.array(fc.constantFrom<Wrap>("sync", "async"), { maxLength: 2 }),
	frozen: fc.boolean(),
	config: fc.constantFrom("default", "default", "explicit", "outside", "absent", "missing explicit"),
	dir: fc.constantFrom("proj", "a b", "é", "it's", "100%", "q\"q", "${x}", "#h", "x?y"),
	file: fc.constantFrom("ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"),
	applies: fc.integer({ min: 1, max: 3 }),
	sameInstance: fc.boolean(),
	extra: fc.boolean(),
	/** what an entry function answers on later builds; null: it fails */
	later: fc.array(fc.option(staticArb, { freq: 6 }), { maxLength: 3 }),
	/** another compiler the same plugin object serves */
	second: fc.boolean(),
});

function freeze<T>(v: T): T {
	if (v && typeof v === "object") {
		Object.values(v).forEach(freeze);
		Object.freeze(v);
	}
	return v;
}

/** what webpack runs for a static entry: modules per entry name, and the other fields */
function runs(entry: any): Record<string, { modules: string[]; fields: Record<string, unknown> }> {
	const out: Record<string, { modules: string[]; fields: Record<string, unknown> }> = Object.create(null);
	const one = (d: any) => {
		if (typeof d === "string") return { modules: [d], fields: {} };
		if (Array.isArray(d)) return { modules: [...d], fields: {} };
		const { import: i, ...fields } = d;
		return { modules: i === undefined ? [] : Array.isArray(i) ? [...i] : [i], fields };
	};
	if (typeof entry === "string" || Array.isArray(entry)) out.main = one(entry);
	else for (const k of Object.keys(entry)) out[k] = one(entry[k]);
	return out;
}

async function settle(entry: any): Promise<any> {
	while (typeof entry === "function") entry = await entry();
	return entry;
}

let nth = 0;
runCheck(
	"C16",
	{
		level: "exploration",
		rule: "generated webpack entries (string, list, object of strings/lists/descriptors, nested sync/async functions, none), config present or absent, plugin applied one to three times; what webpack would run is compared with the user's modules, and the added loader module is executed with stand-ins to see which file it loads; non-trivial: a config exists and the entry has at least two modules or is a function",
		assumptions: ["webpack itself is not installed here: entries are interpreted by webpack's documented semantics"],
	},
	async (check) => {
		await check.prop("entries", caseArb, { quick: 4000, thorough: 60000 }, async (k, c) => {
			const top = path.join(scratchDir, `w${nth++}`);
			try {
				const root = path.join(top, k.dir);
				fs.mkdirSync(root, { recursive: true });
				let configPath: string | undefined;
				let expected: string | undefined;
				if (k.config === "default") expected = path.join(root, k.file);
				if (k.config === "explicit") {
					configPath = `conf/${k.file}`;
					expected = path.join(root, configPath);
				}
				if (k.config === "outside") {
					configPath = expected = path.join(top, "elsewhere", k.file);
				}
				if (k.config === "missing explicit") {
					configPath = "nope.ts";
					fs.writeFileSync(path.join(root, k.file), "");
				}
				if (expected) {
					fs.mkdirSync(path.dirname(expected), { recursive: true });
					fs.writeFileSync(expected, "");
				}

				const original = k.entry?.v as any;
				const before = JSON.stringify(original);
				let entry: any = original && k.frozen ? freeze(JSON.parse(before)) : original;
				const given = entry;
				const builds: any[] = [original];
				let calls = 0;
				if (entry !== undefined)
					for (const [i, w] of k.wraps.entries()) {
						const inner = entry;
						if (i === 0) {
							builds.push(...k.later.map((l) => (l ? l.v : null)));
							const answer = () => {
								const n = calls++;
								if (n === 0) return inner;
								const later = builds[n % builds.length];
								if (later === null) throw new Error("no entry for this build");
								return later;
							};
							entry = w === "sync" ? answer : async () => answer();
						} else entry = w === "sync" ? () => inner : async () => inner;
					}
				const compiler: any = { context: root, options: { mode: "production", output: freeze({ path: "/x" }), ...(k.extra ? { externals: ["x"] } : {}) } };
				if (k.entry) compiler.options.entry = entry;
				const others = JSON.stringify({ ...compiler.options, entry: 0 });
				let plugin = new IgniteConfigWebpackPlugin(configPath === undefined ? undefined : { configPath });
				for (let i = 0; i < k.applies; i++) {
					if (i && !k.sameInstance) plugin = new IgniteConfigWebpackPlugin(configPath === undefined ? {} : { configPath });
					plugin.apply(compiler);
				}
				const at = `entry ${show(original)}, functions ${show(k.wraps)}, applied ${k.applies} times`;
				ensure(JSON.stringify({ ...compiler.options, entry: 0 }) === others, () => `${at}: other options changed`);
				ensure(JSON.stringify(given) === before, () => `${at}: the user's entry object was changed`);
				if (!expected) {
					ensure(compiler.options.entry === entry && ("entry" in compiler.options) === Boolean(k.entry), () => `${at}: no config file, but the entry became ${show(compiler.options.entry)}`);
					return;
				}
				ensure(calls === 0, () => `${at}: the entry function ran before the build`);
				let loader: string | undefined;
				for (let b = 0; b <= builds.length; b++) {
				const build = builds[b % builds.length];
				if (build === null) {
					let error: any = null;
					await settle(compiler.options.entry).catch((e) => (error = e));
					ensure(error?.message === "no entry for this build", () => `${at}: the entry function of build ${b} failed, the plugin gave ${show(error)}`);
					continue;
				}
				const result = await settle(compiler.options.entry);
				if (k.wraps.length && original !== undefined) ensure(calls === b + 1, () => `${at}: the entry function ran ${calls} times in ${b + 1} builds`);
				const got = runs(result);
				const want = build === undefined ? { main: { modules: [], fields: {} } } : runs(build);
				ensureEqual(Object.keys(got), Object.keys(want), `${at}: entry names in build ${b}`);
				for (const name of Object.keys(want)) {
					const [first, ...rest] = got[name].modules;
					ensureEqual(rest, want[name].modules, `${at}: modules of ${name} after the loader`);
					ensureEqual(Object.entries(got[name].fields).sort(), Object.entries(want[name].fields).sort(), `${at}: fields of ${name}`);
					ensure(typeof first === "string", () => `${at}: ${name} starts with ${show(first)}`);
					if (loader === undefined) {
						loader = first;
						ensure(first.startsWith("data:"), () => `${at}: ${name} starts with ${first}`);
						const ran = await runLoaderScript(await (await fetch(first)).text());
						ensure(ran.calls === 1, () => `${at}: the loader ran the config helper ${ran.calls} times`);
						ensureEqual(ran.helpers, ["ignite-element/config/loadIgniteConfig"], `${at}: helper`);
						ensureEqual(ran.config, [expected], `${at}: file loaded`);
					} else ensure(first === loader, () => `${at}: ${name} starts with another module, ${first}`);
				}
				}
				if (k.second) {
					// the same plugin object in a compiler of another project
					const there = path.join(top, "second");
					fs.mkdirSync(there);
					const other: any = { context: there, options: { entry: "./x.js" } };
					if (configPath === undefined) fs.writeFileSync(path.join(there, "ignite.config.mjs"), "");
					else if (!path.isAbsolute(configPath)) {
						fs.mkdirSync(path.join(there, "conf"), { recursive: true });
						fs.writeFileSync(path.join(there, configPath), "");
					}
					plugin.apply(other);
					const [first, ...rest] = runs(await settle(other.options.entry)).main.modules;
					ensureEqual(rest, ["./x.js"], `${at}: modules of a second compiler`);
					const ran = await runLoaderScript(await (await fetch(first)).text());
					ensureEqual(ran.config, [configPath === undefined ? path.join(there, "ignite.config.mjs") : path.resolve(there, configPath)], `${at}: file loaded in a second compiler`);
				}
				if (original !== undefined && (k.wraps.length || before.split('"').length > 6)) c.nontrivial();
				c.label(`${k.entry?.s ?? "none"}${k.wraps.length ? " in function" : ""}`);
			} finally {
				fs.rmSync(top, { recursive: true, force: true });
			}
		});
	},
);
