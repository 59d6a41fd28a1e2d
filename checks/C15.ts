import fs from "node:fs";
import { createRequire } from "node:module";
import path from "node:path";
import { igniteConfigVitePlugin } from "repo:config/vite";
import { resolveConfigFile } from "repo:plugins/configFile";
import { ensure, ensureEqual, fc, repoDir, runCheck, scratchDir, show } from "../lib/runner";
import { runLoaderScript } from "../lib/script";

const NAMES = ["ignite.config.ts", "ignite.config.js", "ignite.config.mjs", "ignite.config.cjs"];
const DIRS = ["", ".config", "config", "..hidden", ".", "a b", "é", "it's", "$&", "deep/er", "node_modules/x", "...", "-x", "a.b", "@scope", "[id]", "{x}", 'q"q', "back`tick", "${x}", "&amp;"];
const FILES = [...NAMES, ".ignite.config.ts", "..ts", "my config.js", "conf'ig.mjs", "[x].ts", 'q"q.js', "é.ts", "$1.js", "config", ".igniterc", "..config.js", "...dots.ts"];

const dirArb = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...DIRS) }, { weight: 1, arbitrary: fc.tuple(fc.constantFrom(...DIRS), fc.constantFrom(...DIRS)).map(([a, b]) => path.posix.join(a, b)) });

interface Case {
	rootDir: string;
	/** default-named files in the root */
	present: boolean[];
	/** an explicit path: where the file is relative to the root ("" inside, ".." outside) */
	explicit: null | { base: string; dir: string; file: string; exists: boolean; form: "relative" | "absolute" | "dotted" };
	decoys: string[];
	rootHow: "resolved" | "option" | "both" | "relative option";
	late: boolean;
	injectTo?: "head" | "head-prepend" | "body" | "body-prepend";
	runs: number;
	/** what the page already holds */
	page: string;
	/** which page it is */
	at: string;
	/** how many folders above the root the package is installed */
	hoist: number;
}
const caseArb: fc.Arbitrary<Case> = fc.record({
	rootDir: dirArb.map((d) => path.posix.join("proj", d)),
	present: fc.array(fc.boolean(), { minLength: 4, maxLength: 4 }),
	explicit: fc.option(
		fc.record({
			base: fc.constantFrom("", "", "..", "../sib", "../../far"),
			dir: dirArb,
			file: fc.constantFrom(...FILES),
			exists: fc.boolean().map((b) => b),
			form: fc.constantFrom("relative" as const, "absolute" as const, "dotted" as const),
		}),
		{ freq: 3 },
	),
	decoys: fc.uniqueArray(fc.constantFrom("src/ignite.config.ts", "ignite.config.tsx", "ignite.config.json", "ignite.config.ts.bak", "../ignite.config.ts", "../ignite.config.js", "ignite.confi.ts"), { maxLength: 3 }),
	rootHow: fc.constantFrom("resolved" as const, "resolved" as const, "option" as const, "both" as const, "relative option" as const),
	late: fc.boolean(),
	injectTo: fc.constantFrom(undefined, undefined, "head" as const, "head-prepend" as const, "body" as const, "body-prepend" as const),
	runs: fc.integer({ min: 1, max: 2 }),
	page: fc.constantFrom(
		"<script>keep()</script>",
		"",
		"<p>about loadIgniteConfig and ignite.config.ts</p>",
		'<script type="module">import("ignite-element/config/loadIgniteConfig");</script>',
		'<script type="module" src="/main.ts"></script>',
		"<!-- ignite-element -->",
	),
	at: fc.constantFrom("index.html", "index.html", "about.html", "other/page.html", "a/b/index.html", ".well/x.html"),
	hoist: fc.constantFrom(0, 0, 1, 2, 3),
});

const write = (file: string) => {
	fs.mkdirSync(path.dirname(file), { recursive: true });
	fs.writeFileSync(file, "export default {};\n");
};

console.warn = () => {}; // "no config file found"
let nth = 0;
/** Lays the project out on disk; returns the root and the file that must be loaded. */
function layout(k: Case) {
	const base = path.join(scratchDir, `p${nth++}`, "x", "y");
	const root = path.join(base, k.rootDir);
	fs.mkdirSync(root, { recursive: true });
	const files: string[] = [];
	NAMES.forEach((n, i) => {
		if (k.present[i]) files.push(path.join(root, n));
	});
	for (const d of k.decoys) files.push(path.join(root, d));
	let configPath: string | undefined;
	let expected: string | undefined;
	if (k.explicit) {
		const { base: b, dir, file, form } = k.explicit;
		const abs = path.join(root, b, dir, file);
		const rel = path.relative(root, abs);
		configPath = form === "absolute" ? abs : form === "dotted" ? (rel.startsWith("..") ? rel : `./${rel}`) : rel;
		if (k.explicit.exists) {
			files.push(abs);
			expected = abs;
		} else if (files.includes(abs)) expected = abs;
	} else {
		const i = k.present.indexOf(true);
		if (i >= 0) expected = path.join(root, NAMES[i]);
	}
	return { top: path.dirname(path.dirname(base)), root, files, configPath, expected };
}

/** where a specifier in a module script of a page of <root> leads */
function resolveSpecifier(spec: string, root: string, page = "index.html"): string | null {
	if (spec.startsWith("/@fs/")) return path.resolve(`/${spec.slice("/@fs/".length)}`);
	if (spec.startsWith("./") || spec.startsWith("../")) return path.resolve(root, path.dirname(page), spec);
	if (spec.startsWith("/")) return path.join(root, spec);
	return null; // a bare specifier names a package
}

async function tagsOf(plugin: any, html: string, root: string, page = "index.html"): Promise<any[] | undefined> {
	const hook = plugin.transformIndexHtml;
	const fn = typeof hook === "function" ? hook : (hook.handler ?? hook.transform);
	const out = await fn.call({}, html, { path: `/${page}`, filename: path.join(root, page) });
	if (out === undefined || out === null) return undefined;
	if (typeof out === "string") {
		ensure(out === html, "the page's own content was changed");
		return [];
	}
	if (Array.isArray(out)) return out;
	if (out.html !== undefined) ensure(out.html === html, "the page's own content was changed");
	return out.tags ?? [];
}

runCheck(
	"C15",
	{
		level: "exploration",
		rule: "project layouts (root and config in odd directories, inside and outside the root, default names in every combination, decoys) created on disk; the emitted script is executed with stand-in modules and the specifier it imports is resolved back to a file, by rule and by Vite's own resolver; non-trivial: a config file exists and is not simply ./ignite.config.ts",
		assumptions: ["POSIX paths", "file names without ?, #, %, backslash or line breaks, which URL-based module specifiers cannot carry"],
	},
	async (check) => {
		await check.prop("lookup", caseArb, { quick: 1500, thorough: 15000 }, (k, c) => {
			const { top, root, files, configPath, expected } = layout(k);
			try {
				files.forEach(write);
				const got = resolveConfigFile({ root, ...(configPath !== undefined ? { configPath } : {}) });
				ensureEqual(got === undefined ? undefined : path.resolve(got), expected, `config of ${root} (configPath ${configPath}, files ${show(files)})`);
				if (expected) c.nontrivial();
			} finally {
				fs.rmSync(top, { recursive: true, force: true });
			}
		});

		await check.prop("injected script", caseArb, { quick: 2500, thorough: 25000 }, async (k, c) => {
			const { top, root, files, configPath, expected } = layout(k);
			try {
				if (!k.late) files.forEach(write);
				const options: any = {};
				if (configPath !== undefined) options.configPath = configPath;
				if (k.injectTo) options.injectTo = k.injectTo;
				if (k.rootHow === "option" || k.rootHow === "both") options.root = root;
				if (k.rootHow === "relative option") options.root = path.relative(process.cwd(), root);
				const frozen = JSON.stringify(options);
				const plugin: any = igniteConfigVitePlugin(Object.freeze(options));
				if (k.late) files.forEach(write);
				const usesHook = k.rootHow !== "option" || k.late;
				if (usesHook) plugin.configResolved?.(Object.freeze({ root: k.rootHow === "resolved" ? root : path.join(top, "elsewhere") }));
				const at = `root ${root}, options ${show(options)}, files ${show(files.map((f) => path.relative(root, f)))}`;
				for (let r = 0; r < k.runs; r++) {
					const tags = await tagsOf(plugin, `<html><head></head><body>${k.page}</body></html>`, root, k.at);
					if (!expected) {
						ensure(!tags?.length, () => `${at}: no config file, but ${show(tags)} was added`);
						continue;
					}
					ensure(tags?.length === 1, () => `${at}: ${show(tags)}`);
					const [tag] = tags;
					ensureEqual({ tag: tag.tag, type: tag.attrs?.type, to: tag.injectTo }, { tag: "script", type: "module", to: k.injectTo ?? "head-prepend" }, at);
					const ran = await runLoaderScript(String(tag.children));
					ensure(ran.calls === 1 && ran.config.length === 1, () => `${at}: the script ran the config helper ${ran.calls} times and imported ${show(ran.config)}`);
					ensureEqual(resolveSpecifier(ran.config[0], root, k.at), expected, `${at}: file behind ${show(ran.config[0])}`);
					ensure(ran.helpers.length === 1, () => `${at}: ${show(ran.helpers)}`);
					const helper = ran.helpers[0];
					ensure(
						helper === "ignite-element/config/loadIgniteConfig" || resolveSpecifier(helper, root, k.at)?.startsWith(path.join(root, "node_modules", "ignite-element") + path.sep),
						() => `${at}: the helper is imported from ${helper}`,
					);
				}
				ensure(JSON.stringify(options) === frozen, `${at}: options were changed`);
				if (expected && (k.explicit || !k.present[0])) c.nontrivial();
				c.label(!expected ? "none" : path.relative(root, expected).startsWith("../") ? "outside" : "inside");
			} finally {
				fs.rmSync(top, { recursive: true, force: true });
			}
		});

		// one plugin object used for several projects (or several builds of one) in turn
		await check.prop("reused plugin", fc.array(caseArb, { minLength: 2, maxLength: 4 }), { quick: 500, thorough: 8000 }, async (list, c) => {
			const first = list[0];
			const options: any = {};
			if (first.injectTo) options.injectTo = first.injectTo;
			const plugin: any = igniteConfigVitePlugin(options);
			let found = 0;
			for (const [i, k] of list.entries()) {
				const { top, root, files, expected } = layout({ ...k, explicit: null } as typeof k);
				try {
					files.forEach(write);
					plugin.configResolved?.({ root });
					const tags = await tagsOf(plugin, "<html></html>", root);
					const at = `project ${i} with ${show(files.map((f) => path.relative(root, f)))}`;
					ensure((tags?.length ?? 0) === (expected ? 1 : 0), () => `${at}: ${show(tags)}`);
					if (!expected) continue;
					found++;
					const ran = await runLoaderScript(String(tags?.[0].children));
					ensureEqual(ran.config.map((spec) => resolveSpecifier(spec, root)), [expected], `${at}: file loaded`);
				} finally {
					fs.rmSync(top, { recursive: true, force: true });
				}
			}
			if (found) c.nontrivial();
		});

		// the same through Vite itself: its HTML pipeline and its resolver
		const req = createRequire(`${repoDir}/package.json`);
		const vite: any = await import(path.join(path.dirname(req.resolve("vite/package.json")), "dist/node/index.js"));
		await check.prop("through Vite", caseArb, { quick: 40, thorough: 400 }, async (k, c) => {
			const { top, root, files, configPath, expected } = layout(k);
			let server: any;
			try {
				files.forEach(write);
				fs.writeFileSync(path.join(root, "index.html"), "<html><head></head><body></body></html>");
				write(path.join(root, k.at));
				// installed in the project, or (workspaces) in a folder above it
				let home = root;
				for (let i = 0; i < k.hoist && home !== top; i++) home = path.dirname(home);
				const packageDir = path.join(home, "node_modules/ignite-element");
				const helperDir = path.join(packageDir, "dist/config");
				fs.mkdirSync(helperDir, { recursive: true });
				fs.writeFileSync(path.join(packageDir, "package.json"), fs.readFileSync(path.join(repoDir, "package.json")));
				fs.writeFileSync(path.join(helperDir, "loadIgniteConfig.es.js"), "export const loadIgniteConfig = (l) => l();\n");
				server = await vite.createServer({
					root,
					configFile: false,
					envFile: false,
					logLevel: "silent",
					cacheDir: path.join(top, "cache"),
					appType: "custom",
					optimizeDeps: { noDiscovery: true, include: [] },
					server: { middlewareMode: true, hmr: false, ws: false, watch: null },
					plugins: [
						{ name: "other", transformIndexHtml: () => [{ tag: "meta", attrs: { name: "other" }, injectTo: "head" }] },
						igniteConfigVitePlugin({ ...(configPath !== undefined ? { configPath } : {}), ...(k.injectTo ? { injectTo: k.injectTo } : {}) }),
					],
				});
				const html: string = await server.transformIndexHtml(`/${k.at}`, "<html><head></head><body><p>keep</p></body></html>");
				const at = `${k.at} of ${root}, configPath ${configPath}`;
				ensure(html.includes("<p>keep</p>") && html.includes('name="other"'), () => `${at}: ${html}`);
				const plugin: any = igniteConfigVitePlugin({ root, ...(configPath !== undefined ? { configPath } : {}) });
				const tags = await tagsOf(plugin, "", root, k.at);
				if (!expected) {
					ensure(!tags?.length && !html.includes("html-proxy"), () => `${at}: ${html}`);
					return;
				}
				ensure(/<script type="module"/.test(html), () => `${at}: no script in ${html}`);
				const ran = await runLoaderScript(String(tags?.[0].children));
				for (const [spec, want] of [
					[ran.config[0], expected],
					[ran.helpers[0], path.join(helperDir, "loadIgniteConfig.es.js")],
				]) {
					const resolved = await server.pluginContainer.resolveId(spec, path.join(root, k.at));
					ensureEqual(resolved?.id?.replace(/[?].*/, ""), fs.realpathSync(want), `${at}: Vite resolves ${show(spec)}`);
				}
				c.nontrivial();
			} finally {
				await server?.close();
				fs.rmSync(top, { recursive: true, force: true });
			}
		});

		// and through a production build, whose pages are then run
		await check.prop("through a Vite build", fc.record({ k: caseArb, mode: fc.constantFrom("production", "development", "staging"), pages: fc.boolean() }), { quick: 150, thorough: 2000 }, async ({ k: any, mode, pages }, c) => {
			// names Vite's own build cannot carry are left out
			const plain = (s: string) => s.replace(/["'`$&[\]{}]/g, "_");
			const k: Case = { ...any, rootDir: plain(any.rootDir), explicit: any.explicit && { ...any.explicit, dir: plain(any.explicit.dir), file: plain(any.explicit.file) } };
			const { top, root, files, configPath, expected } = layout(k);
			const loaded: string[] = [];
			(globalThis as any).__verifLoaded = loaded;
			try {
				for (const f of files) {
					write(f);
					fs.writeFileSync(f, `globalThis.__verifLoaded.push(${JSON.stringify(f)});\nexport default {};\n`);
				}
				const names = pages ? ["index.html", "other/page.html"] : ["index.html"];
				for (const n of names) {
					fs.mkdirSync(path.dirname(path.join(root, n)), { recursive: true });
					fs.writeFileSync(path.join(root, n), "<!doctype html><html><head></head><body><p>keep</p></body></html>");
				}
				const packageDir = path.join(root, "node_modules/ignite-element");
				fs.mkdirSync(path.join(packageDir, "dist/config"), { recursive: true });
				fs.writeFileSync(path.join(packageDir, "package.json"), fs.readFileSync(path.join(repoDir, "package.json")));
				fs.writeFileSync(path.join(packageDir, "dist/config/loadIgniteConfig.es.js"), "export const loadIgniteConfig = async (l) => { await l(); globalThis.__verifLoaded.push('done'); };\n");
				const outDir = path.join(top, "out");
				await vite.build({
					root,
					mode,
					base: "./",
					configFile: false,
					envFile: false,
					logLevel: "silent",
					cacheDir: path.join(top, "cache"),
					build: { outDir, emptyOutDir: true, minify: false, modulePreload: false, reportCompressedSize: false, rollupOptions: { input: names.map((n) => path.join(root, n)), output: { entryFileNames: "e-[hash].js", chunkFileNames: "c-[hash].js" } } },
					plugins: [igniteConfigVitePlugin({ ...(configPath !== undefined ? { configPath } : {}), ...(k.injectTo ? { injectTo: k.injectTo } : {}) })],
				});
				for (const n of names) {
					const at = `${n} of ${root}, configPath ${configPath}, built for ${mode}`;
					const html = fs.readFileSync(path.join(outDir, n), "utf8");
					ensure(html.includes("<p>keep</p>"), () => `${at}: ${html}`);
					const srcs = [...html.matchAll(/<script type="module"[^>]* src="([^"]+)"/g)].map((m) => m[1]);
					if (!expected) {
						ensure(!srcs.length, () => `${at}: no config file, but ${html}`);
						continue;
					}
					loaded.length = 0;
					ensure(srcs.length > 0, () => `${at}: no script in ${html}`);
					for (const s of srcs) await import(`${path.resolve(path.dirname(path.join(outDir, n)), decodeURI(s))}?n=${nth++}`);
					for (let i = 0; i < 100 && !loaded.includes("done"); i++) await new Promise((r) => setTimeout(r, 5));
					ensure(loaded.includes("done") && loaded.every((f) => f === "done" || f === expected), () => `${at}: the page loaded ${show(loaded)}, expected ${expected}`);
				}
				if (expected) c.nontrivial();
			} finally {
				delete (globalThis as any).__verifLoaded;
				fs.rmSync(top, { recursive: true, force: true });
			}
		});
	},
);
