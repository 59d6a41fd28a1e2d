// Fresh realms: the library bundled from /repo/src and evaluated in a new jsdom
// window, or in a bare vm context without a DOM.
import { createRequire } from "node:module";
import path from "node:path";
import vm from "node:vm";

const repo = process.env.VERIF_REPO ?? "/repo";
const toolReq = createRequire("/opt/veriftools/node/node_modules/");
const repoReq = createRequire(`${repo}/package.json`);
const esbuild = toolReq("esbuild");
const { JSDOM, VirtualConsole } = repoReq("jsdom");

/** Bundles a module (source text; "repo:x" is /repo/src/x) into one CommonJS-style script. */
export async function bundleText(contents: string): Promise<string> {
	const result = await esbuild.build({
		stdin: { contents, resolveDir: path.join(repo, "src"), loader: "ts", sourcefile: "entry.ts" },
		bundle: true,
		write: false,
		format: "cjs",
		platform: "node",
		target: "node22",
		logLevel: "silent",
		nodePaths: [path.join(repo, "node_modules")],
		plugins: [
			{
				name: "repo-alias",
				setup(build: any) {
					build.onResolve({ filter: /^repo:/ }, (args: any) =>
						build.resolve(`./${args.path.slice(5)}`, { resolveDir: path.join(repo, "src"), kind: args.kind }),
					);
				},
			},
		],
	});
	return result.outputFiles[0].text;
}

export type Log = { level: string; text: string };

function recordingConsole(logs: Log[]) {
	const c: Record<string, (...a: unknown[]) => void> = {};
	for (const level of ["log", "info", "warn", "error", "debug"])
		c[level] = (...a) => void logs.push({ level, text: a.map((x) => (typeof x === "object" ? (JSON.stringify(x) ?? "") : String(x))).join(" ") });
	return c;
}

function evaluate(context: vm.Context, code: string): any {
	const fn = vm.runInContext(`(function (module, exports, require) {${code}\n})`, context);
	const module = { exports: {} as any };
	fn(module, module.exports, createRequire(`${repo}/package.json`));
	return module.exports;
}

/** A new page: its window, what it logged, and a way to evaluate bundles in it. */
export function newPage() {
	const logs: Log[] = [];
	const errors: unknown[] = [];
	const virtualConsole = new VirtualConsole();
	virtualConsole.on("jsdomError", (e: any) => errors.push(e?.detail ?? e));
	const dom = new JSDOM("<!doctype html><html><head></head><body></body></html>", {
		url: "http://localhost/",
		runScripts: "outside-only",
		virtualConsole,
	});
	const context = dom.getInternalVMContext();
	const win = dom.window as any;
	win.console = recordingConsole(logs);
	win.process = { env: { NODE_ENV: "test" } };
	win.queueMicrotask ??= queueMicrotask;
	win.addEventListener("error", (e: any) => {
		errors.push(e.error ?? e.message);
		e.preventDefault();
	});
	return {
		window: win,
		logs,
		errors,
		load: (code: string) => evaluate(context, code),
		close: () => win.close(),
	};
}

/** A realm without a DOM, plus whatever globals are given. */
export function newBareRealm(globals: Record<string, unknown> = {}) {
	const logs: Log[] = [];
	const context = vm.createContext({
		console: recordingConsole(logs),
		process: { env: { NODE_ENV: "test" } },
		setTimeout,
		clearTimeout,
		queueMicrotask,
		URL,
		...globals,
	});
	return {
		logs,
		global: vm.runInContext("globalThis", context) as any,
		load: (code: string) => evaluate(context, code),
		run: (code: string) => vm.runInContext(code, context),
	};
}
