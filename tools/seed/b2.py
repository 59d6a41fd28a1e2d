BUGS=[
dict(id='actor-cached-per-registration', prop='C10', edits=[('src/createComponentFactory.ts','''	const eventDefinitions = events ??''','''	let commandActor: CommandActor | undefined;
	const eventDefinitions = events ??'''),('src/createComponentFactory.ts','''				const actor = resolveActor(adapter);
''','''				commandActor ??= resolveActor(adapter);
				const actor = commandActor;
''')], needs='two elements of one component over an isolated source, a command run on the second', breaks='the second element\'s commands act on the first element\'s state',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const t = tag();
igniteCore({ source: slice, commands: ({ actor }) => ({ inc: () => actor.dispatch(slice.actions.inc()) }) })(t, (a) => jsx("button", { onClick: () => a.inc(), children: `n=${a.state.s.n}` }));
const a = add(t);
const b = add(t);
b.shadowRoot.querySelector("button").click();
expect([shown(a), shown(b)], ["n=0", "n=1"], "command of the second element");
done();
'''),
dict(id='emit-copies-payload', prop='C11', edits=[('src/createComponentFactory.ts','''			const customEvent = new CustomEvent(type, {
				detail,
''','''			const payload =
				isPlainObject(detail)
					? Object.freeze({ ...detail })
					: detail;
			const customEvent = new CustomEvent(type, {
				detail: payload,
''')], needs='an emitted payload whose identity, class or mutability matters (a Date, a File, a callback holder)', breaks='listeners get a frozen plain copy instead of the payload that was given',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("xstate");
const { createMachine } = await dep("xstate");
const { jsx } = await lib("jsx/index");
const t = tag();
const when = new Date(0);
igniteCore({ source: createMachine({}), events: (event) => ({ saved: event() }), commands: ({ emit }) => ({ save: () => emit("saved", when) }) })(t, (a) => jsx("button", { onClick: () => a.save() }));
const el = add(t);
let got;
el.addEventListener("saved", (e) => { got = e.detail; });
el.shadowRoot.querySelector("button").click();
expect(got === when && got instanceof Date, true, "payload is the one given");
done();
'''),
dict(id='any-object-factory-is-mobx', prop='C12', edits=[('src/IgniteCore.ts','''		if (isMobxObservable(candidate)) {
			return "mobx";
		}
	} catch''','''		if (isMobxObservable(candidate)) {
			return "mobx";
		}
		if (Object.isExtensible(candidate) && !Array.isArray(candidate)) {
			return typeof candidate === "object" ? "mobx" : undefined;
		}
	} catch''')], needs='a source factory that returns a plain object', breaks='the factory is accepted as MobX and fails only when an element is created',
kind='sh', demo={'demo.sh':'''
#!/bin/bash
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cat > "$out/entry.ts" <<'X'
import "/repo/src/internal/setupDomPolyfill";
import { igniteCore } from "/repo/src/IgniteCore";
let rejected = false;
try { (igniteCore as any)({ source: () => ({ count: 0 }) }); } catch { rejected = true; }
console.log(rejected ? "rejected" : "accepted");
process.exit(rejected ? 0 : 1);
X
NODE_PATH=/repo/node_modules /opt/veriftools/node/node_modules/.bin/esbuild "$out/entry.ts" --bundle --platform=node --format=cjs --log-level=error --outfile="$out/run.cjs" || exit 3
timeout 100 node "$out/run.cjs"
'''}),
dict(id='renderers-per-copy', prop='C13', edits=[('src/renderers/resolveConfiguredRenderStrategy.ts','''const REGISTRY_SYMBOL = Symbol.for("ignite-element.renderStrategyRegistry");''','''const REGISTRY_SYMBOL: unique symbol = Symbol(
	"ignite-element.renderStrategyRegistry",
);''')], needs='two copies of the library in one page, one of which loads the lit renderer while the other registers components', breaks='the configured renderer is loaded but not used by components registered through the other copy of the library',
demo='''
import { execFileSync } from "node:child_process";
import { mkdtempSync, rmSync } from "node:fs";
import os from "node:os";
import path from "node:path";
import { pathToFileURL } from "node:url";
import { add, dep, done, expect, lib, shown, tag, warnings } from "./page.mjs";
const dir = mkdtempSync(path.join(os.tmpdir(), "copies-"));
process.on("exit", () => rmSync(dir, { recursive: true, force: true }));
const out = path.join(dir, "copy.mjs");
execFileSync("/opt/veriftools/node/node_modules/.bin/esbuild", ["dist/renderers/lit.es.js", "--bundle", "--format=esm", "--platform=browser", `--outfile=${out}`], { cwd: process.cwd(), stdio: "inherit" });
await import(pathToFileURL(out).href);
const { defineIgniteConfig } = await lib("ignite-element");
const { igniteCore } = await lib("xstate");
const { createMachine } = await dep("xstate");
const { html } = await dep("lit-html");
defineIgniteConfig({ renderer: "lit" });
const t = tag();
igniteCore({ source: createMachine({}) })(t, () => html`<p>hello</p>`);
const el = add(t);
expect(warnings, [], "warnings");
expect(shown(el), "hello", "rendered by lit");
done();
'''),
dict(id='crossorigin-needs-integrity', prop='C14', edits=[('src/injectStyles.ts','''			if (attributes.crossOrigin) {
				linkElement.crossOrigin = attributes.crossOrigin;
			}
''','''			if (attributes.integrity && attributes.crossOrigin) {
				linkElement.crossOrigin = attributes.crossOrigin;
			}
''')], needs='a style object with crossOrigin but no integrity', breaks='the link lacks the configured cross-origin attribute',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { setGlobalStyles, defineIgniteConfig } = await lib("ignite-element");
const { igniteCore } = await lib("xstate");
const { createMachine } = await dep("xstate");
defineIgniteConfig({ styles: { href: "https://cdn.example/x.css", crossOrigin: "anonymous" } });
const t = tag();
igniteCore({ source: createMachine({}) })(t, () => null);
const link = add(t).shadowRoot.querySelector("link");
expect([link.href, link.crossOrigin], ["https://cdn.example/x.css", "anonymous"], "link");
done();
'''),
dict(id='explicit-path-falls-back', prop='C15', edits=[('src/plugins/configFile.ts','''		return existsSync(candidate) ? candidate : undefined;
	}
''','''		if (existsSync(candidate)) {
			return candidate;
		}
	}
''')], needs='an explicit config path that does not exist, in a project that has a default config file', breaks='another file than the one asked for is loaded',
demo='''
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { expect, lib } from "./page.mjs";
const { igniteConfigVitePlugin } = await lib("config/vite");
const root = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
fs.writeFileSync(path.join(root, "ignite.config.ts"), "export default {}");
let tags;
try {
	const plugin = igniteConfigVitePlugin({ root, configPath: "settings/ignite.prod.ts" });
	tags = plugin.transformIndexHtml();
} finally {
	fs.rmSync(root, { recursive: true });
}
expect(tags ?? null, null, "tags for a missing config file");
process.exit(0);
'''),
dict(id='webpack-entry-evaluated-once', prop='C16', edits=[('src/plugins/webpackIgniteConfigPlugin.ts','''		return async () => applyConfigToEntry(await entry(), moduleId);''','''		const resolved = Promise.resolve(entry()).then((value) =>
			applyConfigToEntry(value, moduleId),
		);
		return () => resolved;''')], needs='a dynamic (function) entry whose result changes between builds, as in watch mode', breaks='the user\'s function runs once, at plugin time; later builds miss the modules it lists then',
demo='''
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { expect, lib } from "./page.mjs";
const { IgniteConfigWebpackPlugin } = await lib("config/webpack");
const root = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
fs.writeFileSync(path.join(root, "ignite.config.js"), "module.exports = {}");
const files = ["./a.js"];
const compiler = { context: root, options: { entry: () => [...files] } };
new IgniteConfigWebpackPlugin().apply(compiler);
fs.rmSync(root, { recursive: true });
const first = await compiler.options.entry();
files.push("./b.js");
const second = await compiler.options.entry();
expect([first.slice(1), second.slice(1)], [["./a.js"], ["./a.js", "./b.js"]], "user modules at each build");
process.exit(0);
'''),
dict(id='polyfill-both', prop='C17', edits=[('src/internal/setupDomPolyfill.ts','''if (typeof host.HTMLElement === "undefined") {''','''if (
	typeof host.HTMLElement === "undefined" ||
	typeof host.customElements === "undefined"
) {''')], needs='an environment with HTMLElement but without customElements', breaks='the existing HTMLElement is replaced by the stub',
kind='sh', demo={'demo.sh':'''
#!/bin/bash
timeout 100 node --input-type=module -e '
class Mine {}
globalThis.HTMLElement = Mine;
await import(process.cwd() + "/dist/ignite-element.es.js");
process.exit(globalThis.HTMLElement === Mine ? 0 : 1);
'
'''}),
dict(id='jsx-edits-props', prop='C18', edits=[('src/renderers/jsx/jsx-runtime.ts','''	const props: IgniteJsxProps = rawProps ? { ...rawProps } : {};
''','''	const props: IgniteJsxProps = rawProps ?? {};
''')], needs='a props object that the caller reuses or froze', breaks='the props object of the caller is modified (or creating the element throws when it is frozen)',
demo='''
import { done, expect, lib } from "./page.mjs";
const { jsxs } = await lib("jsx/jsx-runtime");
const children = ["a", ["c"], "b"];
const props = { id: "x", children };
jsxs("div", props);
expect(props.children === children && children.length, 3, "caller's props");
let threw = false;
try {
	jsxs("div", Object.freeze({ children: ["a"] }));
} catch {
	threw = true;
}
expect(threw, false, "frozen props");
done();
'''),
dict(id='class-instance-per-render', prop='C19', edits=[('src/IgniteElementFactory.ts','''				const instance = new (
					renderer as new () => RendererObject<RenderArgs, View>
				)();
				return (args) => instance.render(args);
''','''				const Renderer = renderer as new () => RendererObject<RenderArgs, View>;
				return (args) => new Renderer().render(args);
''')], needs='a class renderer that keeps something on its instance between renders', breaks='the instance is lost at every render, so the class form shows something else than the object form',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const t = tag();
let send;
igniteCore({ source: slice })(t, class {
	renders = 0;
	render(a) {
		send = a.send;
		return jsx("p", { children: `render ${++this.renders}` });
	}
});
const el = add(t);
const first = Number(shown(el).split(" ")[1]);
send(slice.actions.inc());
expect(Number(shown(el).split(" ")[1]), first + 1, "renders counted by the instance");
done();
'''),
dict(id='client-errors-ignored', prop='C21', edits=[('scripts/refresh-npm-token.js','''		if (!response.ok) {''','''		if (response.status >= 500) {''')], needs='the service refusing the update with a 4xx status', breaks='a refused update (bad credentials, unknown repository) is reported as success',
kind='sh', demo={'demo.sh':'''
#!/bin/bash
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
printf '#!/bin/sh\\necho npm_abcdefghijklmnop\\n' > "$out/npm"
chmod +x "$out/npm"
PATH="$out:$PATH" GITHUB_TOKEN=ghp_x REPO_NAME=a/b timeout 100 node --input-type=module -e '
globalThis.fetch = async () => new Response("", { status: 403, statusText: "Forbidden" });
const { default: refresh } = await import(process.cwd() + "/scripts/refresh-npm-token.js");
let failed = false;
await refresh().catch(() => { failed = true; });
process.exit(failed ? 0 : 1);
'
'''}),
dict(id='status-failure-swallowed', prop='C22', edits=[('scripts/release-beta.mjs','''		if (typeof onError === "function") {
			onError(error);
		}
		throw error;
''','''		if (typeof onError === "function") {
			onError(error);
			return;
		}
		throw error;
''')], needs='no changeset recorded (changeset status fails), everything else fine', breaks='the release goes on and publishes although the pending-changes step failed',
kind='sh', demo={'demo.sh':'''
#!/bin/bash
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
for c in git npm; do printf '#!/bin/sh\\nexit 0\\n' > "$out/$c"; done
cat > "$out/pnpm" <<X
#!/bin/sh
echo "\\$*" >> "$out/calls"
[ "\\$*" = "changeset status" ] && exit 1
exit 0
X
chmod +x "$out/git" "$out/npm" "$out/pnpm"
PATH="$out:$(dirname "$(command -v node)")" timeout 100 node scripts/release-beta.mjs --skip-otp </dev/null >/dev/null 2>&1
rc=$?
grep -q "changeset publish" "$out/calls" && exit 1
[ $rc -ne 0 ]
'''}),
]
