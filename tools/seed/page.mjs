// A jsdom page with the built library, run from the repository's directory.
import { createRequire } from "node:module";
import path from "node:path";
import { pathToFileURL } from "node:url";
const root = process.cwd();
const require = createRequire(path.join(root, "package.json"));
const { JSDOM } = require("jsdom");
const dom = new JSDOM("<!doctype html><html><head></head><body></body></html>", { url: "http://localhost/", pretendToBeVisual: true });
for (const key of Object.getOwnPropertyNames(dom.window)) {
	if (key in globalThis && !["Event", "CustomEvent", "EventTarget"].includes(key)) continue;
	try {
		globalThis[key] = dom.window[key];
	} catch {}
}
globalThis.window = dom.window;
globalThis.document = dom.window.document;
export const warnings = [];
console.warn = (...a) => warnings.push(a.join(" "));
/** a module of the built package, e.g. lib("xstate") */
export const lib = (name) => import(pathToFileURL(path.join(root, "dist", `${name}.es.js`)).href);
/** the very copy of a dependency that the built package uses */
export const dep = (name) => import(import.meta.resolve(name, pathToFileURL(path.join(root, "dist", "x.js")).href));
export const shown = (el) => el.shadowRoot.textContent;
export function expect(actual, expected, what) {
	const a = JSON.stringify(actual);
	const e = JSON.stringify(expected);
	if (a !== e) {
		console.log(`WRONG ${what}: expected ${e}, got ${a}`);
		process.exit(1);
	}
	console.log(`ok ${what}`);
}
export const done = () => process.exit(0);
let n = 0;
export const tag = () => `demo-el-${n++}`;
export const add = (name, parent = document.body) => parent.appendChild(document.createElement(name));
