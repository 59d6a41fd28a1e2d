// jsdom globals, installed before any module of the code under test loads.
import { createRequire } from "node:module";

const req = createRequire(`${process.env.VERIF_REPO ?? "/repo"}/package.json`);
const { JSDOM, VirtualConsole } = req("jsdom");

const virtualConsole = new VirtualConsole();
export const jsdomErrors: unknown[] = [];
virtualConsole.on("jsdomError", (e: unknown) => {
	jsdomErrors.push(e);
});

export const dom = new JSDOM("<!doctype html><html><head></head><body></body></html>", {
	url: "http://localhost/",
	pretendToBeVisual: true,
	virtualConsole,
});

const g = globalThis as Record<string, unknown>;
const win = dom.window as unknown as Record<string, unknown>;
for (const key of [
	"window",
	"document",
	"customElements",
	"HTMLElement",
	"SVGElement",
	"Element",
	"Node",
	"Text",
	"Comment",
	"DocumentFragment",
	"ShadowRoot",
	"CustomEvent",
	"Event",
	"MutationObserver",
	"HTMLInputElement",
	"HTMLTextAreaElement",
	"HTMLSelectElement",
	"HTMLLinkElement",
	"HTMLTemplateElement",
	"EventTarget",
	"getComputedStyle",
	"NodeFilter",
]) {
	Object.defineProperty(g, key, {
		configurable: true,
		writable: true,
		value: key === "window" ? dom.window : win[key],
	});
}

/** Exceptions reported to window.onerror (listeners, custom element reactions). */
export const windowErrors: unknown[] = [];
dom.window.addEventListener("error", (event: any) => {
	windowErrors.push(event.error ?? event.message);
	event.preventDefault();
});

/** Errors thrown asynchronously (timers, unhandled promises). */
export const asyncErrors: unknown[] = [];
process.on("uncaughtException", (e) => {
	asyncErrors.push(e);
});
process.on("unhandledRejection", (e) => {
	asyncErrors.push(e);
});

type LogEntry = { level: string; text: string };
export const logs: LogEntry[] = [];
for (const level of ["log", "info", "warn", "error", "debug"] as const) {
	console[level] = (...args: unknown[]) => {
		logs.push({
			level,
			text: args.map((a) => (typeof a === "string" ? a : safe(a))).join(" "),
		});
		if (logs.length > 5000) logs.splice(0, 2500);
	};
}
function safe(value: unknown) {
	try {
		return value instanceof Error ? String(value) : (JSON.stringify(value) ?? String(value));
	} catch {
		return String(value);
	}
}

export function resetDom() {
	logs.length = 0;
	windowErrors.length = 0;
	jsdomErrors.length = 0;
	asyncErrors.length = 0;
	document.body.replaceChildren();
	document.head.replaceChildren();
}

let counter = 0;
export const uniqueTag = (prefix = "x-el") => `${prefix}-${(counter++).toString(36)}`;
