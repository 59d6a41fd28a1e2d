import { createRequire } from "node:module";
import path from "node:path";
import { ensure, fc, repoDir, runCheck, show } from "../lib/runner";

const ts = createRequire(`${repoDir}/package.json`)("typescript");

/* ---------------------------------------------------------------- compiler */

const FILE = path.join(repoDir, "src", "__verif_program__.ts");
const options = {
	target: ts.ScriptTarget.ES2020,
	module: ts.ModuleKind.ESNext,
	lib: ["lib.es2020.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"],
	skipLibCheck: true,
	moduleResolution: ts.ModuleResolutionKind.Node10,
	strict: true,
	noEmit: true,
	esModuleInterop: true,
	types: [],
};
let text = "";
let version = 0;
const service = ts.createLanguageService(
	{
		getScriptFileNames: () => [FILE],
		getScriptVersion: (f: string) => (f === FILE ? String(version) : "1"),
		getScriptSnapshot: (f: string) => {
			if (f === FILE) return ts.ScriptSnapshot.fromString(text);
			const t = ts.sys.readFile(f);
			return t === undefined ? undefined : ts.ScriptSnapshot.fromString(t);
		},
		getCurrentDirectory: () => repoDir,
		getCompilationSettings: () => options,
		getDefaultLibFileName: (o: unknown) => ts.getDefaultLibFilePath(o),
		fileExists: (f: string) => f === FILE || ts.sys.fileExists(f),
		readFile: (f: string) => (f === FILE ? text : ts.sys.readFile(f)),
		readDirectory: ts.sys.readDirectory,
		directoryExists: ts.sys.directoryExists,
		getDirectories: ts.sys.getDirectories,
	},
	ts.createDocumentRegistry(),
);

/** complaints of the compiler, by line */
function compile(source: string): Map<number, string[]> {
	text = source;
	version++;
	const found = new Map<number, string[]>();
	const file = service.getProgram().getSourceFile(FILE);
	for (const d of [...service.getSyntacticDiagnostics(FILE), ...service.getSemanticDiagnostics(FILE)]) {
		const line = file.getLineAndCharacterOfPosition(d.start).line;
		found.set(line, [...(found.get(line) ?? []), ts.flattenDiagnosticMessageText(d.messageText, " ").slice(0, 300)]);
	}
	return found;
}

/* ----------------------------------------------------------------- programs */

type Type = { ts: string; vals: string[]; bad: string; not: string };
const TYPES: Type[] = [
	{ ts: "number", vals: ["0", "1.5"], bad: '"x"', not: "string" },
	{ ts: "string", vals: ['""', '"s"'], bad: "3", not: "number" },
	{ ts: "boolean", vals: ["true", "false"], bad: '"true"', not: "string" },
	{ ts: "string[]", vals: ['["a"]', "[]"], bad: '["a", 3]', not: "number[]" },
	{ ts: "number | null", vals: ["null", "3"], bad: '"x"', not: "number" },
	{ ts: '"a" | "b"', vals: ['"a"', '"b"'], bad: '"c"', not: '"a"' },
	{ ts: "{ x: number }", vals: ["{ x: 1 }"], bad: '{ x: "1" }', not: "{ x: string }" },
	{ ts: "{ x: number; y?: string }[]", vals: ["[]", '[{ x: 1 }, { x: 2, y: "z" }]'], bad: '[{ y: "z" }]', not: "{ x: string }[]" },
	{ ts: "Date", vals: ["new Date()"], bad: '"2020"', not: "number" },
	{ ts: "Record<string, number>", vals: ["{}", "{ a: 1 }"], bad: '{ a: "1" }', not: "Record<string, string>" },
	{ ts: "readonly [number, string]", vals: ['[1, "a"]'], bad: '["a", 1]', not: "readonly [string, string]" },
	{ ts: "string | undefined", vals: ["undefined", '"q"'], bad: "3", not: "string" },
];
const typeArb = fc.nat({ max: TYPES.length - 1 });
const val = (t: Type, i: number) => t.vals[i % t.vals.length];

const FIELD_NAMES = ["count", "label", "items", "user", "flag", "total", "kind", "when"];
const EVENT_NAMES = ["inc", "add", "rename", "clear", "load", "pick"];
const DERIVED_NAMES = ["shown", "summary", "isEmpty", "doubled"];
const COMMAND_NAMES = ["go", "save", "ask", "submit"];
const EMIT_NAMES = ["saved", "check-out", "done", "picked"];

type Param = { t: number; opt: boolean };
interface Program {
	kind: (typeof SOURCES)[number];
	any: boolean; // the inferring igniteCore
	explicit: boolean; // names its adapter
	fields: Array<{ n: string; t: number }>;
	events: Array<{ n: string; params: Param[] }>;
	derived: Array<{ n: string; f: number; text: boolean }> | null;
	commands: Array<{ n: string; params: Param[]; ev: number; ret: number }> | null;
	emits: Array<{ n: string; t: number | null }> | null;
	eventsFirst: boolean;
	form: "function" | "object" | "class" | "pack" | "args";
	v: number;
}
const SOURCES = ["machine", "setup", "actor", "slice", "storeFactory", "store", "typedStoreFactory", "typedStore", "mobxFactory", "mobxStore", "mobxObject"] as const;

const paramsArb = fc
	.array(fc.record({ t: typeArb, opt: fc.boolean() }), { maxLength: 2 })
	// an optional parameter is not followed by a required one
	.map((ps) => ps.map((p, i) => ({ ...p, opt: p.opt && ps.slice(i).every((q) => q.opt) })));
const named = <T>(names: string[], arb: fc.Arbitrary<T>, min: number, max: number) =>
	fc
		.uniqueArray(fc.constantFrom(...names), { minLength: min, maxLength: max })
		.chain((ns) => fc.array(arb, { minLength: ns.length, maxLength: ns.length }).map((xs) => xs.map((x, i) => ({ n: ns[i], ...x }))));

const programArb: fc.Arbitrary<Program> = fc.record({
	kind: fc.constantFrom(...SOURCES),
	any: fc.boolean(),
	explicit: fc.boolean(),
	fields: named(FIELD_NAMES, fc.record({ t: typeArb }), 1, 4),
	events: named(EVENT_NAMES, fc.record({ params: paramsArb }), 1, 4),
	derived: fc.option(named(DERIVED_NAMES, fc.record({ f: fc.nat({ max: 7 }), text: fc.boolean() }), 0, 3), { freq: 8 }),
	commands: fc.option(named(COMMAND_NAMES, fc.record({ params: paramsArb, ev: fc.nat({ max: 7 }), ret: typeArb }), 0, 3), { freq: 8 }),
	emits: fc.option(named(EMIT_NAMES, fc.record({ t: fc.option(typeArb, { freq: 4 }) }), 1, 3), { freq: 3 }),
	eventsFirst: fc.boolean(),
	form: fc.constantFrom("function", "object", "class", "pack", "args"),
	v: fc.nat({ max: 5 }),
}) as fc.Arbitrary<Program>;

interface Built {
	text: string;
	/** lines that must be rejected, with what is wrong with them */
	wrong: Map<number, string>;
	/** lines that must be accepted */
	right: number;
}

function build(p: Program): Built {
	const lines: string[] = [];
	const wrong = new Map<number, string>();
	const put = (line: string) => void lines.push(line);
	const bad = (why: string, line: string) => {
		wrong.set(lines.length, why);
		lines.push(line);
	};
	const T = (i: number) => TYPES[i];
	const family = ["machine", "setup", "actor"].includes(p.kind) ? "xstate" : ["slice", "storeFactory", "store", "typedStoreFactory", "typedStore"].includes(p.kind) ? "redux" : "mobx";
	const typed = p.kind === "typedStoreFactory" || p.kind === "typedStore";
	const open = p.kind === "storeFactory" || p.kind === "store"; // any action may be sent to a store
	const fieldsType = `{ ${p.fields.map((f) => `${f.n}: ${T(f.t).ts}`).join("; ")} }`;
	const fieldsInit = `{ ${p.fields.map((f) => `${f.n}: ${val(T(f.t), p.v)}`).join(", ")} }`;
	const paramList = (ps: Param[]) => ps.map((q, i) => `p${i}${q.opt ? "?" : ""}: ${T(q.t).ts}`).join(", ");
	const argList = (ps: Param[], n = ps.length) => ps.slice(0, n).map((q) => val(T(q.t), p.v)).join(", ");
	const required = (ps: Param[]) => ps.filter((q) => !q.opt).length;

	put(`import { igniteCore } from "./${p.any ? "IgniteCore" : family}";`);
	put('import type { AdapterPack, RenderArgs } from "./index";');
	put('import { jsx } from "./jsx/index";');

	// the source, how its state is reached, how its events are written
	let at = ""; // path from the state to the fields
	let eventOf: (e: Program["events"][number], params?: string[]) => string;
	let fieldsOf: (e: Program["events"][number]) => Param[];
	if (family === "xstate") {
		const evType = p.events.map((e) => `{ type: "${e.n.toUpperCase()}"${e.params.map((q, i) => `; p${i}${q.opt ? "?" : ""}: ${T(q.t).ts}`).join("")} }`).join(" | ");
		put(`import { createActor, createMachine, setup } from "xstate"; void [createActor, createMachine, setup];`);
		const body = `{ initial: "off", context: ${fieldsInit}, states: { off: {}, on: {} } }`;
		if (p.kind === "setup") put(`const machine = setup({ types: { context: {} as ${fieldsType}, events: {} as ${evType} } }).createMachine(${body});`);
		else put(`const machine = createMachine({ types: {} as { context: ${fieldsType}; events: ${evType} }, ...${body} });`);
		put(p.kind === "actor" ? "const source = createActor(machine);" : "const source = machine;");
		fieldsOf = (e) => e.params;
		eventOf = (e, params = e.params.map((q) => val(T(q.t), p.v))) => `{ type: "${e.n.toUpperCase()}"${params.map((x, i) => (x === "" ? "" : `, p${i}: ${x}`)).join("")} }`;
	} else if (typed) {
		// the store's own type lists its actions
		put('import { configureStore } from "@reduxjs/toolkit";');
		put(`type Action = ${p.events.map((e) => `{ type: "do/${e.n}"${e.params.length ? `; payload: ${T(e.params[0].t).ts}` : ""} }`).join(" | ")};`);
		put(`const make = () => configureStore({ reducer: (s: ${fieldsType} | undefined, _a: Action): ${fieldsType} => s ?? (${fieldsInit} as ${fieldsType}) });`);
		put(p.kind === "typedStore" ? "const source = make();" : "const source = make;");
		fieldsOf = (e) => (e.params.length ? [{ t: e.params[0].t, opt: T(e.params[0].t).ts.includes("undefined") }] : []);
		eventOf = (e, params = fieldsOf(e).map((q) => val(T(q.t), p.v))) => `{ type: "do/${e.n}"${params.length && params[0] !== "" ? `, payload: ${params[0]}` : ""} }`;
	} else if (family === "redux") {
		put('import { configureStore, createSlice, type PayloadAction } from "@reduxjs/toolkit"; void configureStore; export type Unused = PayloadAction;');
		const reducers = p.events.map((e) => `${e.n}(_s${e.params.length ? `, _a: PayloadAction<${T(e.params[0].t).ts}>` : ""}) {}`).join(", ");
		put(`const slice = createSlice({ name: "part", initialState: ${fieldsInit} as ${fieldsType}, reducers: { ${reducers} } });`);
		if (p.kind === "slice") put("const source = slice;");
		else {
			put("const make = () => configureStore({ reducer: { part: slice.reducer, rest: (s: number = 0) => s } });");
			put(p.kind === "store" ? "const source = make();" : "const source = make;");
		}
		at = ".part";
		fieldsOf = (e) => (e.params.length ? [{ t: e.params[0].t, opt: T(e.params[0].t).ts.includes("undefined") }] : []);
		eventOf = (e, params = fieldsOf(e).map((q) => val(T(q.t), p.v))) => `{ type: "part/${e.n}"${params.length && params[0] !== "" ? `, payload: ${params[0]}` : ""} }`;
	} else {
		put('import { makeAutoObservable, observable } from "mobx"; void [makeAutoObservable, observable];');
		const members = p.fields.map((f) => `${f.n}: ${T(f.t).ts} = ${val(T(f.t), p.v)};`).join(" ");
		const methods = (sep: string) => p.events.map((e) => `${e.n}(${paramList(e.params)}) { void [${e.params.map((_, i) => `p${i}`).join(", ")}]; }`).join(sep);
		if (p.kind === "mobxObject") put(`const source = observable({ ...(${fieldsInit} as ${fieldsType}), ${methods(", ")} });`);
		else {
			put(`class Store { ${members} constructor() { makeAutoObservable(this); } ${methods(" ")} }`);
			put(p.kind === "mobxStore" ? "const source = new Store();" : "const source = () => new Store();");
		}
		fieldsOf = (e) => e.params;
		eventOf = (e, params = e.params.map((q) => val(T(q.t), p.v))) => {
			const given = params.filter((x) => x !== "");
			return `{ type: "${e.n}"${given.length || e.params.length ? `, args: [${given.join(", ")}]` : ""} }`;
		};
	}
	const actorState = typed ? "actor.getState()" : family === "redux" ? "actor.getState().part" : family === "xstate" ? "actor.getSnapshot().context" : "actor";
	const actorSend = (e: Program["events"][number], event: string, params?: string[]) =>
		family === "xstate"
			? `actor.send(${event})`
			: family === "redux"
				? `actor.dispatch(${event})`
				: `actor.${e.n}(${(params ?? e.params.map((q) => val(T(q.t), p.v))).filter((x) => x !== "").join(", ")})`;

	// the declaration
	const head = `source${p.explicit ? `, adapter: "${family}"` : ""}`;
	const derivedType = (d: NonNullable<Program["derived"]>[number]) => (d.text ? TYPES[1] : T(p.fields[d.f % p.fields.length].t));
	const derivedExpr = (d: NonNullable<Program["derived"]>[number]) => {
		const f = p.fields[d.f % p.fields.length].n;
		return d.text ? `String(s${at}.${f})` : `s${at}.${f}`;
	};
	const emitType = (e: NonNullable<Program["emits"]>[number]) => (e.t === null ? "undefined" : T(e.t).ts);
	const optionalPayload = (e: NonNullable<Program["emits"]>[number]) => e.t === null || T(e.t).ts.includes("undefined");
	const eventsOpt = p.emits ? `events: (event) => ({ ${p.emits.map((e) => `"${e.n}": event<${emitType(e)}>()`).join(", ")} })` : "";
	const emitGood = (e: NonNullable<Program["emits"]>[number]) => [
		`emit("${e.n}"${e.t === null ? "" : `, ${val(T(e.t), p.v)}`})`,
		...(optionalPayload(e) ? [`emit("${e.n}")`] : []),
	];
	put("const register = igniteCore({");
	put(`${head},`);
	// declared before or after the commands: what is right is accepted either way
	if (p.emits && p.eventsFirst) put(`${eventsOpt},`);
	if (p.derived) {
		put("states: (s) => ({");
		for (const d of p.derived) put(`${d.n}: ${derivedExpr(d)},`);
		put("}),");
	}
	if (p.commands) {
		put(`commands: ({ actor, emit, host }) => { void [actor, emit, host.localName]; return {`);
		for (const c of p.commands) {
			const e = p.events[c.ev % p.events.length];
			put(`${c.n}: (${paramList(c.params)}): ${T(c.ret).ts} => {`);
			put(`${actorSend(e, eventOf(e))};`);
			const f = p.fields[c.ev % p.fields.length];
			put(`const seen: ${T(f.t).ts} = ${actorState}.${f.n}; void [seen, ${c.params.map((_, i) => `p${i}`).join(", ")}];`);
			if (family === "xstate") put(`const also: [${T(f.t).ts}, ${T(f.t).ts}] = [actor.state.${f.n}, actor.state.context.${f.n}]; void also;`);
			if (family === "redux") put("actor.subscribe(() => {})();");
			for (const x of p.emits ?? []) for (const g of emitGood(x)) put(`${g};`);
			put(`return ${val(T(c.ret), p.v)}; },`);
		}
		put("}; },");
	}
	if (p.emits && !p.eventsFirst) put(`${eventsOpt},`);
	put("});");

	// what the render function may and may not do
	const render = () => {
		for (const [i, f] of p.fields.entries()) {
			put(`const f${i}: ${T(f.t).ts} = args.state${at}.${f.n}; void f${i};`);
			if (family === "xstate") put(`const fc${i}: ${T(f.t).ts} = args.state.context.${f.n}; void fc${i};`);
			bad("mistyped state field", `const fb${i}: ${T(f.t).not} = args.state${at}.${f.n}; void fb${i};`);
			bad("misspelled state field", `void args.state${at}.${f.n}X;`);
		}
		for (const [i, d] of (p.derived ?? []).entries()) {
			put(`const d${i}: ${derivedType(d).ts} = args.${d.n}; void d${i};`);
			bad("mistyped derived value", `const db${i}: ${derivedType(d).not} = args.${d.n}; void db${i};`);
			bad("misspelled derived value", `void args.${d.n}X;`);
		}
		for (const [i, c] of (p.commands ?? []).entries()) {
			put(`const c${i}: ${T(c.ret).ts} = args.${c.n}(${argList(c.params)}); void c${i};`);
			if (required(c.params) < c.params.length) put(`args.${c.n}(${argList(c.params, required(c.params))});`);
			bad("mistyped command result", `const cb${i}: ${T(c.ret).not} = args.${c.n}(${argList(c.params)}); void cb${i};`);
			bad("misspelled command", `args.${c.n}X(${argList(c.params)});`);
			bad("too many arguments to a command", `args.${c.n}(${[...c.params.map((q) => val(T(q.t), p.v)), "1"].join(", ")});`);
			if (required(c.params)) bad("missing argument of a command", `args.${c.n}(${argList(c.params, required(c.params) - 1)});`);
			for (let j = 0; j < c.params.length; j++)
				bad("mistyped argument of a command", `args.${c.n}(${c.params.map((q, k) => (k === j ? T(q.t).bad : val(T(q.t), p.v))).join(", ")});`);
		}
		for (const e of p.events) {
			const ps = fieldsOf(e);
			put(`args.send(${eventOf(e)});`);
			if (family === "redux" && !typed) put(`args.send(slice.actions.${e.n}(${ps.map((q) => val(T(q.t), p.v)).join(", ")}));`);
			if (required(ps) < ps.length) put(`args.send(${eventOf(e, ps.map((q) => (q.opt ? "" : val(T(q.t), p.v))))});`);
			if (open) continue;
			bad("unknown event", `args.send(${eventOf({ ...e, n: `${e.n}x` }, ps.map((q) => val(T(q.t), p.v)))});`);
			for (let j = 0; j < ps.length; j++) {
				bad("mistyped event payload", `args.send(${eventOf(e, ps.map((q, k) => (k === j ? T(q.t).bad : val(T(q.t), p.v))))});`);
				if (!ps[j].opt && (family !== "mobx" || j === ps.length - 1)) bad("missing event payload", `args.send(${eventOf(e, ps.map((q, k) => (k === j ? "" : val(T(q.t), p.v))))});`);
			}
			if (family === "mobx" && required(ps)) bad("event without its arguments", `args.send({ type: "${e.n}" });`);
			if (family === "mobx" && !ps.length) bad("arguments for a method without parameters", `args.send({ type: "${e.n}", args: [1] });`);
		}
		if (family === "mobx") bad("event named after a field", `args.send({ type: "${p.fields[0].n}" });`);
		bad("event without a type", `args.send({ kind: "x" });`);
		bad("event that is a string", `args.send("${p.events[0].n}");`);
		bad("misspelled state", "void args.stat;");
	};
	if (p.form === "function" || p.form === "args") {
		put('register("x-a", (args) => {');
		render();
		put("return null; });");
	} else if (p.form === "object") {
		put('register("x-a", { render: (args) => {');
		render();
		put('return jsx("p", {}); } });');
	} else if (p.form === "class") {
		put('register("x-a", class { render(args: AdapterPack<typeof register>) {');
		render();
		put('return ["text", jsx("p", {}), 3, null]; } });');
	} else {
		put("function view(args: AdapterPack<typeof register>) {");
		render();
		put('return "text"; }');
		put('register("x-a", view);');
		put('register("x-b", { render: view });');
	}
	if (p.form === "args" && family !== "mobx" && p.kind !== "actor" && !p.derived?.some(() => false)) {
		// the same arguments spelled with RenderArgs
		put(`function spelled(args: RenderArgs<typeof source, (s: any) => { shown: number }, (c: any) => { go: (n: number) => string }>) {`);
		put("const a: number = args.shown; const b: string = args.go(1); void [a, b];");
		const f = p.fields[0];
		put(`const c: ${T(f.t).ts} = args.state${at}.${f.n}; void c;`);
		put(`args.send(${eventOf(p.events[0])});`);
		bad("misspelled derived value (RenderArgs)", "void args.shownX;");
		bad("mistyped derived value (RenderArgs)", "const d: string = args.shown; void d;");
		bad("mistyped argument of a command (RenderArgs)", 'args.go("x");');
		bad("misspelled state field (RenderArgs)", `void args.state${at}.${f.n}X;`);
		if (!open) bad("unknown event (RenderArgs)", 'args.send({ type: "no/such" });');
		put("}; void spelled;");
	}
	put("export type Pack = AdapterPack<typeof register>; export type Also = RenderArgs<typeof source>;");
	// registrations
	bad("renderer without render", 'register("x-c", {});');
	bad("a renderer that is not one", 'register("x-c", "view");');
	bad("no renderer", 'register("x-c");');
	bad("element name that is not a string", "register(3, () => null);");
	bad("a view that is not one", 'register("x-c", () => new Map());');
	bad("renderer that wants another argument", 'register("x-c", ({ nothing }: { nothing: number }) => String(nothing));');
	bad("class renderer that wants another argument", 'register("x-c", class { render({ nothing }: { nothing: number }) { return String(nothing); } });');
	if (p.derived?.length) {
		const d = p.derived[0];
		bad("renderer that wants a derived value of another type", `register("x-c", ({ ${d.n} }: { ${d.n}: ${derivedType(d).not} }) => { void ${d.n}; return null; });`);
	}

	// declarations that are wrong
	const f0 = p.fields[0].n;
	const e0 = p.events[0];
	bad("states reads a misspelled field", `igniteCore({ ${head}, states: (s) => ({ a: s${at}.${f0}X }) });`);
	bad("states returns no object", `igniteCore({ ${head}, states: () => 3 });`);
	bad("a command that is not a function", `igniteCore({ ${head}, commands: () => ({ a: 3 }) });`);
	bad("commands returns no object", `igniteCore({ ${head}, commands: () => "x" });`);
	bad("a command reads a misspelled field", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => ${actorState}.${f0}X }) });`);
	if (family === "xstate") {
		bad("a command reads a misspelled field of actor.state", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => actor.state.${f0}X }) });`);
		bad("a command misuses a field of actor.state", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: (): ${T(p.fields[0].t).not} => actor.state.${f0} }) });`);
		bad("a command misuses a field of the snapshot", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: (): ${T(p.fields[0].t).not} => actor.getSnapshot().context.${f0} }) });`);
	}
	if (family === "redux") bad("a command subscribes with no function", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => actor.subscribe(3) }) });`);
	bad("a command uses an unknown actor member", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => actor.nothing }) });`);
	bad("a command uses an unknown host member", `igniteCore({ ${head}, commands: ({ host }) => ({ a: () => host.nothing }) });`);
	bad("a command that is missing", `igniteCore({ ${head}, commands: () => ({ a: undefined }) });`);
	bad("commands wants an unknown context member", `igniteCore({ ${head}, commands: ({ store }) => ({ a: () => store }) });`);
	if (!open) {
		bad("a command sends an unknown event", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => ${actorSend({ ...e0, n: `${e0.n}x` }, eventOf({ ...e0, n: `${e0.n}x` }))} }) });`);
		for (const e of p.events)
			if (fieldsOf(e).length) {
				const params = fieldsOf(e).map((q, k) => (k === 0 ? T(q.t).bad : val(T(q.t), p.v)));
				bad("a command sends a mistyped payload", `igniteCore({ ${head}, commands: ({ actor }) => ({ a: () => ${actorSend(e, eventOf(e, params), params)} }) });`);
			}
	}
	bad("emit without declared events", `igniteCore({ ${head}, commands: ({ emit }) => ({ a: () => emit("saved", 1) }) });`);
	for (const e of p.emits ?? []) {
		// with the events declared first, misuse of emit is rejected
		const wrap = (call: string) => `igniteCore({ ${head}, ${eventsOpt}, commands: ({ emit }) => ({ a: () => ${call} }) });`;
		const payload = e.t === null ? "" : `, ${val(T(e.t), p.v)}`;
		bad("emits an undeclared event", wrap(`emit("${e.n}x"${payload})`));
		bad("emits a mistyped payload", wrap(`emit("${e.n}", ${e.t === null ? "1" : T(e.t).bad})`));
		if (!optionalPayload(e)) bad("emits without the payload", wrap(`emit("${e.n}")`));
		bad("emits two payloads", wrap(`emit("${e.n}"${payload || ", undefined"}, 1)`));
	}
	bad("adapter of another library", `igniteCore({ source, adapter: "${family === "redux" ? "xstate" : "redux"}" });`);
	bad("unknown adapter", 'igniteCore({ source, adapter: "vue" });');
	bad("source that is a number", "igniteCore({ source: 3 });");
	bad("no source", "igniteCore({ states: () => ({}) });");
	bad("cleanup that is not a boolean", `igniteCore({ ${head}, cleanup: "yes" });`);
	bad("misspelled option", `igniteCore({ ${head}, state: () => ({}) });`);
	// configurations
	put('import { defineIgniteConfig, loadIgniteConfig, setGlobalStyles } from "./index";');
	put('defineIgniteConfig({ renderer: "lit", styles: "/a.css", strategy: "replace", logging: "debug" }); defineIgniteConfig({});');
	put('defineIgniteConfig({ renderer: "ignite-jsx", styles: { href: "/a.css", integrity: "x", crossOrigin: "anonymous" } });');
	put('void loadIgniteConfig(() => Promise.resolve({ default: { styles: "/a.css" } })); void loadIgniteConfig(async () => ({ renderer: "lit" }));');
	put('setGlobalStyles("/a.css"); setGlobalStyles({ href: "/a.css" }); setGlobalStyles(undefined);');
	bad("a configuration with an unknown renderer", 'defineIgniteConfig({ renderer: "react" });');
	bad("a configuration with a misspelled option", 'defineIgniteConfig({ style: "/a.css" });');
	bad("a configuration with styles that are none", "defineIgniteConfig({ styles: 3 });");
	bad("a configuration with styles that lack an address", 'defineIgniteConfig({ styles: { integrity: "x" } });');
	bad("a configuration with a list of styles", 'setGlobalStyles(["/a.css"]);');
	bad("a config loader that gives no promise", 'void loadIgniteConfig(() => ({ renderer: "lit" as const }));');
	return { text: lines.join("\n"), wrong, right: lines.length - wrong.size };
}

function judge({ text: program, wrong }: Built) {
	const complaints = compile(program);
	const lines = program.split("\n");
	for (const [line, messages] of complaints)
		ensure(wrong.has(line), () => `a correct program is rejected at ${show(lines[line])}: ${messages.join("; ")}\n${program}`);
	for (const [line, why] of wrong) ensure(complaints.has(line), () => `${why} is accepted: ${lines[line]}\n${program}`);
}

runCheck(
	"C20",
	{
		level: "exploration",
		rule: "generated component programs (11 kinds of source, 12 field and payload types, 0-3 derived values, commands and emitted events, optional parameters, every renderer form, AdapterPack and RenderArgs) compiled with the library's types; every correct line must be accepted and every planted single misuse (about 60 per program) rejected by the TypeScript compiler; non-trivial: the program has a derived value, a command or an emitted event",
		assumptions: ["the compiler is the one the repository uses, in strict mode", "misuse of emit is only expected to be rejected where events are declared before commands"],
	},
	async (check) => {
		let misuses = 0;
		await check.prop("programs", programArb, { quick: 150, thorough: 1800 }, (p, c) => {
			const built = build(p);
			misuses += built.wrong.size;
			judge(built);
			if (p.derived?.length || p.commands?.length || p.emits?.length) c.nontrivial();
			c.label(`${p.kind}${p.any ? " (inferred)" : ""}`);
		});
	},
);
