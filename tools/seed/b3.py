TC = r'''
// type-checks programs against the library's sources, run from the repository's directory
const { createRequire } = require("module");
const path = require("path");
const ts = createRequire(path.join(process.cwd(), "package.json"))("typescript");
const at = path.join(process.cwd(), "src", "__demo.ts");
function errors(text) {
	const opts = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, lib: ["lib.es2020.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"], skipLibCheck: true, moduleResolution: ts.ModuleResolutionKind.Node10, strict: true, noEmit: true, esModuleInterop: true, types: [] };
	const host = ts.createCompilerHost(opts);
	const { readFile, fileExists, getSourceFile } = host;
	host.fileExists = (n) => n === at || fileExists(n);
	host.readFile = (n) => (n === at ? text : readFile(n));
	host.getSourceFile = (n, ...a) => (n === at ? ts.createSourceFile(n, text, ts.ScriptTarget.ES2020, true) : getSourceFile(n, ...a));
	const p = ts.createProgram([at], opts, host);
	const sf = p.getSourceFile(at);
	return [...p.getSyntacticDiagnostics(sf), ...p.getSemanticDiagnostics(sf)].map((d) => ts.flattenDiagnosticMessageText(d.messageText, " "));
}
exports.accept = (text) => {
	const e = errors(text);
	if (e.length) { console.log("WRONG: a correct program is rejected:", e[0]); process.exit(1); }
};
exports.reject = (text) => {
	if (!errors(text).length) { console.log("WRONG: a wrong program is accepted:\n" + text); process.exit(1); }
};
'''
SH='#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 node "$here/demo.cjs"\n'
BUGS=[
dict(id='payload-optional', prop='C20', kind='sh', edits=[('src/utils/igniteRedux.ts','''			: Event | { type: Type; payload: Payload }
''','''			: Event | { type: Type; payload?: Payload }
''')], needs='a Redux slice action that requires a payload, sent without one', breaks='the compiler accepts an event that lacks its required payload; the reducer gets undefined at run time',
demo={'demo.sh':SH,'tc.cjs':TC,'demo.cjs':r'''
const { accept, reject } = require("./tc.cjs");
const program = (event) => `
import { createSlice, type PayloadAction } from "@reduxjs/toolkit";
import { igniteCore } from "./redux";
const slice = createSlice({ name: "cart", initialState: { n: 0 }, reducers: { add: (s, a: PayloadAction<number>) => { s.n += a.payload; } } });
igniteCore({ source: slice })("x-cart", ({ send }) => { send(${event}); return null as any; });
`;
accept(program('{ type: "cart/add", payload: 3 }'));
reject(program('{ type: "cart/add" }'));
console.log("ok");
'''}),
dict(id='mobx-args-unchecked', prop='C20', kind='sh', edits=[('src/adapters/MobxAdapter.ts','''		: { type: Key; args: MethodArgs<State, Key> };
''','''		: { type: Key; args: unknown[] };
''')], needs='a MobX method with parameters, sent with arguments of another type', breaks='the compiler accepts an event whose arguments do not fit the method',
demo={'demo.sh':SH,'tc.cjs':TC,'demo.cjs':r'''
const { accept, reject } = require("./tc.cjs");
const program = (event) => `
import { makeAutoObservable } from "mobx";
import { igniteCore } from "./mobx";
class Cart { n = 0; constructor() { makeAutoObservable(this); } add(by: number) { this.n += by; } }
igniteCore({ source: () => new Cart() })("x-cart", ({ send }) => { send(${event}); return null as any; });
`;
accept(program('{ type: "add", args: [3] }'));
reject(program('{ type: "add", args: ["three"] }'));
console.log("ok");
'''}),
]
