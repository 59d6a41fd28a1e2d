R='src/renderers/jsx/renderer.ts'
BUGS=[
dict(id='style-string-to-object', prop='C01', edits=[(R,'''	if (next && typeof next === "object") {
		style.cssText = "";
''','''	if (next && typeof next === "object") {
''')], needs='a style prop that is a string in one view and an object in the next', breaks='declarations of the old string style stay on the element after the update; a fresh render would not have them',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const register = igniteCore({ source: slice });
const t = tag();
let send;
register(t, (a) => {
	send = a.send;
	return jsx("p", { style: a.state.s.n ? { color: "red" } : "margin: 3px; padding: 2px" });
});
const el = add(t);
send(slice.actions.inc());
expect(el.shadowRoot.querySelector("p").style.cssText.trim(), "color: red;", "style after the update");
done();
'''),
dict(id='text-recreated', prop='C02', edits=[(R,'''		if (domNode.textContent !== newNode.value) {
			domNode.textContent = newNode.value;
		}
		return domNode;
''','''		if (domNode.textContent !== newNode.value) {
			return createDomFromNormalized(newNode);
		}
		return domNode;
''')], needs='an update that changes a text which someone holds on to (selection, range, observer)', breaks='the text node is recreated instead of updated in place, so the user\'s selection in it is lost',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const t = tag();
let send;
igniteCore({ source: slice })(t, (a) => {
	send = a.send;
	return jsx("p", { children: `count ${a.state.s.n}` });
});
const el = add(t);
const text = el.shadowRoot.querySelector("p").firstChild;
send(slice.actions.inc());
expect(el.shadowRoot.querySelector("p").textContent, "count 1", "shown");
expect(el.shadowRoot.querySelector("p").firstChild === text, true, "same text node");
done();
'''),
dict(id='kebab-first-capital', prop='C03', edits=[(R,'''	return value.replace(/([A-Z])/g, "-$1").toLowerCase();''','''	return value.replace(/([A-Z])/, "-$1").toLowerCase();''')], needs='a style object with a property of three words (borderTopWidth)', breaks='the declaration is set under a name CSS does not know, so it has no effect',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("xstate");
const { createMachine } = await dep("xstate");
const { jsx } = await lib("jsx/index");
const t = tag();
igniteCore({ source: createMachine({}) })(t, () => jsx("p", { style: { color: "red", borderTopWidth: "3px", maxWidth: "9px" } }));
const p = add(t).shadowRoot.querySelector("p");
expect([p.style.color, p.style.borderTopWidth, p.style.maxWidth], ["red", "3px", "9px"], "styles");
done();
'''),
dict(id='handler-removed-by-lowercase-name', prop='C04', edits=[(R,'''		const eventName = normalizeEventName(key.slice(2));
		element.removeEventListener(eventName, prev as EventListener);
''','''		const eventName = key.slice(2).toLowerCase();
		element.removeEventListener(eventName, prev as EventListener);
''')], needs='a handler for a dash-separated event that disappears from the view', breaks='the handler of the earlier view still runs',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const t = tag();
let send;
let calls = 0;
igniteCore({ source: slice })(t, (a) => {
	send = a.send;
	return jsx("p", a.state.s.n ? {} : { onValueChange: () => calls++ });
});
const el = add(t);
const p = el.shadowRoot.querySelector("p");
p.dispatchEvent(new window.CustomEvent("value-change"));
send(slice.actions.inc());
p.dispatchEvent(new window.CustomEvent("value-change"));
expect(calls, 1, "handler calls");
done();
'''),
dict(id='redux-skip-unchanged', prop='C05', edits=[('src/adapters/ReduxAdapter.ts','''			const storeUnsubscribe = store.subscribe(() => {
''','''			const storeUnsubscribe = onChange(() => {
'''),('src/adapters/ReduxAdapter.ts','''	const cleanupSubscriptions = () => {
''','''	const onChange = (callback: () => void) =>
		store.subscribe(() => {
			const state = store.getState();
			if (state === lastKnownState) {
				return;
			}
			lastKnownState = state;
			callback();
		});

	const cleanupSubscriptions = () => {
''')], needs='two connected elements over one shared Redux store', breaks='"unchanged" is remembered per adapter and not per listener: only the first element is updated, the second shows the old state',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { configureStore, createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const store = configureStore({ reducer: slice.reducer });
const t = tag();
igniteCore({ source: store })(t, (a) => jsx("p", { children: `n=${a.state.n}` }));
const a = add(t);
const b = add(t);
store.dispatch(slice.actions.inc());
expect([shown(a), shown(b)], ["n=1", "n=1"], "both elements");
done();
'''),
dict(id='slice-warm-start', prop='C06', edits=[('src/adapters/ReduxAdapter.ts','''	return createFactory<
		State,
		Event,
		State,
		ReduxSliceCommandActor<SliceSource>
	>(() => {
		const store = configureStore({
			reducer: {
				[slice.name]: slice.reducer,
			},
		});
''','''	let warm: Record<string, unknown> | undefined;
	return createFactory<
		State,
		Event,
		State,
		ReduxSliceCommandActor<SliceSource>
	>(() => {
		const store = configureStore({
			reducer: {
				[slice.name]: slice.reducer,
			},
			preloadedState: warm,
		});
		store.subscribe(() => {
			if (!warm) {
				queueMicrotask(() => {
					warm = store.getState();
				});
			}
		});
''')], needs='an element created some time after an event was handled by an earlier element of the same component', breaks='the new element starts from the other element\'s state instead of its own initial state',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const t = tag();
let send;
igniteCore({ source: slice })(t, (a) => {
	send ??= a.send;
	return jsx("p", { children: `n=${a.state.s.n}` });
});
const a = add(t);
send(slice.actions.inc());
await new Promise((r) => setTimeout(r, 5));
const b = add(t);
expect([shown(a), shown(b)], ["n=1", "n=0"], "each element's own state");
done();
'''),
dict(id='xstate-keeps-subscription', prop='C07', edits=[('src/adapters/XStateAdapter.ts','''					listeners.delete(listener);
					if (!listeners.size) {
						cleanupSubscription();
					}
''','''					listeners.delete(listener);
''')], needs='a shared actor with cleanup: false, all elements removed', breaks='a subscription on the user\'s actor is left behind after all elements are gone',
demo='''
import { add, dep, done, expect, lib, tag } from "./page.mjs";
const { igniteCore } = await lib("xstate");
const { createActor, createMachine } = await dep("xstate");
const actor = createActor(createMachine({ initial: "a", states: { a: {} } }));
let live = 0;
const subscribe = actor.subscribe.bind(actor);
actor.subscribe = (...args) => {
	const s = subscribe(...args);
	live++;
	return { unsubscribe() { live--; s.unsubscribe(); } };
};
const t = tag();
igniteCore({ source: actor, cleanup: false })(t, () => null);
const a = add(t);
const b = add(t);
expect(live > 0, true, "subscribed while in use");
a.remove();
b.remove();
expect(live, 0, "subscriptions left");
done();
'''),
dict(id='count-per-tag', prop='C08', edits=[('src/IgniteElementFactory.ts','''	let sharedInstanceCount = 0;

''','''
'''),('src/IgniteElementFactory.ts','''		sharedAdditionalArgs = new WeakMap();
		sharedInstanceCount = 0;
''','''		sharedAdditionalArgs = new WeakMap();
'''),('src/IgniteElementFactory.ts','''			const render = resolveRenderer(renderer);
			resolveSharedResources();
''','''			const render = resolveRenderer(renderer);
			let sharedInstanceCount = 0;
			resolveSharedResources();
''')], needs='two tags registered from one shared component factory, with the elements of one tag removed while one of the other stays', breaks='the adapter is released although an element still uses it; that element no longer follows the source',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("redux");
const { configureStore, createSlice } = await dep("@reduxjs/toolkit");
const { jsx } = await lib("jsx/index");
const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc: (s) => { s.n++; } } });
const store = configureStore({ reducer: slice.reducer });
const register = igniteCore({ source: store });
const [t1, t2] = [tag(), tag()];
for (const t of [t1, t2]) register(t, (a) => jsx("p", { children: `n=${a.state.n}` }));
const a = add(t1);
const b = add(t2);
a.remove();
store.dispatch(slice.actions.inc());
expect(shown(b), "n=1", "the remaining element");
done();
'''),
dict(id='notify-copies-listeners', prop='C09', edits=[('src/adapters/XStateAdapter.ts','''		for (const listener of listeners) {
			listener(state);
		}
''','''		for (const listener of [...listeners]) {
			listener(state);
		}
''')], needs='a listener that unsubscribes another one while a change is being delivered', breaks='the listener that was unsubscribed is still called',
kind='sh', demo={'demo.sh':'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
cat > "$out/entry.ts" <<'X'
import createXStateAdapter from "/repo/src/adapters/XStateAdapter";
import { createActor, createMachine, assign } from "xstate";
const actor = createActor(createMachine({ context: { n: 0 }, on: { INC: { actions: assign({ n: ({ context }: any) => context.n + 1 }) } } } as any));
const adapter: any = createXStateAdapter(actor as any)();
const got: number[] = [];
let second: any;
let first = true;
adapter.subscribe(() => { if (first) { first = false; return; } second.unsubscribe(); });
second = adapter.subscribe((s: any) => got.push(s.context.n));
adapter.send({ type: "INC" });
console.log(JSON.stringify(got));
process.exit(JSON.stringify(got) === "[0]" ? 0 : 1);
X
NODE_PATH=/repo/node_modules /opt/veriftools/node/node_modules/.bin/esbuild "$out/entry.ts" --bundle --platform=node --format=cjs --log-level=error --outfile="$out/run.cjs" || exit 3
exec timeout 100 node "$out/run.cjs"
'''}),
dict(id='mobx-empty-args', prop='C09', edits=[('src/adapters/MobxAdapter.ts','''				if ("args" in event && event.args) {''','''				if ("args" in event && event.args?.length) {''')], needs='an event with an empty argument list for a method that declares a parameter', breaks='the method is called with the event object instead of without arguments',
demo='''
import { add, dep, done, expect, lib, shown, tag } from "./page.mjs";
const { igniteCore } = await lib("mobx");
const { makeObservable, observable } = await dep("mobx");
const { jsx } = await lib("jsx/index");
class Store {
	label = "x";
	constructor() { makeObservable(this, { label: observable }); }
	setLabel(v) { this.label = v === undefined ? "cleared" : String(v); }
}
const t = tag();
let send;
igniteCore({ source: () => new Store() })(t, (a) => {
	send = a.send;
	return jsx("p", { children: a.state.label });
});
const el = add(t);
send({ type: "setLabel", args: [] });
expect(shown(el), "cleared", "label");
done();
'''),
]
