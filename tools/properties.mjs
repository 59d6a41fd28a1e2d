// Single source of properties.jsonl and MANIFEST.json:  node tools/properties.mjs
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
const verif = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");

const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, technique, level_note, extra = {}) =>
	P.push({ id, title, statement, over, text, why, files, mechanism, technique, level_note, ...extra });

add(
	"C01",
	"Incremental JSX update ends in the same DOM as a fresh render",
	"For any sequence of views rendered one after another into the same component, the DOM after each update (elements, text, attributes, live form and element properties, styles, namespaces, order) equals the DOM that rendering that view alone into a new component would give. This holds for additions, removals, moves, lists, type changes, and props that change, become null/undefined/false or disappear.",
	["histories", "inputs"],
	"every finite sequence of JSX views (any tree shape, keys, props, text) rendered in incremental mode",
	"The repository's tests try a few dozen hand-written before/after pairs; the guarantee is over all pairs and longer histories, where leftovers of an older view survive.",
	["src/renderers/jsx/renderer.ts", "src/renderers/jsx/IgniteJsxRenderStrategy.ts"],
	[
		{ name: "tree diff and prop patching", where: "src/renderers/jsx/renderer.ts" },
		{ name: "mode selection", where: "src/renderers/jsx/IgniteJsxRenderStrategy.ts" },
	],
	"property-based testing: random view histories, metamorphic oracle (incremental result = fresh render), shrinking",
	"Random histories of trees, of props on one element, and of child lists; each step compared with a fresh render.",
);
add(
	"C02",
	"Updates keep surviving nodes and user state; replace mode rebuilds",
	"In incremental mode, when an update leaves a list of siblings in shape (same kinds and element types at the same places, possibly with more at the end, and not a mere permutation of the old ones), each of its elements and texts keeps its DOM node, in the document throughout, together with what the user did to it: focus, text selection, typed text the view does not control, text being composed, content other scripts put into an element the view leaves empty. When replacing is requested (configured globally, switched off by environment flag, requested by an attribute on the host, or for a denylisted tag) the content is rebuilt instead and still shows the new view.",
	["histories", "inputs", "configurations"],
	"every sequence of shape-preserving or growing views, every point at which user state exists, and every replace trigger",
	"Tests check identity for a few fixed views; identity must survive any mix of text, prop and nested changes and appended nodes, and each trigger combines with any history.",
	["src/renderers/jsx/renderer.ts", "src/renderers/jsx/IgniteJsxRenderStrategy.ts", "src/renderers/jsx/noDiffDenylist.ts"],
	[
		{ name: "in-place patching", where: "src/renderers/jsx/renderer.ts" },
		{ name: "forced replace reasons", where: "src/renderers/jsx/IgniteJsxRenderStrategy.ts" },
	],
	"property-based testing: random shape-preserving view histories with user state injected, identity oracle",
	"Node identity and injected user state are compared across generated histories in every mode.",
);
add(
	"C03",
	"A rendered JSX view produces exactly the DOM the view describes",
	"Rendering a view yields the elements, text, attributes and properties it describes, in order and in the right namespace: nested arrays and fragments are flattened, null/undefined/booleans render nothing, numbers and strings render as literal text (never as markup), className/style/boolean/SVG props take effect, and function components receive their props and children.",
	["inputs"],
	"every JSX view (nesting, arrays, fragments, components, primitive children, props, SVG)",
	"Tests enumerate individual features; combinations (fragments in arrays in components in SVG, odd text, falsy props) are unbounded.",
	["src/renderers/jsx/renderer.ts", "src/renderers/jsx/jsx-runtime.ts"],
	[
		{ name: "normalisation and mounting", where: "src/renderers/jsx/renderer.ts" },
		{ name: "element factories", where: "src/renderers/jsx/jsx-runtime.ts" },
	],
	"property-based testing: random views against an independent reference model of the resulting DOM",
	"Generated views are rendered and compared with a model that computes the expected DOM from the view's description.",
);
add(
	"C04",
	"Exactly the current event handlers run, once each",
	"After any sequence of renders, dispatching an event at a rendered element runs the handler the latest view gives for that event, exactly once and with that event, and no handler of an earlier view. Handler names map to event names as documented (camelCase to the lower-case or dash-separated event), a handler removed or set to null no longer runs, and this also holds for custom events and in replace mode.",
	["histories", "inputs"],
	"every history of handler additions, swaps, removals across updates, and every event name",
	"Tests swap one handler once; duplicates or stale handlers appear only after particular sequences.",
	["src/renderers/jsx/renderer.ts"],
	[{ name: "listener bookkeeping", where: "src/renderers/jsx/renderer.ts" }],
	"property-based testing: random handler histories, every event dispatched at every element, exact-call oracle",
	"After every render all events are dispatched at all elements and the calls compared with the latest view.",
);
add(
	"C05",
	"A connected element always shows the current state of its source",
	"At every moment an element is in the document, what it displays is what its render function returns for its source's current state (falsy states such as 0, \"\", false and null included), whoever changed the state: the element through its send function, a command or a \"send\" DOM event, another element, or application code acting on the source directly. This holds for every supported state library and renderer (and for components without a source) and for any order of creating, cloning, connecting, moving and removing elements.",
	["histories", "inputs", "configurations"],
	"every interleaving of element lifecycle operations and state changes, for every source kind and renderer",
	"Tests run one short scenario per adapter; a stale view shows only after particular lifecycle/notification orders.",
	["src/IgniteElement.ts", "src/IgniteElementFactory.ts", "src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts", "src/createComponentFactory.ts", "src/renderers/LitRenderStrategy.ts"],
	[
		{ name: "subscribe / connect / render", where: "src/IgniteElement.ts" },
		{ name: "adapters", where: "src/adapters" },
	],
	"stateful model-based testing: random lifecycle/state histories against a reference model, after every step",
	"Histories over 9 source kinds x 3 entry styles x 2 renderers; every connected element compared with the model after every operation; nested components and primitive states separately.",
);
add(
	"C06",
	"Isolated elements never affect each other; shared ones always agree",
	"When the source is a definition or factory (machine, slice, store factory, observable factory) every element gets its own state: an event handled by one element changes that element only. When the source is a live instance (running actor, store, observable) all elements of all components built on it, from any number of registrations, show the same state after every change.",
	["histories", "configurations"],
	"every set of components over isolated and shared sources and every interleaving of events among their elements",
	"Tests use two elements and one event; leaks between instances depend on registration shape and order.",
	["src/IgniteElementFactory.ts", "src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts"],
	[{ name: "scope decision and per-element adapter", where: "src/IgniteElementFactory.ts" }],
	"stateful model-based testing: several sources, cores, tags and elements; one model cell per isolated element, one per shared source",
	"Random universes of sources, registrations and elements; each element is compared with its own cell after each event.",
);
add(
	"C07",
	"Disconnected elements are inert and leave nothing behind",
	"Once an element leaves the document it never renders again while out, its shown content stays, events sent through it are ignored without reaching the source, and it holds no subscription on the source. The state machine instance an isolated element owns is stopped when the element is removed, and removing all elements leaves no subscriptions on any user store, actor or observable and lets the elements be garbage-collected.",
	["histories", "schedules"],
	"every history of connecting, disconnecting, moving and re-adding elements, including removal in the middle of a state notification",
	"Tests check unsubscription for one element; leaks need specific sequences (reconnects, moves, removal during a notification).",
	["src/IgniteElement.ts", "src/IgniteElementFactory.ts", "src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts"],
	[{ name: "disconnect and stop", where: "src/IgniteElement.ts" }],
	"stateful model-based testing with instrumented sources counting live subscriptions and running actors",
	"Subscription and actor counts on instrumented sources compared with the number of live elements after every operation.",
);
add(
	"C08",
	"Shared adapters live exactly while used; the user's source is untouched",
	"The adapter behind a shared source is released when, and only when, the last connected element of the components registered with it leaves the document (never, if cleanup is disabled), and elements added later work again and show the source's current state. The user's own actor, store or observable is never stopped, reset or left with subscriptions by elements coming and going.",
	["histories", "configurations"],
	"every history of connects, disconnects and moves of any number of elements and tags over one shared source, with cleanup on, off or defaulted",
	"Tests mount and unmount once; reference counting fails only for particular sequences.",
	["src/IgniteElementFactory.ts", "src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts"],
	[{ name: "reference-counted release", where: "src/IgniteElementFactory.ts" }],
	"stateful model-based testing: reference-count model over connect/disconnect histories with recording adapters",
	"The number and time of stop() calls on recording adapters, and liveness of user sources, are compared with the model after every operation.",
);
add(
	"C09",
	"Every adapter obeys one contract for state, subscription, send and stop",
	"For the XState, Redux and MobX adapters alike: a new subscriber is given the current state, every later state change reaches every subscriber until it unsubscribes, the reported state is always the source's current one, and sending performs the corresponding event, action or method. After stop (which may be repeated) nothing is delivered, sends are ignored with a warning, the last state stays readable, and a source the adapter does not own keeps running.",
	["histories", "inputs"],
	"every sequence of subscribe, unsubscribe, send, external change, read and stop on every adapter kind",
	"Tests sample a few sequences per adapter; double unsubscribe, unsubscribe during notification or changes after stop are sequences nobody lists.",
	["src/adapters/XStateAdapter.ts", "src/adapters/ReduxAdapter.ts", "src/adapters/MobxAdapter.ts"],
	[{ name: "adapter objects", where: "src/adapters" }],
	"stateful model-based testing: random call sequences on each adapter against one contract model",
	"Random sequences on every adapter kind; delivered states, reads, warnings and source liveness compared with the model.",
);
add(
	"C10",
	"Derived values and commands given to a view are current and complete",
	"At every render a view receives, besides state and send, every key the states callback returned when the element was set up, with the value derived from the state of that same render, and every function returned by the commands callback, acting on this element's own source and host. Invalid results (not an object, or a command that is not a function) are rejected.",
	["inputs", "histories"],
	"every shape of states/commands results, every source kind and every history of state changes and reads",
	"Tests use one or two fixed keys; staleness and key loss depend on the shape and on the history.",
	["src/createComponentFactory.ts", "src/igniteCore/xstate.ts", "src/igniteCore/redux.ts", "src/igniteCore/mobx.ts"],
	[{ name: "facade construction", where: "src/createComponentFactory.ts" }],
	"property-based testing: generated facade shapes and state histories against the callbacks themselves as oracle",
	"Generated key sets and value types; render arguments compared with the callbacks applied to the model.",
);
add(
	"C11",
	"Commands emit declared events from their own element, nothing else",
	"Emitting a declared event dispatches exactly one event of that name, from the element whose command emitted it, carrying the given payload unchanged, bubbling out of shadow roots so that ancestors can listen. Outside production, emitting any name that was not declared throws and dispatches nothing.",
	["inputs", "configurations"],
	"every event map, event name (including names such as those of built-in object members), payload, nesting depth and source kind",
	"Tests emit one declared and one undeclared name.",
	["src/createComponentFactory.ts", "src/events.ts"],
	[{ name: "emit helper", where: "src/createComponentFactory.ts" }],
	"property-based testing: generated event maps, names, payloads and nesting; recorded dispatches against the declaration",
	"All dispatches reaching host, ancestors and document are recorded and compared with what was emitted.",
);
add(
	"C12",
	"The right adapter is chosen for every source, or the call is rejected",
	"Given a source, the component factory picks the adapter and scope that fit it: machines and actors XState, stores, slices and store factories Redux, observables and observable factories MobX; an explicitly named adapter, or a scope given to the lower-level factory, wins over inference. A value that is none of these is rejected with an error at once (a factory that throws or returns something unsupported when it is first called), rather than producing a broken component.",
	["inputs", "configurations"],
	"every source value, supported or not, with and without explicit adapter",
	"Tests list a handful of sources; the guards are structural and can misfire for sources with extra or similar members.",
	["src/IgniteCore.ts", "src/utils/adapterGuards.ts", "src/utils/mobxGuards.ts"],
	[{ name: "inference and guards", where: "src/IgniteCore.ts" }],
	"property-based testing: generated sources (decorated, look-alike, junk) classified by construction",
	"Each generated source is registered, mounted and driven; the outcome is compared with the class it was built from.",
);
add(
	"C13",
	"Configuration is normalised and honoured, whatever is put in it",
	"The configuration in force is the normalised form of the last one defined or loaded: styles takes precedence over its deprecated alias (which warns), an unknown renderer warns and falls back, strategy and logging are kept, and components registered afterwards (by any copy of the library in the page) use the configured renderer, update strategy and log level. Loading accepts a config module or its default export, ignores values that are not configurations, and a renderer that is not available falls back to the JSX renderer with a warning instead of failing.",
	["inputs", "histories", "configurations"],
	"every configuration object, every sequence of define/load calls and registrations, every registry content",
	"Tests check single options; precedence and persistence concern combinations and sequences.",
	["src/config.ts", "src/config/loadIgniteConfig.ts", "src/renderers/resolveConfiguredRenderStrategy.ts", "src/renderers/jsx/IgniteJsxRenderStrategy.ts"],
	[{ name: "normalisation", where: "src/config.ts" }, { name: "strategy registry", where: "src/renderers/resolveConfiguredRenderStrategy.ts" }],
	"stateful model-based testing: random define/load/register sequences against a model of the configuration",
	"Generated configurations and sequences; stored config, styles, warnings and the renderer actually used are compared with the model.",
);
add(
	"C14",
	"Global styles reach every element's shadow root exactly once",
	"Every element created while a valid global stylesheet is configured, and every element created before the first configuration is loaded, gets exactly one link for it in its shadow root, with the given address, integrity and cross-origin attributes. However often and whatever it renders, and whatever is configured afterwards, that link is neither removed nor duplicated. Invalid values inject nothing and warn.",
	["inputs", "histories"],
	"every style value and every order of setting styles, creating elements, loading configuration and rendering",
	"Tests inject once per value; duplicates and misses need particular orders.",
	["src/injectStyles.ts", "src/globalStyles.ts", "src/config/loadIgniteConfig.ts", "src/renderers/LitRenderStrategy.ts", "src/renderers/jsx/IgniteJsxRenderStrategy.ts"],
	[{ name: "injection and pending roots", where: "src/injectStyles.ts" }],
	"stateful model-based testing: random orders of configuring, creating, loading and rendering; link-count oracle",
	"After each step the links of every shadow root are compared with the model.",
);
add(
	"C15",
	"The Vite integration loads exactly the user's config file",
	"For any project layout, the build integration finds the config file (an explicit path, else the first existing of the documented names in the project root) and, when there is one, adds one module script, at the requested place, whose import resolves to that very file, on every page, in the development server and in builds; without a config file it adds nothing. Other page content and other plugins' tags are left alone.",
	["inputs", "configurations"],
	"every root directory, config location (inside, outside, dot-directories, names with special characters), and option set",
	"Tests use one or two paths; resolution must be right for every layout.",
	["src/plugins/viteIgniteConfigPlugin.ts", "src/plugins/configFile.ts"],
	[{ name: "config lookup", where: "src/plugins/configFile.ts" }, { name: "script injection", where: "src/plugins/viteIgniteConfigPlugin.ts" }],
	"property-based testing: generated directory layouts on disk; injected specifiers resolved back to files",
	"Layouts are created in a scratch directory; the emitted specifier is resolved and compared with the expected file.",
);
add(
	"C16",
	"The webpack integration adds the config loader and changes nothing else",
	"For any webpack entry (string, list, object of strings, lists or descriptors, function, or none) the resulting configuration runs the config loader first in every entry and then exactly the modules the user listed, in their order, with all other descriptor fields preserved. Applying the integration again adds nothing, and without a config file the configuration is untouched.",
	["inputs", "configurations"],
	"every entry shape and nesting, synchronous and asynchronous, and repeated application",
	"Tests cover a few shapes once.",
	["src/plugins/webpackIgniteConfigPlugin.ts", "src/plugins/configFile.ts"],
	[{ name: "entry rewriting", where: "src/plugins/webpackIgniteConfigPlugin.ts" }],
	"property-based testing: generated entry configurations, structural oracle and idempotence",
	"Generated entries are rewritten and compared with a reference rewriting; the loader itself is decoded and executed.",
);
add(
	"C17",
	"Importing without a DOM works, and existing globals are never replaced",
	"Every public entry point can be imported where there is no DOM (servers, build tools) without throwing, and components can be registered there. Where some of the DOM globals already exist, importing leaves each existing one exactly as it was.",
	["configurations"],
	"every entry point and every combination of present and missing DOM globals",
	"Tests import one module in one environment.",
	["src/internal/setupDomPolyfill.ts", "src/index.ts", "src/xstate.ts", "src/redux.ts", "src/mobx.ts"],
	[{ name: "polyfill", where: "src/internal/setupDomPolyfill.ts" }],
	"exhaustive enumeration plus random import orders, each in a fresh process context",
	"Each case runs a bundled entry point in a new realm with a chosen set of globals.",
);
add(
	"C18",
	"JSX element creation is faithful, consistent and side-effect free",
	"All JSX factories (the jsx, jsxs and jsxDEV functions of every JSX entry module) describe the same view for the same type, props, key and children, and never modify the props, children or views passed in. One view object can be rendered repeatedly, and in several places, with the same result each time.",
	["inputs", "programs"],
	"every element type, props object (frozen ones included), key and children list, and every reuse of a view",
	"Tests create a few elements.",
	["src/renderers/jsx/jsx-runtime.ts", "src/jsx/index.ts", "src/jsx/jsx-runtime.ts", "src/jsx/jsx-dev-runtime.ts", "src/renderers/jsx/renderer.ts"],
	[{ name: "factories", where: "src/renderers/jsx/jsx-runtime.ts" }],
	"property-based testing: differential between factories, deep-frozen inputs, re-render metamorphic relation",
	"Generated calls through every factory, with deep-frozen inputs and reused views, compared through the DOM they produce.",
);
add(
	"C19",
	"All renderer forms behave alike; names register once; bad ones are rejected",
	"A component registered with a render function, an object with a render method or a class with a render method shows the same thing for the same render logic and history, with the method's own receiver available and a class instance kept from render to render (one for each isolated element). Registering a name twice fails with an error and leaves the first component working, and a renderer of another kind is rejected.",
	["inputs", "histories"],
	"every renderer form, source kind and history, and every attempt to register a name",
	"Tests register each form once.",
	["src/IgniteElementFactory.ts"],
	[{ name: "renderer resolution and definition", where: "src/IgniteElementFactory.ts" }],
	"property-based testing: differential between renderer forms over the same random history",
	"The same history is played on components of each form and the views compared after each step.",
);
add(
	"C20",
	"The published types accept correct programs and reject wrong ones",
	"A program that uses state, send, derived values, commands and emitted events as its source and declarations define them type-checks against the library's published types, for every supported source. The same program with one misuse (unknown event or payload, missing or misspelled derived value or command, wrong argument type, unknown action or event type) is rejected by the compiler.",
	["programs"],
	"every well-typed component program and every single-point misuse of it",
	"Tests run without type checking, and the type tests list fixed samples.",
	["src/igniteCore/types.ts", "src/RenderArgs.ts", "src/createComponentFactory.ts", "src/utils/igniteRedux.ts", "src/IgniteCore.ts", "src/adapters/MobxAdapter.ts", "src/adapters/XStateAdapter.ts"],
	[{ name: "type-level API", where: "src/igniteCore/types.ts" }],
	"grammar-based program generation and mutation, decided by the TypeScript compiler",
	"Generated component programs and single-point mutants are compiled; acceptance is compared with how they were built.",
);
add(
	"C21",
	"Token refresh stores the new token correctly or fails, and never leaks it",
	"Refreshing the publish token creates one token and stores that very token as the NPM_TOKEN secret of the configured repository, authorised by the configured credential; if any step fails (missing settings, token creation, network, refused update) it reports failure, and with settings missing no token is created. Neither the new token nor the credential ever appears in the output, whether it succeeds or fails.",
	["fault_sequences", "inputs"],
	"every token value and every step at which the command, the network or the service fails",
	"Three tests sample success, one missing setting and one refused update; each step can fail in many ways and the output must stay clean for every token.",
	["scripts/refresh-npm-token.js"],
	[{ name: "refresh script", where: "scripts/refresh-npm-token.js" }],
	"fault injection: the script runs with stand-ins for npm and the network, faults enumerated at every call",
	"The real script runs in a child process whose npm and HTTP calls are stand-ins; every fault position is enumerated with generated tokens.",
);
add(
	"C22",
	"A beta release publishes only after every earlier step succeeded",
	"The beta release publishes only from a clean tree, while logged in, with pending changes recorded, and after tests, build and versioning succeeded, in that order; the first failing step ends the run with failure and nothing after it is done. A dry run never publishes, and publishing always uses the beta channel and the one-time password given (option, else environment, else prompt).",
	["fault_sequences", "configurations"],
	"every step at which a command fails, every tree/login/changes status, and every option combination",
	"There are no tests for it.",
	["scripts/release-beta.mjs"],
	[{ name: "release steps", where: "scripts/release-beta.mjs" }],
	"fault enumeration: the script runs with stand-in commands that record calls and fail at each chosen step",
	"The real script runs with stand-in executables; every step is made to fail in every way, for every option set.",
);

const built = new Set(fs.readdirSync(path.join(verif, "checks")).filter((f) => /^C\d\d\.ts$/.test(f)).map((f) => f.slice(0, 3)));
const faultLevel = new Set(["C21", "C22"]);

fs.writeFileSync(
	path.join(verif, "properties.jsonl"),
	P.map((p) =>
		JSON.stringify({
			id: p.id,
			title: p.title,
			statement: p.statement,
			quantifier: { over: p.over, text: p.text },
			why_tests_cant: p.why,
			anchors: { files: p.files, mechanism: p.mechanism },
		}),
	).join("\n") + "\n",
);
fs.writeFileSync(
	path.join(verif, "MANIFEST.json"),
	`${JSON.stringify(
		{
			version: 1,
			setup_cmd: "node bin/setup.mjs",
			checks: P.filter((p) => built.has(p.id)).map((p) => ({
				property: p.id,
				quick_cmd: `node bin/check.mjs ${p.id} --tier quick`,
				thorough_cmd: `node bin/check.mjs ${p.id} --tier thorough`,
				evidence_file: `evidence/${p.id}.json`,
				technique: p.technique,
				level: faultLevel.has(p.id) ? "fault_enumeration" : "exploration",
				level_note: p.level_note,
			})),
			not_applicable: P.filter((p) => !built.has(p.id)).map((p) => ({
				property: p.id,
				reason: "no check built yet",
			})),
			notes: "No hooks in /repo. Every check bundles /repo/src (or runs /repo/scripts) from the working tree at start.",
		},
		null,
		1,
	)}\n`,
);
for (const p of P) {
	if (p.title.length > 80) console.error(`${p.id}: title ${p.title.length}`);
	const sentences = p.statement.split(/[.](?:\s|$)/).filter(Boolean).length;
	if (sentences > 3) console.error(`${p.id}: ${sentences} sentences`);
}
