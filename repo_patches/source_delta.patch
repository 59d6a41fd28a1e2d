From e160b381b5119a1f68e05be40baa83d5256ab042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:43 +0000
Subject: [PATCH 01/40] fix: reset removed or nullish JSX props to the
 element's default instead of "undefined"

---
 src/renderers/jsx/renderer.ts | 39 ++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..db51668 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,15 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+// DOM properties whose content attribute has a different name.
+const REFLECTED_ATTRIBUTES: Record<string, string> = {
+	acceptCharset: "accept-charset",
+	defaultChecked: "checked",
+	defaultValue: "value",
+	htmlFor: "for",
+	httpEquiv: "http-equiv",
+};
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -502,15 +511,35 @@ function removeProp(
 		return;
 	}
 
+	const attrName = isSvg
+		? normalizeSvgAttributeName(key)
+		: (REFLECTED_ATTRIBUTES[key] ?? key);
+	element.removeAttribute(attrName);
+
 	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
+		resetProperty(element as HTMLElement, key);
+		// Resetting a reflected property can write the attribute back.
+		element.removeAttribute(attrName);
 	}
+}
 
-	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
-	if (element.hasAttribute(attrName)) {
-		element.removeAttribute(attrName);
+function resetProperty(element: HTMLElement, key: string): void {
+	if (!element.localName.includes("-")) {
+		const current = Reflect.get(element, key);
+		if (typeof current === "string") {
+			// Native string properties would stringify undefined to "undefined".
+			if (current !== "") {
+				Reflect.set(element, key, "");
+			}
+			return;
+		}
+		if (typeof current === "number") {
+			// Native numeric properties reflect their attribute and may reject undefined.
+			return;
+		}
 	}
+	// Reset property to undefined to avoid stale values.
+	Reflect.set(element, key, undefined);
 }
 
 function applyProperty(
-- 
2.43.0


From 31430c7d6914b62ada5c3d928e47bed96e80746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 02/40] fix: apply JSX props whose value equals the DOM default
 or whose property is read-only

---
 src/renderers/jsx/renderer.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index db51668..c9cf24d 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -547,7 +547,8 @@ function applyProperty(
 	key: string,
 	value: unknown,
 ): void {
-	if (key === "value" || key === "checked") {
+	if (key === "checked" || (key === "value" && isValueControl(element))) {
+		// Skip redundant writes, which would move the caret while typing.
 		const current = Reflect.get(element, key);
 		if (current !== value && !(isComposingInput(element) && key === "value")) {
 			Reflect.set(element, key, value);
@@ -555,12 +556,22 @@ function applyProperty(
 		return;
 	}
 
-	const current = Reflect.get(element, key);
-	if (current !== value) {
-		Reflect.set(element, key, value);
+	// Write even when the property already reads as `value`: an explicit default
+	// (alt="", tabIndex={-1}, progress value={0}) differs from an absent one.
+	if (!Reflect.set(element, key, value)) {
+		// Read-only property (e.g. `form`): only settable through its attribute.
+		element.setAttribute(key, String(value));
 	}
 }
 
+function isValueControl(element: HTMLElement): boolean {
+	return (
+		element.localName === "input" ||
+		element.localName === "textarea" ||
+		element.localName === "select"
+	);
+}
+
 function isComposingInput(element: HTMLElement): boolean {
 	return (
 		"isComposing" in element &&
-- 
2.43.0


From 9f33dbbae35ccdab3161d9147e5c717caf4aa1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:05 +0000
Subject: [PATCH 03/40] fix: apply a JSX select's value after its options and
 reset it when removed

---
 src/renderers/jsx/renderer.ts | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index c9cf24d..31d599f 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -248,6 +248,7 @@ function patchNode(
 	}
 
 	const elementNode = domNode as Element & ParentNode;
+	const selectValue = readSelectValue(elementNode);
 
 	patchProps(elementNode, oldNode.props, newNode.props);
 
@@ -279,9 +280,35 @@ function patchNode(
 		}
 	}
 
+	if (
+		oldNode.props.value !== newNode.props.value ||
+		readSelectValue(elementNode) !== selectValue
+	) {
+		applySelectValue(elementNode, newNode.props);
+	}
+
 	return domNode;
 }
 
+function readSelectValue(element: Element): string | undefined {
+	return element.localName === "select"
+		? (element as HTMLSelectElement).value
+		: undefined;
+}
+
+// A select's value only takes effect once the matching option exists.
+function applySelectValue(element: Element, props: IgniteJsxProps): void {
+	const value = props.value;
+	if (
+		element.localName === "select" &&
+		value !== undefined &&
+		value !== null &&
+		value !== false
+	) {
+		Reflect.set(element, "value", value);
+	}
+}
+
 function createDomFromNormalized(node: NormalizedNode): ChildNode {
 	switch (node.kind) {
 		case "text":
@@ -300,6 +327,7 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
 			}
+			applySelectValue(element, node.props);
 			return element;
 		}
 	}
@@ -524,6 +552,12 @@ function removeProp(
 }
 
 function resetProperty(element: HTMLElement, key: string): void {
+	if (element.localName === "select" && key === "value") {
+		for (const option of (element as HTMLSelectElement).options) {
+			option.selected = option.defaultSelected;
+		}
+		return;
+	}
 	if (!element.localName.includes("-")) {
 		const current = Reflect.get(element, key);
 		if (typeof current === "string") {
-- 
2.43.0


From 1648c3fe88c24f47940d2b8cc754c1e33098e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:05 +0000
Subject: [PATCH 04/40] fix: clear a JSX style entry when it becomes null or
 undefined

---
 src/renderers/jsx/renderer.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 31d599f..132a588 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -456,7 +456,7 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		const nextObj = next as Record<string, unknown>;
 
 		for (const key of Object.keys(prevObj)) {
-			if (!(key in nextObj)) {
+			if (nextObj[key] == null) {
 				style.removeProperty(toKebabCase(key));
 			}
 		}
-- 
2.43.0


From 659d7a79fe495a15204c4b29969bae470cb40458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 05/40] fix: keep the case of every camelCase SVG attribute in
 JSX

---
 src/renderers/jsx/renderer.ts | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 132a588..291a16b 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -18,6 +18,55 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"startOffset",
 	"textLength",
 	"lengthAdjust",
+	"attributeName",
+	"attributeType",
+	"baseFrequency",
+	"baseProfile",
+	"calcMode",
+	"diffuseConstant",
+	"edgeMode",
+	"filterUnits",
+	"glyphRef",
+	"gradientTransform",
+	"kernelMatrix",
+	"kernelUnitLength",
+	"keyPoints",
+	"keySplines",
+	"keyTimes",
+	"limitingConeAngle",
+	"markerHeight",
+	"markerUnits",
+	"markerWidth",
+	"maskContentUnits",
+	"maskUnits",
+	"numOctaves",
+	"pathLength",
+	"patternContentUnits",
+	"patternTransform",
+	"pointsAtX",
+	"pointsAtY",
+	"pointsAtZ",
+	"preserveAlpha",
+	"primitiveUnits",
+	"refX",
+	"refY",
+	"repeatCount",
+	"repeatDur",
+	"requiredExtensions",
+	"requiredFeatures",
+	"specularConstant",
+	"specularExponent",
+	"stdDeviation",
+	"stitchTiles",
+	"surfaceScale",
+	"systemLanguage",
+	"tableValues",
+	"targetX",
+	"targetY",
+	"viewTarget",
+	"xChannelSelector",
+	"yChannelSelector",
+	"zoomAndPan",
 ]);
 
 // DOM properties whose content attribute has a different name.
-- 
2.43.0


From 8c0aabd1a7de5db1071791366db66e20e69eb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:46 +0000
Subject: [PATCH 06/40] fix: honour data-ignite-nodiff/hydrated set after the
 element is created

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 44 ++++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..994fc4d 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -15,8 +15,6 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 	private readonly mode: "diff" | "replace";
 	private readonly logging: "off" | "warn" | "debug";
 	private readonly diffEnabled: boolean;
-	private forceReplace = false;
-	private forceReplaceReason: string | null = null;
 
 	private normalizeLogging(input: unknown): "off" | "warn" | "debug" {
 		if (input === "debug" || input === "warn" || input === "off") {
@@ -50,22 +48,6 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		root.setAttribute("data-ignite-jsx-root", "");
 		host.appendChild(root);
 		this.contentRoot = root;
-
-		const hostElement = (host as ShadowRoot & { host?: Element }).host;
-		const tagName = hostElement?.tagName?.toLowerCase();
-		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
-		if (
-			hostElement?.hasAttribute?.("data-ignite-nodiff") ||
-			hostElement?.hasAttribute?.("data-ignite-hydrated") ||
-			isDenylistedHost
-		) {
-			this.forceReplace = true;
-			this.forceReplaceReason = isDenylistedHost
-				? `denylist:${tagName}`
-				: hostElement?.hasAttribute?.("data-ignite-hydrated")
-					? "hydrated"
-					: "nodiff-attr";
-		}
 	}
 
 	render(view: IgniteJsxChild): void {
@@ -75,9 +57,11 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 			);
 		}
 
-		const mode = this.forceReplace || !this.diffEnabled ? "replace" : this.mode;
+		const forceReplaceReason = this.getForceReplaceReason();
+		const mode =
+			forceReplaceReason || !this.diffEnabled ? "replace" : this.mode;
 		const forceReason =
-			this.forceReplaceReason ??
+			forceReplaceReason ??
 			(mode === "replace" && this.mode === "replace"
 				? "config-replace"
 				: !this.diffEnabled
@@ -111,9 +95,25 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		this.previousTree = null;
 	}
 
+	private getHost(): Element | undefined {
+		return (this.contentRoot?.getRootNode() as ShadowRoot | null)?.host;
+	}
+
 	private getHostTag(): string | null {
-		const host = (this.contentRoot?.getRootNode() as ShadowRoot | null)?.host;
-		return host?.tagName?.toLowerCase() ?? null;
+		return this.getHost()?.tagName?.toLowerCase() ?? null;
+	}
+
+	// Resolved per render: attributes set after createElement() are not there yet on attach.
+	private getForceReplaceReason(): string | null {
+		const tagName = this.getHostTag();
+		if (isNoDiffDenylistedTag(tagName)) {
+			return `denylist:${tagName}`;
+		}
+		const host = this.getHost();
+		if (host?.hasAttribute?.("data-ignite-hydrated")) {
+			return "hydrated";
+		}
+		return host?.hasAttribute?.("data-ignite-nodiff") ? "nodiff-attr" : null;
 	}
 
 	private logFallback(reason: string, tag: string | null): void {
-- 
2.43.0


From bdaf3a3d4268055c649d223d437eb07627d8b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 07/40] fix: let elements over a shared source remount after
 the last one is removed

---
 src/IgniteElement.ts          |  8 +++++
 src/IgniteElementFactory.ts   | 11 ++++---
 src/adapters/MobxAdapter.ts   | 24 +++++----------
 src/adapters/ReduxAdapter.ts  | 57 +++++++++++++----------------------
 src/adapters/XStateAdapter.ts | 25 ++++++---------
 5 files changed, 51 insertions(+), 74 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..0898fbe 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -62,6 +62,14 @@ export default abstract class IgniteElement<
 		}
 	}
 
+	protected useAdapter(adapter: IgniteAdapter<State, Event>): void {
+		if (this._adapter === adapter) {
+			return;
+		}
+		this._unsubscribe?.();
+		this._adapter = adapter;
+	}
+
 	protected send<AdapterEvent>(event: AdapterEvent): void {
 		if (!this._isActive || !this._adapter) {
 			console.warn("[IgniteElement] Cannot send events while inactive.");
diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 4479722..336e0e7 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,11 +160,7 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private readonly additionalArgs: AdditionalRenderArgs<
-					State,
-					Event,
-					RenderArgs
-				>;
+				private additionalArgs: AdditionalRenderArgs<State, Event, RenderArgs>;
 
 				constructor() {
 					const { adapter } = resolveSharedResources();
@@ -173,6 +169,11 @@ export default function igniteElementFactory<
 				}
 
 				connectedCallback(): void {
+					// The adapter this element was built with may have been released since.
+					const { adapter } = resolveSharedResources();
+					this.useAdapter(adapter);
+					this.additionalArgs = resolveSharedAdditionalArgs(this);
+
 					sharedInstanceCount += 1;
 					super.connectedCallback();
 				}
diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..de8493d 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -48,15 +48,14 @@ export default function createMobXAdapter<State extends object>(
 	source: (() => State) | State,
 ): MobxAdapterFactory<State> {
 	if (isMobxObservable(source)) {
-		const entry = createAdapterEntryFromStore(
-			source as State,
+		return createFactory(
+			() => createAdapterEntryFromStore(source as State, StateScope.Shared),
 			StateScope.Shared,
 		);
-		return createSharedFactory(entry);
 	}
 
 	if (typeof source === "function") {
-		return createIsolatedFactory(() => {
+		return createFactory(() => {
 			const store = source();
 			if (!isMobxObservable(store)) {
 				throw new Error(
@@ -64,7 +63,7 @@ export default function createMobXAdapter<State extends object>(
 				);
 			}
 			return createAdapterEntryFromStore(store, StateScope.Isolated);
-		});
+		}, StateScope.Isolated);
 	}
 
 	throw new Error(
@@ -72,18 +71,9 @@ export default function createMobXAdapter<State extends object>(
 	);
 }
 
-function createSharedFactory<State extends object>(
-	entry: AdapterEntry<State>,
-): MobxAdapterFactory<State> {
-	const factory = (() => entry.adapter) as MobxAdapterFactory<State>;
-	factory.scope = StateScope.Shared;
-	factory.resolveStateSnapshot = () => entry.snapshot();
-	factory.resolveCommandActor = () => entry.store;
-	return factory;
-}
-
-function createIsolatedFactory<State extends object>(
+function createFactory<State extends object>(
 	createEntry: () => AdapterEntry<State>,
+	scope: StateScope,
 ): MobxAdapterFactory<State> {
 	const registry = new WeakMap<
 		IgniteAdapter<State, MobxEvent<State>>,
@@ -96,7 +86,7 @@ function createIsolatedFactory<State extends object>(
 		return entry.adapter;
 	}) as MobxAdapterFactory<State>;
 
-	factory.scope = StateScope.Isolated;
+	factory.scope = scope;
 	factory.resolveStateSnapshot = (adapter) => {
 		const entry = registry.get(adapter);
 		if (!entry) {
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..a6862b2 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -108,23 +108,9 @@ const buildAdapter = <
 	return adapter;
 };
 
-function createSharedFactory<State, Event, Snapshot, Actor>(
-	entry: AdapterEntry<State, Event, Snapshot, Actor>,
-): AdapterFactory<State, Event, Snapshot, Actor> {
-	const factory = (() => entry.adapter) as AdapterFactory<
-		State,
-		Event,
-		Snapshot,
-		Actor
-	>;
-	factory.scope = StateScope.Shared;
-	factory.resolveStateSnapshot = () => entry.snapshot();
-	factory.resolveCommandActor = () => entry.actor;
-	return factory;
-}
-
-function createIsolatedFactory<State, Event, Snapshot, Actor>(
+function createFactory<State, Event, Snapshot, Actor>(
 	createEntry: () => AdapterEntry<State, Event, Snapshot, Actor>,
+	scope: StateScope = StateScope.Isolated,
 ): AdapterFactory<State, Event, Snapshot, Actor> {
 	const registry = new WeakMap<
 		IgniteAdapter<State, Event>,
@@ -137,7 +123,7 @@ function createIsolatedFactory<State, Event, Snapshot, Actor>(
 		return entry.adapter;
 	}) as AdapterFactory<State, Event, Snapshot, Actor>;
 
-	factory.scope = StateScope.Isolated;
+	factory.scope = scope;
 	factory.resolveStateSnapshot = (adapter) => {
 		const entry = registry.get(adapter);
 		if (!entry) {
@@ -200,15 +186,6 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreInstance>["State"];
 		type Event = InferStateAndEvent<StoreInstance>["Event"];
 
-		const adapter = adaptEvent<
-			State,
-			Parameters<StoreInstance["dispatch"]>[0],
-			Event
-		>(
-			buildAdapter(store, StateScope.Shared),
-			(event) => event as Parameters<StoreInstance["dispatch"]>[0],
-		);
-
 		const dispatch: ReduxStoreCommandActor<StoreInstance>["dispatch"] = (
 			event,
 		) =>
@@ -223,18 +200,26 @@ export default function createReduxAdapter<
 			) as ReduxStoreCommandActor<StoreInstance>["subscribe"],
 		};
 
-		const entry: AdapterEntry<
+		return createFactory<
 			State,
 			Event,
 			State,
 			ReduxStoreCommandActor<StoreInstance>
-		> = {
-			adapter,
-			snapshot: () => store.getState() as State,
-			actor,
-		};
-
-		return createSharedFactory(entry);
+		>(
+			() => ({
+				adapter: adaptEvent<
+					State,
+					Parameters<StoreInstance["dispatch"]>[0],
+					Event
+				>(
+					buildAdapter(store, StateScope.Shared),
+					(event) => event as Parameters<StoreInstance["dispatch"]>[0],
+				),
+				snapshot: () => store.getState() as State,
+				actor,
+			}),
+			StateScope.Shared,
+		);
 	}
 
 	if (isStoreFactory(source)) {
@@ -244,7 +229,7 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreCreator>["State"];
 		type Event = InferStateAndEvent<StoreCreator>["Event"];
 
-		return createIsolatedFactory<
+		return createFactory<
 			State,
 			Event,
 			State,
@@ -293,7 +278,7 @@ export default function createReduxAdapter<
 	type State = InferStateAndEvent<SliceSource>["State"];
 	type Event = InferStateAndEvent<SliceSource>["Event"];
 
-	return createIsolatedFactory<
+	return createFactory<
 		State,
 		Event,
 		State,
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..dff82d7 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -54,30 +54,23 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 	if (isXStateActor(source)) {
 		const actor = source as XStateActorInstance<Machine>;
 		actor.start();
-		const entry = createAdapterEntry(actor, StateScope.Shared, false);
-		return createSharedFactory(entry);
+		return createFactory(
+			() => createAdapterEntry(actor, StateScope.Shared, false),
+			StateScope.Shared,
+		);
 	}
 
 	const machine = source as Machine;
-	return createIsolatedFactory(() => {
+	return createFactory(() => {
 		const actor = createActor(machine);
 		actor.start();
 		return createAdapterEntry(actor, StateScope.Isolated, true);
-	});
+	}, StateScope.Isolated);
 }
 
-function createSharedFactory<Machine extends AnyStateMachine>(
-	entry: AdapterEntry<Machine>,
-): XStateAdapterFactory<Machine> {
-	const factory = (() => entry.adapter) as XStateAdapterFactory<Machine>;
-	factory.scope = StateScope.Shared;
-	factory.resolveStateSnapshot = () => entry.snapshot();
-	factory.resolveCommandActor = () => entry.commandActor;
-	return factory;
-}
-
-function createIsolatedFactory<Machine extends AnyStateMachine>(
+function createFactory<Machine extends AnyStateMachine>(
 	createEntry: () => AdapterEntry<Machine>,
+	scope: StateScope,
 ): XStateAdapterFactory<Machine> {
 	const registry = new WeakMap<
 		IgniteAdapter<ExtendedState<Machine>, EventFrom<Machine>>,
@@ -90,7 +83,7 @@ function createIsolatedFactory<Machine extends AnyStateMachine>(
 		return entry.adapter;
 	}) as XStateAdapterFactory<Machine>;
 
-	factory.scope = StateScope.Isolated;
+	factory.scope = scope;
 	factory.resolveStateSnapshot = (adapter) => {
 		const entry = registry.get(adapter);
 		if (!entry) {
-- 
2.43.0


From f769a013c90e1d838988ab068c4abfaf92c53db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 08/40] fix: a stopped Redux adapter reports the state at stop

---
 src/adapters/ReduxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index a6862b2..6087597 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -99,8 +99,12 @@ const buildAdapter = <
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
+			if (isStopped) {
+				return;
+			}
 			cleanupSubscriptions();
 			isStopped = true;
+			lastKnownState = store.getState();
 		},
 		scope,
 	};
-- 
2.43.0


From 53b424a480eb3e7b76ec1d336c4087039517a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:19 +0000
Subject: [PATCH 09/40] fix: render falsy states such as 0, "" and null

---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index 0898fbe..a41794b 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -82,7 +82,7 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (!this._isActive || this._currentState === undefined) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From 8f45d890f2a4726cea1fa6d3db20633a82551a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 10/40] fix: reject undeclared events named like
 Object.prototype members

---
 src/createComponentFactory.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/createComponentFactory.ts b/src/createComponentFactory.ts
index 776ec5c..fe3d7fa 100644
--- a/src/createComponentFactory.ts
+++ b/src/createComponentFactory.ts
@@ -244,7 +244,8 @@ export function createComponentFactoryWithRenderer<
 	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
 		((type: keyof Events & string, detail: unknown) => {
 			if (isDevelopment()) {
-				if (!(type in eventDefinitions)) {
+				// biome-ignore lint/suspicious/noPrototypeBuiltins: supporting older JS targets without Object.hasOwn
+				if (!Object.prototype.hasOwnProperty.call(eventDefinitions, type)) {
 					throw new Error(
 						`[createComponentFactory] Unknown event "${type}". Declare it in the events map before emitting.`,
 					);
-- 
2.43.0


From 439f095cbff9befdbcc604a87d81cfab5a9a7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:18 +0000
Subject: [PATCH 11/40] fix: give XState commands the documented
 actor.getSnapshot()

---
 src/adapters/XStateAdapter.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index dff82d7..4633654 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -24,6 +24,7 @@ export type XStateSnapshot<Machine extends AnyStateMachine> =
 
 export type XStateCommandActor<Machine extends AnyStateMachine> = {
 	send: (event: EventFrom<Machine>) => void;
+	getSnapshot: () => StateFrom<Machine>;
 	readonly state: ExtendedState<Machine>;
 };
 
@@ -226,6 +227,7 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 			actor.send(event);
 			lastKnownSnapshot = actor.getSnapshot();
 		},
+		getSnapshot: snapshot,
 		get state() {
 			return adapter.getState();
 		},
-- 
2.43.0


From c908e7cb02007597385c2b515e4b9aeacfac82ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 12/40] fix: let removed elements be collected when no global
 styles are set

---
 src/IgniteElement.ts |  4 ++++
 src/injectStyles.ts  | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index a41794b..fde9c4a 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -1,5 +1,6 @@
 import type IgniteAdapter from "./IgniteAdapter";
 import { StateScope } from "./IgniteAdapter";
+import { resumePendingStyles, suspendPendingStyles } from "./injectStyles";
 import type { RenderStrategy } from "./renderers/RenderStrategy";
 
 export default abstract class IgniteElement<
@@ -34,6 +35,8 @@ export default abstract class IgniteElement<
 	}
 
 	connectedCallback(): void {
+		resumePendingStyles(this._shadowRoot);
+
 		if (!this._unsubscribe && this._adapter) {
 			this.subscribeToAdapter();
 			this._currentState = this._adapter.getState();
@@ -49,6 +52,7 @@ export default abstract class IgniteElement<
 
 	disconnectedCallback(): void {
 		this._isActive = false;
+		suspendPendingStyles(this._shadowRoot);
 		if (this._sendListener) {
 			this.removeEventListener("send", this._sendListener as EventListener);
 		}
diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 883210d..f8ed7bd 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -4,6 +4,7 @@ import { getGlobalStyles } from "./globalStyles";
 const shadowRootCache = new WeakMap<ShadowRoot, Set<string>>();
 const initializedRoots = new WeakSet<ShadowRoot>();
 const pendingRoots = new Set<ShadowRoot>();
+const suspendedRoots = new WeakSet<ShadowRoot>();
 
 // Debug system
 enum DebugNamespace {
@@ -143,3 +144,17 @@ export function flushPendingStyles(): void {
 		injectStyles(root);
 	}
 }
+
+/** Stops holding on to a pending shadow root whose element left the document. */
+export function suspendPendingStyles(shadowRoot: ShadowRoot): void {
+	if (pendingRoots.delete(shadowRoot)) {
+		suspendedRoots.add(shadowRoot);
+	}
+}
+
+/** Injects (or queues again) the styles of an element that is back in the document. */
+export function resumePendingStyles(shadowRoot: ShadowRoot): void {
+	if (suspendedRoots.delete(shadowRoot)) {
+		injectStyles(shadowRoot);
+	}
+}
-- 
2.43.0


From 9876c5d9b6c577ce3b4744177746f6f035933843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:54 +0000
Subject: [PATCH 13/40] fix: notify MobX listeners outside of the tracked read

---
 src/adapters/MobxAdapter.ts | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index de8493d..51db89e 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,4 @@
-import type { IReactionDisposer } from "mobx";
-import { autorun, toJS } from "mobx";
+import { reaction, toJS } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -114,7 +113,7 @@ function createAdapterEntryFromStore<State extends object>(
 	scope: StateScope,
 ): AdapterEntry<State> {
 	const listeners = new Set<(state: State) => void>();
-	let disposer: IReactionDisposer | null = null;
+	let disposer: (() => void) | null = null;
 	let isStopped = false;
 	let lastSnapshot: State = cloneState();
 
@@ -128,18 +127,27 @@ function createAdapterEntryFromStore<State extends object>(
 		}
 	}
 
-	function ensureAutorun() {
+	function ensureReaction() {
 		if (disposer) {
 			return;
 		}
-		disposer = autorun(() => {
-			const snapshot = cloneState();
-			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
-		});
+		// A reaction, so that listeners run outside of the tracked read: what they
+		// change in turn is observed. The first run notifies before it returns.
+		const dispose = reaction(
+			cloneState,
+			(snapshot, _previous, current) => {
+				disposer ??= () => current.dispose();
+				lastSnapshot = snapshot;
+				notifyListeners(snapshot);
+			},
+			{ fireImmediately: true },
+		);
+		if (!isStopped) {
+			disposer = dispose;
+		}
 	}
 
-	function cleanupAutorun() {
+	function cleanupReaction() {
 		disposer?.();
 		disposer = null;
 	}
@@ -152,7 +160,7 @@ function createAdapterEntryFromStore<State extends object>(
 
 			const wasRunning = disposer !== null;
 			listeners.add(listener);
-			ensureAutorun();
+			ensureReaction();
 
 			if (wasRunning) {
 				listener(lastSnapshot);
@@ -165,7 +173,7 @@ function createAdapterEntryFromStore<State extends object>(
 					}
 					listeners.delete(listener);
 					if (!listeners.size) {
-						cleanupAutorun();
+						cleanupReaction();
 					}
 				},
 			};
@@ -201,7 +209,7 @@ function createAdapterEntryFromStore<State extends object>(
 				return;
 			}
 			isStopped = true;
-			cleanupAutorun();
+			cleanupReaction();
 			listeners.clear();
 			lastSnapshot = cloneState();
 		},
-- 
2.43.0


From 2cf8417ac43f0ff8572888e85a24dfd4b58c5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:26 +0000
Subject: [PATCH 14/40] fix: do not miss a dispatch made while a Redux listener
 is being added

---
 src/adapters/ReduxAdapter.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 6087597..c28bb1a 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -67,7 +67,6 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
 				listener(store.getState());
 			});
@@ -80,6 +79,8 @@ const buildAdapter = <
 			};
 
 			unsubscribers.add(unsubscribe);
+			// Subscribed already: the listener may dispatch in turn.
+			listener(store.getState());
 
 			return {
 				unsubscribe,
-- 
2.43.0


From 3a734c9cb164698796488d0dce058500d5bfd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 15/40] fix: keep global styles loaded after a lit element
 rendered

---
 src/injectStyles.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index f8ed7bd..ddd1edc 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -89,7 +89,8 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			}
 		}
 
-		shadowRoot.appendChild(linkElement);
+		// First child: lit removes what follows its own content when a template changes.
+		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
-- 
2.43.0


From 49773034a9de0b466d80585e062599ed4e9d3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:45 +0000
Subject: [PATCH 16/40] fix: import a config in a dot-directory as a relative
 path in the Vite plugin

---
 src/plugins/viteIgniteConfigPlugin.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..2215837 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -124,8 +124,7 @@ function getImportSpecifier(
 	if (root) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${toPosixPath(relativePath)}`;
 		}
 	}
 
-- 
2.43.0


From 47d8b0188db5d6b7e0fc8e3b23ec2f12c2a9a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 17/40] fix: check the settings before creating a new npm token

---
 scripts/refresh-npm-token.js | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..5ef1a5d 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -12,13 +12,6 @@ export default async function refreshNpmToken() {
 			}),
 		);
 
-		// Generate a new NPM token
-		console.log("🔑 Generating a new NPM token...");
-		const newToken = execSync("npm token create --read-only --publish", {
-			encoding: "utf8",
-		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
-
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
 		const repo = process.env.REPO_NAME;
@@ -32,6 +25,13 @@ export default async function refreshNpmToken() {
 			);
 		}
 
+		// Generate a new NPM token
+		console.log("🔑 Generating a new NPM token...");
+		const newToken = execSync("npm token create --read-only --publish", {
+			encoding: "utf8",
+		}).trim();
+		console.log("✅ New token generated successfully:", newToken);
+
 		// Update the token in GitHub Secrets
 		console.log("🔄 Updating token in GitHub Secrets...");
 		const response = await fetch(
-- 
2.43.0


From 95209ef05af0bc9ba034aadfd2262c75b68cf81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 18/40] fix: do not print the new npm token

---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 5ef1a5d..68257b3 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -30,7 +30,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Update the token in GitHub Secrets
 		console.log("🔄 Updating token in GitHub Secrets...");
-- 
2.43.0


From 706a8dac3ce7c5099cbc8566f2f19d2c3f73e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 19/40] fix: fail when npm returns no token instead of storing
 an empty secret

---
 scripts/refresh-npm-token.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 68257b3..d1c1b3a 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -30,6 +30,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
+		if (!newToken) throw new Error("npm did not return a new token.");
 		console.log("✅ New token generated successfully.");
 
 		// Update the token in GitHub Secrets
-- 
2.43.0


From b050389f753193e5e2e4f0ec54948bbe8a1000e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 20/40] fix: do not publish for real in a dry run of
 release:beta

---
 scripts/release-beta.mjs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 7111524..278cf42 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -116,7 +116,10 @@ const main = async () => {
 		console.log("[release:beta] Using provided OTP for npm publish.");
 	}
 
-	const publishCommand = `pnpm changeset publish --tag beta${dryRun ? " --dry-run" : ""}`;
+	// `changeset publish` has no dry run: it ignores the flag and publishes
+	const publishCommand = dryRun
+		? "pnpm publish --dry-run --tag beta --no-git-checks"
+		: "pnpm changeset publish --tag beta";
 	run(publishCommand, { env: publishEnv });
 
 	console.log(
-- 
2.43.0


From 3d5724d6fee7962fc478d996d6e9bd322ac88bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:56 +0000
Subject: [PATCH 21/40] fix: fail release:beta when the one-time password
 prompt is never answered

---
 scripts/release-beta.mjs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 278cf42..9111bf4 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -1,6 +1,7 @@
 #!/usr/bin/env node
 
 import { execSync } from "node:child_process";
+import { once } from "node:events";
 import { env, exit, stdin, stdout } from "node:process";
 import { createInterface } from "node:readline/promises";
 
@@ -73,10 +74,17 @@ const resolveOtp = async () => {
 	}
 
 	const rl = createInterface({ input: stdin, output: stdout });
+	// without a terminal (or after Ctrl-C) the question is never answered
+	const closed = once(rl, "close").then(() => {
+		throw new Error("No one-time password given. Use --otp=... or --skip-otp.");
+	});
 	const answer = (
-		await rl.question(
-			"[release:beta] Enter npm one-time password (leave blank to skip): ",
-		)
+		await Promise.race([
+			rl.question(
+				"[release:beta] Enter npm one-time password (leave blank to skip): ",
+			),
+			closed,
+		])
 	).trim();
 	await rl.close();
 	return answer || undefined;
-- 
2.43.0


From 4fbfb261a7aef557841a987b23657a174c7b809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:25 +0000
Subject: [PATCH 22/40] fix: include MobX computed values in the state given to
 views

---
 src/adapters/MobxAdapter.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 51db89e..4db85ca 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,4 +1,4 @@
-import { reaction, toJS } from "mobx";
+import { isComputedProp, reaction, toJS } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -118,7 +118,24 @@ function createAdapterEntryFromStore<State extends object>(
 	let lastSnapshot: State = cloneState();
 
 	function cloneState(): State {
-		return toJS(store) as State;
+		const snapshot = toJS(store) as State;
+		// toJS leaves computed values out
+		for (const key of Reflect.ownKeys(store)) {
+			if (!isComputedProp(store, key as string)) {
+				continue;
+			}
+			try {
+				Reflect.set(snapshot, key, toJS(Reflect.get(store, key)));
+			} catch (error) {
+				// As in the store, only reading the value fails.
+				Object.defineProperty(snapshot, key, {
+					get() {
+						throw error;
+					},
+				});
+			}
+		}
+		return snapshot;
 	}
 
 	function notifyListeners(snapshot: State) {
-- 
2.43.0


From c68cb062279b33c28527debe5362b2328e25b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:02 +0000
Subject: [PATCH 23/40] fix: Redux adapters do not call a listener removed
 during the notification

---
 src/adapters/ReduxAdapter.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index c28bb1a..6bc0e5f 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -68,7 +68,10 @@ const buildAdapter = <
 			}
 
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// The store still calls listeners removed while it notifies.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 185979539774177baf2773e5dbdf6789833c755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:32 +0000
Subject: [PATCH 24/40] fix: states callbacks over XState sources get the
 context fields their types promise

---
 src/adapters/XStateAdapter.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 4633654..d0c6e85 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -36,7 +36,7 @@ type XStateAdapterFactory<Machine extends AnyStateMachine> =
 		scope: StateScope;
 		resolveStateSnapshot: (
 			adapter: IgniteAdapter<ExtendedState<Machine>, EventFrom<Machine>>,
-		) => StateFrom<Machine>;
+		) => ExtendedState<Machine>;
 		resolveCommandActor: (
 			adapter: IgniteAdapter<ExtendedState<Machine>, EventFrom<Machine>>,
 		) => XStateCommandActor<Machine>;
@@ -44,7 +44,7 @@ type XStateAdapterFactory<Machine extends AnyStateMachine> =
 
 type AdapterEntry<Machine extends AnyStateMachine> = {
 	adapter: IgniteAdapter<ExtendedState<Machine>, EventFrom<Machine>>;
-	snapshot: () => StateFrom<Machine>;
+	snapshot: () => ExtendedState<Machine>;
 	actor: XStateActorInstance<Machine>;
 	commandActor: XStateCommandActor<Machine>;
 };
@@ -235,7 +235,7 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 	return {
 		adapter,
-		snapshot,
+		snapshot: () => toExtendedState(snapshot()),
 		actor,
 		commandActor,
 	};
-- 
2.43.0


From 81b9229475c069d17a062f5bef1521ae4afc2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:12 +0000
Subject: [PATCH 25/40] fix: entry points reject commands that are not
 functions at compile time

---
 src/igniteCore/mobx.ts   | 3 ++-
 src/igniteCore/redux.ts  | 7 ++++---
 src/igniteCore/xstate.ts | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/igniteCore/mobx.ts b/src/igniteCore/mobx.ts
index dd0fb91..648b36c 100644
--- a/src/igniteCore/mobx.ts
+++ b/src/igniteCore/mobx.ts
@@ -5,6 +5,7 @@ import type {
 	EmptyEventMap,
 	EventMap,
 	FacadeCommandFunction,
+	FacadeCommandResult,
 } from "../RenderArgs";
 import type { IgniteCoreReturn, MobxConfig } from "./types";
 
@@ -12,7 +13,7 @@ export function igniteCoreMobx<
 	State extends object,
 	Events extends EventMap = EmptyEventMap,
 	StatesResult extends Record<string, unknown> = Record<never, never>,
-	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+	CommandsResult extends FacadeCommandResult = Record<
 		never,
 		FacadeCommandFunction
 	>,
diff --git a/src/igniteCore/redux.ts b/src/igniteCore/redux.ts
index 523f16d..3570b06 100644
--- a/src/igniteCore/redux.ts
+++ b/src/igniteCore/redux.ts
@@ -6,6 +6,7 @@ import type {
 	EmptyEventMap,
 	EventMap,
 	FacadeCommandFunction,
+	FacadeCommandResult,
 } from "../RenderArgs";
 import { isReduxSlice, isReduxStore } from "../utils/adapterGuards";
 import type { InferStateAndEvent } from "../utils/igniteRedux";
@@ -22,7 +23,7 @@ type ReduxConfigFor<
 	Source extends ReduxBlueprintSource | ReduxInstanceSource,
 	Events extends EventMap = EmptyEventMap,
 	StatesResult extends Record<string, unknown> = Record<never, never>,
-	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+	CommandsResult extends FacadeCommandResult = Record<
 		never,
 		FacadeCommandFunction
 	>,
@@ -36,7 +37,7 @@ export function igniteCoreRedux<
 	Source extends ReduxBlueprintSource | ReduxInstanceSource,
 	Events extends EventMap = EmptyEventMap,
 	StatesResult extends Record<string, unknown> = Record<never, never>,
-	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+	CommandsResult extends FacadeCommandResult = Record<
 		never,
 		FacadeCommandFunction
 	>,
@@ -58,7 +59,7 @@ function createReduxComponentFactory<
 	Source extends ReduxBlueprintSource | ReduxInstanceSource,
 	Events extends EventMap = EmptyEventMap,
 	StatesResult extends Record<string, unknown> = Record<never, never>,
-	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+	CommandsResult extends FacadeCommandResult = Record<
 		never,
 		FacadeCommandFunction
 	>,
diff --git a/src/igniteCore/xstate.ts b/src/igniteCore/xstate.ts
index 98636e8..f4d91a6 100644
--- a/src/igniteCore/xstate.ts
+++ b/src/igniteCore/xstate.ts
@@ -9,6 +9,7 @@ import type {
 	EmptyEventMap,
 	EventMap,
 	FacadeCommandFunction,
+	FacadeCommandResult,
 } from "../RenderArgs";
 import type { IgniteCoreReturn, XStateConfig } from "./types";
 
@@ -16,7 +17,7 @@ export function igniteCoreXState<
 	Machine extends AnyStateMachine,
 	Events extends EventMap = EmptyEventMap,
 	StatesResult extends Record<string, unknown> = Record<never, never>,
-	CommandsResult extends Record<never, FacadeCommandFunction> = Record<
+	CommandsResult extends FacadeCommandResult = Record<
 		never,
 		FacadeCommandFunction
 	>,
-- 
2.43.0


From 865a1e146b9e03158b59895c899f3c6611727ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:53 +0000
Subject: [PATCH 26/40] fix: entry points type emit by the declared events

---
 src/igniteCore/mobx.ts   |  44 ++++++++++++++++-
 src/igniteCore/redux.ts  | 100 +++++++++++++++++++++++++++++++++++++++
 src/igniteCore/xstate.ts |  44 ++++++++++++++++-
 3 files changed, 186 insertions(+), 2 deletions(-)

diff --git a/src/igniteCore/mobx.ts b/src/igniteCore/mobx.ts
index 648b36c..242db15 100644
--- a/src/igniteCore/mobx.ts
+++ b/src/igniteCore/mobx.ts
@@ -7,7 +7,49 @@ import type {
 	FacadeCommandFunction,
 	FacadeCommandResult,
 } from "../RenderArgs";
-import type { IgniteCoreReturn, MobxConfig } from "./types";
+import type { EventsDefinition, IgniteCoreReturn, MobxConfig } from "./types";
+
+export function igniteCoreMobx<
+	State extends object,
+	Events extends EventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: MobxConfig<State, Events, StatesResult, CommandsResult> & {
+		events: EventsDefinition<Events>;
+	},
+): IgniteCoreReturn<
+	State,
+	MobxEvent<State>,
+	State,
+	StatesResult,
+	State,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreMobx<
+	State extends object,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: MobxConfig<State, Events, StatesResult, CommandsResult>,
+): IgniteCoreReturn<
+	State,
+	MobxEvent<State>,
+	State,
+	StatesResult,
+	State,
+	CommandsResult,
+	Events
+>;
 
 export function igniteCoreMobx<
 	State extends object,
diff --git a/src/igniteCore/redux.ts b/src/igniteCore/redux.ts
index 3570b06..e123159 100644
--- a/src/igniteCore/redux.ts
+++ b/src/igniteCore/redux.ts
@@ -11,6 +11,7 @@ import type {
 import { isReduxSlice, isReduxStore } from "../utils/adapterGuards";
 import type { InferStateAndEvent } from "../utils/igniteRedux";
 import type {
+	EventsDefinition,
 	IgniteCoreReturn,
 	ReduxBlueprintConfig,
 	ReduxBlueprintSource,
@@ -33,6 +34,105 @@ type ReduxConfigFor<
 		? ReduxBlueprintConfig<Source, Events, StatesResult, CommandsResult>
 		: never;
 
+export function igniteCoreRedux<
+	Source extends ReduxBlueprintSource,
+	Events extends EventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxBlueprintConfig<
+		Source,
+		Events,
+		StatesResult,
+		CommandsResult
+	> & {
+		events: EventsDefinition<Events>;
+	},
+): IgniteCoreReturn<
+	InferStateAndEvent<Source>["State"],
+	InferStateAndEvent<Source>["Event"],
+	InferStateAndEvent<Source>["State"],
+	StatesResult,
+	ReduxCommandActorFor<Source>,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreRedux<
+	Source extends ReduxBlueprintSource,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxBlueprintConfig<Source, Events, StatesResult, CommandsResult>,
+): IgniteCoreReturn<
+	InferStateAndEvent<Source>["State"],
+	InferStateAndEvent<Source>["Event"],
+	InferStateAndEvent<Source>["State"],
+	StatesResult,
+	ReduxCommandActorFor<Source>,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreRedux<
+	StoreInstance extends ReduxInstanceSource,
+	Events extends EventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxInstanceConfig<
+		StoreInstance,
+		Events,
+		StatesResult,
+		CommandsResult
+	> & {
+		events: EventsDefinition<Events>;
+	},
+): IgniteCoreReturn<
+	InferStateAndEvent<StoreInstance>["State"],
+	InferStateAndEvent<StoreInstance>["Event"],
+	InferStateAndEvent<StoreInstance>["State"],
+	StatesResult,
+	ReduxCommandActorFor<StoreInstance>,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreRedux<
+	StoreInstance extends ReduxInstanceSource,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: ReduxInstanceConfig<
+		StoreInstance,
+		Events,
+		StatesResult,
+		CommandsResult
+	>,
+): IgniteCoreReturn<
+	InferStateAndEvent<StoreInstance>["State"],
+	InferStateAndEvent<StoreInstance>["Event"],
+	InferStateAndEvent<StoreInstance>["State"],
+	StatesResult,
+	ReduxCommandActorFor<StoreInstance>,
+	CommandsResult,
+	Events
+>;
+
 export function igniteCoreRedux<
 	Source extends ReduxBlueprintSource | ReduxInstanceSource,
 	Events extends EventMap = EmptyEventMap,
diff --git a/src/igniteCore/xstate.ts b/src/igniteCore/xstate.ts
index f4d91a6..ee8820d 100644
--- a/src/igniteCore/xstate.ts
+++ b/src/igniteCore/xstate.ts
@@ -11,7 +11,49 @@ import type {
 	FacadeCommandFunction,
 	FacadeCommandResult,
 } from "../RenderArgs";
-import type { IgniteCoreReturn, XStateConfig } from "./types";
+import type { EventsDefinition, IgniteCoreReturn, XStateConfig } from "./types";
+
+export function igniteCoreXState<
+	Machine extends AnyStateMachine,
+	Events extends EventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: XStateConfig<Machine, Events, StatesResult, CommandsResult> & {
+		events: EventsDefinition<Events>;
+	},
+): IgniteCoreReturn<
+	ExtendedState<Machine>,
+	EventFrom<Machine>,
+	ExtendedState<Machine>,
+	StatesResult,
+	XStateCommandActor<Machine>,
+	CommandsResult,
+	Events
+>;
+
+export function igniteCoreXState<
+	Machine extends AnyStateMachine,
+	Events extends EventMap = EmptyEventMap,
+	StatesResult extends Record<string, unknown> = Record<never, never>,
+	CommandsResult extends FacadeCommandResult = Record<
+		never,
+		FacadeCommandFunction
+	>,
+>(
+	options: XStateConfig<Machine, Events, StatesResult, CommandsResult>,
+): IgniteCoreReturn<
+	ExtendedState<Machine>,
+	EventFrom<Machine>,
+	ExtendedState<Machine>,
+	StatesResult,
+	XStateCommandActor<Machine>,
+	CommandsResult,
+	Events
+>;
 
 export function igniteCoreXState<
 	Machine extends AnyStateMachine,
-- 
2.43.0


From 07258c2623c1747159bae385e75b41b780ecc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:26 +0000
Subject: [PATCH 27/40] fix: apply an input's declared value after its type and
 limits

---
 src/renderers/jsx/renderer.ts | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 291a16b..fa07295 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -495,6 +495,30 @@ function patchProps(
 			element.setAttribute(attrName, nextString);
 		}
 	}
+
+	applyInputValue(element, oldProps, newProps);
+}
+
+// Type and limits decide which part of a declared value an input keeps, so the value
+// is set again once they have all been applied.
+function applyInputValue(
+	element: Element,
+	oldProps: IgniteJsxProps,
+	newProps: IgniteJsxProps,
+): void {
+	const value = newProps.value;
+	if (
+		element.localName === "input" &&
+		value !== undefined &&
+		value !== null &&
+		value !== false &&
+		!isComposingInput(element as HTMLElement) &&
+		["type", "min", "max", "step"].some(
+			(key) => oldProps[key] !== newProps[key],
+		)
+	) {
+		Reflect.set(element, "value", value);
+	}
 }
 
 function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
-- 
2.43.0


From 5ecf2bcd0d9df9dae79286413dfa7a51f6ebdc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:22 +0000
Subject: [PATCH 28/40] fix: resolve the config file anew when the Vite plugin
 is used for another project

---
 src/plugins/viteIgniteConfigPlugin.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2215837..ec7b196 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -49,12 +49,10 @@ export function igniteConfigVitePlugin(
 
 	const configResolved = (config: ConfigWithRoot) => {
 		projectRoot = options.root ?? config.root;
-		resolvedConfigPath =
-			resolvedConfigPath ??
-			resolveConfigFile({
-				root: projectRoot,
-				configPath: options.configPath,
-			});
+		resolvedConfigPath = resolveConfigFile({
+			root: projectRoot,
+			configPath: options.configPath,
+		});
 	};
 
 	const transformIndexHtml = () => {
-- 
2.43.0


From 17d87f1252c37d3fce3a91a08e7756932273be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:23 +0000
Subject: [PATCH 29/40] fix: find the config helper when the package is
 installed above the Vite root

---
 src/plugins/viteIgniteConfigPlugin.ts | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index ec7b196..ffc1a70 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -1,3 +1,4 @@
+import { existsSync } from "node:fs";
 import { relative, resolve, sep } from "node:path";
 import { resolveConfigFile } from "./configFile";
 
@@ -73,14 +74,17 @@ export function igniteConfigVitePlugin(
 			return;
 		}
 
-		const loadHelperSpecifier = projectRoot
-			? toFileSystemPath(
-					resolve(
-						projectRoot,
-						"node_modules/ignite-element/dist/config/loadIgniteConfig.es.js",
-					),
+		const installedHelper = projectRoot
+			? resolve(
+					projectRoot,
+					"node_modules/ignite-element/dist/config/loadIgniteConfig.es.js",
 				)
-			: DEFAULT_LOAD_HELPER_SPECIFIER;
+			: undefined;
+		// Not in the root when installed by a workspace above it.
+		const loadHelperSpecifier =
+			installedHelper && existsSync(installedHelper)
+				? toFileSystemPath(installedHelper)
+				: DEFAULT_LOAD_HELPER_SPECIFIER;
 
 		const loadHelperImport = JSON.stringify(loadHelperSpecifier);
 		const configModuleImport = JSON.stringify(importSpecifier);
-- 
2.43.0


From 4e22773b20311c3b08519d33cfb2fa775e4ea551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:42 +0000
Subject: [PATCH 30/40] fix: show the state a render itself led to (a view that
 sends, a child that emits on connect)

---
 src/IgniteElement.ts | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index fde9c4a..8c16dc0 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -13,6 +13,8 @@ export default abstract class IgniteElement<
 	private _currentState!: State;
 	private _initialized = false;
 	private _isActive = false;
+	private _isRendering = false;
+	private _renderAgain = false;
 	private _unsubscribe: (() => void) | undefined;
 	private _sendListener: ((event: globalThis.Event) => void) | undefined;
 	private readonly strategy: RenderStrategy<View>;
@@ -91,12 +93,30 @@ export default abstract class IgniteElement<
 			return;
 		}
 
-		this.strategy.render(
-			this.renderView({
-				state: this._currentState,
-				send: (event: Event) => this.send(event),
-			}),
-		);
+		// Rendering can change the state in turn (a view that sends, a child that emits
+		// when connected): finish this render, then show the newer state.
+		if (this._isRendering) {
+			this._renderAgain = true;
+			return;
+		}
+
+		this._isRendering = true;
+		try {
+			this.strategy.render(
+				this.renderView({
+					state: this._currentState,
+					send: (event: Event) => this.send(event),
+				}),
+			);
+		} finally {
+			this._isRendering = false;
+			if (this._renderAgain) {
+				this._renderAgain = false;
+				if (this._isActive) {
+					this.renderTemplate();
+				}
+			}
+		}
 	}
 
 	protected abstract renderView(props: {
-- 
2.43.0


From 5f407e4d55f9115f8267c7c2e2e87a8c09551c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:42 +0000
Subject: [PATCH 31/40] fix: refuse a credential with a line break before fetch
 quotes it in its error

---
 scripts/refresh-npm-token.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d1c1b3a..49ec21e 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -13,7 +13,7 @@ export default async function refreshNpmToken() {
 		);
 
 		// Validate environment variables
-		const githubToken = process.env.GITHUB_TOKEN;
+		const githubToken = process.env.GITHUB_TOKEN?.trim();
 		const repo = process.env.REPO_NAME;
 
 		if (!githubToken || !repo) {
@@ -25,6 +25,11 @@ export default async function refreshNpmToken() {
 			);
 		}
 
+		// fetch refuses such a header and quotes it, credential included, in its error
+		if (/[\r\n]/.test(githubToken)) {
+			throw new Error("GITHUB_TOKEN contains a line break.");
+		}
+
 		// Generate a new NPM token
 		console.log("🔑 Generating a new NPM token...");
 		const newToken = execSync("npm token create --read-only --publish", {
-- 
2.43.0


From 45e5ac1a795078d89883b3a31d51960ba81f0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:42 +0000
Subject: [PATCH 32/40] fix: honour an empty crossOrigin and reject style
 values without an address

---
 src/injectStyles.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index ddd1edc..6e72f45 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -84,7 +84,8 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			if (attributes.integrity) {
 				linkElement.integrity = attributes.integrity;
 			}
-			if (attributes.crossOrigin) {
+			// An empty value is a valid one: anonymous.
+			if (typeof attributes.crossOrigin === "string") {
 				linkElement.crossOrigin = attributes.crossOrigin;
 			}
 		}
@@ -116,14 +117,16 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 		}
 	} else if (
 		typeof globalStyles === "object" &&
-		globalStyles &&
-		"href" in globalStyles
+		typeof globalStyles.href === "string" &&
+		globalStyles.href.trim()
 	) {
 		debugLog(DebugNamespace.GLOBAL_STYLES, "Processing object:", globalStyles);
 		injectStylesheet(globalStyles.href, {
 			integrity: globalStyles.integrity,
 			crossOrigin: globalStyles.crossOrigin,
 		});
+	} else {
+		console.warn("Invalid global styles:", globalStyles);
 	}
 
 	// Deprecated per-component styles have been removed (styles now managed globally)
-- 
2.43.0


From 17b19308e3530f035e786d67d15fb60f980f9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:43 +0000
Subject: [PATCH 33/40] fix: keep the case of CSS custom properties in style
 objects

---
 src/renderers/jsx/renderer.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index fa07295..a8ef118 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -721,6 +721,10 @@ function normalizeSvgAttributeName(name: string): string {
 }
 
 function toKebabCase(value: string): string {
+	// Custom property names are case-sensitive and must stay as written.
+	if (value.startsWith("--")) {
+		return value;
+	}
 	return value.replace(/([A-Z])/g, "-$1").toLowerCase();
 }
 
-- 
2.43.0


From 4c2bd144b6180d33ed571412bb8b745f9aea1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:52 +0000
Subject: [PATCH 34/40] fix: render the fallback content of a slot

---
 src/renderers/jsx/renderer.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index a8ef118..03d9560 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -189,7 +189,6 @@ function normalizeChild(
 	}
 
 	const tagName = String(node.type);
-	const isSlot = tagName === "slot";
 	const isSvgRoot = tagName === "svg";
 	const useSvgNamespace = isSvgRoot || namespace === SVG_NAMESPACE;
 	const childNamespace =
@@ -197,11 +196,9 @@ function normalizeChild(
 			? SVG_NAMESPACE
 			: undefined;
 
-	const normalizedChildren = isSlot
-		? []
-		: normalizeChildren(node.props.children).flatMap((child) =>
-				normalizeChild(child, childNamespace),
-			);
+	const normalizedChildren = normalizeChildren(node.props.children).flatMap(
+		(child) => normalizeChild(child, childNamespace),
+	);
 
 	return [
 		{
-- 
2.43.0


From 5cc45ebb26ca9aa1ea18228c638f4bd3f6eaee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:32 +0000
Subject: [PATCH 35/40] fix: let the same listener subscribe to an adapter more
 than once

---
 src/adapters/MobxAdapter.ts   | 6 ++++--
 src/adapters/XStateAdapter.ts | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 4db85ca..1c53f0d 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -176,7 +176,9 @@ function createAdapterEntryFromStore<State extends object>(
 			}
 
 			const wasRunning = disposer !== null;
-			listeners.add(listener);
+			// One entry for each subscription: the same function may subscribe twice.
+			const subscriber = (state: State) => listener(state);
+			listeners.add(subscriber);
 			ensureReaction();
 
 			if (wasRunning) {
@@ -188,7 +190,7 @@ function createAdapterEntryFromStore<State extends object>(
 					if (isStopped) {
 						return;
 					}
-					listeners.delete(listener);
+					listeners.delete(subscriber);
 					if (!listeners.size) {
 						cleanupReaction();
 					}
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index d0c6e85..0efa07c 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -159,7 +159,9 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			listeners.add(listener);
+			// One entry for each subscription: the same function may subscribe twice.
+			const subscriber = (state: ExtendedState<Machine>) => listener(state);
+			listeners.add(subscriber);
 			ensureSubscription();
 
 			const snapshot = actor.getSnapshot();
@@ -168,7 +170,7 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 			return {
 				unsubscribe: () => {
-					listeners.delete(listener);
+					listeners.delete(subscriber);
 					if (!listeners.size) {
 						cleanupSubscription();
 					}
-- 
2.43.0


From f14b89003eaa8a6f02f2f8ecd4aedbb683a34910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:34 +0000
Subject: [PATCH 36/40] fix: reject a source that is neither a machine nor an
 actor for the XState adapter

---
 src/adapters/XStateAdapter.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 0efa07c..b8bb225 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -7,7 +7,7 @@ import type {
 import { createActor } from "xstate";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
-import { isXStateActor } from "../utils/adapterGuards";
+import { isXStateActor, isXStateMachine } from "../utils/adapterGuards";
 
 export type ExtendedState<Machine extends AnyStateMachine> =
 	StateFrom<Machine> &
@@ -61,6 +61,12 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 		);
 	}
 
+	if (!isXStateMachine(source)) {
+		throw new Error(
+			"[XStateAdapter] Unsupported source. Provide a state machine or an actor.",
+		);
+	}
+
 	const machine = source as Machine;
 	return createFactory(() => {
 		const actor = createActor(machine);
-- 
2.43.0


From c79404c5c4f3cae8cafe26b348bef2c40dd9e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 37/40] fix: keep what npm printed out of the error of a failed
 token creation

---
 scripts/refresh-npm-token.js | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index 49ec21e..215ef70 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -1,5 +1,16 @@
 import { execSync } from "node:child_process";
 
+function createNpmToken() {
+	try {
+		return execSync("npm token create --read-only --publish", {
+			encoding: "utf8",
+		});
+	} catch (error) {
+		// its stdout and output properties hold what npm printed, the token included
+		throw new Error(error instanceof Error ? error.message : String(error));
+	}
+}
+
 export default async function refreshNpmToken() {
 	try {
 		console.log("🚀 Starting refreshNpmToken...");
@@ -32,9 +43,7 @@ export default async function refreshNpmToken() {
 
 		// Generate a new NPM token
 		console.log("🔑 Generating a new NPM token...");
-		const newToken = execSync("npm token create --read-only --publish", {
-			encoding: "utf8",
-		}).trim();
+		const newToken = createNpmToken().trim();
 		if (!newToken) throw new Error("npm did not return a new token.");
 		console.log("✅ New token generated successfully.");
 
-- 
2.43.0


From 6a9a80810bc7505ee4597c16bcc4e8d0a3f75843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:24 +0000
Subject: [PATCH 38/40] fix: import the config from a page in a subfolder as
 that page resolves it in the Vite plugin

---
 src/plugins/viteIgniteConfigPlugin.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index ffc1a70..bddfadc 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -1,5 +1,5 @@
 import { existsSync } from "node:fs";
-import { relative, resolve, sep } from "node:path";
+import { dirname, isAbsolute, relative, resolve, sep } from "node:path";
 import { resolveConfigFile } from "./configFile";
 
 export interface IgniteConfigVitePluginOptions {
@@ -35,6 +35,7 @@ function toFileSystemPath(path: string): string {
 const DEFAULT_LOAD_HELPER_SPECIFIER = "ignite-element/config/loadIgniteConfig";
 
 type ConfigWithRoot = { root: string };
+type PageContext = { filename?: string };
 
 export function igniteConfigVitePlugin(
 	options: IgniteConfigVitePluginOptions = {},
@@ -56,7 +57,7 @@ export function igniteConfigVitePlugin(
 		});
 	};
 
-	const transformIndexHtml = () => {
+	const transformIndexHtml = (_html?: string, page?: PageContext) => {
 		if (!isValidPath(resolvedConfigPath)) {
 			console.warn("[ignite-element:vite-config] no config file found");
 			return;
@@ -64,7 +65,11 @@ export function igniteConfigVitePlugin(
 
 		const injectTo = options.injectTo ?? "head-prepend";
 
-		const importSpecifier = getImportSpecifier(resolvedConfigPath, projectRoot);
+		const importSpecifier = getImportSpecifier(
+			resolvedConfigPath,
+			projectRoot,
+			page?.filename,
+		);
 
 		if (!importSpecifier) {
 			console.warn(
@@ -118,6 +123,7 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 function getImportSpecifier(
 	configPath: string | undefined,
 	root: string | undefined,
+	page: string | undefined,
 ): string | undefined {
 	if (!isValidPath(configPath)) {
 		return undefined;
@@ -126,7 +132,10 @@ function getImportSpecifier(
 	if (root) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			return `./${toPosixPath(relativePath)}`;
+			// A page in a subfolder resolves its imports from there.
+			const pageDir = page && isAbsolute(page) ? dirname(page) : root;
+			const fromPage = toPosixPath(relative(pageDir, configPath));
+			return fromPage.startsWith("../") ? fromPage : `./${fromPage}`;
 		}
 	}
 
-- 
2.43.0


From 84f6a216fad630ec7815d17bec9215259578a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:24 +0000
Subject: [PATCH 39/40] fix: add the config script before Vite bundles the
 page, so that builds load the config

---
 src/plugins/viteIgniteConfigPlugin.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index bddfadc..e66b527 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -109,12 +109,14 @@ await loadIgniteConfig(() => import(${configModuleImport}));`;
 	};
 
 	const enforce: "pre" = "pre";
+	const order: "pre" = "pre";
 
 	const plugin = {
 		name: "ignite-element:vite-config",
 		enforce,
 		configResolved,
-		transformIndexHtml,
+		// Before Vite collects the page's scripts, so that a build bundles this one.
+		transformIndexHtml: { order, handler: transformIndexHtml },
 	};
 
 	return plugin;
-- 
2.43.0


From 5b81ac48e1f1797b59e452227882888c1cb196ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:33 +0000
Subject: [PATCH 40/40] fix: update the style of an element whose style object
 was changed in place

---
 src/renderers/jsx/renderer.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 03d9560..834f7a3 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -204,13 +204,21 @@ function normalizeChild(
 		{
 			kind: "element",
 			tag: tagName,
-			props: node.props,
+			props: copyStyle(node.props),
 			namespace: useSvgNamespace ? SVG_NAMESPACE : undefined,
 			children: normalizedChildren,
 		},
 	];
 }
 
+// The next style is compared with this one, which may be changed in place meanwhile.
+function copyStyle(props: IgniteJsxProps): IgniteJsxProps {
+	const { style } = props;
+	return style && typeof style === "object"
+		? { ...props, style: { ...style } }
+		: props;
+}
+
 function patchChildren(
 	parent: ParentNode,
 	oldChildren: NormalizedNode[],
-- 
2.43.0

