// DOM fixtures for the JSX checks.
export function newShadow(tag = "div", connect = false): ShadowRoot {
	const host = document.createElement(tag);
	if (connect) document.body.appendChild(host);
	return host.attachShadow({ mode: "open" });
}

/** The element the JSX strategy renders into. */
export function contentOf(shadow: ShadowRoot): Element {
	const root = shadow.querySelector("[data-ignite-jsx-root]");
	if (!root) throw new Error("no content root");
	return root;
}

/** A custom element with a real property, to observe values passed by identity. */
export function defineProbe() {
	if (customElements.get("x-verif-props")) return;
	class Probe extends HTMLElement {
		private _payload: unknown;
		get payload() {
			return this._payload;
		}
		set payload(v: unknown) {
			this._payload = v;
		}
	}
	customElements.define("x-verif-props", Probe);
}
