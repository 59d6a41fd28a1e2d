// Runs the module text a build integration emits, with stand-ins for what it imports.
import vm from "node:vm";

export interface Ran {
	/** every specifier imported before the config loader was called */
	helpers: string[];
	/** how often the config helper was called */
	calls: number;
	/** specifiers imported by the function(s) given to the config helper */
	config: string[];
}

export async function runLoaderScript(source: string): Promise<Ran> {
	const V = vm as any;
	const ran: Ran = { helpers: [], calls: 0, config: [] };
	const context = vm.createContext({ console });
	let phase: "helper" | "config" = "helper";
	const stub = () =>
		new V.SyntheticModule(
			["loadIgniteConfig", "default"],
			function (this: any) {
				this.setExport("loadIgniteConfig", async (loader: () => Promise<any>) => {
					ran.calls++;
					phase = "config";
					await loader();
					phase = "helper";
				});
				this.setExport("default", { stub: true });
			},
			{ context },
		);
	const take = (specifier: string) => {
		(phase === "helper" ? ran.helpers : ran.config).push(specifier);
		return stub();
	};
	const module = new V.SourceTextModule(source, {
		context,
		importModuleDynamically: async (specifier: string) => {
			const m = take(specifier);
			await m.link(() => {});
			await m.evaluate();
			return m;
		},
	});
	await module.link(async (specifier: string) => take(specifier));
	await module.evaluate();
	return ran;
}
