import { createRequire } from "node:module";
import path from "node:path";

const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");

// One copy of every library: bare imports resolve from /repo/node_modules
// first (so the harness and the code under test share instances), then from
// the tool installation.  "repo:x" is /repo/src/x.
export async function bundle({ entry, outfile, repo, verif, extra = {} }) {
	await esbuild.build({
		entryPoints: [entry],
		outfile,
		bundle: true,
		format: "esm",
		platform: "node",
		target: "node22",
		sourcemap: "inline",
		logLevel: "silent",
		nodePaths: [
			path.join(repo, "node_modules"),
			"/opt/veriftools/node/node_modules",
		],
		external: ["jsdom", "typescript", "esbuild", "vite", ...(extra.external ?? [])],
		jsx: "automatic",
		tsconfigRaw: {
			compilerOptions: { useDefineForClassFields: true, target: "ES2022" },
		},
		plugins: [
			...(extra.plugins ?? []),
			{
				name: "repo-alias",
				setup(build) {
					build.onResolve({ filter: /^repo:/ }, (args) =>
						build.resolve(`./${args.path.slice(5)}`, {
							resolveDir: path.join(repo, "src"),
							kind: args.kind,
						}),
					);
					build.onResolve({ filter: /^(xstate|mobx|@reduxjs\/toolkit|redux|lit-html|lit-html\/.*)$/ }, (args) => {
						if (args.pluginData?.done) return;
						return build.resolve(args.path, {
							resolveDir: repo,
							kind: args.kind,
							pluginData: { done: true },
						});
					});
				},
			},
		],
		banner: {
			js: `import { createRequire as __cr } from "node:module"; const require = __cr(${JSON.stringify(path.join(repo, "package.json"))});`,
		},
	});
	return outfile;
}
