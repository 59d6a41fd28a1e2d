import fs from "node:fs";
import path from "node:path";
import { pathToFileURL } from "node:url";
import { ensure, ensureEqual, fc, repoDir, runCheck, scratchDir, show } from "../lib/runner";
import { type Answer, Stubs } from "../lib/stubs";

/** Runs the function with the network replaced by a recorder; reports on fd 3-like markers. */
const driver = path.join(scratchDir, "driver.mjs");
fs.writeFileSync(
	driver,
	`import fs from "node:fs";
import { inspect } from "node:util";
const plan = JSON.parse(fs.readFileSync(process.env.PLAN, "utf8"));
const seen = { requests: [], outcome: null };
const save = () => fs.writeFileSync(process.env.SEEN, JSON.stringify(seen));
globalThis.fetch = async (input, init) => {
	const request = new Request(input, init);
	const body = await request.text();
	seen.requests.push({ url: request.url, method: request.method, authorization: request.headers.get("authorization"), body });
	save();
	const net = plan.net;
	if (net.kind === "reject") throw Object.assign(new TypeError("fetch failed"), { cause: new Error(net.text) });
	if (net.kind === "reject-string") throw net.text;
	const text = net.echo ? body + JSON.stringify([...request.headers]) : net.text;
	return new Response(net.status === 204 ? null : text, { status: net.status, statusText: net.statusText });
};
const { default: refresh } = await import(plan.script);
// nothing of the environment is needed any more: an idle timer keeps the process from ending early
const alive = setTimeout(() => { seen.outcome = "never settled"; save(); process.exit(0); }, 20000);
try {
	await refresh();
	seen.outcome = "success";
} catch (error) {
	seen.outcome = "failure";
	// as it would be printed if nobody handled it
	seen.error = inspect(error, { depth: 6, showHidden: true });
}
clearTimeout(alive);
await new Promise((r) => setTimeout(r, 5));
save();
`,
);

const wordArb = fc.string({ unit: fc.constantFrom(..."ABCDEFGHJKMNPQRSTUVWXYZabcdefghijkmnpqrstuvwxyz23456789"), minLength: 20, maxLength: 40 });
const tokenArb = fc.oneof(
	{ weight: 4, arbitrary: wordArb.map((w) => `npm_${w}`) },
	{ weight: 1, arbitrary: fc.uuid({ version: 4 }) },
	{ weight: 1, arbitrary: fc.tuple(wordArb, fc.constantFrom("+/=", '"', "$1", "%20", "\\n", "é", "'", "&", "`x`")).map(([w, s]) => `${w.slice(0, 12)}${s}${w.slice(12)}`) },
);
const plainCredArb = fc.tuple(fc.constantFrom("ghp_", "github_pat_", "ghs_", ""), wordArb).map(([p, w]) => p + w);
/** as read from a file with a last line end, or with one too many in it */
const credArb = fc.oneof(
	{ weight: 6, arbitrary: plainCredArb },
	{ weight: 1, arbitrary: fc.tuple(plainCredArb, fc.constantFrom("\n", "\r\n", " ")).map(([a, b]) => a + b) },
	{ weight: 1, arbitrary: fc.tuple(plainCredArb, fc.constantFrom("\n", "\r\n", "\n\n"), fc.oneof(wordArb, fc.constant("x"))).map((p) => p.join("")) },
);
const nameArb = fc.string({ unit: fc.constantFrom(..."abcdefghijklmnopqrstuvwxyzABC0123456789-_."), minLength: 1, maxLength: 12 }).map((s) => `r${s}`);
const repoArb = fc.tuple(nameArb, nameArb).map(([a, b]) => `${a}/${b}`);

type Npm = { kind: "ok"; before: string; after: string } | { kind: "empty"; out: string } | { kind: "exit"; code: number; err: string; says: boolean } | { kind: "killed"; says: boolean } | { kind: "absent" };
type Net = { kind: "reply"; status: number; statusText: string; text: string; echo: boolean } | { kind: "reject" | "reject-string"; text: string };
const npmOk: Npm = { kind: "ok", before: "", after: "\n" };
const npmArb: fc.Arbitrary<Npm> = fc.oneof(
	{ weight: 6, arbitrary: fc.record({ kind: fc.constant("ok" as const), before: fc.constantFrom("", "", "\n", "  "), after: fc.constantFrom("\n", "\n", "", "\r\n", "\n\n", " \n") }) },
	{ weight: 1, arbitrary: fc.record({ kind: fc.constant("empty" as const), out: fc.constantFrom("", "\n", "  \n") }) },
	{ weight: 2, arbitrary: fc.record({ kind: fc.constant("exit" as const), code: fc.constantFrom(1, 2, 127, 255), err: fc.constantFrom("", "npm ERR! code E401\n", "npm ERR! need auth\n"), says: fc.boolean() }) },
	{ weight: 1, arbitrary: fc.constantFrom({ kind: "killed" as const, says: false }, { kind: "killed" as const, says: true }, { kind: "absent" as const }) },
);
const statusArb = fc.oneof(fc.constantFrom(201, 204, 200), fc.constantFrom(400, 401, 403, 404, 409, 422, 429, 500, 502, 503), fc.integer({ min: 300, max: 599 }).filter((n) => n !== 304));
const netArb: fc.Arbitrary<Net> = fc.oneof(
	{
		weight: 5,
		arbitrary: fc.record({ kind: fc.constant("reply" as const), status: statusArb, statusText: fc.constantFrom("", "Created", "No Content", "Not Found", "OK", "Unprocessable Entity"), text: fc.constantFrom("", "{}", '{"message":"Bad credentials"}', "<html>"), echo: fc.boolean() }),
	},
	{ weight: 2, arbitrary: fc.record({ kind: fc.constantFrom("reject" as const, "reject-string" as const), text: fc.constantFrom("getaddrinfo ENOTFOUND api.github.com", "ECONNRESET", "certificate has expired", "") }) },
);
const settingArb = (a: fc.Arbitrary<string>) => fc.oneof({ weight: 6, arbitrary: a }, { weight: 1, arbitrary: fc.constantFrom(null, "") });
interface Case {
	token: string;
	cred: string | null;
	repo: string | null;
	npm: Npm;
	net: Net;
	extraEnv: Record<string, string>;
}
const caseArb: fc.Arbitrary<Case> = fc.record({
	token: tokenArb,
	cred: settingArb(credArb),
	repo: settingArb(repoArb),
	npm: npmArb,
	net: netArb,
	extraEnv: fc.constantFrom({}, {}, { CI: "true" }, { GITHUB_ACTIONS: "true", CI: "1" }, { DEBUG: "*" }, { NODE_ENV: "development" }, { NODE_ENV: "production" }),
});

/** the secret, in the forms in which it could be read off a log */
function leaks(text: string, secret: string): string | null {
	for (let i = 0; i + 10 <= secret.length; i++) if (text.includes(secret.slice(i, i + 10))) return `${secret.slice(i, i + 10)} (part of the secret)`;
	const b = Buffer.from(secret);
	for (const [form, v] of Object.entries({ base64: b.toString("base64").replace(/=+$/, ""), base64url: b.toString("base64url"), hex: b.toString("hex"), uri: encodeURIComponent(secret), reversed: [...secret].reverse().join("") }))
		if (text.includes(v)) return `the secret as ${form}`;
	return null;
}

async function play(k: Case) {
	const answers: Answer[] = [];
	const npm = k.npm;
	if (npm.kind === "ok") answers.push({ match: ["npm", "token", "create"], stdout: `${npm.before}${k.token}${npm.after}` });
	else if (npm.kind === "empty") answers.push({ match: ["npm", "token", "create"], stdout: npm.out });
	else if (npm.kind === "exit") answers.push({ match: ["npm", "token", "create"], stderr: npm.err, exit: npm.code, ...(npm.says ? { stdout: `${k.token}\n` } : {}) });
	else if (npm.kind === "killed") answers.push({ match: ["npm", "token", "create"], signal: "KILL", ...(npm.says ? { stdout: `${k.token}\n` } : {}) });
	const stubs = new Stubs(npm.kind === "absent" ? [] : ["npm"], answers);
	try {
		const plan = path.join(stubs.dir, "plan.json");
		const seenFile = path.join(stubs.dir, "seen.json");
		fs.writeFileSync(plan, JSON.stringify({ net: k.net, script: pathToFileURL(path.join(repoDir, "scripts/refresh-npm-token.js")).href }));
		const env: Record<string, string> = { PLAN: plan, SEEN: seenFile, ...k.extraEnv };
		if (k.cred !== null) env.GITHUB_TOKEN = k.cred;
		if (k.repo !== null) env.REPO_NAME = k.repo;
		const run = await stubs.node([driver], { env });
		const seen: { requests: { url: string; method: string; authorization: string | null; body: string }[]; outcome: string | null; error?: string } = fs.existsSync(seenFile)
			? JSON.parse(fs.readFileSync(seenFile, "utf8"))
			: { requests: [], outcome: null };
		const out = `${run.stdout}\n${run.stderr}\n${seen.error ?? ""}`;
		const creations = run.calls.filter((c) => c.args[0] === "token" && c.args[1] === "create").length;
		const says = `(outcome ${seen.outcome ?? `none, exit ${run.code}`}, ${creations} tokens created, requests ${show(seen.requests.map((r) => `${r.method} ${r.url}`))}, output ${show(out)})`;

		const settings = Boolean(k.cred && k.repo);
		/** fetch refuses such a header */
		const unusable = settings && /[\r\n]/.test((k.cred as string).trim());
		const created = settings && npm.kind === "ok" && !unusable;
		const stored = created && k.net.kind === "reply" && k.net.status >= 200 && k.net.status < 300;
		ensureEqual(seen.outcome, stored ? "success" : "failure", `outcome ${says}`);
		if (!settings) ensureEqual(creations, 0, `tokens created although settings are missing ${says}`);
		else if (unusable) ensure(creations <= 1, () => `several tokens created ${says}`);
		else if (npm.kind !== "absent") ensureEqual(creations, 1, `number of tokens created ${says}`);
		if (!created) ensureEqual(seen.requests.length, 0, `requests although there is no new token ${says}`);
		else {
			ensureEqual(seen.requests.length, 1, `requests made ${says}`);
			const [r] = seen.requests;
			ensureEqual([r.method, r.url], ["PUT", `https://api.github.com/repos/${k.repo}/actions/secrets/NPM_TOKEN`], "the request");
			ensure(/^(bearer|token) /i.test(r.authorization ?? "") && r.authorization?.replace(/^\S+ /, "") === k.cred?.trim(), `the request is authorised by ${show(r.authorization)}, not the configured credential`);
			let stored: unknown;
			try {
				stored = JSON.parse(r.body).encrypted_value;
			} catch {
				stored = r.body;
			}
			ensureEqual(stored, k.token, "the stored secret");
		}
		for (const [name, secret] of [
			["new token", k.token],
			...(k.cred ?? "").split(/\s+/).map((part) => ["credential", part.length < 10 ? null : part] as const),
		] as const) {
			const leak = secret && leaks(out, secret);
			ensure(!leak, () => `the ${name} appears in the output: ${leak} ${says}`);
		}
	} finally {
		stubs.remove();
	}
}

await runCheck(
	"C21",
	{
		level: "fault_enumeration",
		rule: "every combination of settings x npm outcome x service outcome enumerated with one token, plus random tokens, credentials, repositories and faults; the real script runs in its own process with npm and the network replaced; the outcome, the npm calls, the request and all output are compared with the fault plan; non-trivial: settings complete (a token creation is attempted) or exactly one is missing",
		assumptions: ["npm and the GitHub service are stand-ins; npm token create is taken to print the token, as the script assumes"],
	},
	async (check) => {
		const mark = (k: Case, c: { nontrivial(): void; label(n: string): void }) => {
			if (k.cred || k.repo) c.nontrivial();
			const ok = k.npm.kind === "ok" && k.cred && k.repo;
			c.label(k.cred && /[\r\n]/.test(k.cred.trim()) ? "credential with a line break" : !k.cred || !k.repo ? "settings missing" : k.npm.kind !== "ok" ? `npm ${k.npm.kind}` : k.net.kind !== "reply" ? "network failure" : `${Math.floor(k.net.status / 100)}xx`);
			return ok;
		};
		const npms: Npm[] = [npmOk, { kind: "empty", out: "\n" }, { kind: "exit", code: 1, err: "npm ERR! E401\n", says: false }, { kind: "exit", code: 1, err: "", says: true }, { kind: "killed", says: false }, { kind: "killed", says: true }, { kind: "absent" }];
		const nets: Net[] = [
			{ kind: "reply", status: 201, statusText: "Created", text: "{}", echo: false },
			{ kind: "reply", status: 204, statusText: "No Content", text: "", echo: false },
			{ kind: "reply", status: 302, statusText: "Found", text: "", echo: false },
			{ kind: "reply", status: 403, statusText: "Forbidden", text: "", echo: true },
			{ kind: "reply", status: 500, statusText: "", text: "", echo: true },
			{ kind: "reject", text: "ECONNRESET" },
			{ kind: "reject-string", text: "offline" },
		];
		const all: Case[] = [];
		for (const [cred, repo] of [
			["ghp_Zx81Qw4reD9mmPlk3sT0", "own/rep"],
			[null, "own/rep"],
			["", "own/rep"],
			["ghp_Zx81Qw4reD9mmPlk3sT0", null],
			["ghp_Zx81Qw4reD9mmPlk3sT0", ""],
			[null, null],
		])
			for (const npm of npms) for (const net of nets) if ((cred && repo && npm.kind === "ok") || net === nets[0]) all.push({ token: "npm_aB3dE5gH7jK9mN1pQ3sT", cred, repo, npm, net, extraEnv: {} });
		for (const status of [300, 307, 400, 401, 404, 405, 406, 408, 409, 410, 412, 415, 418, 422, 425, 428, 429, 451, 501, 502, 503, 504, 520, 599])
			all.push({ token: "npm_aB3dE5gH7jK9mN1pQ3sT", cred: "ghp_Zx81Qw4reD9mmPlk3sT0", repo: "own/rep", npm: npmOk, net: { kind: "reply", status, statusText: status % 2 ? "" : "No", text: "", echo: status % 3 === 0 }, extraEnv: {} });
		await check.each("every fault", all, {}, async (k, c) => {
			mark(k, c);
			await play(k);
		});
		await check.prop("random faults and secrets", caseArb, { quick: 110, thorough: 4000 }, async (k, c) => {
			mark(k, c);
			await play(k);
		});
	},
);
