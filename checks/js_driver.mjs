// Runs the JavaScript client on commands from the check: a JSON array on each line, each answered by a line
// The network and the page are stand-ins, every request waits until the check says how it ends
import fs from "node:fs";
import path from "node:path";
import {pathToFileURL} from "node:url";

const [, , source, scratch] = process.argv;
fs.mkdirSync(path.join(scratch, "node_modules/node-fetch"), {recursive: true});
fs.copyFileSync(source, path.join(scratch, "bomba.mjs"));
fs.writeFileSync(path.join(scratch, "node_modules/node-fetch/package.json"), '{"name": "node-fetch", "version": "3.0.0", "type": "module", "exports": "./index.js"}');
fs.writeFileSync(path.join(scratch, "node_modules/node-fetch/index.js"), 'export default (...args) => globalThis.nodeFetchStandIn(...args);');

let pending = [], events = [], api, types, calls = 0, elements = [], shown, settled = 0;
const describeError = (error) => typeof error === "string" ? error : String(error?.message ?? error);
const note = (...event) => { settled++; events.push(event); };
const fakeFetch = (where) => (url, extra) => new Promise((resolve, reject) => {
	const headers = {};
	new Headers(extra?.headers ?? {}).forEach((value, key) => headers[key] = value);
	events.push(["fetch", pending.length, where, String(url), extra?.method ?? "GET", headers["content-type"] ?? "", typeof extra?.body === "string" ? extra.body : extra?.body === undefined ? "" : "?"]);
	pending.push([resolve, reject]);
});
delete globalThis.fetch;
globalThis.nodeFetchStandIn = fakeFetch("node");
process.on("unhandledRejection", (error) => { note("unhandled", describeError(error)); });

// A page
class Text { constructor(data) { this.data = String(data); } }
class Fragment { constructor() { this.children = []; } appendChild(child) { this.children.push(child); return child; } append(...added) { this.children.push(...added); } }
class Element {
	constructor(tag) {
		if (!/^[a-z][a-z0-9]*$/i.test(tag)) throw new Error("InvalidCharacterError: not a tag " + JSON.stringify(tag));
		this.localName = tag.toLowerCase();
		this.children = [];
		this.attributes = {};
		this.value = "";
		this.checked = false;
		this.listeners = [];
		this.style = {};
		this.dataset = {};
		elements.push(this);
	}
	get tagName() { return this.localName.toUpperCase(); }
	get nodeName() { return this.tagName; }
	get parentNode() { return this.parent ?? null; }
	get parentElement() { return this.parent ?? null; }
	get firstChild() { return this.children[0] ?? null; }
	get lastChild() { return this.children.at(-1) ?? null; }
	get firstElementChild() { return this.firstChild; }
	get lastElementChild() { return this.lastChild; }
	get childElementCount() { return this.children.length; }
	get childNodes() { return this.children; }
	insertBefore(child, before) {
		if (child instanceof Text) { this.text = (this.text ?? "") + child.data; return child; }
		if (child instanceof Fragment) { for (const it of child.children.splice(0)) this.insertBefore(it instanceof Element ? it : new Text(it?.data ?? it), before); return child; }
		if (!(child instanceof Element)) throw new TypeError("not an element is appended");
		child.remove();
		const place = before ? this.children.indexOf(before) : this.children.length;
		if (place < 0) throw new Error("NotFoundError");
		child.parent = this;
		this.children.splice(place, 0, child);
		return child;
	}
	appendChild(child) { return this.insertBefore(child, null); }
	append(...added) { for (const it of added) this.insertBefore(typeof it === "object" ? it : new Text(it), null); }
	prepend(...added) { const first = this.firstChild; for (const it of added) this.insertBefore(typeof it === "object" ? it : new Text(it), first); }
	insertAdjacentElement(where, child) {
		if (where === "beforeend") return this.insertBefore(child, null);
		if (where === "afterbegin") return this.insertBefore(child, this.firstChild);
		throw new Error("place " + where + " is not supported");
	}
	insertAdjacentText(where, text) { this.append(String(text)); }
	replaceChildren(...added) { this.textContent = ""; this.append(...added); }
	removeChild(child) { if (child.parent !== this) throw new Error("NotFoundError"); child.remove(); return child; }
	remove() { if (this.parent) this.parent.children.splice(this.parent.children.indexOf(this), 1); this.parent = undefined; }
	hasChildNodes() { return this.children.length > 0 || Boolean(this.text); }
	setAttribute(name, value) { this.attributes[name] = String(value); if (name === "value") this.value = String(value); if (name === "checked") this.checked = true; }
	getAttribute(name) { return this.attributes[name] ?? null; }
	hasAttribute(name) { return name in this.attributes; }
	removeAttribute(name) { delete this.attributes[name]; }
	toggleAttribute(name) { if (name in this.attributes) delete this.attributes[name]; else this.attributes[name] = ""; }
	addEventListener(name, callback) { this.listeners.push([name, callback]); }
	removeEventListener(name, callback) { this.listeners = this.listeners.filter(it => it[0] !== name || it[1] !== callback); }
	get type() { return this.attributes.type ?? ""; }
	set type(value) { this.attributes.type = String(value); }
	get className() { return this.attributes.class ?? ""; }
	set className(value) { this.attributes.class = String(value); }
	get classList() {
		const names = () => this.className.split(" ").filter(it => it);
		return {add: (...added) => this.className = [...new Set([...names(), ...added])].join(" "), remove: (...gone) => this.className = names().filter(it => !gone.includes(it)).join(" "),
			contains: (name) => names().includes(name), toggle: (name) => this.className = (names().includes(name) ? names().filter(it => it !== name) : [...names(), name]).join(" ")};
	}
	get valueAsNumber() { return this.type === "number" && this.value.trim() !== "" ? Number(this.value) : NaN; }
	set valueAsNumber(value) { this.value = String(value); }
	get textContent() { return (this.text ?? "") + this.children.map(it => it.textContent).join(""); }
	set textContent(value) { for (const it of this.children) it.parent = undefined; this.children = []; this.text = value === null ? "" : String(value); }
	set innerText(value) { this.textContent = value; }
	get innerText() { return this.textContent; }
	get innerHTML() { return this.textContent; }
	set innerHTML(value) { if (/[<&]/.test(value)) throw new Error("markup is inserted from " + value); this.textContent = value; }
	async click() {
		const event = {type: "click", target: this, currentTarget: this, preventDefault() {}, stopPropagation() {}};
		if (this.onclick) await this.onclick(event);
		for (const [name, callback] of this.listeners) if (name === "click") await callback.call(this, event);
	}
}
const page = (element) => ({tag: element.localName, text: element.text ?? "", type: element.type, id: elements.indexOf(element), children: element.children.map(page)});

// Values are described by arrays
const value = (spec) => {
	switch (spec[0]) {
	case "number": return spec[1];
	case "string": return spec[1];
	case "boolean": return spec[1];
	case "array": return spec.slice(1).map(value);
	case "object": { const made = {}; for (const [key, it] of spec.slice(1)) own(made, key, value(it)); return made; }
	case "instance": { // Members set one by one
		const made = new (type(spec[1]));
		for (const [key, it] of spec.slice(2)) own(made, key, value(it));
		return made;
	}
	case "made": return new (type(spec[1]))(...spec.slice(2).map(([key, it]) => value(it))); // Members given to the constructor
	case "null": return null;
	case "undefined": return undefined;
	case "bigint": return 5n;
	case "function": return () => 5;
	case "symbol": return Symbol("a");
	case "date": return new Date(0);
	default: throw new Error("unknown value " + spec[0]);
	}
};
const own = (object, key, value) => Object.defineProperty(object, key, {value, writable: true, enumerable: true, configurable: true});
const has = (object, key) => Object.prototype.hasOwnProperty.call(object, key);
const type = (name) => { if (!has(types, name)) throw new Error("no type " + name); return types[name]; };
const tree = (object, prefix, out, depth) => { // What the user can see in the API
	for (const key of Object.getOwnPropertyNames(object)) {
		const it = object[key];
		if (it === undefined) { out.push([prefix + key, "undefined"]); continue; }
		if (typeof it === "function" && key === "gui" && (it.gui === undefined)) continue; // Maker of GUI
		if (typeof it === "function") out.push([prefix + key, "method"]);
		else if (typeof it === "object" && it !== null && depth < 8) { out.push([prefix + key, "object"]); tree(it, prefix + key + ".", out, depth + 1); }
		else out.push([prefix + key, typeof it]);
	}
	return out;
};
const find = (parts) => {
	let at = api;
	for (const part of parts) {
		if (!has(at, part)) throw new Error("no " + part);
		at = at[part];
	}
	return at;
};
let loads = 0;
const commands = {
	async load(mode, where) {
		pending = []; calls = 0; elements = []; shown = undefined; api = types = undefined;
		if (mode === "browser") { globalThis.window = {}; globalThis.fetch = fakeFetch("browser"); globalThis.document = {createElement: (tag) => new Element(tag), createTextNode: (text) => new Text(text), createDocumentFragment: () => new Fragment()}; }
		else { delete globalThis.window; delete globalThis.fetch; delete globalThis.document; }
		const module = await import(pathToFileURL(path.join(scratch, "bomba.mjs")).href);
		const loading = where === null ? module.loadApi() : module.loadApi(where);
		const current = ++loads;
		loading.then(([loadedApi, loadedTypes, name]) => {
			if (current !== loads) return;
			api = loadedApi;
			types = loadedTypes;
			note("loaded", tree(api, "", [], 0), Object.getOwnPropertyNames(types), String(name));
		}, (error) => note("load failed", describeError(error)));
	},
	call(parts, args) {
		const index = calls++;
		let result;
		const prepared = args.map(value);
		try {
			let method = find(parts);
			result = method(...prepared);
			if (typeof result?.then !== "function") return note("not a promise", index);
		} catch (error) {
			return note("threw", index, describeError(error));
		}
		result.then((result) => note("result", index, result === undefined ? "undefined" : JSON.stringify(result)), (error) => note("error", index, describeError(error)));
	},
	toJson(spec) { note("json", JSON.stringify(value(spec).toJson())); },
	answer(index, status, text) { pending[index][0](new Response(text, {status, headers: {"Content-Type": "application/json"}})); },
	fail(index) { pending[index][1](new TypeError("fetch failed")); },
	gui(parts) {
		try {
			shown = find(parts).gui();
			note("gui", page(shown));
		} catch (error) {
			note("no gui", describeError(error));
		}
	},
	show(id) { note("gui", page(elements[id])); },
	fill(id, what) { if (typeof what === "boolean") elements[id].checked = what; else elements[id].value = what; note("filled"); },
	click(id) { elements[id].click().then(() => note("clicked"), (error) => note("click failed", describeError(error))); }
};
const turn = () => new Promise(resolve => setImmediate(resolve));
async function obey(line) {
	const [command, ...args] = JSON.parse(line);
	events = [];
	settled = 0;
	try {
		await commands[command](...args);
	} catch (error) {
		events.push(["driver", String(error?.stack ?? error)]);
	}
	const began = Date.now(); // Something has to happen after any command
	while (settled === 0 && (events.length === 0 || command === "answer" || command === "fail") && Date.now() - began < 1500) await turn();
	await turn();
	await turn();
	fs.writeSync(1, JSON.stringify(events) + "\n");
}
let input = Buffer.alloc(0);
await import(pathToFileURL(path.join(scratch, "node_modules/node-fetch/index.js")).href);
for await (const chunk of process.stdin) {
	input = Buffer.concat([input, chunk]);
	for (let end = input.indexOf(10); end >= 0; end = input.indexOf(10)) {
		const line = input.subarray(0, end).toString();
		input = input.subarray(end + 1);
		await obey(line);
	}
}
process.exit(0);
