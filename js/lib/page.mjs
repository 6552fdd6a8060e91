// A page of the documentation site without a browser: a stand-in for React (hooks, effects, keyed state), for the site's own modules and for the few
// browser facilities a page uses. Pages are transpiled from the working tree, one file at a time, and hold no state between two `Page`s.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const REPO = process.env.VERIF_REPO ?? "/repo";
const DOCS = path.join(REPO, "docs");
const emitted = new Map();
const emit = (f) => {
  if (!emitted.has(f)) emitted.set(f, ts.transpileModule(fs.readFileSync(f, "utf8"), { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, jsx: ts.JsxEmit.ReactJSX, esModuleInterop: true }, fileName: f }).outputText);
  return emitted.get(f);
};

const Fragment = Symbol("fragment"), same = Object.is;
const differs = (a, b) => !a || !b || a.length !== b.length || a.some((v, i) => !same(v, b[i]));
/// One mounted tree: what it shows now is in `nodes`.
class Root {
  constructor(page) {
    this.page = page; this.cells = new Map(); this.nodes = []; this.due = false; this.renders = 0; this.cur = null; this.contexts = new Map(); this.ids = 0;
    const root = this;
    const slot = (make) => { const i = root.cur.at++; return root.cur.slots[i] ??= make(root.cur); };
    const effect = (f, deps) => { const s = slot(() => ({ effect: true })); if (!s.ran || deps === undefined || differs(deps, s.deps)) { s.ran = true; s.deps = deps; root.after.push(s); s.next = f; } };
    const reducer = (reduce, initial, init) => {
      const s = slot((cell) => {
        const q = { value: init ? init(initial) : initial, queue: [] };
        q.set = (a) => { if (cell.gone) return; q.queue.push(a); root.schedule(); };
        return q;
      });
      while (s.queue.length) s.value = reduce(s.value, s.queue.shift());
      return [s.value, s.set];
    };
    const h = {
      useReducer: reducer,
      useState: (v) => reducer((p, a) => typeof a === "function" ? a(p) : a, undefined, () => typeof v === "function" ? v() : v),
      useRef: (v) => slot(() => ({ current: v })),
      useMemo: (f, deps) => { const s = slot(() => ({})); if (!s.has || deps === undefined || differs(deps, s.deps)) { s.value = f(); s.deps = deps; s.has = true; } return s.value; },
      useCallback: (f, deps) => h.useMemo(() => f, deps),
      useEffect: effect, useLayoutEffect: effect, useInsertionEffect: effect,
      useId: () => slot(() => ({ id: `:r${root.ids++}:` })).id,
      useContext: (c) => root.contexts.has(c) ? root.contexts.get(c) : c.fallback,
      useDebugValue() { }, useImperativeHandle() { },
      useTransition: () => [false, (f) => f()], startTransition: (f) => f(), useDeferredValue: (v) => v,
      useSyncExternalStore: (sub, get) => { const [, poke] = h.useState(0); h.useEffect(() => sub(() => poke((n) => n + 1)), [sub]); return get(); },
      createContext: (fallback) => { const c = { fallback }; c.Provider = (p) => p.children; c.Provider.context = c; c.Consumer = (p) => p.children(h.useContext(c)); return c; },
      createElement: (type, props, ...kids) => { const { key, ...rest } = props ?? {}; return { element: true, type, key: key ?? null, props: kids.length ? { ...rest, children: kids.length === 1 ? kids[0] : kids } : rest }; },
      cloneElement: (e, props, ...kids) => h.createElement(e.type, { ...e.props, key: e.key, ...props }, ...kids),
      isValidElement: (e) => !!e?.element,
      createRef: () => ({ current: null }), lazy: (f) => { let m; const L = (p) => { if (!m) { m = f(); m.then((v) => { m.value = v.default; root.schedule(); }); } return m.value ? h.createElement(m.value, p) : null; }; return L; },
      memo: (f) => f, forwardRef: (f) => (p) => f(p, p.ref ?? null), Fragment, StrictMode: Fragment, Suspense: Fragment,
      Children: { toArray: (c) => [c].flat(9).filter((v) => v !== null && v !== undefined && typeof v !== "boolean"), map: (c, f) => [c].flat(9).map(f), forEach: (c, f) => [c].flat(9).forEach(f), count: (c) => [c].flat(9).length, only: (c) => c },
    };
    h.Component = class { constructor() { throw new Error("the stand-in for React has no class components"); } };
    h.jsx = h.jsxs = h.jsxDEV = (type, props, key) => ({ element: true, type, key: key ?? null, props });
    this.react = h;
  }
  mount(type, props = {}) { this.top = { element: true, type, key: null, props }; this.render(); }
  schedule() { if (this.due) return; this.due = true; queueMicrotask(() => { if (this.due) this.render(); }); }
  render() {
    for (let n = 0; ; n++) {
      if (n > 60) throw new Error("the page renders itself without end");
      this.due = false; this.after = []; this.seen = new Set(); this.renders++;
      const out = []; this.expand(this.top, "", out, null);
      this.nodes = out;
      for (const [k, c] of this.cells) if (!this.seen.has(k)) { c.gone = true; this.cells.delete(k); for (const s of c.slots) if (s?.effect) s.clean?.(); }
      for (const s of this.after) { s.clean?.(); const v = s.next(); s.clean = typeof v === "function" ? v : null; }
      if (!this.due) return;
    }
  }
  expand(e, at, out, parent) {
    if (e === null || e === undefined || typeof e === "boolean") return;
    if (typeof e === "string" || typeof e === "number" || typeof e === "bigint") { out.push({ text: String(e), parent }); return; }
    if (Array.isArray(e)) { e.forEach((v, i) => this.expand(v, `${at}/${v?.key != null ? `k${v.key}` : i}`, out, parent)); return; }
    if (!e.element) throw new Error(`something that cannot be shown: ${typeof e}`);
    const { type, props } = e;
    if (type === Fragment) return this.expand(props.children, `${at}/f`, out, parent);
    if (typeof type === "string") {
      const node = { tag: type, props, parent, kids: [] }; out.push(node);
      if (props.ref) { if (typeof props.ref === "function") props.ref(this.handle(node)); else props.ref.current = this.handle(node); }
      return this.expand(props.children, `${at}/${type}`, node.kids, node);
    }
    if (typeof type !== "function") throw new Error("a component that is no function");
    let id = `${at}/${type.name}`;
    let cell = this.cells.get(id);
    if (cell && cell.type !== type) { cell.gone = true; for (const s of cell.slots) if (s?.effect) s.clean?.(); cell = null; }
    if (!cell) this.cells.set(id, cell = { type, slots: [], at: 0 });
    this.seen.add(id);
    const outer = this.cur; cell.at = 0; this.cur = cell;
    let v; try { v = type(props); } finally { this.cur = outer; }
    if (type.context) { const c = type.context, had = this.contexts.has(c), was = this.contexts.get(c); this.contexts.set(c, props.value); this.expand(v, `${id}/`, out, parent); if (had) this.contexts.set(c, was); else this.contexts.delete(c); return; }
    this.expand(v, `${id}/`, out, parent);
  }
  handle(node) { const page = this.page; return { node, click: () => page.fire(node, "onClick"), value: "", files: [], focus() { }, reset() { } }; }
}

const text = (n) => n.text !== undefined ? n.text : n.tag === "input" || n.tag === "textarea" ? "" : n.kids.map(text).join("");
export class Page {
  /// `o`: the package, `files` served under the site's base, `delay()` for everything asynchronous, `fail(what)` for what does not load, `modules`.
  constructor(o) {
    this.o = o; this.pending = 0; this.downloads = []; this.urls = new Map(); this.wrong = []; this.modules = new Map(); this.calls = [];
    this.root = new Root(this);
    const page = this;
    const track = (v) => { if (v && typeof v.then === "function") { page.pending++; const end = () => { page.pending--; }; v.then(end, end); } return v; };
    this.track = track;
    const later = (f) => { page.pending++; setTimeout(() => { try { f(); } catch (e) { page.wrong.push(`a callback threw: ${e?.message ?? e}`); } page.pending--; }, o.delay()); };
    this.later = later;
    class FileReader {
      result = null; error = null; readyState = 0; on = [];
      addEventListener(t, f) { this.on.push([t, f]); }
      say(t) { const e = { type: t, target: this, currentTarget: this }; this[`on${t}`]?.(e); for (const [k, f] of this.on) if (k === t) f(e); }
      read(b, f) { this.readyState = 1; page.pending++; Blob.prototype.arrayBuffer.call(b).then((v) => { later(() => { this.readyState = 2; if (o.fail("file")) { this.error = new Error("NotReadableError"); this.say("error"); } else { this.result = f(v); this.say("load"); } this.say("loadend"); }); page.pending--; }); }
      readAsArrayBuffer(b) { this.read(b, (v) => v); }
      readAsText(b) { this.read(b, (v) => new TextDecoder().decode(v)); }
      readAsDataURL(b) { this.read(b, (v) => `data:application/octet-stream;base64,${Buffer.from(v).toString("base64")}`); }
      abort() { }
    }
    let nurl = 0;
    class Url extends URL {
      static createObjectURL(b) { const u = `blob:page/${nurl++}`; page.urls.set(u, b); return u; }
      static revokeObjectURL(u) { page.urls.delete(u); }
    }
    const element = (tag) => ({ tag, style: {}, setAttribute(k, v) { this[k] = v; }, appendChild() { }, append() { }, removeChild() { }, remove() { }, addEventListener() { }, dispatchEvent(e) { if (e?.type === "click") this.click(); return true; }, click() { if (tag === "a") { const b = page.urls.get(this.href); if (!b) page.wrong.push("a download of nothing"); else page.downloads.push({ name: this.download, bytes: b.arrayBuffer() }); } } });
    const document = { createElement: element, body: element("body"), head: element("head"), documentElement: element("html"), addEventListener() { }, removeEventListener() { }, getElementById: () => null, querySelector: () => null, querySelectorAll: () => [] };
    const kept = new Map(), storage = { getItem: (k) => kept.get(k) ?? null, setItem: (k, v) => { kept.set(k, String(v)); }, removeItem: (k) => { kept.delete(k); }, clear() { kept.clear(); } };
    const quiet = { log() { }, info() { }, warn() { }, error() { }, debug() { }, trace() { }, group() { }, groupEnd() { }, table() { }, time() { }, timeEnd() { } };
    // What is fetched while `held` is a list arrives when the page is released.
    const get = (u) => (this.held ? (q) => q : track)(new Promise((ok, no) => (this.held ? (f) => this.held.push(f) : later)(() => {
      const p = String(u?.url ?? u), f = p.startsWith(o.base) ? o.files[p.slice(o.base.length)] : undefined, how = o.fail("fetch", p);
      if (how === "down") return no(new TypeError("Failed to fetch"));
      if (f === undefined || how) return ok(new Response("not found", { status: 404 }));
      const r = new Response(f);
      for (const k of ["arrayBuffer", "text", "blob", "bytes", "json"]) { const q = r[k]?.bind(r); if (q) r[k] = () => track(new Promise((y, n) => later(() => q().then(y, n)))); }
      ok(r);
    })));
    this.env = { fetch: get, FileReader, URL: Url, document, console: quiet, localStorage: storage, sessionStorage: storage, navigator: { clipboard: { writeText: async () => { } }, language: "en" }, alert() { }, confirm: () => true, setTimeout: (f, n, ...a) => { page.pending++; return setTimeout(() => { page.pending--; f(...a); }, Math.min(n ?? 0, 30)); }, requestAnimationFrame: (f) => { later(f); return 0; } };
    this.env.window = this.env.self = new Proxy(globalThis, { get: (t, k) => k in page.env ? page.env[k] : k === "location" ? { href: "https://site/", origin: "https://site", pathname: o.base + "/" } : k === "addEventListener" || k === "removeEventListener" ? () => { } : t[k], has: () => true });
    const pass = { __esModule: true, default: (p) => p.children ?? null };
    const fill = (s, v) => typeof s === "string" ? s.replace(/\{(\w+)\}/g, (m, k) => v && k in v ? String(v[k]) : m) : s;
    const words = (c) => [c].flat(9).map((v) => typeof v === "string" || typeof v === "number" ? String(v) : "").join("");
    this.named = {
      react: Object.assign({ __esModule: true, default: this.root.react }, this.root.react),
      "react/jsx-runtime": Object.assign({ __esModule: true }, this.root.react), "react/jsx-dev-runtime": Object.assign({ __esModule: true }, this.root.react),
      "react-dom": { __esModule: true, flushSync: (f) => { f(); page.root.render(); }, createPortal: (c) => c, default: {} },
      "@docusaurus/Translate": { __esModule: true, default: (p) => fill(words(p.children), p.values), translate: (m, v) => fill(m.message ?? m.id, v) },
      "@docusaurus/useBaseUrl": { __esModule: true, default: (u) => o.base + u, useBaseUrlUtils: () => ({ withBaseUrl: (u) => o.base + u }) },
      "@docusaurus/useIsBrowser": { __esModule: true, default: () => true },
      "@docusaurus/BrowserOnly": { __esModule: true, default: (p) => p.children() },
      "@docusaurus/useDocusaurusContext": { __esModule: true, default: () => ({ siteConfig: { title: "t", tagline: "t", baseUrl: o.base + "/", customFields: {} }, i18n: { currentLocale: "en" } }) },
      "@docusaurus/ExecutionEnvironment": { __esModule: true, default: { canUseDOM: true } },
      clsx: { __esModule: true, default: (...a) => a.flat(9).filter((v) => typeof v === "string").join(" ") },
      ...o.modules,
    };
    const names = Object.keys(this.named);
    this.require = (from) => (name) => {
      if (names.includes(name)) return this.named[name];
      if (/\.(css|scss)$/.test(name)) return new Proxy({}, { get: (t, k) => k === "__esModule" ? undefined : String(k) });
      if (/^@(theme|docusaurus)\//.test(name)) return pass;
      const base = name.startsWith("@site/") ? path.join(DOCS, name.slice(6)) : name.startsWith(".") ? path.resolve(path.dirname(from), name) : null;
      if (base) for (const e of ["", ".tsx", ".ts", ".jsx", ".js", ".mjs", "/index.tsx", "/index.ts", "/index.js"]) { const f = base + e; if (fs.existsSync(f) && fs.statSync(f).isFile()) return this.load(f); }
      throw new Error(`the page needs a module this monitor has no stand-in for: ${name}`);
    };
  }
  load(f) {
    if (this.modules.has(f)) return this.modules.get(f).exports;
    const m = { exports: {} }; this.modules.set(f, m);
    if (f.endsWith(".json")) { m.exports = JSON.parse(fs.readFileSync(f, "utf8")); return m.exports; }
    const k = Object.keys(this.env);
    new Function("require", "module", "exports", ...k, emit(f))(this.require(f), m, m.exports, ...k.map((n) => this.env[n]));
    return m.exports;
  }
  async open(file) { this.root.mount(this.load(path.join(DOCS, file)).default); await this.settle(); return this; }
  all(f, list = this.root.nodes, out = []) { for (const n of list) { if (n.tag) { if (f(n)) out.push(n); this.all(f, n.kids, out); } } return out; }
  text() { return this.root.nodes.map(text).join(""); }
  buttons(re) { return this.all((n) => n.tag === "button" && re.test(text(n))); }
  files(accept) { return this.all((n) => n.tag === "input" && n.props.type === "file" && n.props.accept === accept); }
  areas() { return this.all((n) => n.tag === "textarea"); }
  boxes() { return this.all((n) => n.tag === "input" && n.props.type === "checkbox"); }
  cells() { return this.all((n) => n.tag === "input" && n.props.type === "text"); }
  shown() { return this.all((n) => n.tag === "pre").map(text); }
  errors() { return this.all((n) => /(^| )error( |$)/.test(n.props.className ?? "") || n.props.role === "alert").map(text); }
  fire(node, what, target = {}) {
    const f = node.props[what];
    if (!f) return;
    const t = { value: "", checked: false, files: [], ...node.props, ...target };
    try { this.track(f({ type: what.slice(2).toLowerCase(), target: t, currentTarget: t, preventDefault() { }, stopPropagation() { }, persist() { } })); } catch (e) { this.wrong.push(`${what} threw: ${e?.message ?? e}`); }
  }
  /// false: there is no such control, or it is disabled
  click(node) { if (!node || node.props.disabled) return false; this.fire(node, "onClick"); return true; }
  type(node, value) { if (!node || node.props.disabled || node.props.readOnly) return false; this.fire(node, "onChange", { value: node.props.maxLength ? value.slice(0, node.props.maxLength) : value }); return true; }
  tick(node, on) { if (!node || node.props.disabled) return false; if (!!node.props.checked !== on) this.fire(node, "onChange", { checked: on }); return true; }
  upload(node, name, bytes) { if (!node || node.props.disabled) return false; const f = new File([bytes], name), page = this; for (const k of ["arrayBuffer", "text", "bytes"]) { const q = f[k]?.bind(f); if (q) f[k] = () => page.track(new Promise((ok, no) => page.later(() => page.o.fail("file") ? no(new Error("NotReadableError")) : q().then(ok, no)))); } this.fire(node, "onChange", { files: Object.assign([f], { item: (i) => i ? null : f }), value: `C:\\fakepath\\${name}` }); return true; }
  release() { const h = this.held ?? []; this.held = null; for (const f of h) this.later(f); }
  busy() { return /🔄/u.test(this.text()); }
  /// Until nothing is under way; false when the page says so itself for good.
  async settle() {
    const end = Date.now() + 30000;
    for (let still = 0; still < 3;) {
      await new Promise((r) => setImmediate(r));
      still = this.pending === 0 && !this.root.due ? still + 1 : 0;
      if (Date.now() > end) throw new Error("the page never comes to rest");
    }
    for (let i = 0; i < 20 && this.busy(); i++) await new Promise((r) => setTimeout(r, 5));
    return !this.busy();
  }
}
