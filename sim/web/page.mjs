// One run: a page in a browser of which every event, timer and network delivery is decided by the case.
import fs from "node:fs";
import vm from "node:vm";
import { makeDom } from "./dom.mjs";
import { Rng, analyse, hash } from "./model.mjs";

const scripts = {};
const load = name => (scripts[name] ??= new vm.Script(fs.readFileSync(`${process.env.SIM_WEB}/${name}.js`, "utf8"), { filename: `${name}.js` }));
let html;
const settle = () => new Promise(r => setImmediate(r));
const leaves = (x, out = []) => {
  if (typeof x === "string") out.push(x);
  else if (x instanceof Error || (x && typeof x.message === "string" && typeof x.stack === "string")) out.push(x.message);
  else if (x && typeof x === "object") for (let k in x) if (k !== "type") leaves(x[k], out);
  return out;
};
const finds = (x, token, seen = new Set(), depth = 0) => {
  if (typeof x === "string") return x.includes(token);
  if (!x || typeof x !== "object" || seen.has(x) || depth > 40) return false;
  seen.add(x);
  if (x.state?.doc || x.classList) return false; // the editor, the document
  for (let k of Object.keys(x)) if (finds(x[k], token, seen, depth + 1)) return true;
  return false;
};
// what a component draws: its elements, with their texts and handlers, as of their first rendering
const texts = n => (typeof n === "string" ? n : n.children.map(texts).join(""));
function expand(e) {
  if (e === null || e === undefined || typeof e === "boolean") return [];
  if (Array.isArray(e)) return e.flatMap(expand);
  if (typeof e !== "object" || !("props" in e)) return [String(e)];
  if (typeof e.type === "function") return expand(e.type.prototype?.render ? new e.type(e.props).render() : e.type(e.props));
  let kids = expand(e.props.children);
  return typeof e.type === "string" ? [{ type: e.type, props: e.props, children: kids }] : kids;
}
function* inside(ns) { for (let n of ns) if (typeof n !== "string") { yield n; yield* inside(n.children); } }
const ENTER = ["onPointerOver", "onMouseOver", "onPointerEnter", "onMouseEnter"], LEAVE = ["onPointerOut", "onMouseOut", "onPointerLeave", "onMouseLeave"];
const enters = n => ENTER.some(k => n.props[k]);
// the permissions a widget shows, each with the elements around it, outermost first
function letters(container) {
  let out = [], go = (n, above) => {
    if (typeof n === "string") return;
    let path = [...above, n];
    if (enters(n) && ![...inside(n.children)].some(enters) && (path.some(m => m.type === "tr") || /[RWOF]/.test(texts(n)))) out.push(path);
    else n.children.forEach(c => go(c, path));
  };
  expand(container.reactElement).forEach(n => go(n, []));
  return out;
}
let rejections = null;
process.on("unhandledRejection", e => rejections?.push(e));

export class Page {
  constructor(c) {
    this.c = c;
    this.now = 1_000_000;
    this.timers = new Map();
    this.nextTimer = 1;
    this.requests = []; // every request ever sent
    this.reports = []; // everything put before the user: { at, via, text }
    this.version = 0; // of the document
    this.violations = [];
    this.trace = [];
    this.faults = {};
    this.counts = { requests: 0, results: 0, errors: 0, stale: 0, edits: 0, edits_under_request: 0 };
    this.t = 0;
  }
  violate(prop, cls, msg) {
    if (!this.violations.some(v => v.prop === prop && v.cls === cls)) this.violations.push({ prop, cls, msg, at: this.trace.length });
  }
  report(via, text, el) { this.reports.push({ t: this.t, via, text: String(text ?? ""), el }); }

  async start() {
    let c = this.c, page = this, rng = new Rng(`page|${c.seed}`);
    rejections = this.rejections = [];
    let { document, Element, Node, parse } = makeDom({
      text: (el, s) => { let e = el; while (e.parentNode) e = e.parentNode; if (el.isConnected) page.report("dom", s, el); },
      cls: (el, cl) => page.report("class", cl, el)
    });
    this.document = document;
    let box = {
      document, Element, HTMLElement: Element, HTMLDivElement: Element, HTMLInputElement: Element, HTMLButtonElement: Element, Node, URL, URLSearchParams, AbortController, AbortSignal, TextEncoder, TextDecoder, DOMException, Event: class { constructor(t) { this.type = t; } },
      console: { log() {}, debug() {}, info() {}, warn() {}, trace() {}, error: (...a) => page.report("console", leaves(a).join(" ")) },
      alert: s => page.report("alert", s),
      navigator: { clipboard: { writeText: async () => {} }, userAgent: "sim" },
      location: { href: "http://book/index.html", reload() {} },
      setTimeout: (f, ms = 0, ...a) => page.timer(f, ms, a), clearTimeout: id => page.timers.delete(id), setInterval: (f, ms = 0, ...a) => page.timer(f, ms, a, true), clearInterval: id => page.timers.delete(id),
      requestAnimationFrame: f => page.timer(f, 16, [page.now]), cancelAnimationFrame: id => page.timers.delete(id), queueMicrotask,
      performance: { now: () => page.now }, SERVER_URL: "http://127.0.0.1:8008", fetch: (u, i) => page.fetch(u, i), getComputedStyle: () => ({}),
      MutationObserver: class { observe() {} disconnect() {} }, ResizeObserver: class { observe() {} disconnect() {} }, IntersectionObserver: class { observe() {} disconnect() {} },
      __sim: { views: [] }
    };
    let listeners = {};
    box.addEventListener = (t, f) => (listeners[t] ||= []).push(f);
    box.removeEventListener = () => {};
    box.window = box.self = box;
    let ctx = vm.createContext(box);
    box.window = box.globalThis = vm.runInContext("globalThis", ctx);
    box.__random = () => rng.real();
    box.__now = () => page.now;
    vm.runInContext("Math.random = __random; Date.now = __now;", ctx);
    this.box = box;
    this.views = box.__sim.views;
    if (c.page === "standalone") parse((html ??= fs.readFileSync(`${process.env.SIM_WEB}/standalone.html`, "utf8")));
    if (c.page === "embed")
      for (let b of c.blocks) {
        let e = document.createElement("div");
        e.classList.add("aquascope-embed");
        e.dataset.code = JSON.stringify(b.code);
        e.dataset.operations = JSON.stringify(b.operations);
        e.dataset.config = JSON.stringify(b.config);
        e.dataset.annotations = JSON.stringify(b.annotations);
        if (b.given) e.dataset.responses = JSON.stringify(Object.fromEntries(b.operations.map(op => [op, JSON.parse(analyse(b.code, op, !!b.config.shouldFail).stdout || '{"Err":{"type":"BuildError","range":null}}')])));
        if (b.noInteract) e.dataset.noInteract = "true";
        if (b.serverUrl) e.dataset.serverUrl = b.serverUrl;
        document.body.appendChild(e);
      }
    load(c.page).runInContext(ctx);
    if (c.page === "api") {
      let { Editor } = vm.runInContext("__page", ctx);
      let div = document.createElement("div");
      document.body.appendChild(div);
      this.editor = new Editor(div, [], c.code, e => page.report("callback", leaves(e).join(" ")), new URL("http://127.0.0.1:8008"));
    }
    // what the page asks for by itself, it asks with the options it has
    if (c.page === "standalone") {
      let on = x => !!document.getElementById(x)?.checked;
      this.actingCfg = { stepper: on("showSteps"), boundaries: on("showBoundaries") };
      this.actingFail = !on("passesBorrowChecker");
    }
    for (let f of listeners.load || []) this.guard(() => f({ type: "load" }));
    await this.quiet();
    this.actingCfg = this.actingFail = undefined;
    this.docs = this.views.map(v => v.state.doc.toString());
    this.versions = this.views.map(() => 0);
    this.initial = [...this.docs];
    this.undone = this.views.map(() => []);
    if (this.views.length === 0) throw new Error("the page made no editor");
    this.check("start");
    this.drawnRight("start");
    if (c.page === "embed") this.views.forEach((v, i) => this.initialShown(i));
  }
  guard(f) { try { return f(); } catch (e) { this.report("exception", e.message); } }
  timer(f, ms, a, every) { let id = this.nextTimer++; this.timers.set(id, { at: this.now + Math.max(ms, 0), f, a, every: every ? Math.max(ms, 1) : 0 }); return id; }
  async quiet() {
    for (let i = 0; i < 3; i++) await settle();
    for (let e of this.rejections.splice(0)) this.report("rejection", leaves([e]).join(" "));
  }
  // which editor a request is about: the only one, or the one whose button was pressed
  fetch(url, init = {}) {
    let page = this, r = { n: this.requests.length, view: this.acting ?? 0, headers: false, done: false };
    this.requests.push(r);
    this.counts.requests++;
    r.op = new URL(String(url?.url ?? url)).pathname.replace(/^.*\//, "");
    let code;
    try { let b = JSON.parse(init.body); code = b.code; r.config = b.config; } catch { code = undefined; }
    let now = this.views[r.view]?.state.doc.toString();
    if (code !== now) this.violate("E02", "wrong-request", `a request for ${r.op} carries code that is not in the editor: ${JSON.stringify(code)} instead of ${JSON.stringify(now)}`);
    r.code = String(code);
    r.version = this.versions?.[r.view] ?? 0;
    r.cfg = this.actingCfg ?? null;
    r.wantsFail = this.actingFail;
    if (r.wantsFail !== undefined && r.op === "interpreter" && !!r.config?.shouldFail !== r.wantsFail)
      this.violate("E02", "wrong-request", `the request for the interpreter has shouldFail ${JSON.stringify(r.config?.shouldFail)}, chosen was ${r.wantsFail}`);
    r.a = analyse(r.code, r.op, !!r.config?.shouldFail);
    this.startedNow?.push(r);
    return new Promise((ok, no) => {
      r.ok = ok;
      r.no = no;
      init.signal?.addEventListener?.("abort", () => { r.aborted = true; r.done = true; no(init.signal.reason); });
    });
  }
  // outcome of a request; the fault is decided when the head is delivered
  payload(r) {
    let { a, fault } = r, json = JSON.stringify;
    switch (fault) {
      case "http500": return { status: 500, body: `Performing the operation failed: internal problem [${r.n}]`, reason: `internal problem [${r.n}]` };
      case "refused": return { status: 200, body: json({ error: `unable to deserialize [${r.n}]` }), reason: `unable to deserialize [${r.n}]` };
      case "http502": return { status: 502, body: `<html>Bad gateway</html>`, reason: "" };
      case "html200": return { status: 200, body: `<html>Captive portal</html>`, reason: "" };
      case "cut": return { status: 200, body: json({ success: true, stdout: a.stdout, stderr: a.stderr }).slice(0, -9), reason: "" };
      case "garbage": return { status: 200, body: json({ success: true, stdout: (a.stdout || "[{").slice(0, -1), stderr: "" }), reason: "" };
      case "killed": return { status: 200, body: json({ success: false, stdout: "", stderr: "" }), reason: "" };
      case "failed": return { status: 200, body: json({ success: false, stdout: "", stderr: `error: broken [${r.n}]` }), reason: `broken [${r.n}]` };
      default: return { status: 200, body: json({ success: a.success, stdout: a.stdout, stderr: a.stderr }), reason: a.success ? null : a.stderr };
    }
  }
  async deliver(r) {
    if (!r.headers) {
      r.headers = true;
      if (r.fault) this.faults[r.fault] = (this.faults[r.fault] || 0) + 1;
      if (r.fault === "network") { r.done = true; r.no(new this.box.TypeErrorInside("Failed to fetch")); return this.completed(r, { reason: "" }); }
      let p = (r.p = this.payload(r)), page = this;
      let body = new Promise((ok, no) => { r.bodyOk = ok; r.bodyNo = no; });
      body.catch(() => {});
      let inside = vm.runInContext("JSON", this.box);
      r.ok({
        ok: p.status < 300, status: p.status, statusText: p.status === 200 ? "OK" : "Error", url: "", headers: { get: () => (p.body[0] === "<" ? "text/html" : "application/json") },
        json: async () => inside.parse(await body), text: async () => body, clone() { return this; }
      });
      await this.quiet();
      if (r.split) return;
    }
    r.done = true;
    if (r.fault === "torn") { this.faults.torn = (this.faults.torn || 0) + 1; r.bodyNo(new this.box.TypeErrorInside("network error")); return this.completed(r, { reason: "" }); }
    r.bodyOk(r.p.body);
    return this.completed(r, r.p);
  }
  groups(i) {
    let code = this.views[i].state.doc.toString();
    let P = [], I = [[]];
    let p = analyse(code, "permissions"), b = this.c.blocks?.[i];
    let ts = [false, true].map(f => analyse(code, "interpreter", f));
    let combos = [{ stepper: true, boundaries: true }, { stepper: true }, { boundaries: true }, {}];
    if (p.show) P = combos.map(p.show);
    for (let t of ts) I.push(t.markers ?? []);
    if (b?.annotations?.interp && code === this.initial?.[i]) I.push(b.annotations.interp.state_locations.map(q => `widget@${q}`).sort());
    return { P: [[], ...P], I, p, t: ts[b?.config.shouldFail ? 1 : 0] };
  }
  shown(i) {
    return this.views[i].shown().filter(r => r.value.kind !== "line").map(r => (r.value.kind === "mark" ? `mark@${r.from}-${r.to}` : `widget@${r.from}`)).sort();
  }
  // E01
  check(what) {
    this.views.forEach((v, i) => {
      if (v.destroyed) return;
      let have = this.shown(i).join(" "), { P, I } = this.groups(i);
      for (let p of P) for (let m of I) if ([...p, ...m].sort().join(" ") === have) return;
      this.violate("E01", "foreign-decorations", `after ${what}, editor ${i} with code ${JSON.stringify(v.state.doc.toString())} shows ${have || "nothing"}, which no result for this code has`);
    });
  }
  // the widgets of permissions an editor shows, with the letters in them
  perms(i) {
    let v = this.views[i];
    if (v.destroyed) return [];
    return v.painted.filter(p => p.value.widget && p.el?.reactElement).flatMap(p => {
      let all = [...inside(expand(p.el.reactElement))], step = all.some(n => n.type === "tr");
      return step || all.some(enters) ? [{ ...p, step, letters: letters(p.el) }] : []; // not: the marker of a state
    });
  }
  lit() {
    return this.views.flatMap((v, i) => (v.destroyed ? [] : v.painted.filter(p => p.value.kind === "mark" && p.el.classList.contains("show-hidden")).map(p => ({ view: i, at: `${p.from}-${p.to}`, names: ["read", "write", "own", "flow"].filter(c => p.el.classList.contains(c)).join() }))));
  }
  // E03: every permission drawn is one of the result, and the places lit are those of the one pointed at
  drawnRight(what) {
    this.views.forEach((v, i) => {
      let ws = this.perms(i);
      if (!ws.length) return;
      let code = v.state.doc.toString(), a = analyse(code, "permissions");
      for (let w of ws) {
        let d = (a.drawn || []).find(d => d.at === w.from && !!d.step === w.step), name = `after ${what}, the ${w.step ? "step" : "boundary"} at ${w.from} of editor ${i}`;
        if (!d) continue; // E01
        let have = w.letters.map(path => {
          let row = path.findLast(n => n.type === "tr"), text = texts(path.at(-1)), letter = /[RWOF]/.exec(text)?.[0] ?? "";
          return w.step ? `${row ? texts(row).match(/[*&]?v_[a-z0-9]+_\d+/)?.[0] : "?"}:${letter}` : `${letter}${[path.at(-1), ...inside([path.at(-1)])].some(n => String(n.props.className).split(" ").includes("missing")) ? "!" : ""}`;
        });
        let want = w.step ? d.rows.flatMap(r => r.map(l => `${r.path}:${l.letter}`)) : d.rows[0].map(l => `${l.letter}${l.missing ? "!" : ""}`);
        if (have.length !== want.length || [...have].sort().join(" ") !== [...want].sort().join(" ")) this.violate("E03", "other-permissions", `${name} shows ${have.join(" ") || "nothing"} instead of ${want.join(" ")}`);
      }
    });
    let lit = this.lit();
    if (!this.pointed) { if (lit.length) this.violate("E03", "stays-lit", `after ${what}, nothing is pointed at, and ${lit.map(l => l.at).join(" ")} of editor ${lit[0].view} are highlighted`); return; }
    let { view, el, want, name } = this.pointed;
    if (!this.views[view].painted.some(p => p.el === el)) { if (lit.length) this.violate("E03", "stays-lit", `after ${what}, the permission pointed at is gone, and ${lit.map(l => l.at).join(" ")} are highlighted`); return; }
    let have = lit.map(l => (l.view === view && l.names === name ? l.at : `${l.at} of editor ${l.view} as ${l.names}`)).sort();
    if (have.join(" ") !== want.join(" ")) this.violate("E03", "other-places", `after ${what}, a ${name} permission of editor ${view} is pointed at, whose places are ${want.join(" ") || "none"}; highlighted are ${have.join(" ") || "none"}`);
  }
  async leave() {
    let p = this.pointed;
    this.pointed = null;
    if (!p || !this.views[p.view].painted.some(q => q.el === p.el)) return;
    for (let n of [...p.path].reverse()) for (let k of LEAVE) if (n.props[k]) this.guard(() => n.props[k]({ target: p.el, currentTarget: p.el }));
    await this.quiet();
  }
  async point(op) {
    await this.leave();
    this.drawnRight("leaving");
    let ws = this.perms(op.view);
    if (!ws.length) return;
    let w = ws[op.widget % ws.length], code = this.views[op.view].state.doc.toString();
    let d = (analyse(code, "permissions").drawn || []).find(d => d.at === w.from && !!d.step === w.step);
    if (!d || !w.letters.length) return;
    let k = op.letter % w.letters.length, path = w.letters[k], l;
    if (w.step) {
      let tr = path.findLast(n => n.type === "tr"), at = tr && texts(tr).match(/[*&]?v_[a-z0-9]+_\d+/)?.[0], same = w.letters.filter(q => q.includes(tr));
      l = d.rows.find(r => r.path === at)?.[same.indexOf(path)];
    } else l = d.rows[0].find(l => texts(path.at(-1)).includes(l.letter));
    if (!l) return; // drawnRight has said so
    this.counts.pointed = (this.counts.pointed || 0) + 1;
    if (l.lit.length) this.counts.highlighted = (this.counts.highlighted || 0) + 1;
    for (let n of path) for (let e of ENTER) if (n.props[e]) this.guard(() => n.props[e]({ target: w.el, currentTarget: w.el }));
    this.pointed = { view: op.view, el: w.el, want: l.lit, name: l.name, path };
  }
  initialShown(i) {
    let b = this.c.blocks[i];
    if (!b.given) return;
    let { p, t } = this.groups(i), want = [];
    if (b.operations.includes("permissions") && p.show) want.push(...p.show(b.config));
    if (b.operations.includes("interpreter") && t.markers) want.push(...(b.annotations.interp?.state_locations.length ? b.annotations.interp.state_locations.map(q => `widget@${q}`) : t.markers));
    let have = this.shown(i);
    if (want.sort().join(" ") !== have.join(" ")) this.violate("E02", "not-shown", `block ${i} was loaded with results, but shows ${have.join(" ") || "nothing"} instead of ${want.join(" ")}`);
  }
  via(r) { return { standalone: ["dom", "alert"], embed: ["dom", "alert", "console", "rejection"], api: ["callback", "settled"] }[this.c.page]; }
  // E02, once everything a completed request causes has happened
  async completed(r, p) {
    let t = ++this.t;
    await this.quiet();
    let view = this.views[r.view], same = r.version === this.versions[r.view];
    if (!same) { this.counts.stale++; return; }
    if (r.aborted) return;
    let said = this.reports.filter(x => x.t >= t && this.via(r).includes(x.via) && x.text.trim()), text = said.map(x => x.text).join("\n");
    let name = `request ${r.n} (${r.op}${r.fault ? ", " + r.fault : ""})`;
    if (p.reason !== null) {
      this.counts.errors++;
      if (!said.length) this.violate("E02", "nothing-reported", `${name} failed, and nothing was reported`);
      else if (!text.includes(p.reason)) this.violate("E02", "reason-lost", `${name} failed because of ${JSON.stringify(p.reason)}, reported was ${JSON.stringify(text)}`);
      return;
    }
    this.counts.results++;
    if (r.a.stderr && !text.includes(r.a.stderr)) this.violate("E02", "reason-lost", `${name}: its standard error ${JSON.stringify(r.a.stderr)} was not shown; reported was ${JSON.stringify(text)}`);
    for (let e of r.a.errors || []) {
      if (e.type === "AnalysisError" && !this.reports.some(x => x.t >= t && x.text.includes(e.msg))) this.violate("E02", "reason-lost", `${name} has the error ${JSON.stringify(e)}, which was not reported; reported was ${JSON.stringify(text)}`);
      if (e.type === "BuildError" && this.c.page === "standalone" && !this.reports.some(x => x.t >= t && x.via === "class" && x.el.id === "buildErrorCard") && !this.document.getElementById("buildErrorCard").classList.contains("live"))
        this.violate("E02", "reason-lost", `${name} has a build error, which was not reported`);
    }
    let have = this.shown(r.view), { P, I } = this.groups(r.view);
    let ok;
    if (r.op === "permissions") {
      let want = r.a.show(r.cfg);
      ok = I.some(m => [...want, ...m].sort().join(" ") === have.join(" "));
    } else if (r.a.markers) {
      let wants = [r.a.markers, ...I.slice(3)];
      ok = wants.some(m => P.some(q => [...q, ...m].sort().join(" ") === have.join(" ")));
      let els = [...this.document.documentElement.walk()].map(e => e.reactElement).filter(Boolean);
      if (!els.some(e => finds(e, r.a.token))) this.violate("E02", "not-shown", `${name} has a trace, which the page does not show`);
    } else ok = true;
    if (!ok) this.violate("E02", "not-shown", `${name} has a result, but the editor shows ${have.join(" ") || "nothing"}`);
  }
  buttons() {
    if (this.c.page === "standalone") return ["showPermissions", "showInterpret"].map(id => this.document.getElementById(id));
    if (this.c.page === "embed") return this.document.querySelectorAll("button.fa-refresh");
    return [];
  }
  async click(id) {
    let btn = this.buttons()[id];
    if (!btn) return false;
    if (btn.disabled) return false;
    if (this.c.page === "standalone") {
      let on = x => this.document.getElementById(x).checked;
      this.acting = 0;
      this.actingCfg = { stepper: on("showSteps"), boundaries: on("showBoundaries") };
      this.actingFail = id === 1 ? !on("passesBorrowChecker") : undefined;
    } else {
      let block = btn.closest(".aquascope");
      this.acting = [...this.document.querySelectorAll(".aquascope")].indexOf(block);
      this.actingCfg = this.c.blocks[this.acting].config;
      this.actingFail = !!this.actingCfg?.shouldFail;
    }
    this.startedNow = [];
    this.guard(() => btn.dispatchEvent({ type: "click" }));
    await this.quiet();
    let ops = this.c.page === "standalone" ? [["permissions"], ["interpreter"]][id] : this.c.blocks[this.acting].operations;
    if (this.startedNow.map(r => r.op).sort().join() !== [...ops].sort().join()) this.violate("E02", "nothing-asked", `a press of the button for ${ops} made the requests ${this.startedNow.map(r => r.op)}`);
    this.acting = this.actingCfg = this.actingFail = undefined;
    this.startedNow = null;
    return true;
  }
  async step(op) {
    let v;
    this.trace.push(op);
    switch (op.k) {
      case "edit": {
        v = this.views[op.view];
        if (!v || v.destroyed || v.state.readOnly) return;
        let n = v.state.doc.length, from = Math.min(op.from, n), to = Math.min(Math.max(op.to, from), n), old = v.state.doc.toString();
        if (from === to && !op.insert) return;
        if (op.undo) { let u = this.undone[op.view].pop(); if (u === undefined) return; from = 0; to = n; op = { ...op, insert: u }; } else this.undone[op.view].push(old);
        this.counts.edits++;
        if (this.requests.some(r => !r.done && r.view === op.view)) this.counts.edits_under_request++;
        this.versions[op.view]++;
        this.guard(() => v.dispatch({ changes: { from, to, insert: op.insert }, ...(op.by ? { userEvent: op.by } : {}) }));
        break;
      }
      case "point": await this.point(op); break;
      case "leave": await this.leave(); break;
      case "check": { let e = this.document.getElementById(op.id); if (e) { e.checked = !e.checked; this.guard(() => e.dispatchEvent({ type: "change" })); } break; }
      case "click": await this.click(op.id); break;
      case "call": {
        this.acting = 0;
        this.actingCfg = op.cfg;
        let p = this.guard(() => (op.op === "renderPermissions" ? this.editor.renderPermissions(op.cfg) : this.editor.renderOperation(op.op, op.cfg ? { config: op.cfg } : undefined)));
        Promise.resolve(p).catch(e => this.report("settled", leaves([e]).join(" ") || "rejected"));
        await this.quiet();
        this.acting = this.actingCfg = undefined;
        break;
      }
      case "deliver": {
        let open = this.requests.filter(r => !r.done);
        let r = open.find(r => r.n === op.n);
        if (!r) return;
        if (!r.headers) { r.fault = op.fault; r.split = op.split; }
        await this.deliver(r);
        break;
      }
      case "tick": {
        let end = this.now + op.ms;
        for (let i = 0; i < 100; i++) {
          let next = [...this.timers].filter(([, t]) => t.at <= end).sort((a, b) => a[1].at - b[1].at || a[0] - b[0])[0];
          if (!next) break;
          let [id, t] = next;
          this.now = t.at;
          if (t.every) t.at += t.every; else this.timers.delete(id);
          this.guard(() => t.f(...t.a));
          await this.quiet();
        }
        this.now = end;
      }
    }
    await this.quiet();
    this.check(op.k);
    this.drawnRight(op.k);
    this.shape = hash(`${this.shape}|${op.k}|${op.n ?? op.id ?? op.view ?? ""}|${op.fault ?? ""}|${this.views.map((_, i) => hash(this.shown(i).join())).join()}|${this.reports.length}|${this.pointed ? this.lit().length : ""}`);
  }
  // faults have stopped: what is under way ends, and the page is usable again
  async finish() {
    for (let i = 0; i < 50; i++) {
      let r = this.requests.find(r => !r.done);
      if (!r) break;
      await this.step({ k: "deliver", n: r.n });
    }
    await this.step({ k: "tick", ms: 10_000 });
    if (this.requests.some(r => !r.done)) this.violate("E02", "no-end", "requests go on although every one is answered");
    this.buttons().forEach((b, i) => { if (b.disabled || b.classList.contains("waiting")) this.violate("E02", "stuck-button", `button ${i} stays disabled although every request has ended`); });
  }
}

export async function run(c) {
  let p = new Page(c), boxed = null;
  try {
    let start = p.start.bind(p);
    // errors a browser makes belong to the page's realm
    Object.defineProperty(p, "box", { configurable: true, get: () => boxed, set: b => { boxed = b; b.TypeErrorInside = vm.runInContext("TypeError", b); } });
    await start();
    if (c.ops) for (let op of c.ops) await p.step(op);
    else {
      c.ops = [];
      let r = new Rng(`ops|${c.seed}`);
      for (let i = 0; i < c.length; i++) { let op = next(r, p, c); c.ops.push(op); await p.step(op); }
    }
    await p.finish();
  } finally {
    rejections = null;
  }
  return p;
}

const WORDS = ["let x = 1;", "\n", "v.push(0);", " ", "}", "// note\n", "é", "fn f(s: &str) {}\n", "x", "drop(v);\n"];
const FAULTS = ["network", "http500", "refused", "http502", "html200", "cut", "garbage", "killed", "failed", "torn"];
function next(r, p, c) {
  let open = p.requests.filter(q => !q.done), k = r.below(10);
  let view = r.below(p.views.length);
  if (open.length && k < 4) {
    let q = r.pick(open);
    return { k: "deliver", n: q.n, ...(r.chance(c.faulty, 10) ? { fault: r.pick(FAULTS) } : {}), split: r.chance(1, 3) };
  }
  if (r.chance(c.calm ? 2 : 1, 4)) {
    let shown = p.views.map((_, i) => i).filter(i => p.views[i].painted?.some(q => q.value.widget));
    if (shown.length) return r.chance(1, 5) ? { k: "leave" } : { k: "point", view: r.pick(shown), widget: r.below(8), letter: r.below(12) };
  }
  if (k < 6 && !(c.calm && r.chance(4, 5))) {
    let n = p.views[view].state.doc.length, from = r.below(n + 1), old = p.views[view].state.doc.toString();
    let edit = (from, to, insert, by, undo) => ({ k: "edit", view, from, to, insert, ...(undo ? { undo } : {}), ...(by ? { by } : {}) });
    if (r.chance(1, 8)) return edit(0, n, "x", "undo", true);
    if (r.chance(1, 6)) return edit(n, n, r.pick(WORDS), "input.type");
    if (r.chance(1, 12)) return edit(0, n, r.chance(1, 2) ? "" : r.pick(WORDS), undefined); // by the program
    if (r.chance(1, 8)) { let at = old.search(/[a-z0-9]/); if (at >= 0) return edit(at, at + 1, "q", "input.paste"); } // the length stays
    if (r.chance(1, 3)) { let by = r.chance(1, 2); return edit(from, Math.min(n, from + 1 + r.below(r.chance(1, 3) ? 60 : 8)), by ? "" : r.pick(WORDS), by ? r.pick(["delete.backward", "delete.cut"]) : "input.paste"); }
    return edit(from, from, r.pick(WORDS), r.pick(["input.type", "input.complete", "input.paste", "move.drop", undefined]));
  }
  if (k === 9) return { k: "tick", ms: r.pick([1, 100, 700, 6000]) };
  if (c.page === "api") {
    let cfg = r.chance(1, 8) ? undefined : { stepper: r.pick([true, false, "true", undefined]), boundaries: r.pick([true, false, "true", undefined]) };
    return { k: "call", op: r.pick(["renderPermissions", "renderPermissions", "permissions", "interpreter"]), cfg };
  }
  if (c.page === "standalone" && k === 6) return { k: "check", id: r.pick(["showBoundaries", "showSteps", "passesBorrowChecker"]) };
  return { k: "click", id: r.below(Math.max(1, p.buttons().length)) };
}

const CODES = [
  "fn main() {\n  let mut v = vec![1, 2, 3];\n  let n = &v[0];\n  v.push(0);\n  let x = *n;\n}",
  "fn main() { let s = String::from(\"é\"); let t = s; println!(\"{t}\"); }",
  "fn f(x: &mut i32) {\n  *x += 1;\n}\n\nfn main() {\n  let mut a = 1;\n  f(&mut a);\n}\n",
  "struct P { x: i32 }\nfn main() { let p = P { x: 0 }; }\n", "fn main() {}"
];
export function generate(seed) {
  let r = new Rng(`case|${seed}`);
  let c = { seed, page: r.pick(["standalone", "standalone", "embed", "api"]), length: 4 + r.below(r.chance(1, 4) ? 50 : 20), faulty: r.pick([0, 1, 3, 6]), calm: r.chance(1, 3) };
  let code = () => r.pick(CODES) + "\n// ".repeat(r.below(3)) + (r.chance(1, 2) ? ` // ${r.below(100000)}` : "");
  if (c.page === "api") c.code = code();
  if (c.page === "embed") {
    c.blocks = Array.from({ length: 1 + r.below(3) }, () => {
      let b = { code: code(), operations: r.pick([["permissions"], ["interpreter"], ["permissions", "interpreter"], ["interpreter", "permissions"]]), config: {}, annotations: { hidden_lines: [], boundaries: { focused_lines: [] }, stepper: { focused_lines: [], focused_paths: {} }, interp: { state_locations: [] } }, given: r.chance(3, 4), noInteract: r.chance(1, 6) };
      for (let k of ["stepper", "boundaries", "shouldFail", "horizontal", "concreteTypes"]) if (r.chance(1, 2)) b.config[k] = "true";
      if (r.chance(1, 4)) b.annotations.hidden_lines = [1];
      if (r.chance(1, 4)) b.annotations.boundaries.focused_lines = [1];
      if (r.chance(1, 3)) b.annotations.stepper.focused_lines = [1 + r.below(5)];
      if (r.chance(1, 3)) b.annotations.stepper.focused_paths = { [1 + r.below(4)]: [r.pick([{ type: "Literal", value: "_00" }, { type: "Regex", value: "^[*]" }, { type: "Literal", value: "(*v)" }])] };
      if (r.chance(1, 4)) b.serverUrl = "http://analysis.example:1234";
      let t = analyse(b.code, "interpreter", !!b.config.shouldFail);
      if (t.markers && r.chance(1, 2)) b.annotations.interp.state_locations = [...new Set(t.ends)].slice(0, 2).filter(p => p < b.code.length).map(p => p + 1).sort((x, y) => x - y);
      if (b.annotations.interp.state_locations.some(p => p > b.code.length)) b.annotations.interp.state_locations = [];
      return b;
    });
  }
  return c;
}
