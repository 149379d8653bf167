// A document: elements, selectors, events, and a log of every text that is put before the reader.
const VOID = new Set(["meta", "link", "br", "img", "input", "hr"]);
const camel = s => s.replace(/-(.)/g, (_, c) => c.toUpperCase());

export function makeDom(log) {
  class Node {
    constructor() { this.parentNode = null; this.childNodes = []; this.listeners = {}; }
    get parentElement() { return this.parentNode; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === document.documentElement; }
    appendChild(c) { if (c.parentNode) c.remove(); c.parentNode = this; this.childNodes.push(c); if (c.text !== undefined) log.text(this, c.text); return c; }
    append(...cs) { for (let c of cs) this.appendChild(typeof c === "string" ? new TextNode(c) : c); }
    prepend(...cs) { for (let c of cs.reverse()) this.insertBefore(typeof c === "string" ? new TextNode(c) : c, this.childNodes[0]); }
    insertBefore(c, b) { this.appendChild(c); if (b) { this.childNodes.pop(); this.childNodes.splice(this.childNodes.indexOf(b), 0, c); } return c; }
    removeChild(c) { let i = this.childNodes.indexOf(c); if (i < 0) throw new Error("NotFoundError"); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
    replaceChildren(...cs) { for (let c of [...this.childNodes]) this.removeChild(c); this.append(...cs); }
    remove() { this.parentNode?.removeChild(this); }
    contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes.at(-1) ?? null; }
    addEventListener(t, f) { (this.listeners[t] ||= []).push(f); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
    dispatchEvent(e) {
      e.target ??= this;
      let stop = false;
      e.stopPropagation = () => { stop = true; };
      e.preventDefault ??= () => {};
      for (let n = this; n && !stop; n = n.parentNode) {
        e.currentTarget = n;
        for (let f of [...(n.listeners[e.type] || [])]) typeof f === "function" ? f.call(n, e) : f.handleEvent(e);
        if (typeof n["on" + e.type] === "function") n["on" + e.type](e);
      }
      return true;
    }
    get textContent() { return this.text ?? this.childNodes.map(c => c.textContent).join(""); }
    set textContent(s) { this.childNodes = []; if (s !== null && s !== undefined) this.childNodes = [Object.assign(new TextNode(String(s)), { parentNode: this })]; log.text(this, s); }
  }
  class TextNode extends Node { constructor(t) { super(); this.text = t; this.nodeType = 3; } get data() { return this.text; } }
  class Element extends Node {
    constructor(tag) {
      super();
      this.nodeType = 1;
      this.tagName = tag.toUpperCase();
      this.attributes = {};
      this.style = new Proxy({}, { get: (t, k) => (k in t ? t[k] : typeof k === "string" && /Property$/.test(k) ? () => "" : "") });
      this.disabled = false;
      this.checked = false;
      this.value = "";
      let self = this;
      this.classList = {
        list: () => (self.attributes.class || "").split(/\s+/).filter(Boolean),
        set(l) { self.attributes.class = [...new Set(l)].join(" "); },
        add(...c) { let had = this.list(); this.set([...had, ...c]); for (let x of c) if (!had.includes(x)) log.cls(self, x); },
        remove(...c) { this.set(this.list().filter(x => !c.includes(x))); },
        toggle(c, force) { let on = force ?? !this.contains(c); on ? this.add(c) : this.remove(c); return on; },
        contains(c) { return this.list().includes(c); },
        replace(a, b) { this.remove(a); this.add(b); },
        get length() { return this.list().length; },
        [Symbol.iterator]() { return this.list()[Symbol.iterator](); }
      };
      this.dataset = new Proxy({}, {
        get: (_, k) => self.attributes["data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase())],
        set: (_, k, v) => { self.attributes["data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase())] = String(v); return true; },
        deleteProperty: (_, k) => delete self.attributes["data-" + k],
        has: (_, k) => "data-" + String(k).replace(/[A-Z]/g, c => "-" + c.toLowerCase()) in self.attributes,
        ownKeys: () => Object.keys(self.attributes).filter(k => k.startsWith("data-")).map(k => camel(k.slice(5))),
        getOwnPropertyDescriptor: (_, k) => ({ configurable: true, enumerable: true })
      });
    }
    get nodeName() { return this.tagName; }
    get id() { return this.attributes.id ?? ""; }
    set id(v) { this.attributes.id = v; }
    get className() { return this.attributes.class ?? ""; }
    set className(v) { this.attributes.class = v; for (let c of this.classList.list()) log.cls(this, c); }
    get title() { return this.attributes.title ?? ""; }
    set title(v) { this.attributes.title = v; }
    get hidden() { return "hidden" in this.attributes; }
    set hidden(v) { v ? (this.attributes.hidden = "") : delete this.attributes.hidden; }
    get children() { return this.childNodes.filter(c => c.nodeType === 1); }
    get firstElementChild() { return this.children[0] ?? null; }
    getAttribute(k) { return this.attributes[k] ?? null; }
    setAttribute(k, v) { this.attributes[k] = String(v); if (k === "disabled") this.disabled = true; }
    removeAttribute(k) { delete this.attributes[k]; if (k === "disabled") this.disabled = false; }
    hasAttribute(k) { return k in this.attributes; }
    toggleAttribute(k, f) { (f ?? !this.hasAttribute(k)) ? this.setAttribute(k, "") : this.removeAttribute(k); }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    get innerHTML() { return this.textContent; }
    set innerHTML(s) { this.textContent = s; }
    insertAdjacentHTML(_, s) { this.append(String(s)); }
    insertAdjacentElement(_, e) { this.appendChild(e); }
    getBoundingClientRect() { return { x: 0, y: 0, top: 0, left: 0, right: 0, bottom: 0, width: 0, height: 0 }; }
    click() { if (!this.disabled) this.dispatchEvent({ type: "click" }); }
    focus() {}
    blur() {}
    *walk() { for (let c of this.children) { yield c; yield* c.walk(); } }
    matches(sel) { return sel.split(",").some(s => matches(this, s.trim())); }
    closest(sel) { for (let n = this; n; n = n.parentNode) if (n.matches?.(sel)) return n; return null; }
    querySelectorAll(sel) { return [...this.walk()].filter(e => e.matches(sel)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
    getElementsByClassName(c) { return [...this.walk()].filter(e => e.classList.contains(c)); }
    getElementsByTagName(t) { return [...this.walk()].filter(e => e.tagName === t.toUpperCase()); }
  }
  function simple(e, s) {
    let rest = s;
    while (rest) {
      let m;
      if ((m = /^\*/.exec(rest))) ;
      else if ((m = /^([a-zA-Z][\w-]*)/.exec(rest))) { if (e.tagName !== m[1].toUpperCase()) return false; }
      else if ((m = /^#([\w-]+)/.exec(rest))) { if (e.id !== m[1]) return false; }
      else if ((m = /^\.([\w-]+)/.exec(rest))) { if (!e.classList.contains(m[1])) return false; }
      else if ((m = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/.exec(rest))) { if (m[2] === undefined ? !e.hasAttribute(m[1]) : e.getAttribute(m[1]) !== m[2]) return false; }
      else if ((m = /^:[\w-]+(\([^)]*\))?/.exec(rest))) ;
      else throw new Error(`selector ${s}`);
      rest = rest.slice(m[0].length);
    }
    return true;
  }
  function matches(e, sel) {
    let parts = sel.split(/\s*>\s*|\s+/);
    if (!simple(e, parts.pop())) return false;
    for (let n = e.parentNode; parts.length; ) {
      let p = parts.pop();
      while (n && !(n.classList && simple(n, p))) n = n.parentNode;
      if (!n) return false;
      n = n.parentNode;
    }
    return true;
  }
  const document = new Node();
  Object.assign(document, {
    createElement: t => new Element(t), createElementNS: (_, t) => new Element(t), createTextNode: t => new TextNode(t), createDocumentFragment: () => new Element("fragment"),
    documentElement: new Element("html"), head: new Element("head"), body: new Element("body"), readyState: "complete", activeElement: null, cookie: ""
  });
  document.documentElement.appendChild(document.head);
  document.documentElement.appendChild(document.body);
  let root = document.documentElement;
  document.documentElement.parentNode = null;
  document.getElementById = id => [...root.walk()].find(e => e.id === id) ?? null;
  for (let k of ["querySelector", "querySelectorAll", "getElementsByClassName", "getElementsByTagName"]) document[k] = a => root[k](a);

  function parse(html) {
    let body = html.slice(html.indexOf("<body"));
    let stack = [document.body];
    for (let m of body.matchAll(/<!--[^]*?-->|<script[^]*?<\/script>|<style[^]*?<\/style>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|([^<]+)/g)) {
      if (m[5] !== undefined) { let t = new TextNode(m[5]); t.parentNode = stack.at(-1); stack.at(-1).childNodes.push(t); continue; }
      if (!m[2]) continue;
      let tag = m[2].toLowerCase();
      if (tag === "body" || tag === "html") continue;
      if (m[1]) {
        let i = stack.findLastIndex(e => e.tagName === tag.toUpperCase());
        if (i > 0) stack.length = i;
        continue;
      }
      let e = new Element(tag);
      for (let a of m[3].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attributes[a[1]] = a[2] ?? a[3] ?? a[4] ?? "";
      e.disabled = "disabled" in e.attributes;
      e.checked = "checked" in e.attributes;
      e.parentNode = stack.at(-1);
      stack.at(-1).childNodes.push(e);
      if (!VOID.has(tag) && !m[4]) stack.push(e);
    }
  }
  return { document, Element, Node, parse };
}
