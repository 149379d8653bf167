// @codemirror/view: dispatching, listeners, plugins and decorations. Drawing: an element for every widget and every mark; what
// equals what was drawn at its place (the widget's `eq` says so) keeps its element, as in the library.
import { EditorState, Facet, RangeSet, RangeValue, Range } from "./state.js";

export class WidgetType {
  eq() { return false; }
  updateDOM() { return false; }
  get estimatedHeight() { return -1; }
  get lineBreaks() { return 0; }
  ignoreEvent() { return true; }
  destroy() {}
}
export class Decoration extends RangeValue {
  constructor(kind, spec) { super(); this.kind = kind; this.spec = spec; this.widget = spec.widget; this.side = spec.side ?? 0; }
  get startSide() { return this.kind === "mark" ? (this.spec.inclusiveStart ?? this.spec.inclusive ? -2e8 : 5e8) : this.kind === "line" ? -2e8 - 1 : this.side; }
  get endSide() { return this.kind === "mark" ? (this.spec.inclusiveEnd ?? this.spec.inclusive ? 2e8 : -6e8) : this.startSide; }
  static widget(spec) { return new Decoration("widget", spec); }
  static mark(spec) { return new Decoration("mark", spec); }
  static line(spec) { return new Decoration("line", spec); }
  static replace(spec) { return new Decoration("replace", spec); }
  static set(of, sort = false) { return RangeSet.of(of, sort); }
  range(from, to = from) {
    if (!Number.isInteger(from) || !Number.isInteger(to)) throw new RangeError(`Invalid position ${from}-${to}`);
    if (this.kind === "mark" && from >= to) throw new RangeError("Mark decorations may not be empty");
    if ((this.kind === "line" || this.kind === "widget") && from !== to) throw new RangeError(`${this.kind} decoration ranges must be zero-length`);
    return new Range(from, to, this);
  }
}
Decoration.none = RangeSet.empty;
const any = vs => vs.some(Boolean);
export class EditorView {
  constructor({ state, doc, extensions, parent, dispatch } = {}) {
    this.state = state ?? EditorState.create({ doc, extensions });
    this.updating = false;
    this.destroyed = false;
    this.dom = document.createElement("div");
    this.dom.classList.add("cm-editor");
    this.contentDOM = this.dom;
    if (parent) parent.appendChild(this.dom);
    this.painted = [];
    this.plugins = this.state.config.plugins.map(p => ({ p, value: p.plugin(this) }));
    globalThis.__sim.views.push(this);
    this.draw();
  }
  dispatch(...specs) {
    specs = specs.flat();
    this.update(specs.length && specs[0].startState ? specs : [this.state.update(...specs)]);
  }
  update(trs) {
    if (this.updating) throw new Error("Calls to EditorView.update are not allowed while an update is in progress");
    let startState = this.state;
    let update = { view: this, startState, transactions: trs, state: startState, docChanged: trs.some(t => t.docChanged), changes: trs[0]?.changes, viewportChanged: false, selectionSet: false, focusChanged: false, geometryChanged: false };
    for (let tr of trs) {
      if (tr.startState !== this.state) throw new RangeError("Trying to update state with a transaction that doesn't start from the previous state.");
      this.state = tr.state;
    }
    update.state = this.state;
    if (this.destroyed) return;
    this.updating = true;
    try {
      for (let { value } of this.plugins) value.update?.(update);
      this.draw();
    } finally {
      this.updating = false;
    }
    for (let listener of this.state.facet(EditorView.updateListener)) listener(update);
  }
  setState(state) { this.state = state; this.plugins = state.config.plugins.map(p => ({ p, value: p.plugin(this) })); this.draw(); }
  // every decoration shown
  shown() {
    if (this.destroyed) return [];
    let sets = this.state.facet(EditorView.decorations).map(s => (typeof s === "function" ? s(this) : s));
    for (let { p, value } of this.plugins) if (p.decorations) sets.push(p.decorations(value));
    return sets.flatMap(s => s.ranges);
  }
  draw() {
    let old = this.painted, moved = this.state.doc.toString() !== this.paintedDoc;
    this.painted = [];
    this.paintedDoc = this.state.doc.toString();
    let same = (p, { from, to, value: v }) => {
      if (p.value === v) return moved || (p.from === from && p.to === to);
      if (moved || p.value.kind !== v.kind || p.from !== from || p.to !== to || p.value.side !== v.side) return false;
      if (v.widget) return p.value.widget?.constructor === v.widget.constructor && p.value.widget.eq(v.widget);
      return p.value.spec.tagName === v.spec.tagName && p.value.spec.class === v.spec.class;
    };
    for (let r of this.shown()) {
      let v = r.value;
      if (!v.widget && v.kind !== "mark") continue;
      let i = old.findIndex(p => p.value === v);
      if (i < 0 || !same(old[i], r)) i = old.findIndex(p => same(p, r));
      let el, kept = i >= 0 ? old.splice(i, 1)[0] : null;
      if (kept) el = kept.el;
      else if (v.widget) el = v.widget.toDOM(this);
      else { el = document.createElement(v.spec.tagName ?? "span"); if (v.spec.class) el.className = v.spec.class; }
      if (!kept && el) this.dom.appendChild(el);
      this.painted.push({ from: r.from, to: r.to, value: kept && v.widget ? kept.value : v, el });
    }
    for (let p of old) { p.el?.remove?.(); p.value.widget?.destroy?.(p.el); }
  }
  plugin(p) { return this.plugins.find(x => x.p === p)?.value ?? null; }
  destroy() { this.destroyed = true; this.dom.remove(); for (let { value } of this.plugins) value.destroy?.(); }
  focus() {}
  get hasFocus() { return true; }
  requestMeasure() {}
  coordsAtPos() { return null; }
  posAtDOM() { return 0; }
  get visibleRanges() { return [{ from: 0, to: this.state.doc.length }]; }
  get viewport() { return { from: 0, to: this.state.doc.length }; }
}
EditorView.decorations = Facet.define();
EditorView.updateListener = Facet.define();
EditorView.editable = Facet.define({ combine: vs => vs[0] ?? true });
EditorView.atomicRanges = Facet.define();
EditorView.contentAttributes = Facet.define();
EditorView.editorAttributes = Facet.define();
EditorView.domEventHandlers = () => [];
EditorView.domEventObservers = () => [];
EditorView.theme = () => [];
EditorView.baseTheme = () => [];
EditorView.lineWrapping = [];
EditorView.scrollIntoView = () => undefined;
const plugin = (create, spec = {}) => {
  let p = { plugin: create, decorations: spec.decorations };
  p.provided = spec.provide?.(p);
  p.extension = p;
  return p;
};
export const ViewPlugin = { define: plugin, fromClass: (C, spec) => plugin(v => new C(v), spec) };
