// @codemirror/state: documents, transactions, fields, facets, compartments and range sets, with the semantics of the library.
import { moduleWith, anything } from "./permissive.js";

export class Text {
  constructor(s) { this.s = s; this.ls = s.split("\n"); }
  static of(lines) { return new Text(lines.join("\n")); }
  static get empty() { return new Text(""); }
  get length() { return this.s.length; }
  get lines() { return this.ls.length; }
  line(n) {
    if (!Number.isInteger(n) || n < 1 || n > this.ls.length) throw new RangeError(`Invalid line number ${n} in ${this.ls.length}-line document`);
    let from = 0;
    for (let i = 0; i < n - 1; i++) from += this.ls[i].length + 1;
    let text = this.ls[n - 1];
    return { from, to: from + text.length, number: n, text, length: text.length };
  }
  lineAt(pos) {
    if (!(pos >= 0 && pos <= this.length)) throw new RangeError(`Invalid position ${pos} in document of length ${this.length}`);
    let n = 1, from = 0;
    while (pos > from + this.ls[n - 1].length) from += this.ls[n++ - 1].length + 1;
    return this.line(n);
  }
  sliceString(a, b = this.length, sep) { let r = this.s.slice(Math.max(0, a), b); return sep ? r.split("\n").join(sep) : r; }
  slice(a, b) { return new Text(this.sliceString(a, b)); }
  iterLines(a = 1, b = this.ls.length + 1) { return this.ls.slice(a - 1, b - 1)[Symbol.iterator](); }
  *iter() { yield* [this.s]; }
  eq(o) { return this.s === o.s; }
  toString() { return this.s; }
  toJSON() { return this.ls.slice(); }
}

export class ChangeSet {
  constructor(parts, length) { this.parts = parts; this.length = length; this.newLength = length + parts.reduce((n, p) => n + p.insert.length - (p.to - p.from), 0); }
  static of(changes, length) {
    let parts = [];
    let add = c => {
      if (!c) return;
      if (Array.isArray(c)) return c.forEach(add);
      if (c instanceof ChangeSet) return c.parts.forEach(add);
      let to = c.to ?? c.from;
      if (!(0 <= c.from && c.from <= to && to <= length)) throw new RangeError(`Invalid change range ${c.from} to ${to} (in doc of length ${length})`);
      parts.push({ from: c.from, to, insert: String(c.insert ?? "") });
    };
    add(changes);
    return new ChangeSet(parts.sort((a, b) => a.from - b.from).filter(p => p.to > p.from || p.insert), length);
  }
  static empty(length) { return new ChangeSet([], length); }
  get empty() { return this.parts.length === 0; }
  get desc() { return this; }
  apply(doc) {
    let out = "", at = 0;
    for (let p of this.parts) { out += doc.s.slice(at, p.from) + p.insert; at = p.to; }
    return new Text(out + doc.s.slice(at));
  }
  mapPos(pos, assoc = -1, track = 0) {
    let d = 0;
    for (let p of this.parts) {
      if (pos < p.from || (pos === p.from && assoc < 0 && p.to === p.from)) break;
      if (pos === p.from && p.to > p.from && assoc < 0) break;
      if (pos < p.to || (pos === p.to && p.to > p.from && assoc < 0)) {
        if (track && pos > p.from && pos < p.to) return null;
        return assoc < 0 ? p.from + d : p.from + d + p.insert.length;
      }
      d += p.insert.length - (p.to - p.from);
    }
    return pos + d;
  }
  iterChanges(f) { let d = 0; for (let p of this.parts) { f(p.from, p.to, p.from + d, p.from + d + p.insert.length, new Text(p.insert)); d += p.insert.length - (p.to - p.from); } }
  touchesRange(a, b = a) { return this.parts.some(p => p.from <= b && p.to >= a); }
}
export const MapMode = { Simple: 0, TrackDel: 1, TrackBefore: 2, TrackAfter: 3 };

export class Range {
  constructor(from, to, value) { this.from = from; this.to = to; this.value = value; }
  static create(from, to, value) { return new Range(from, to, value); }
}
export class RangeValue {
  get startSide() { return 0; }
  get endSide() { return 0; }
  eq(o) { return this === o; }
  range(from, to = from) { return new Range(from, to, this); }
}
RangeValue.prototype.mapMode = 1;
const order = (a, b) => a.from - b.from || a.value.startSide - b.value.startSide;
export class RangeSet {
  constructor(ranges) { this.ranges = ranges; }
  static of(ranges, sort = false) {
    if (ranges instanceof Range) ranges = [ranges];
    ranges = [...ranges];
    if (sort) ranges.sort(order);
    for (let i = 1; i < ranges.length; i++)
      if (order(ranges[i - 1], ranges[i]) > 0) throw new Error("Ranges must be added sorted by `from` position and `startSide`");
    return ranges.length ? new RangeSet(ranges) : RangeSet.empty;
  }
  static join(sets) { return RangeSet.of(sets.flatMap(s => s.ranges), true); }
  get size() { return this.ranges.length; }
  map(changes) {
    if (changes.empty || !this.ranges.length) return this;
    let out = [];
    for (let { from, to, value } of this.ranges) {
      let a = changes.mapPos(from, value.startSide < 0 ? -1 : 1, value.mapMode), b = from === to ? a : changes.mapPos(to, value.endSide < 0 ? -1 : 1);
      if (a === null || b === null || (from < to && a >= b)) continue;
      out.push(new Range(a, Math.max(a, b), value));
    }
    return RangeSet.of(out, true);
  }
  update({ add = [], sort = false, filter, filterFrom = 0, filterTo = Infinity } = {}) {
    let kept = filter ? this.ranges.filter(r => r.to < filterFrom || r.from > filterTo || filter(r.from, r.to, r.value)) : this.ranges;
    RangeSet.of(add, sort);
    return RangeSet.of([...kept, ...add], true);
  }
  between(from, to, f) { for (let r of this.ranges) if (r.from <= to && r.to >= from && f(r.from, r.to, r.value) === false) return; }
  iter(at = 0) {
    let rs = this.ranges.filter(r => r.to >= at), i = -1;
    let c = { value: null, from: 0, to: 0, next() { i++; let r = rs[i]; c.value = r ? r.value : null; c.from = r ? r.from : 1e9; c.to = r ? r.to : 1e9; } };
    c.next();
    return c;
  }
}
RangeSet.empty = new RangeSet([]);
export class RangeSetBuilder {
  constructor() { this.rs = []; }
  add(from, to, value) { this.rs.push(new Range(from, to, value)); }
  finish() { return RangeSet.of(this.rs); }
}

export class StateEffectType {
  constructor(map) { this.map = map; }
  of(value) { return new StateEffect(this, value); }
}
export class StateEffect {
  constructor(type, value) { this.type = type; this.value = value; }
  static define(spec = {}) { return new StateEffectType(spec.map); }
  is(type) { return this.type === type; }
  map(c) { let f = this.type.map; return f ? new StateEffect(this.type, f(this.value, c)) : this; }
}
StateEffect.reconfigure = StateEffect.define();
StateEffect.appendConfig = StateEffect.define();
const compartmentEffect = StateEffect.define();
export class Compartment {
  of(ext) { return { compartment: this, ext }; }
  reconfigure(ext) { return compartmentEffect.of({ compartment: this, ext }); }
  get(state) { return state.compartments.get(this); }
}
export class AnnotationType { of(value) { return { type: this, value }; } }
export const Annotation = { define: () => new AnnotationType() };
export const Transaction = { time: Annotation.define(), userEvent: Annotation.define(), addToHistory: Annotation.define(), remote: Annotation.define() };

export class Facet {
  constructor(spec) { this.spec = spec; }
  static define(spec = {}) { return new Facet(spec); }
  of(value) { return { facet: this, get: () => value }; }
  from(field, get = x => x) { return { facet: this, get: state => get(state.field(field)) }; }
  compute(_, get) { return { facet: this, get }; }
  computeN(_, get) { return { facet: this, get, many: true }; }
}
export class StateField {
  constructor(spec) { this.spec = spec; }
  static define(spec) { return new StateField(spec); }
  init(create) { return { field: this, create }; }
  get extension() { return this; }
}
export const Prec = new Proxy({}, { get: () => e => e });

function flatten(ext, compartments, out) {
  if (ext === null || ext === undefined || ext === anything || typeof ext === "function" || typeof ext === "boolean") return;
  if (Array.isArray(ext)) return ext.forEach(e => flatten(e, compartments, out));
  if (ext.compartment) {
    if (!compartments.has(ext.compartment)) compartments.set(ext.compartment, ext.ext);
    return flatten(compartments.get(ext.compartment), compartments, out);
  }
  if (ext instanceof StateField || ext.field instanceof StateField) {
    let f = ext.field ?? ext;
    if (out.fields.some(x => x.field === f)) return;
    out.fields.push({ field: f, create: ext.create });
    if (f.spec.provide) flatten(f.spec.provide(f), compartments, out);
    return;
  }
  if (ext.facet) { out.facets.push(ext); return; }
  if (ext.plugin) { if (!out.plugins.includes(ext)) out.plugins.push(ext); flatten(ext.provided, compartments, out); return; }
  if (ext.extension && ext.extension !== ext) flatten(ext.extension, compartments, out);
}
export class EditorState {
  static create({ doc = "", extensions = [], selection } = {}) {
    let s = new EditorState();
    s.doc = doc instanceof Text ? doc : new Text(String(doc));
    s.extensions = extensions;
    s.compartments = new Map();
    s.values = new Map();
    s.selection = selection;
    s.configure();
    return s;
  }
  configure() {
    this.config = { fields: [], facets: [], plugins: [] };
    flatten(this.extensions, this.compartments, this.config);
    for (let { field, create } of this.config.fields) if (!this.values.has(field)) this.values.set(field, (create ?? field.spec.create)(this));
  }
  field(f, required = true) {
    if (!this.values.has(f)) { if (!required) return undefined; throw new RangeError("Field is not present in this state"); }
    return this.values.get(f);
  }
  facet(f) {
    let vs = this.config.facets.filter(x => x.facet === f).flatMap(x => (x.many ? x.get(this) : [x.get(this)]));
    return f.spec.combine ? f.spec.combine(vs) : vs;
  }
  get readOnly() { return this.facet(EditorState.readOnly); }
  get lineBreak() { return "\n"; }
  sliceDoc(a = 0, b = this.doc.length) { return this.doc.sliceString(a, b); }
  toText(s) { return new Text(s); }
  changes(c) { return ChangeSet.of(c, this.doc.length); }
  update(...specs) {
    specs = specs.flat();
    let all = specs.map(s => s.changes).filter(Boolean);
    let list = x => (x === undefined ? [] : Array.isArray(x) ? x : [x]);
    let tr = {
      startState: this, changes: ChangeSet.of(all, this.doc.length), effects: specs.flatMap(s => list(s.effects)), selection: specs.map(s => s.selection).find(Boolean),
      annotations: specs.flatMap(s => [...list(s.annotations), ...(s.userEvent ? [Transaction.userEvent.of(s.userEvent)] : [])]),
      annotation(t) { return this.annotations.find(a => a.type === t)?.value; },
      isUserEvent(e) { let u = this.annotation(Transaction.userEvent); return !!u && (u === e || u.startsWith(e + ".")); }
    };
    tr.docChanged = !tr.changes.empty;
    tr.newDoc = tr.changes.apply(this.doc);
    for (let ext of this.facet(EditorState.transactionExtender)) {
      let more = ext(tr);
      if (more) { tr.effects = tr.effects.concat(list(more.effects)); tr.annotations = tr.annotations.concat(list(more.annotations)); }
    }
    tr.reconfigured = tr.effects.some(e => e.is(compartmentEffect) || e.is(StateEffect.reconfigure) || e.is(StateEffect.appendConfig));
    let next = new EditorState();
    Object.assign(next, { doc: tr.newDoc, extensions: this.extensions, compartments: new Map(this.compartments), values: new Map(this.values), config: this.config, selection: tr.selection ?? this.selection });
    tr.state = next;
    for (let { field } of this.config.fields) next.values.set(field, field.spec.update(next.values.get(field), tr));
    if (tr.reconfigured) {
      for (let e of tr.effects) {
        if (e.is(compartmentEffect)) next.compartments.set(e.value.compartment, e.value.ext);
        if (e.is(StateEffect.reconfigure)) next.extensions = e.value;
        if (e.is(StateEffect.appendConfig)) next.extensions = [next.extensions, e.value];
      }
      next.configure();
    }
    return tr;
  }
}
const any = vs => vs.some(Boolean);
EditorState.readOnly = Facet.define({ combine: any });
EditorState.allowMultipleSelections = Facet.define({ combine: any });
EditorState.tabSize = Facet.define({ combine: vs => vs[0] ?? 4 });
EditorState.transactionExtender = Facet.define();
EditorState.transactionFilter = Facet.define();
EditorState.changeFilter = Facet.define();
EditorState.languageData = Facet.define();
EditorState.lineSeparator = Facet.define();
EditorState.phrases = Facet.define();
