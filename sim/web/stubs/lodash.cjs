// The part of lodash a page may use, with its semantics.
const get = f => (typeof f === "function" ? f : f === undefined ? x => x : x => x[f]);
const isEqual = (a, b) => {
  if (Object.is(a, b)) return true;
  if (typeof a !== "object" || typeof b !== "object" || a === null || b === null) return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  let ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && isEqual(a[k], b[k]));
};
const uniqBy = (xs, f) => {
  let seen = new Set(), g = get(f);
  return (xs || []).filter(x => !seen.has(g(x)) && seen.add(g(x)));
};
const sortBy = (xs, ...fs) => {
  let gs = fs.flat().map(get);
  if (!gs.length) gs = [x => x];
  return (xs || []).map((x, i) => [x, i]).sort(([a, i], [b, j]) => {
    for (let g of gs) {
      let p = g(a), q = g(b);
      if (p < q) return -1;
      if (p > q) return 1;
    }
    return i - j;
  }).map(([x]) => x);
};
const values = xs => (Array.isArray(xs) ? xs : Object.values(xs || {}));
const plain = x => x !== null && typeof x === "object" && !Array.isArray(x);
const merge = (o, ...xs) => { for (let x of xs) for (let k in x) if (x[k] !== undefined) o[k] = plain(x[k]) && plain(o[k]) ? merge(o[k], x[k]) : plain(x[k]) ? merge({}, x[k]) : x[k]; return o; };
const debounce = (f, ms = 0) => { let t, g = (...a) => { clearTimeout(t); t = setTimeout(() => f(...a), ms); }; g.cancel = () => clearTimeout(t); g.flush = () => {}; return g; };
const _ = {
  merge, debounce, throttle: debounce, once: f => { let d = false, v; return (...a) => (d ? v : ((d = true), (v = f(...a)))); }, memoize: f => { let c = new Map(); return x => { if (!c.has(x)) c.set(x, f(x)); return c.get(x); }; },
  assign: Object.assign, extend: Object.assign, defaults: (o, ...xs) => { for (let x of xs) for (let k in x) if (o[k] === undefined) o[k] = x[k]; return o; },
  countBy: (xs, f) => { let o = {}; for (let x of values(xs)) { let k = get(f)(x); o[k] = (o[k] || 0) + 1; } return o; }, size: x => x?.length ?? x?.size ?? Object.keys(x || {}).length,
  isUndefined: x => x === undefined, isNull: x => x === null, isBoolean: x => typeof x === "boolean", isObject: x => x !== null && /object|function/.test(typeof x), isPlainObject: plain,
  get: (o, p, d) => { for (let k of Array.isArray(p) ? p : String(p).split(/[.[\]]+/).filter(Boolean)) o = o?.[k]; return o === undefined ? d : o; }, toString: x => (x == null ? "" : String(x)),
  reduce: (xs, f, i) => values(xs).reduce(f, i), sortedUniq: xs => [...new Set(xs)], chunk: (xs, n = 1) => Array.from({ length: Math.ceil(xs.length / n) }, (_, i) => xs.slice(i * n, i * n + n)), without: (xs, ...ys) => xs.filter(x => !ys.includes(x)), reject: (xs, f) => values(xs).filter(x => !get(f)(x)),
  upperFirst: s => s.charAt(0).toUpperCase() + s.slice(1), capitalize: s => s.charAt(0).toUpperCase() + s.slice(1).toLowerCase(), repeat: (s, n) => s.repeat(n), trim: s => s.trim(), zipObject: (a, b) => Object.fromEntries(a.map((k, i) => [k, b[i]])),
  isEqual, uniqBy, sortBy,
  uniq: xs => [...new Set(xs)],
  uniqWith: (xs, f) => xs.filter((x, i) => xs.findIndex(y => f(y, x)) === i),
  orderBy: (xs, f, o) => { let r = sortBy(xs, f); return (Array.isArray(o) ? o[0] : o) === "desc" ? r.reverse() : r; },
  last: xs => (xs && xs.length ? xs[xs.length - 1] : undefined),
  first: xs => (xs ? xs[0] : undefined),
  head: xs => (xs ? xs[0] : undefined),
  partition: (xs, f) => { let a = [], b = []; for (let x of values(xs)) (get(f)(x) ? a : b).push(x); return [a, b]; },
  escapeRegExp: s => String(s).replace(/[\\^$.*+?()[\]{}|]/g, "\\$&"),
  groupBy: (xs, f) => { let o = {}; for (let x of values(xs)) (o[get(f)(x)] ||= []).push(x); return o; },
  keyBy: (xs, f) => Object.fromEntries(values(xs).map(x => [get(f)(x), x])),
  mapValues: (o, f) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, get(f)(v, k)])),
  map: (xs, f) => values(xs).map(get(f)), filter: (xs, f) => values(xs).filter(get(f)), flatMap: (xs, f) => values(xs).flatMap(get(f)),
  forEach: (xs, f) => values(xs).forEach(f), some: (xs, f) => values(xs).some(get(f)), every: (xs, f) => values(xs).every(get(f)),
  find: (xs, f) => values(xs).find(get(f)), includes: (xs, x) => values(xs).includes(x),
  flatten: xs => xs.flat(), flattenDeep: xs => xs.flat(Infinity), compact: xs => xs.filter(Boolean), concat: (...xs) => [].concat(...xs),
  max: xs => xs.length ? xs.reduce((a, b) => (b > a ? b : a)) : undefined, min: xs => xs.length ? xs.reduce((a, b) => (b < a ? b : a)) : undefined,
  maxBy: (xs, f) => xs.length ? xs.reduce((a, b) => (get(f)(b) > get(f)(a) ? b : a)) : undefined,
  minBy: (xs, f) => xs.length ? xs.reduce((a, b) => (get(f)(b) < get(f)(a) ? b : a)) : undefined,
  sum: xs => xs.reduce((a, b) => a + b, 0), sumBy: (xs, f) => xs.reduce((a, b) => a + get(f)(b), 0),
  range: (a, b) => { if (b === undefined) { b = a; a = 0; } return Array.from({ length: Math.max(0, b - a) }, (_, i) => a + i); },
  times: (n, f) => Array.from({ length: n }, (_, i) => f(i)), zip: (...xs) => Array.from({ length: Math.max(0, ...xs.map(x => x.length)) }, (_, i) => xs.map(x => x[i])),
  cloneDeep: x => (x === undefined ? x : JSON.parse(JSON.stringify(x))), clone: x => (Array.isArray(x) ? [...x] : typeof x === "object" && x ? { ...x } : x),
  pick: (o, ...ks) => Object.fromEntries(ks.flat().filter(k => k in o).map(k => [k, o[k]])),
  omit: (o, ...ks) => Object.fromEntries(Object.entries(o).filter(([k]) => !ks.flat().includes(k))),
  isEmpty: x => !x || (x.length ?? x.size ?? Object.keys(x).length) === 0, isNil: x => x === null || x === undefined,
  isArray: Array.isArray, isString: x => typeof x === "string", isNumber: x => typeof x === "number", isFunction: x => typeof x === "function",
  identity: x => x, noop: () => {}, clamp: (x, a, b) => Math.min(Math.max(x, a), b), has: (o, k) => o != null && Object.prototype.hasOwnProperty.call(o, k),
  reverse: xs => xs.reverse(), take: (xs, n = 1) => xs.slice(0, n), drop: (xs, n = 1) => xs.slice(n), initial: xs => xs.slice(0, -1), tail: xs => xs.slice(1),
  difference: (xs, ...ys) => xs.filter(x => !ys.flat().includes(x)), union: (...xs) => [...new Set(xs.flat())], intersection: (a, b) => a.filter(x => b.includes(x)),
  keys: o => Object.keys(o || {}), values: o => Object.values(o || {}), entries: o => Object.entries(o || {}), toPairs: o => Object.entries(o || {}), fromPairs: Object.fromEntries
};
module.exports = Object.assign(function (x) { return x; }, _);
module.exports.default = module.exports;
