// The analysis server as the front end meets it: its answers are a pure function of code and operation, unless a fault is
// injected; and what an editor has to show for them.
export class Rng {
  constructor(seed) {
    let h = 0x9e3779b9 ^ 0;
    this.s = [0, 0, 0, 1];
    for (let i = 0; i < 3; i++) { for (let c of `${seed}/${i}`) h = Math.imul(h ^ c.charCodeAt(0), 0x85ebca6b), (h ^= h >>> 13); this.s[i] = h | 0; }
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    let [a, b, c, d] = this.s;
    let t = (a + b + d) | 0;
    this.s = [b ^ (b >>> 9), (c + (c << 3)) | 0, (((c << 21) | (c >>> 11)) + t) | 0, (d + 1) | 0];
    return t >>> 0;
  }
  below(n) { return Math.floor((this.u32() / 4294967296) * n); }
  chance(a, b) { return this.below(b) < a; }
  pick(xs) { return xs[this.below(xs.length)]; }
  real() { return this.u32() / 4294967296; }
}
const lc = (code, pos) => { let before = code.slice(0, pos).split("\n"); return { line: before.length - 1, column: before.at(-1).length }; };
const range = (code, a, b) => ({ start: lc(code, a), end: lc(code, b), filename: 0 });
export const hash = s => { let h = 2166136261; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619); return (h >>> 0).toString(36); };

// -> { stdout, stderr, success, show: positions, tokens }
export function analyse(code, op, shouldFail = false) {
  let what = `${op}${op === "interpreter" && shouldFail ? "!" : ""}|${code}`, r = new Rng(what), id = hash(what), n = code.length;
  let stderr = r.chance(1, 2) ? `warning: unused [${id}]` : "";
  if (n < 6 || r.chance(1, 12)) {
    return { success: false, stdout: "", stderr: r.chance(1, 6) ? "" : `error: cannot analyse [${id}]` };
  }
  let distinct = k => { let s = new Set(); while (s.size < Math.min(k, n)) s.add(r.below(n + 1)); return [...s].sort((a, b) => (r.chance(1, 2) ? a - b : b - a)); };
  let err = i => (r.chance(1, 2) ? { type: "AnalysisError", msg: `unsupported feature [${id}e${i}]` } : { type: "BuildError", range: null });
  if (op === "interpreter") {
    if (r.chance(1, 8)) { let e = err(0); return { success: true, stdout: JSON.stringify({ Err: e }), stderr, errors: [e] }; }
    let ends = distinct(2 + r.below(6));
    let steps = ends.map((p, i) => ({
      stack: { frames: [{ name: `main_${id}_${i}`, body_span: range(code, 0, n), location: range(code, Math.min(p, r.below(p + 1)), p), locals: [{ name: `x_${id}`, value: { type: "Int", value: i }, moved_paths: [] }] }] },
      heap: { locations: [] }
    }));
    let result = r.chance(1, 3) ? { type: "Error", value: { type: "PointerUseAfterFree", value: { alloc_id: 1 } } } : { type: "Success" };
    return { success: true, stdout: JSON.stringify({ Ok: { steps, result } }), stderr, errors: [], markers: ends.map(p => `widget@${p}`).sort(), token: id, starts: steps.map(s => s.stack.frames[0].location.start), ends };
  }
  let bodies = [], errors = [], marks = [], steps = [], bounds = new Set(), drawn = [];
  let nb = r.below(12) === 0 ? 0 : 1 + r.below(3), stepAt = distinct(3 * nb);
  for (let b = 0; b < nb; b++) {
    if (r.chance(1, 8)) { let e = err(b); errors.push(e); bodies.push({ Err: e }); continue; }
    let out = { body_range: range(code, 0, n), boundaries: [], steps: [], loan_points: {}, loan_regions: {}, move_points: {}, move_regions: {} };
    let perm = () => ({ read: r.chance(2, 3), write: r.chance(1, 2), drop: r.chance(1, 3) });
    let regions = { loan: {}, move: {} };
    for (let kind of ["loan", "move"])
      for (let i = 0, last = r.below(4); i < last; i++) {
        let span = () => { let a = r.below(n), z = a + 1 + r.below(n - a); return [a, z]; };
        let k = String(i), [a, z] = span();
        let ranges = Array.from({ length: r.below(3) }, () => (r.chance(1, 5) ? [a, a] : span()));
        regions[kind][k] = [[a, z], ...ranges.filter(([x, y]) => x < y)];
        marks.push(...regions[kind][k]);
        out[`${kind}_points`][k] = range(code, a, z);
        out[`${kind}_regions`][k] = { refiner_point: { type: kind === "loan" ? "Loan" : "Move", value: i }, refined_ranges: ranges.map(([x, y]) => range(code, x, y)) };
      }
    let some = kind => { let ks = Object.keys(regions[kind]); return ks.length && r.chance(1, 2) ? +r.pick(ks) : undefined; };
    let lit = (loan, move) => [...(loan === undefined ? [] : regions.loan[loan]), ...(move === undefined ? [] : regions.move[move])].map(([a, z]) => `${a}-${z}`).sort();
    let change = (v, none) => (v !== undefined && r.chance(1, 2) ? { type: "High", value: v } : v !== undefined ? { type: "None", value: v } : r.chance(1, 3) ? { type: "Low" } : { type: "None", ...(none !== undefined ? { value: none } : {}) });
    let flag = () => r.pick([{ type: "High", value: true }, { type: "Low" }, { type: "None", value: true }, { type: "None", value: false }]);
    for (let p of distinct(3 + r.below(4))) {
      let mv = some("move"), ln = [some("loan"), some("loan"), some("loan")], exp = perm(), act = perm();
      let flow = r.chance(1, 4) ? { kind: { type: "Ok" }, is_violation: r.chance(1, 2), flow_context: range(code, 0, n) } : undefined;
      let data = { type_droppable: true, type_writeable: true, type_copyable: false, is_live: true, path_uninitialized: false, permissions: act };
      ["read", "write", "drop"].forEach((k, i) => { if (ln[i] !== undefined) data[`loan_${k}_refined`] = ln[i]; });
      if (mv !== undefined) data.path_moved = mv;
      if (!bounds.has(p))
        drawn.push({ at: p, rows: [[...["read", "write", "drop"].map((k, i) => exp[k] && { letter: "RWO"[i], name: ["read", "write", "own"][i], missing: !act[k], lit: lit(ln[i], mv) }), flow && { letter: "F", name: "flow", missing: flow.is_violation, lit: [] }].filter(Boolean)] });
      bounds.add(p);
      out.boundaries.push({ hir_id: { owner: b, local_id: p }, location: lc(code, p), expected: exp, actual: act, data, ...(flow ? { expecting_flow: flow } : {}) });
    }
    for (let i = 0; i < 3 && stepAt.length; i++) {
      let p = stepAt.pop(), rows = [], state = [];
      steps.push(p);
      for (let t = 0, last = 1 + r.below(2); t < last; t++) {
        let table = { from: range(code, 0, p), to: range(code, p, p), state: [] };
        for (let j = 0, end = 1 + r.below(3); j < end; j++) {
          let path = r.pick(["", "*", "&"]) + `v_${id}_${t}${j}`, mv = some("move"), ln = [some("loan"), some("loan"), some("loan")], ps = [flag(), flag(), flag()];
          let d = { is_live: change(undefined, 0), type_droppable: { type: "None", value: true }, type_writeable: { type: "None", value: true }, type_copyable: { type: "None", value: false }, path_moved: change(mv), path_uninitialized: change(undefined), loan_read_refined: change(ln[0]), loan_write_refined: change(ln[1]), loan_drop_refined: change(ln[2]), permissions: { read: ps[0], write: ps[1], drop: ps[2] } };
          table.state.push([path, d]);
          rows.push(Object.assign(["R", "W", "O"].map((c, i) => ({ letter: ps[i].type === "None" && !ps[i].value ? "" : c, name: ["read", "write", "own"][i], lit: lit(ln[i], mv) })), { path }));
        }
        state.push(table);
      }
      drawn.push({ at: p, rows, step: true });
      out.steps.push({ location: range(code, r.below(p + 1), p), state });
    }
    bodies.push({ Ok: out });
  }
  return {
    success: true, stdout: JSON.stringify(bodies), stderr, errors, drawn,
    show: cfg => [
      ...marks.map(([a, z]) => `mark@${a}-${z}`),
      ...(String(cfg?.stepper) === "true" ? steps.map(p => `widget@${p}`) : []),
      ...(String(cfg?.boundaries) === "true" ? [...bounds].map(p => `widget@${p}`) : [])
    ].sort()
  };
}
