// sim.mjs check E01|E02|E03 : seeded search.   sim.mjs replay FILE : one execution, exactly.   (sim.mjs work ...: a worker)
import { fork } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { hash } from "./model.mjs";
import { generate, run } from "./page.mjs";

const self = fileURLToPath(import.meta.url), verif = path.resolve(path.dirname(self), "../..");
const [, , cmd, arg, ...rest] = process.argv;
const key = p => hash(JSON.stringify([p.shape, p.reports.map(r => [r.t, r.via, r.text]), p.requests.map(r => [r.op, r.code, r.config])]));
const mine = (p, prop) => p.violations.filter(v => v.prop === prop);
const clone = x => JSON.parse(JSON.stringify(x));
const known = (() => { try { return JSON.parse(fs.readFileSync(`${verif}/known-findings.json`, "utf8")).findings; } catch { return []; } })();
const listed = (prop, v) => known.find(k => k.property === prop && k.class === v.cls && k.contains.every(s => v.msg.includes(s)));

async function minimise(prop, c, cls) {
  let fails = async d => { try { return mine(await run(clone(d)), prop).some(v => v.cls === cls); } catch { return false; } };
  let best = clone(c), tries = 0;
  for (let n = Math.max(1, best.ops.length >> 1); n >= 1; n = n > 1 ? n >> 1 : 0)
    for (let i = 0; i + n <= best.ops.length && tries < 600; ) {
      let d = clone(best);
      d.ops.splice(i, n);
      tries++;
      if (await fails(d)) best = d; else i += n;
    }
  for (let i = 0; i < best.ops.length; i++)
    for (let k of ["fault", "split"]) if (best.ops[i][k]) { let d = clone(best); delete d.ops[i][k]; if (await fails(d)) best = d; }
  return best;
}

if (cmd === "work") {
  let [from, to, step, deadline] = rest.map(Number), out = { runs: 0, repeated: 0, diverged: 0, seen: new Set(), nontrivial: new Set(), pages: {}, faults: {}, counts: {}, simulated_ms: 0, events: 0, choices: 0, samples: [], found: [], other: {}, known: 0 };
  let bad = 0;
  for (let s = from; s < to && Date.now() < deadline; s += step) {
    let c = generate(s), p;
    try { p = await run(c); } catch (e) { console.error(`error: run ${s}: ${e.stack}`); process.exit(2); }
    out.runs++;
    let h = key(p);
    if (out.runs % 25 === 0) { out.repeated++; if (key(await run(clone(c))) !== h) out.diverged++; }
    out.seen.add(h);
    if (p.counts.edits_under_request || Object.keys(p.faults).length) out.nontrivial.add(h);
    out.pages[c.page] = (out.pages[c.page] || 0) + 1;
    for (let k in p.faults) out.faults[k] = (out.faults[k] || 0) + p.faults[k];
    for (let k in p.counts) out.counts[k] = (out.counts[k] || 0) + p.counts[k];
    out.simulated_ms += p.now - 1_000_000;
    out.events += p.trace.length;
    if (out.samples.length < 1 && p.counts.edits_under_request && p.trace.length < 14) out.samples.push({ seed: s, case: c, execution: h });
    for (let v of p.violations) {
      if (v.prop !== arg) { out.other[`${v.prop}:${v.cls}`] = (out.other[`${v.prop}:${v.cls}`] || 0) + 1; continue; }
      if (listed(arg, v)) { out.known++; continue; }
      if (!out.found.length) {
        let again = mine(await run(clone(c)), arg).some(w => w.cls === v.cls);
        if (!again) { bad++; continue; }
        let m = await minimise(arg, c, v.cls), q = await run(clone(m)), w = mine(q, arg).find(x => x.cls === v.cls);
        out.found.push({ property: arg, seed: s, class: v.cls, message: w.msg, events: m.ops.length, case: m, execution: key(q) });
      }
    }
    if (out.found.length) break;
  }
  out.unreproduced = bad;
  process.send({ ...out, seen: [...out.seen], nontrivial: [...out.nontrivial] }, () => process.exit(0));
} else if (cmd === "replay") {
  let f = JSON.parse(fs.readFileSync(arg, "utf8"));
  let p = await run(clone(f.case));
  for (let op of p.trace) console.log(JSON.stringify(op));
  for (let v of mine(p, f.property)) console.log(`${f.property} [${v.cls}] ${v.msg}`);
  let same = key(p) === f.execution;
  console.log(same ? "the execution is the recorded one" : "the execution differs from the recorded one");
  if (mine(p, f.property).some(v => v.cls === f.class)) { console.log(`VIOLATION property=${f.property} replay=${arg}`); process.exit(1); }
  process.exit(same ? 0 : 2);
} else if (cmd === "check") {
  let t0 = Date.now(), tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick", seed = Number(process.env.VERIF_SEED || 1);
  let n = tier === "quick" ? 12_000 : 1_200_000, limit = tier === "quick" ? 240_000 : 1_500_000;
  let workers = Math.max(2, Math.min(8, os.availableParallelism())), base = (seed >>> 0) * 10_000_000;
  let results = await Promise.all(Array.from({ length: workers }, (_, i) => new Promise(ok => {
    let w = fork(self, ["work", arg, base + i, base + n, workers, t0 + limit]), r = null;
    w.on("message", m => (r = m));
    w.on("exit", code => ok(r ?? { failed: code ?? 2 }));
  })));
  if (results.some(r => r.failed !== undefined)) { console.error("error: a worker failed"); process.exit(2); }
  let add = (k, into = {}) => { for (let r of results) for (let x in r[k]) into[x] = (into[x] || 0) + r[k][x]; return into; };
  let sum = k => results.reduce((a, r) => a + r[k], 0), distinct = k => new Set(results.flatMap(r => r[k])).size;
  let found = results.flatMap(r => r.found).sort((a, b) => a.events - b.events), wall = (Date.now() - t0) / 1000, runs = sum("runs");
  let faults = add("faults"), counts = add("counts");
  fs.mkdirSync(`${verif}/evidence`, { recursive: true });
  fs.writeFileSync(`${verif}/evidence/${arg}.json`, JSON.stringify({
    property: arg, tier, seed, level: "exploration", wall_s: wall, violations: found.length,
    assumptions: ["analyses are a pure function of the code and the operation", "of React components the first rendering is evaluated (texts, handlers); the layout of the page is not; an editor shows the decorations its fields provide"],
    coverage: {
      evaluations: runs, distinct_nontrivial: distinct("nontrivial"), distinct_interleavings: distinct("seen"),
      rule: "seed -> page (playground, embedded blocks, or the Editor class), code, options, annotations; then one event after another: edits, undo, presses of buttons and check boxes, calls, timers, and which pending response is delivered, how far, and with what fault; non-trivial: an edit while a request was under way, or a fault; distinct by the hash of all events, requests, reports and decorations",
      interleaving_measure: "hash of the sequence of events with the decorations shown after each",
      faults_injected: faults, exercised: counts, pages: add("pages"), events_scheduled: sum("events"), simulated_seconds: Math.round(sum("simulated_ms") / 1000), seeds_per_hour: Math.round((runs / wall) * 3600),
      runs_repeated_for_determinism: sum("repeated"), runs_that_diverged: sum("diverged"), violations_not_reproduced: sum("unreproduced"), violations_of_other_properties_seen: add("other"), known_findings_hit: sum("known"),
      components_real: ["frontend/packages/aquascope-standalone, aquascope-embed and aquascope-editor, bundled from /repo's working tree (requests, error handling, fields, decorations, interpreter markers)"],
      components_stubbed: ["browser: document, timers, network (simulated)", "@codemirror/state and view (own implementation of documents, transactions, fields, facets, range sets, dispatch, listeners)", "react, react-dom, other @codemirror packages, leader-line, floating-ui (kept or ignored, not evaluated)", "lodash, classnames (own implementation)", "analysis server (pure function of code and operation, with faults)"],
      samples: results.flatMap(r => r.samples).slice(0, 3)
    }
  }, null, 1));
  let f = Object.values(faults).reduce((a, b) => a + b, 0);
  console.log(`${arg}: ${runs} runs (${distinct("seen")} distinct, ${distinct("nontrivial")} distinct non-trivial), ${Math.round(sum("simulated_ms") / 1000)} simulated s, ${Math.round(wall)} s, ${f} faults of ${Object.keys(faults).length} kinds, ${sum("repeated")} repeated, ${sum("diverged")} diverged`);
  for (let k of known.filter(k => k.property === arg)) console.log(`KNOWN-FINDING: property=${arg} ${k.what}`);
  if (found.length) {
    let v = found[0], file = `${verif}/.build/replays/${arg}-${v.seed}.json`;
    fs.mkdirSync(path.dirname(file), { recursive: true });
    fs.writeFileSync(file, JSON.stringify(v, null, 1));
    console.log(`${arg} [${v.class}] ${v.message}\n  seed ${v.seed}; minimised to ${v.events} events`);
    console.log(`VIOLATION property=${arg} replay=${file}`);
    process.exit(1);
  }
  if (sum("diverged") || sum("unreproduced") > 2) { console.error("error: runs did not repeat"); process.exit(2); }
  process.exit(0);
} else {
  console.error("usage: sim.mjs check ID | replay FILE");
  process.exit(2);
}
