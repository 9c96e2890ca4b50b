// Exhaustive enumeration of cases, evidence and replay files in the format of mc/src/engine.rs
import fs from 'node:fs';
export class Violation extends Error { constructor(key, msg) { super(msg); this.key = key; } }
export const ensure = (c, key, msg) => { if (!c) throw new Violation(key, typeof msg === 'function' ? msg() : msg); };
export class Ctx {
  constructor(tier) { this.tier = tier; this.states = new Set(); this.transitions = 0; this.traces = 0; this.outcomes = {}; this.samples = []; this.counters = {}; }
  outcome(s) { this.outcomes[s] = (this.outcomes[s] || 0) + 1; }
  count(s, n = 1) { this.counters[s] = (this.counters[s] || 0) + n; }
  pick(q, t) { return this.tier === 'quick' ? q : t; }
}
function known(root, id) {
  try {
    return fs.readFileSync(root + '/known_findings.txt', 'utf8').split('\n').filter(l => l.startsWith('finding: property=' + id + ' '))
      .map(l => { const m = l.match(/key=(\S+)\s*(.*)/); return m ? { key: m[1], what: m[2] } : null; }).filter(x => x);
  } catch { return []; }
}
export async function execute(check, tier, seed, root, only) {
  const t0 = Date.now();
  const ctx = new Ctx(tier);
  const cases = [...check.cases(tier)];
  const path = `${root}/replays/${check.id}.json`;
  const k = known(root, check.id);
  const hit = new Map();
  let executed = 0, viol = null, error = null;
  for (const c of only ? [only] : cases) {
    try { await check.run(c, ctx); executed++; }
    catch (e) {
      if (!(e instanceof Violation)) e = new Violation('exception', 'unexpected exception: ' + (e && e.stack || e));
      const f = k.find(x => x.key === e.key);
      if (f) { hit.set(f.key, (hit.get(f.key) || 0) + 1); executed++; continue; }
      viol = { c, e };
      break;
    }
  }
  let code = 0;
  if (viol) {
    code = 1;
    fs.mkdirSync(root + '/replays', { recursive: true });
    if (!only) fs.writeFileSync(path, JSON.stringify({ property: check.id, tier, case: viol.c, described: check.describe(viol.c), key: viol.e.key, failure: viol.e.message, replay: './run.sh replay ' + path }, null, 1) + '\n');
    console.log(`${check.id}: ${check.describe(viol.c)}`);
    console.log(`${check.id}: ${viol.e.key}: ${viol.e.message}`);
    console.log(`VIOLATION property=${check.id} replay=${path}`);
  } else if (only) { console.log(check.describe(only)); console.log('the property holds on this case'); }
  if (only) return code;
  for (const [key, n] of hit) console.log(`KNOWN-FINDING: property=${check.id} ${k.find(x => x.key === key).what} (${n} cases)`);
  if (!code && Object.keys(ctx.outcomes).length < check.min_outcomes) { error = 'vacuous: ' + JSON.stringify(ctx.outcomes); code = 2; }
  if (error) console.log(`${check.id}: ERROR ${error}`);
  const wall = (Date.now() - t0) / 1000;
  const ev = { property: check.id, tier, seed, level: 'model_checking', coverage: {
    states: ctx.states.size, transitions: ctx.transitions, traces_validated_against_impl: ctx.traces,
    samples: ctx.samples.length ? ctx.samples.slice(0, 6) : [check.describe(cases[0])], cases_enumerated: cases.length, cases_executed: executed,
    exhaustive: code === 0, rule: check.rule, bounds: check.bounds(tier), outcomes: ctx.outcomes, counters: ctx.counters,
    first_case: check.describe(cases[0]), last_case: check.describe(cases[cases.length - 1]) },
    assumptions: check.assumptions, wall_s: wall, violations: viol ? 1 : 0 };
  fs.mkdirSync(root + '/evidence', { recursive: true });
  fs.writeFileSync(`${root}/evidence/${check.id}.json`, JSON.stringify(ev, null, 1) + '\n');
  console.log(`${check.id} ${tier}: cases=${executed} states=${ctx.states.size} transitions=${ctx.transitions} traces=${ctx.traces} wall=${wall}s exit=${code}`);
  return code;
}
