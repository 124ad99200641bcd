// node run.js CALLS.jsonl: makes every call on the module and compares with what the native library gave.
// A line is a call {f, a, w} (w: {ok: value} or {err: 1}) or {seq: [calls]}, made in order on a fresh instance.
const fs = require('fs'), path = require('path'), { isDeepStrictEqual } = require('util');
const mod = path.resolve(__dirname, process.env.ZKMC_JSPKG, 'zkjs.js');
const fresh = () => { delete require.cache[mod]; return require(mod); };
let m = fresh();
function arg(x) {
  if (x === null || typeof x !== 'object') return x;
  if ('$undef' in x) return undefined;
  if ('$u16' in x) return String.fromCharCode(...x.$u16);
  if (Array.isArray(x)) return x.map(arg);
  return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, arg(v)]));
}
const num = (a, b) => { for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] - b[i]; return 0; };
// the tables the JSON form of an automaton stands for
function tables(text) {
  const d = JSON.parse(text), e = [];
  let accept = [];
  for (const s of d.dfa.states) {
    if (s.state_type === 'accept') accept.push(s.state_id);
    for (const [t, bytes] of Object.entries(s.transitions)) for (const b of bytes) e.push([s.state_id, +t, b]);
  }
  const sub = d.substrings.substring_ranges.map((r) => [...r].sort(num));
  const bound = (d.substrings.substring_boundaries || []).map((b) => b.map((x) => [...x].sort((p, q) => p - q)));
  return { accept, edges: e.sort(num), sub, bound };
}
function call(m, c) {
  if (typeof m[c.f] !== 'function') return { miss: 1 };
  try { let v = m[c.f](...c.a.map(arg)); if (c.f === 'genRegexAndDfa') v = tables(v); return { ok: v }; }
  catch (e) { return { err: e instanceof Error ? `${e.constructor.name}: ${e.message}` : String(e) }; }
}
const st = { calls: 0, ok: 0, err: 0, bad: null, sample: null };
const cut = (s) => { s = s === undefined ? 'undefined' : s; return s.length > 300 ? s.slice(0, 300) + '...' : s; };
function check(m, c, before) {
  const g = call(m, c);
  st.calls++;
  const same = !g.miss && ('err' in c.w ? 'err' in g : 'ok' in g && isDeepStrictEqual(g.ok, c.w.ok));
  if ('err' in g) st.err++; else st.ok++;
  if (!st.sample && 'ok' in g && JSON.stringify(g.ok).length > 4) st.sample = `${c.f}(${cut(JSON.stringify(c.a))}) = ${cut(JSON.stringify(g.ok))}`;
  if (!same && !st.bad) st.bad = `${c.f}(${cut(JSON.stringify(c.a))})${before ? ' after ' + before : ''}: ${g.miss ? 'not exported' : 'err' in g ? 'throws ' + cut(g.err) : 'gives ' + cut(JSON.stringify(g.ok))}, the native library ${'err' in c.w ? 'returns an error' : 'gives ' + cut(JSON.stringify(c.w.ok))}`;
}
console.error = () => {};
for (const line of fs.readFileSync(process.argv[2], 'utf8').split('\n')) {
  if (!line) continue;
  const c = JSON.parse(line);
  if (c.seq) { const i = fresh(); let b = ''; for (const x of c.seq) { check(i, x, b); b += `${b ? ', ' : ''}${x.f}(${cut(JSON.stringify(x.a)).slice(0, 80)})`; } }
  else check(m, c, '');
  if (st.bad) break;
}
process.stdout.write(JSON.stringify(st) + '\n');
