// node own.js REPO TESTFILE SCRATCH: runs one of the repository's circuit tests, with `zkmc eval` in the place of
// the circom compiler and the module built by the harness in the place of the two packages.
const fs = require('fs'), path = require('path'), { spawnSync } = require('child_process'), { isDeepStrictEqual } = require('util');
const [repo, file, scratch] = process.argv.slice(2);
const m = require(path.resolve(__dirname, process.env.ZKMC_JSPKG, 'zkjs.js'));
// a copy to write to, with the shipped circuits where the tests expect them
const base = path.join(scratch, 'packages/circom'), dir = path.join(base, 'tests');
fs.mkdirSync(base, { recursive: true });
fs.cpSync(path.join(repo, 'packages/circom/tests'), dir, { recursive: true });
fs.symlinkSync(path.join(repo, 'packages/circom/circuits'), path.join(base, 'circuits'));
const st = { witnesses: 0, expects: 0, passed: 0, failed: [] };
const flat = (m) => Array.from(m, (x) => Number(x));
async function wasm_tester(f) {
  const t = fs.readFileSync(f, 'utf8');
  const inc = path.resolve(path.dirname(f), t.match(/^include "(\.[^"]+)"/m)[1]), [, name, n] = t.match(/component main[^=]*=\s*(\w+)\((\d+)\)/);
  return {
    async calculateWitness({ msg }) {
      const r = spawnSync(process.env.ZKMC_BIN, ['eval', inc, name, n], { input: JSON.stringify([flat(msg)]), encoding: 'utf8', maxBuffer: 1 << 28 });
      if (r.status !== 0) throw new Error(`evaluator: ${r.stderr}`);
      const [o] = JSON.parse(r.stdout);
      st.witnesses++;
      if (!o) throw new Error('Error: Assert Failed.');
      return [1n, ...o.map(BigInt)];
    },
    async checkConstraints() {},
  };
}
const before = [], tests = [];
class Failed extends Error {}
const say = (x) => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? `${v}n` : v));
const need = (ok, d) => { st.expects++; if (!ok) throw new Failed(d); };
function expect(x) {
  const e = {
    toEqual: (y) => need(isDeepStrictEqual(x, y), `expect(${say(x)}).toEqual(${say(y)})`),
    toBe: (y) => need(Object.is(x, y), `expect(${say(x)}).toBe(${say(y)})`),
    toThrow: () => { let t = false; try { x(); } catch { t = true; } need(t, 'expect(...).toThrow()'); },
  };
  e.rejects = { toThrow: async () => { let t = false; try { await (typeof x === 'function' ? x() : x); } catch { t = true; } need(t, 'expect(...).rejects.toThrow()'); } };
  return e;
}
const src = fs.readFileSync(path.join(repo, 'packages/circom/tests', file), 'utf8').replace(/^import[\s\S]*?;$/gm, (i) => (/^import[^;]*from\s+['"][^'"]+['"];$/.test(i) ? '' : i));
const env = { circom_tester: { wasm: wasm_tester }, path, readFileSync: fs.readFileSync, writeFileSync: fs.writeFileSync, fs, apis: m, compiler: m, __dirname: dir, jest: { setTimeout() {} }, describe: (n, f) => f(), beforeAll: (f) => before.push(f), it: (n, f) => tests.push([n, f]), test: (n, f) => tests.push([n, f]), expect, console, BigInt, Buffer, TextEncoder, process };
(async () => {
  new Function(...Object.keys(env), src)(...Object.values(env));
  for (const f of before) await f();
  for (const [n, f] of tests) { try { await f(); st.passed++; } catch (e) { st.failed.push(`${n}: ${e.message}`); } }
  process.stdout.write(JSON.stringify(st) + '\n');
})().catch((e) => { process.stderr.write(`${e.stack}\n`); process.exit(1); });
