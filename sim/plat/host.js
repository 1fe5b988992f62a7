// Runs the cases in a file on a WebAssembly machine (32 bits, little-endian).
//   node host.js platlib.wasm CASES [-v]
const fs = require('fs');
const wasm = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const cases = fs.readFileSync(process.argv[3]);
const verbose = process.argv[4] === '-v' ? 1 : 0;
const n = cases.readUInt32LE(0);
let out = 'S\n';
const flush = () => { fs.writeSync(1, out); out = ''; };
let done = 0;
while (true) {
  // A trap leaves a machine in the middle of something: take a new one.
  let said = '';
  let mem;
  const say = (p, len) => {
    const t = Buffer.from(mem.buffer, p, len).toString('utf8');
    if (t[0] === '!') { said = t.slice(1); return; }
    if (t[0] === 'B') done++;
    out += t + '\n';
    if (out.length > 4000) flush();
  };
  const m = new WebAssembly.Instance(wasm, { env: { say } });
  mem = m.exports.memory;
  const p = m.exports.space(cases.length) >>> 0;
  new Uint8Array(mem.buffer).set(cases, p);
  try {
    m.exports.go(p, cases.length, done, verbose);
    break;
  } catch (e) {
    if (verbose) out += '0\tpanic\t' + (said || String(e)).replace(/[\n\t]/g, ' ') + '\n';
    out += 'B 1 !\n';
    done++;
    if (done >= n) { out += 'E\n'; break; }
  }
}
flush();
