// Runs cases lo..hi of the "wide" workload on a 32-bit machine: WebAssembly. One line per case:
// B index, then D index digest, or T index and what the trap said.
const fs = require('fs');
const [file, seed, lo, hi] = process.argv.slice(2);
const module_ = new WebAssembly.Module(fs.readFileSync(file));
let inst = null;
for (let i = Number(lo); i < Number(hi); i++) {
  if (!inst) inst = new WebAssembly.Instance(module_, {});
  fs.writeSync(1, 'B ' + i + '\n');
  let line;
  try {
    const h = BigInt.asUintN(64, inst.exports.wide_case(BigInt(i), BigInt(seed)));
    line = 'D ' + i + ' ' + h.toString(16).padStart(16, '0');
  } catch (x) {
    line = 'T ' + i + ' ' + String(x).replace(/\s+/g, ' ');
    inst = null; // its memory is in no defined state
  }
  fs.writeSync(1, line + '\n');
}
