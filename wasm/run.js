// node run.js MODULE CORPUS: digests every input of the corpus (or shows the text of case SHOW) on the WebAssembly machine.
const fs = require("fs");
const [, , module_, corpus] = process.argv;
const mod = new WebAssembly.Module(fs.readFileSync(module_));
const fresh = () => new WebAssembly.Instance(mod, {}).exports;
const b = fs.readFileSync(corpus);
let w = fresh();
let at = 0, n = 0;
const out = [];
const t0 = Date.now();
const budget = 1000 * Number(process.env.YSAN_BUDGET || 1e9);
while (at + 12 <= b.length) {
  const c = b.readBigUInt64LE(at);
  const len = b.readUInt32LE(at + 8);
  const bytes = b.subarray(at + 12, at + 12 + len);
  at += 12 + len;
  if (process.env.SHOW && process.env.SHOW !== String(c)) continue;
  fs.writeSync(1, `@case ${c}\n`);
  try {
    const p = w.input(len) >>> 0;
    new Uint8Array(w.memory.buffer, p, len).set(bytes);
    const r = w.run(c) >>> 0;
    const v = new BigUint64Array(w.memory.buffer, r, 5);
    if (n === 0) fs.writeSync(1, `@machine ${v[4]} little\n`);
    fs.writeSync(1, `@digest ${c} ${v[0]} ${v[1]} ${v[2]} ${v[3]}\n`);
    if (process.env.SHOW) fs.writeSync(1, Buffer.from(new Uint8Array(w.memory.buffer, w.text() >>> 0, w.text_len() >>> 0)));
  } catch (e) {
    let text = String(e);
    try {
      text += ": " + Buffer.from(new Uint8Array(w.memory.buffer, w.panic_text() >>> 0, w.panic_len() >>> 0)).toString("utf8");
    } catch (_) {}
    fs.writeSync(1, `@trap ${c} ${text.replace(/\s+/g, " ").slice(0, 600)}\n`);
    w = fresh();
  }
  n++;
  if (Date.now() - t0 > budget) break;
}
fs.writeSync(1, `@done ${n}\n`);
