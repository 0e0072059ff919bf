// runs the 32 bit (wasm32) build of the harness: scenarios on stdin, traces on stdout
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const e = new WebAssembly.Instance(mod, {}).exports;
const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on('line', (line) => {
  if (!line.trim()) return;
  const b = Buffer.from(line);
  const p = e.je_alloc(b.length) >>> 0;
  new Uint8Array(e.memory.buffer, p, b.length).set(b);
  let q;
  try {
    q = e.je_run(p, b.length) >>> 0;
  } catch (x) {
    fs.writeSync(2, String(x).slice(0, 200));
    process.exit(3);
  }
  const n = new DataView(e.memory.buffer).getUint32(q, true);
  const out = Buffer.from(new Uint8Array(e.memory.buffer, q + 4, n));
  let i = 0;
  while (i < out.length) {
    try { i += fs.writeSync(1, out, i); } catch (x) { if (x.code !== 'EAGAIN') throw x; }
  }
  e.je_free(q, n + 4);
});
