// wasm_run.js FILE ARGS...: runs a harness built for wasm32 (see rt.cc).
const fs = require('fs');
const K = ['read', 'write', 'open', 'close', 'mmap', 'mprotect', 'munmap', 'alarm', 'ftruncate', 'time', 'exit', 'getpid', 'kill'];
class Exit { constructor(code) { this.code = code; } }
let ex, maps = [];
const u8 = () => new Uint8Array(ex.memory.buffer);
const str = (p) => { const m = u8(); let q = p; while (m[q]) q++; return Buffer.from(m.subarray(p, q)).toString(); };
const calls = {
  read: (fd, p, n) => fs.readSync(fd, u8(), p, n),
  write: (fd, p, n) => fs.writeSync(fd, u8(), p, n),
  open: (p, f) => {
    const flags = (f & 3) | (f & 0x100 ? fs.constants.O_CREAT : 0) | (f & 0x200 ? fs.constants.O_TRUNC : 0);
    try { return fs.openSync(str(p), flags, 0o644); } catch (e) { return -1; }
  },
  close: (fd) => { fs.closeSync(fd); return 0; },
  mmap: (p, n, fd) => { fs.readSync(fd, u8(), p, n, 0); maps.push([p, n, fd]); return p; },
  mprotect: () => 0,
  munmap: () => 0,
  alarm: () => 0,
  ftruncate: (fd, n) => { fs.ftruncateSync(fd, n); return 0; },
  time: () => Math.floor(Date.now() / 1000) | 0,
  exit: (c) => { throw new Exit(c); },
  getpid: () => process.pid,
  kill: () => { throw new Exit(134); },
};
const args = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(args[0]));
ex = new WebAssembly.Instance(mod, { env: { verif_sys: (n, a, b, c) => calls[K[n]](a, b, c) } }).exports;
let code = 134;
try {
  const strs = args.map((s) => Buffer.from(s + '\0'));
  const table = ex.room(4 * strs.length + strs.reduce((t, s) => t + s.length, 0));
  let at = table + 4 * strs.length;
  strs.forEach((s, i) => {
    new DataView(ex.memory.buffer).setUint32(table + 4 * i, at, true);
    u8().set(s, at);
    at += s.length;
  });
  ex.run(strs.length, table);
} catch (e) {
  if (e instanceof Exit) code = e.code;
  else process.stderr.write('wasm: ' + (e && e.stack || e) + '\n');
}
for (const [p, n, fd] of maps) fs.writeSync(fd, u8(), p, n, 0);
process.exitCode = code;
