// Runs the real WebAssembly module: texts come in on standard input (length,
// bytes), the value or the error that parseString gives goes out (length,
// canonical text).  The glue is what wasm-bindgen 0.2.100 would generate.
import fs from 'fs';
const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let wasm;
const enc = new TextEncoder(), dec = new TextDecoder();
const heap = new Array(128).fill(undefined);
heap.push(undefined, null, true, false);
const BASE = heap.length;
const free = [];
const put = (x) => {
  if (free.length) { const i = free.pop(); heap[i] = x; return i; }
  heap.push(x); return heap.length - 1;
};
const get = (i) => heap[i >>> 0];
const take = (i) => {
  i >>>= 0; const x = heap[i];
  if (i >= BASE) { heap[i] = undefined; free.push(i); }
  return x;
};
const mem = () => new Uint8Array(wasm.memory.buffer);
const view = () => new DataView(wasm.memory.buffer);
const str = (p, n) => dec.decode(mem().subarray(p >>> 0, (p >>> 0) + (n >>> 0)));
const give = (s) => {
  const b = enc.encode(s);
  const p = wasm.__wbindgen_malloc(b.length, 1) >>> 0;
  mem().set(b, p);
  return [p, b.length];
};
const glue = {
  __wbindgen_describe: () => {},
  __wbindgen_object_drop_ref: (i) => { take(i); },
  __wbindgen_object_clone_ref: (i) => put(get(i)),
  __wbindgen_number_new: (n) => put(n),
  __wbindgen_bigint_from_i64: (n) => put(n),
  __wbindgen_bigint_from_u64: (n) => put(BigInt.asUintN(64, n)),
  __wbindgen_is_string: (i) => typeof get(i) === 'string' ? 1 : 0,
  __wbindgen_string_new: (p, n) => put(str(p, n)),
  __wbindgen_error_new: (p, n) => put(new Error(str(p, n))),
  __wbindgen_throw: (p, n) => { throw new Error('throw: ' + str(p, n)); },
  __wbg_String_8f0eb39a4a4c2f66: (ret, i) => {
    const [p, n] = give(String(get(i)));
    view().setInt32(ret + 4, n, true);
    view().setInt32(ret, p, true);
  },
  __wbg_new_405e22f390576ce2: () => put(new Object()),
  __wbg_new_78feb108b6472713: () => put(new Array()),
  __wbg_new_5e0be73521bc8c17: () => put(new Map()),
  __wbg_set_37837023f3d740e8: (a, i, v) => { get(a)[i >>> 0] = take(v); },
  __wbg_set_3f1d0b984ed272ed: (o, k, v) => { get(o)[take(k)] = take(v); },
  __wbg_set_8fc6bf8a5b1071d1: (m, k, v) => put(get(m).set(get(k), get(v))),
  __wbg_log_3e71fb8030d3bd64: () => {},
  __wbindgen_externref_table_grow: () => 0,
  __wbindgen_externref_table_set_null: () => {},
};
const imports = {};
for (const { module: m, name } of WebAssembly.Module.imports(module)) {
  (imports[m] ??= {})[name] = glue[name] ?? ((...a) => {
    // The harness does not know this function.
    process.stderr.write(`unknown import ${name}\n`);
    process.exit(3);
  });
}
const start = () => {
  wasm = new WebAssembly.Instance(module, imports).exports;
  heap.length = BASE; free.length = 0;
};
start();

const bits = new DataView(new ArrayBuffer(8));
const canon = (x) => {
  switch (typeof x) {
    case 'undefined': return 'u';
    case 'boolean': return x ? 't' : 'f';
    case 'string': return `s${JSON.stringify(x)}`;
    case 'bigint': return `b${x}`;
    case 'number':
      if (Number.isInteger(x) && x >= 0 && x < 1e9 && !Object.is(x, -0)) return `${x}`;
      bits.setFloat64(0, x);
      return 'x' + bits.getBigUint64(0).toString(16);
  }
  if (x === null) return 'n';
  if (Array.isArray(x)) return '[' + x.map(canon).join(',') + ']';
  if (x instanceof Map) return 'M{' + [...x].map(([k, v]) => canon(k) + ':' + canon(v)).join(',') + '}';
  return '{' + Object.keys(x).sort().map((k) => k + ':' + canon(x[k])).join(',') + '}';
};

// As the generated parseString: the value, or an error thrown.
const parse = (bytes) => {
  const ret = wasm.__wbindgen_malloc(16, 4) >>> 0;
  const p = wasm.__wbindgen_malloc(bytes.length, 1) >>> 0;
  mem().set(bytes, p);
  wasm.parseString(ret, p, bytes.length);
  const [v, e, failed] = [0, 4, 8].map((o) => view().getUint32(ret + o, true));
  const x = failed ? take(e) : take(v);
  wasm.__wbindgen_free(ret, 16, 4);
  if (failed) throw new Thrown(x);
  return x;
};
class Thrown { constructor(x) { this.x = x; } }
const run = (bytes) => {
  try {
    return canon(parse(bytes));
  } catch (t) {
    if (!(t instanceof Thrown)) { start(); return 'T' + t; }
    return t.x instanceof Error ? 'E' + t.x.message : 'not an Error: ' + canon(t.x);
  }
};
const parseString = (text) => {
  try { return parse(enc.encode(String(text))); } catch (t) {
    if (!(t instanceof Thrown)) { start(); throw t; }
    throw t.x;
  }
};
let answer = run;
if (process.argv[3]) {
  const { page } = await import('./page.mjs');
  answer = page(fs.readFileSync(process.argv[3], 'utf8'), parseString);
}

const read = (n) => {
  const b = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
};
for (;;) {
  const n = read(4).readUInt32LE(0);
  const out = Buffer.from(await answer(n ? read(n) : new Uint8Array(0)), 'utf8');
  const head = Buffer.alloc(4);
  head.writeUInt32LE(out.length);
  const all = Buffer.concat([head, out]);
  let at = 0;
  while (at < all.length) {
    try { at += fs.writeSync(1, all, at); } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}
