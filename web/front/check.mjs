// C26, C31: the browser front end of /repo/src, bundled as it is and run against stand-ins for
// React, the browser and the generated library, whose asynchronous completions are scheduled here.
import fs from 'node:fs';
import { createRequire } from 'node:module';
import { execute, ensure, Violation } from './engine.mjs';
import * as react from './react.mjs';
import * as lib from './lib.mjs';
const require = createRequire('/opt/veriftools/node/');
const esbuild = require('esbuild');
const SRC = '/repo/src';

async function bundle() {
  const names = { react: 'react', 'react/jsx-runtime': 'react', 'react/jsx-dev-runtime': 'react', 'sia-watermarking-lib': 'lib' };
  const r = await esbuild.build({
    stdin: { contents: `export * as utils from '${SRC}/Content/utils';\nexport { default as Content } from '${SRC}/Content/Content';`, resolveDir: SRC, loader: 'ts' },
    bundle: true, write: false, format: 'cjs', target: 'es2020', logLevel: 'silent', jsx: 'automatic', tsconfigRaw: '{}',
    loader: { '.jpg': 'empty', '.css': 'empty', '.svg': 'empty', '.png': 'empty' },
    plugins: [{ name: 'env', setup(b) {
      b.onResolve({ filter: /^(react|react\/jsx(-dev)?-runtime|sia-watermarking-lib)$/ }, a => ({ path: names[a.path], namespace: 'env' }));
      b.onLoad({ filter: /.*/, namespace: 'env' }, a => ({ contents: `module.exports = __env.${a.path};`, loader: 'js' }));
      b.onLoad({ filter: /\.(jpe?g|png|svg)$/ }, a => ({ contents: `export default "/static/" + ${JSON.stringify(a.path.split('/').pop())};`, loader: 'js' }));
    } }],
  });
  return r.outputFiles[0].text;
}

// ------------------------------------------------------------------ the browser
const typeOf = t => t || 'application/octet-stream';
const b64 = bytes => Buffer.from(bytes).toString('base64');
/** pending completions of asynchronous operations: {what, tag, run} */
let pending = [];
const later = (what, tag, run) => { pending.push({ what, tag, run }); };
class Blob {
  constructor(parts = [], o = {}) { this.bytes = Uint8Array.from(parts.flatMap(p => p instanceof Blob ? [...p.bytes] : typeof p === 'string' ? [...Buffer.from(p)] : [...p])); this.type = o.type || ''; this.fails = false; this.tag = o.tag; }
  get size() { return this.bytes.length; }
  slice(a, b, type) { return new Blob([this.bytes.slice(a, b)], { type }); }
  arrayBuffer() { return new Promise((y, n) => later('read', this.tag, () => this.fails ? n(new Error('NotReadableError')) : y(this.bytes.slice().buffer))); }
  text() { return new Promise((y, n) => later('read', this.tag, () => this.fails ? n(new Error('NotReadableError')) : y(Buffer.from(this.bytes).toString()))); }
}
class File extends Blob {
  constructor(parts, name, o = {}) { super(parts, o); this.name = name; this.lastModified = 0; }
}
class FileReader {
  constructor() { this.readyState = 0; this.result = null; this.error = null; this.listeners = {}; }
  addEventListener(k, f) { (this.listeners[k] ||= []).push(f); }
  removeEventListener(k, f) { this.listeners[k] = (this.listeners[k] || []).filter(x => x !== f); }
  fire(k) { const e = { type: k, target: this, currentTarget: this }; if (typeof this['on' + k] === 'function') this['on' + k](e); for (const f of this.listeners[k] || []) f.call(this, e); }
  read(blob, make) {
    if (!(blob instanceof Blob)) throw new TypeError("parameter 1 is not of type 'Blob'.");
    if (this.readyState === 1) throw new Error('InvalidStateError');
    this.readyState = 1;
    this.aborted = false;
    later('read', blob.tag, () => {
      if (this.aborted) return;
      this.readyState = 2;
      if (blob.fails) { this.error = new Error('NotReadableError'); this.fire('error'); }
      else { this.result = make(blob); this.fire('load'); }
      this.fire('loadend');
    });
  }
  readAsDataURL(b) { this.read(b, b => `data:${typeOf(b.type)};base64,${b64(b.bytes)}`); }
  readAsArrayBuffer(b) { this.read(b, b => b.bytes.slice().buffer); }
  readAsBinaryString(b) { this.read(b, b => Buffer.from(b.bytes).toString('latin1')); }
  readAsText(b) { this.read(b, b => Buffer.from(b.bytes).toString()); }
  abort() { if (this.readyState === 1) { this.aborted = true; this.readyState = 2; this.fire('abort'); this.fire('loadend'); } }
}
let served = new Blob([]);
class XMLHttpRequest {
  constructor() { this.listeners = {}; this.readyState = 0; this.status = 0; this.responseType = ''; }
  addEventListener(k, f) { (this.listeners[k] ||= []).push(f); }
  open(m, url) { this.url = url; this.readyState = 1; }
  setRequestHeader() {}
  getResponseHeader(h) { return /content-type/i.test(h) ? served.type : null; }
  abort() {}
  send() {
    later('request', 'request', () => {
      this.readyState = 4;
      this.status = 200;
      this.response = this.responseType === 'blob' ? served : this.responseType === 'arraybuffer' ? served.bytes.slice().buffer : Buffer.from(served.bytes).toString();
      for (const k of ['readystatechange', 'load', 'loadend']) {
        if (typeof this['on' + k] === 'function') this['on' + k]({ target: this });
        for (const f of this.listeners[k] || []) f.call(this, { target: this });
      }
    });
  }
}
const fetch = () => new Promise(y => later('request', 'request', () => y({ ok: true, status: 200, headers: { get: () => served.type }, blob: async () => served, arrayBuffer: async () => served.bytes.slice().buffer })));
const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {}, assert() {}, time() {}, timeEnd() {}, trace() {} };
const atob1 = s => {
  s = String(s).replace(/[\t\n\f\r ]/g, '');
  if (s.length % 4 === 0) s = s.replace(/==?$/, '');
  if (s.length % 4 === 1 || /[^A-Za-z0-9+/]/.test(s)) throw new Error('InvalidCharacterError: not correctly encoded');
  return Buffer.from(s, 'base64').toString('latin1');
};
const btoa1 = s => { if (/[^\0-\xff]/.test(s)) throw new Error('InvalidCharacterError'); return Buffer.from(s, 'latin1').toString('base64'); };
const GLOBALS = { Blob, File, FileReader, XMLHttpRequest, fetch, console: quiet, atob: atob1, btoa: btoa1, ImageData: react.ImageData, alert() {},
  setTimeout: (f, ms, ...a) => { later('timer', 'timer', () => f(...a)); return pending.length; }, clearTimeout() {}, requestAnimationFrame: f => { later('timer', 'timer', () => f(0)); return 0; }, cancelAnimationFrame() {} };
const tick = () => new Promise(y => setImmediate(y));
const env = { react: { ...react, __esModule: true }, lib: { ...lib, __esModule: true } };
let code = null;
let fn = null;
/** a fresh copy of the front end */
function load() {
  const g = { ...GLOBALS };
  g.window = new Proxy(g, { get: (t, k) => k in t ? t[k] : globalThis[k] });
  fn ||= new Function('__env', 'module', ...Object.keys(g), code + '\n;return module.exports;');
  pending = [];
  lib.state.calls = [];
  lib.state.memory = new Uint8Array(0);
  lib.state.init = () => Promise.resolve();
  return fn(env, { exports: {} }, ...Object.values(g));
}
async function finish(promise) { // runs completions in order until the promise is settled
  let r = null;
  promise.then(v => { r = { v }; }, e => { r = { e }; });
  for (let n = 0; !r; n++) {
    await tick();
    if (r) break;
    if (!pending.length || n > 100) throw new Violation('waits', 'the front end waits forever for a file');
    pending.shift().run();
  }
  if (r.e) throw r.e;
  return r.v;
}

// ------------------------------------------------------------------ C26
const CHARS = [...'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$&-^_.+'];
const TYPES = ['png', 'jpeg', 'jpg', 'gif', 'bmp', 'tiff', 'webp', 'avif', 'apng', 'heic', 'jp2', 'svg+xml', 'x-icon', 'vnd.microsoft.icon', 'x-ms-bmp', 'x-portable-anymap',
  'x-portable-pixmap', 'x-tga', 'vnd.adobe.photoshop', 'x-xbitmap', 'jpeg;charset=binary', 'tiff;application=faxbw', 'png;a=b;c=d', ...CHARS, ...CHARS.map(c => 'x' + c + 'y')].map(t => 'image/' + t);
const pattern = (n, p) => Uint8Array.from({ length: n }, (_, i) => [i, 255 - i, i * 37 + 11, (i * i) >> 3, 0xff, 0, i & 1 ? 0x80 : 0x7f][p]);
const picture = (i, w, h) => Uint8Array.from([w, h, i, ...pattern(5 + i % 3, i % 7)]);
const VALUES = [1, 2, 0.5, 500, 100, 1e-9, 0, -3.25, 65536, Number.MAX_SAFE_INTEGER];
const eq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const show1 = a => '[' + Array.from(a).slice(0, 12).join(',') + (a.length > 12 ? ',...' + a.length : '') + ']';
const sameImage = (m, want, what) => {
  ensure(m.width === want.width && m.height === want.height, 'size', () => `the ${what} has ${m.width}x${m.height} pixels instead of ${want.width}x${want.height}`);
};
function samePixels(got, want, key, what) {
  ensure(got instanceof Uint8Array || got instanceof Uint8ClampedArray, key, () => `the ${what} is no array of bytes`);
  ensure(eq(got, want), key, () => `the ${what} is ${show1(got)} instead of ${show1(want)}`);
}
function called(bytes, depth, step, what) {
  const c = lib.state.calls;
  ensure(c.length === 1, 'calls', () => `the library is called ${c.length} times for ${what}`);
  ensure(c[0].type === 'Uint8Array', 'type', () => `the library gets a ${c[0].type} for ${what}`);
  ensure(eq(c[0].bytes, Array.from(bytes)), 'bytes', () => `the library gets ${show1(c[0].bytes)} instead of ${show1(bytes)} for ${what}`);
  ensure(Object.is(c[0].depth, depth) && Object.is(c[0].step, step), 'parameters', () => `the library gets depth ${c[0].depth} and step ${c[0].step} instead of ${depth} and ${step}`);
}
function result(p, bytes, depth, step) {
  const m = lib.meaning(bytes, depth, step);
  lib.scramble();
  ensure(p.sourceFormat === m.format, 'format', () => `the format is ${p.sourceFormat} instead of ${m.format}`);
  for (const [k, px] of [['source', m.source], ['watermarked', m.watermarked]]) {
    sameImage(p[k], m, k + ' image');
    samePixels(p[k].data, px, k, k + ' image');
  }
}
function direct(u, type, bytes, ctx, depth = 500, step = 1) {
  const address = type === null ? b64(bytes) : `data:${type};base64,${b64(bytes)}`;
  const what = `${bytes.length} bytes ${type === null ? 'in base64' : 'of type ' + type}`;
  if (typeof u.base64ToUInt8Array === 'function') samePixels(guardCall(() => u.base64ToUInt8Array(address), what), bytes, 'decoded', `decoded address of ${what}`);
  ctx.transitions++;
  lib.state.calls = [];
  if (bytes.length >= 4 && bytes[0] > 0 && bytes[0] * bytes[1] < 5000) {
    const r = guardCall(() => u.sourceBase64ToWatermarkingProcess(address, depth, step), what);
    called(bytes, depth, step, what);
    result(r, bytes, depth, step);
  } else {
    try { u.sourceBase64ToWatermarkingProcess(address, depth, step); } catch (e) { ensure(String(e).includes('unreachable executed'), 'failed', () => `${what}: ${e}`); }
    called(bytes, depth, step, what);
  }
  ctx.transitions++;
  ctx.traces++;
  ctx.states.add(address + depth + ',' + step);
}
function guardCall(f, what) {
  try { return f(); } catch (e) { if (e instanceof Violation) throw e; throw new Violation('failed', `the front end fails for ${what}: ${e.message || e}`); }
}
async function guardWait(p, what) {
  try { return await p; } catch (e) { if (e instanceof Violation) throw e; throw new Violation('failed', `the front end fails for ${what}: ${e.message || e}`); }
}
const C26 = {
  id: 'C26',
  rule: 'All byte strings of up to two bytes, all lengths up to the bound with seven patterns, every image type (every character a type may contain), all depth/step pairs, all small sizes, all sequences of three images, through the address route, the file reader route and the request route; the library stand-in records what it gets and overwrites its memory after every call.',
  assumptions: ['React, the browser and the generated glue are stand-ins; the type checker is not run'],
  min_outcomes: 7,
  bounds: t => ({ lengths: t === 'quick' ? 200 : 1200, types: TYPES.length, values: VALUES, sizes: t === 'quick' ? 12 : 32 }),
  *cases(t) {
    for (let a = 0; a < 256; a++) yield [1, a];
    for (let n = 0; n <= (t === 'quick' ? 200 : 1200); n++) yield [2, n];
    for (const n of [1023, 1024, 1025, 3071, 3072, 3073, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072, 131073, 200000, 262145, 524288, 700001, 1048577, ...(t === "quick" ? [] : [2097153, 4194305])]) yield [2, n];
    for (let i = 0; i < TYPES.length; i++) { yield [0, i]; yield [5, i]; yield [6, i]; }
    for (let d = 0; d < VALUES.length; d++) for (let s = 0; s < VALUES.length; s++) yield [3, d, s];
    const m = t === 'quick' ? 12 : 32;
    for (let w = 1; w <= m; w++) for (let h = 1; h <= m; h++) yield [4, w, h];
    for (let a = 0; a < 4; a++) for (let b = 0; b < 4; b++) for (let c = 0; c < 4; c++) yield [7, a, b, c];
  },
  describe(k) {
    return [`addresses of type ${TYPES[k[1]]}`, `all strings of up to two bytes starting with ${k[1]}`, `${k[1]} bytes, seven patterns`, `depth ${VALUES[k[1]]}, step ${VALUES[k[2]]}`,
      `images of ${k[1]}x${k[2]} pixels`, `files of type ${TYPES[k[1]]}`, `requested files of type ${TYPES[k[1]]}`, `images ${k.slice(1)} one after another`][k[0]];
  },
  async run(k, ctx) {
    const { utils: u } = load();
    switch (k[0]) {
      case 0: for (let n = 0; n <= 12; n++) direct(u, TYPES[k[1]], n > 4 ? picture(n, 2, 3) : pattern(n, n), ctx); ctx.outcome('types'); break;
      case 1:
        if (k[1] === 0) direct(u, 'image/png', [], ctx);
        direct(u, 'image/png', [k[1]], ctx);
        for (let b = 0; b < 256; b++) { direct(u, 'image/png', [k[1], b], ctx); direct(u, null, [k[1], b, 255 - b], ctx); }
        ctx.outcome('short strings');
        break;
      case 2: for (let p = 0; p < 7; p++) if (k[1] < 5000 || p < 1) { direct(u, 'image/gif', pattern(k[1], p), ctx); direct(u, null, pattern(k[1], p), ctx); } ctx.outcome('lengths'); break;
      case 3: direct(u, 'image/png', picture(3, 2, 2), ctx, VALUES[k[1]], VALUES[k[2]]); ctx.outcome('parameters'); break;
      case 4: for (let i = 0; i < 5; i++) direct(u, 'image/bmp', picture(i, k[1], k[2]), ctx); ctx.outcome('sizes'); break;
      case 5:
        for (let n = 0; n < 6; n++) {
          const bytes = picture(n, 1 + n, 2), f = new File([bytes], 'x', { type: TYPES[k[1]] });
          const what = `a file of type ${TYPES[k[1]]}`;
          const s = await guardWait(finish(u.fileToBase64(f)), what);
          const r = guardCall(() => u.sourceBase64ToWatermarkingProcess(s, 7, 3), what);
          called(bytes, 7, 3, what);
          result(r, bytes, 7, 3);
          lib.state.calls = [];
          ctx.transitions += 3; ctx.traces++; ctx.states.add('file' + k[1] + n);
        }
        ctx.outcome('file reader');
        break;
      case 6:
        for (let n = 0; n < 6; n++) {
          const bytes = picture(n, 1 + n, 2);
          served = new Blob([bytes], { type: TYPES[k[1]] });
          const what = `a request answered with type ${TYPES[k[1]]}`;
          const s = await guardWait(finish(u.toDataURL('/static/x')), what);
          const r = guardCall(() => u.sourceBase64ToWatermarkingProcess(s, 7, 3), what);
          called(bytes, 7, 3, what);
          result(r, bytes, 7, 3);
          lib.state.calls = [];
          ctx.transitions += 3; ctx.traces++; ctx.states.add('request' + k[1] + n);
        }
        ctx.outcome('request');
        break;
      case 7: {
        const all = k.slice(1).map(i => picture(i, 2 + i % 2, 3));
        const rs = all.map(b => u.sourceBase64ToWatermarkingProcess('data:image/png;base64,' + b64(b), 9, 2));
        rs.forEach((r, i) => result(r, all[i], 9, 2));
        rs[0].source.data.fill(9); rs[0].watermarked.data.fill(8);
        rs.slice(1).forEach((r, i) => result(r, all[i + 1], 9, 2));
        ctx.transitions += 3; ctx.traces++; ctx.states.add('seq' + k);
        ctx.outcome('sequences');
      }
    }
    if (ctx.samples.length < 6) ctx.samples.push(C26.describe(k));
  },
};

// ------------------------------------------------------------------ C31
// files 0-2 are images (0 and 1 of one size), 3 cannot be read, 4 is refused by the library, 5 no file;
// from 6 on images of particular sizes and contents, chosen one or two after another
const FILES = [['A', picture(1, 2, 3)], ['B', picture(2, 2, 3)], ['C', picture(4, 5, 1)], ['unreadable', picture(6, 2, 3)], ['no image', Uint8Array.from([0, 1, 2, 3, 4])], ['nothing', null],
  ['a single pixel', picture(1, 1, 1)], ['another single pixel', picture(2, 1, 1)], ['1x2', picture(3, 1, 2)], ['2x1', picture(3, 2, 1)], ['3x2', picture(1, 3, 2)],
  ['4x2, the sample with another first byte', Uint8Array.from([...picture(9, 4, 2)].map((b, i) => i === 3 ? b ^ 1 : b))], ['1x200', picture(5, 1, 200)], ['200x1', picture(5, 200, 1)], ['64x64', picture(6, 64, 64)], ['255x40', picture(7, 255, 40)],
  ['A with another format', Uint8Array.from([...picture(1, 2, 3)].map((b, i) => i === 2 ? b + 1 : b))], ['A with another last byte', Uint8Array.from([...picture(1, 2, 3)].map((b, i, a) => i === a.length - 1 ? b ^ 1 : b))], ['the sample itself', picture(9, 4, 2)], ['all zero', Uint8Array.from([2, 3, 0, 0, 0, 0])]];
const FIRST = picture(9, 4, 2);
const isImage = f => f < 3 || f > 5;
function nodes(tree, f, out = []) { for (const n of tree) if (typeof n !== 'string') { if (f(n)) out.push(n); nodes(n.children, f, out); } return out; }
const text = tree => tree.map(n => typeof n === 'string' ? n : text(n.children)).join('');
function* interleavings(n) { // events: -1 choose the next file, k >= 0 finish the k-th chosen one
  const go = function* (chosen, open, seq) {
    if (chosen === n && !open.length) { yield seq; return; }
    if (chosen < n) yield* go(chosen + 1, [...open, chosen], [...seq, -1]);
    for (const o of open) yield* go(chosen, open.filter(x => x !== o), [...seq, o]);
  };
  yield* go(0, [], []);
}
const C31 = {
  id: 'C31',
  rule: 'All sequences of chosen files up to the bound over six kinds of files, and for each all orders in which choosing and the completion of the file reads can interleave; the real components run on a stand-in for React, the canvases are read back after every event.',
  assumptions: ['the stand-in for React renders synchronously after every event; the order of completions is decided at the granularity of file reads, requests and the initialisation of the library'],
  min_outcomes: 4,
  bounds: t => ({ choices: t === 'quick' ? '3 of the first six kinds, 4 of the first four, 2 of all' : '4 of the first six kinds, 5 of the first three, 2 of all and some 3', files: FILES.map(f => f[0]), interleavings: '(2n-1)!! per sequence of n choices' }),
  *cases(t) {
    const [full, more, kinds] = t === 'quick' ? [3, 4, 4] : [4, 5, 3];
    yield [];
    const go = function* (s, n, kinds) { if (s.length === n) yield s; else for (let f = 0; f < kinds; f++) yield* go([...s, f], n, kinds); };
    for (let n = 1; n <= full; n++) yield* go([], n, 6);
    yield* go([], more, kinds);
    for (let a = 0; a < FILES.length; a++) {
      if (a > 5) { yield [a]; yield [a, a]; }
      for (let b = 0; b < FILES.length; b++) if (a !== b && (a > 5 || b > 5)) { yield [a, b]; if (a > 5 && t !== 'quick') yield [a, b, a]; }
    }
  },
  describe: k => `chosen one after another: ${k.map(f => FILES[f][0]).join(', ') || 'none'}; all orders of completion`,
  async run(k, ctx) {
    for (const seq of interleavings(k.length)) await schedule(k, seq, ctx);
    if (ctx.samples.length < 6) ctx.samples.push(C31.describe(k));
  },
};
async function schedule(k, seq, ctx) {
  const m = load();
  served = new Blob([FIRST], { type: 'image/jpeg', tag: 'first' });
  let started = false;
  lib.state.init = () => new Promise(y => later('init', 'init', () => { started = true; y(); }));
  const what = () => `files ${k.map(f => FILES[f][0]).join(', ')}, events ${seq.map(e => e < 0 ? 'choose' : 'read ' + (e + 1) + ' ends').join(', ')}`;
  const r = react.mount(react.createElement(m.Content, {}));
  const unhandled = [];
  const shown = () => {
    const c = nodes(r.tree, n => n.tag === 'canvas');
    if (!c.length) return null;
    return { text: text(r.tree), c: c.map(n => ({ w: n.host.width, h: n.host.height, bits: n.host.bits })) };
  };
  const params = () => lib.state.calls[lib.state.calls.length - 1];
  const matches = (s, bytes) => {
    const call = lib.state.calls.find(c => eq(c.bytes, Array.from(bytes)));
    if (!call) return 'the library was not asked for it';
    const w = lib.meaning(bytes, call.depth, call.step);
    if (!(call.depth > call.step)) return `depth ${call.depth} and step ${call.step} are exchanged`;
    if (s.c.length !== 2) return `${s.c.length} canvases`;
    for (const [i, px] of [w.source, w.watermarked].entries()) {
      if (s.c[i].w !== w.width || s.c[i].h !== w.height) return `canvas ${i} is ${s.c[i].w}x${s.c[i].h} instead of ${w.width}x${w.height}`;
      if (!eq(s.c[i].bits, px)) return `canvas ${i} (${i ? 'watermarked' : 'source'}) shows ${show1(s.c[i].bits)} instead of ${show1(px)}`;
    }
    if (!s.text.toUpperCase().includes(w.format.toUpperCase())) return `the format ${w.format} is not shown: ${s.text}`;
    if (!s.text.includes(`${w.width}x${w.height}`)) return `the size ${w.width}x${w.height} is not shown: ${s.text}`;
    return null;
  };
  ensure(shown() === null, 'early', 'a preview is shown before anything is loaded');
  // the sample image
  for (let n = 0; pending.length; n++) {
    ensure(n < 50, 'waits', 'loading never ends');
    ensure(lib.state.calls.length === 0 || started, 'uninitialised', 'the library is used before it is initialised');
    pending.shift().run();
    await tick();
  }
  let s = shown();
  ensure(s, 'sample', 'the sample image is not shown once everything is loaded');
  let e = matches(s, FIRST);
  ensure(!e, 'sample', () => 'the sample image: ' + e);
  let chosen = [];
  for (const ev of seq) {
    if (ev < 0) {
      const i = chosen.length, f = FILES[k[i]];
      chosen.push(k[i]);
      const input = nodes(r.tree, n => n.tag === 'input' && n.props.type === 'file')[0];
      ensure(input && input.props.onChange, 'input', 'there is no file input');
      let files = [];
      if (f[1]) { const file = new File([f[1]], f[0] + '.png', { type: 'image/png', tag: i }); file.fails = k[i] === 3; files = [file]; }
      files.item = n => files[n] || null;
      const target = { files, value: 'C:\\fakepath\\x' };
      try { input.props.onChange({ target, currentTarget: target, preventDefault() {}, stopPropagation() {}, persist() {} }); } catch (x) { ensure(k[i] === 5, 'choose', () => `choosing fails: ${x}; ${what()}`); }
    } else {
      // what belongs to that read, in order, until it is idle (timers and later stages included)
      for (let n = 0; n < 20; n++) {
        const j = pending.findIndex(p => p.tag === ev || p.tag === 'timer');
        if (j < 0) break;
        pending.splice(j, 1)[0].run();
        await tick();
      }
    }
    await tick();
    ctx.transitions++;
    s = shown();
    ensure(s, 'vanished', () => `the preview vanishes; ${what()}`);
    const possible = [FIRST, ...chosen.filter(isImage).map(f => FILES[f][1])];
    const errs = possible.map(b => matches(s, b));
    ensure(errs.some(x => !x), 'inconsistent', () => `the preview shows no single chosen image (${errs[errs.length - 1]}); ${what()}`);
    ctx.states.add(chosen.join() + '|' + seq.length + '|' + errs.findIndex(x => !x) + '|' + pending.map(p => p.tag).join());
  }
  while (pending.length) { pending.shift().run(); await tick(); }
  s = shown();
  const last = k.length ? k[k.length - 1] : -1;
  if (last >= 0 && isImage(last)) {
    e = matches(s, FILES[last][1]);
    ensure(!e, 'stale', () => `the preview does not show the file chosen last (${FILES[last][0]}) in the end: ${e}; ${what()}`);
    ctx.outcome(`last file shown after ${k.length} choices`);
  } else if (!k.some(isImage)) {
    e = matches(s, FIRST);
    ensure(!e, 'changed', () => `the preview changes although no image was chosen: ${e}; ${what()}`);
    ctx.outcome('nothing but unusable files: unchanged');
  } else ctx.outcome('the last file is unusable');
  ctx.traces++;
  ctx.count('schedules');
}

// ------------------------------------------------------------------
process.on('unhandledRejection', () => {}); // as in a browser: reported on the console only
const root = process.env.VERIF_ROOT || '/verif';
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
try { code = await bundle(); } catch (e) { console.log('ERROR: the front end does not build: ' + e.message); process.exit(2); }
const CHECKS = { C26, C31 };
if (process.argv[2] === 'replay') {
  const j = JSON.parse(fs.readFileSync(process.argv[3]));
  process.exit(await execute(CHECKS[j.property], j.tier, 1, root, j.case));
}
process.exit(await execute(CHECKS[process.argv[2]], tier, Number(process.env.VERIF_SEED || 1), root));
