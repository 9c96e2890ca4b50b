// A small stand-in for React: function components, the common hooks, host elements. Synchronous
// re-rendering until stable after every event, effects after the commit when their dependencies changed.
let root = null;
let current = null;
const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
const hook = make => {
  const c = current;
  const i = c.at++;
  if (c.hooks.length <= i) c.hooks.push(make());
  return c.hooks[i];
};
const schedule = () => { if (root) root.dirty = true; if (root && !root.busy) flush(root); };

export function useReducer(reducer, arg, init) {
  const h = hook(() => {
    const s = { value: init ? init(arg) : arg };
    s.dispatch = a => {
      const n = s.reducer(s.value, a);
      if (!Object.is(n, s.value)) { s.value = n; schedule(); }
    };
    return s;
  });
  h.reducer = reducer;
  return [h.value, h.dispatch];
}
export function useState(init) {
  return useReducer((s, a) => (typeof a === 'function' ? a(s) : a), undefined, () => (typeof init === 'function' ? init() : init));
}
export function useRef(init) { return hook(() => ({ current: init })); }
export function useMemo(f, deps) {
  const h = hook(() => ({}));
  if (!deps || !same(h.deps, deps)) { h.value = f(); h.deps = deps; }
  return h.value;
}
export function useCallback(f, deps) { return useMemo(() => f, deps); }
export function useEffect(f, deps) {
  const c = current;
  const h = hook(() => ({ effect: true }));
  h.run = !deps || !same(h.deps, deps) || h.run;
  h.deps = deps;
  h.f = f;
  c.effects = true;
}
export const useLayoutEffect = useEffect;
export function useId() { return hook(() => ({ id: ':r' + Math.random() })).id; }
export function useTransition() { return [false, f => f()]; }
export function startTransition(f) { f(); }
export function useDeferredValue(v) { return v; }
export function memo(c) { return c; }
export function forwardRef(f) { return ({ ref, ...p }) => f(p, ref); }
export function createContext(d) {
  const c = { value: d };
  c.Provider = ({ value, children }) => { c.value = value; return children; };
  return c;
}
export function useContext(c) { return c.value; }
export const Fragment = Symbol('fragment');
export const StrictMode = Fragment;
export const Suspense = Fragment;
export function lazy() { throw new Error('not supported'); }
export function createElement(type, props, ...children) {
  const p = { ...props };
  if (children.length) p.children = children.length === 1 ? children[0] : children;
  return { type, props: p, key: p.key };
}
export const jsx = (type, props, key) => ({ type, props: props || {}, key });
export const jsxs = jsx;
export const jsxDEV = jsx;
export const Children = { map: (c, f) => [c].flat().map(f), toArray: c => [c].flat() };

class Canvas {
  constructor() { this.w = 300; this.h = 150; this.clear(); }
  clear() { this.bits = new Uint8ClampedArray(this.w * this.h * 4); }
  get width() { return this.w; }
  set width(v) { this.w = v >>> 0; this.clear(); }
  get height() { return this.h; }
  set height(v) { this.h = v >>> 0; this.clear(); }
  getContext(kind) {
    if (kind !== '2d') return null;
    const canvas = this;
    return {
      canvas,
      createImageData: (w, h) => {
        if (!(w > 0 && h > 0)) throw new Error('IndexSizeError');
        return new ImageData(w, h);
      },
      putImageData: (d, x, y) => {
        for (let r = 0; r < d.height; r++) for (let c = 0; c < d.width; c++) {
          const [X, Y] = [c + x, r + y];
          if (X >= 0 && Y >= 0 && X < canvas.w && Y < canvas.h)
            for (let k = 0; k < 4; k++) canvas.bits[(Y * canvas.w + X) * 4 + k] = d.data[(r * d.width + c) * 4 + k];
        }
      },
      clearRect: (x, y, w, h) => {
        for (let r = y; r < Math.min(y + h, canvas.h); r++) for (let c = x; c < Math.min(x + w, canvas.w); c++)
          canvas.bits.fill(0, (r * canvas.w + c) * 4, (r * canvas.w + c) * 4 + 4);
      },
    };
  }
}
export class ImageData {
  constructor(a, b, c) {
    if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); }
    else {
      if (!(a instanceof Uint8ClampedArray)) throw new TypeError('ImageData needs a Uint8ClampedArray');
      if (a.length % (4 * b)) throw new Error('InvalidStateError');
      this.data = a; this.width = b; this.height = c === undefined ? a.length / 4 / b : c;
      if (this.data.length !== 4 * this.width * this.height) throw new Error('IndexSizeError');
    }
  }
}

// instance tree: path -> component or host instance
function renderNode(r, node, path, out) {
  if (node === null || node === undefined || typeof node === 'boolean') return;
  if (typeof node === 'string' || typeof node === 'number') { out.push(String(node)); return; }
  if (Array.isArray(node)) { node.forEach((n, i) => renderNode(r, n, path + '/' + (n && n.key != null ? 'k' + n.key : i), out)); return; }
  const { type, props } = node;
  if (type === Fragment) return renderNode(r, props.children, path + '/f', out);
  const key = path + (node.key != null ? '#' + node.key : '') + ':' + (typeof type === 'string' ? type : r.name(type));
  r.live.add(key);
  if (typeof type === 'string') {
    let i = r.instances.get(key);
    if (!i) { i = { host: type === 'canvas' ? new Canvas() : { tagName: type }, props: {} }; r.instances.set(key, i); }
    const e = { tag: type, props, host: i.host, children: [] };
    r.commit.push(() => {
      for (const a of ['width', 'height']) if (type === 'canvas' && !Object.is(i.props[a], props[a]) && props[a] !== undefined) i.host[a] = props[a];
      if (props.ref) typeof props.ref === 'function' ? props.ref(i.host) : (props.ref.current = i.host);
      i.props = props;
    });
    renderNode(r, props.children, key, e.children);
    out.push(e);
    return;
  }
  let c = r.instances.get(key);
  if (!c) { c = { hooks: [], component: true }; r.instances.set(key, c); }
  c.at = 0;
  current = c;
  const result = type(props);
  current = null;
  if (c.effects) r.commit.push(() => { r.pending.push(c); });
  renderNode(r, result, key, out);
}
function flush(r) {
  r.busy = true;
  let n = 0;
  do {
    if (++n > 100) throw new Error('endless rendering');
    r.dirty = false;
    r.live = new Set();
    r.commit = [];
    r.pending = [];
    const out = [];
    renderNode(r, r.element, '', out);
    for (const [k, i] of r.instances) if (!r.live.has(k)) {
      for (const h of i.hooks || []) if (h.effect && h.cleanup) h.cleanup();
      r.instances.delete(k);
    }
    for (const f of r.commit) f();
    r.tree = out;
    for (const c of r.pending.reverse()) for (const h of c.hooks) if (h.effect && h.run) {
      if (h.cleanup) h.cleanup();
      h.run = false;
      const x = h.f();
      h.cleanup = typeof x === 'function' ? x : undefined;
    }
  } while (r.dirty);
  r.busy = false;
}
export function mount(element) {
  const names = new Map();
  root = { element, instances: new Map(), tree: [], name: t => { if (!names.has(t)) names.set(t, 'c' + names.size); return names.get(t); } };
  flush(root);
  return root;
}
export function unmount() { root = null; }
export default { useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useId, useTransition, startTransition, useDeferredValue, memo, forwardRef, createContext, useContext, Fragment, StrictMode, Suspense, lazy, createElement, Children };
