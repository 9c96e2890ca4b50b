// Stand-in for the generated library. Files are: width, height, name byte, pixels...
// The arrays it hands out live in its own memory, which every later call overwrites.
export const state = { calls: [], memory: new Uint8Array(0), next: 0, init: null };
export class ImageModel {
  constructor(width, height, data) { this.w = width; this.h = height; this.d = data; }
  get_width() { return this.w; }
  set_width(v) { this.w = v; }
  get_height() { return this.h; }
  set_height(v) { this.h = v; }
  get_data() { return this.d; }
  set_data(v) { this.d = v; }
  free() {}
}
export class WatermarkingProcess {
  constructor(f, s, w) { this.f = f; this.s = s; this.m = w; }
  get_source_format() { return this.f; }
  set_source_format(v) { this.f = v; }
  get_source() { return this.s; }
  set_source(v) { this.s = v; }
  get_watermarked() { return this.m; }
  set_watermarked(v) { this.m = v; }
  free() {}
}
// what a file looks like: [format, width, height, source pixels, watermarked pixels]
export function meaning(bytes, depth, step) {
  const [w, h, name] = bytes;
  const px = k => Uint8Array.from({ length: w * h * 4 }, (_, i) => (bytes[3 + (i % (bytes.length - 3 || 1))] * 7 + i * 13 + k * 101 + name) & 255);
  return { format: ['Png', 'Jpeg', 'Gif', 'Bmp', 'Tiff'][name % 5], width: w, height: h, source: px(0), watermarked: px(1 + ((depth * 3 + step) & 31)) };
}
export function get_watermarking_process(bytes, depth, step) {
  state.calls.push({ type: bytes && bytes.constructor && bytes.constructor.name, bytes: Array.from(bytes || []), depth, step });
  state.memory.fill(0xEE); // whatever was handed out before is gone
  if (bytes.length < 4 || bytes[0] === 0) throw new Error('unreachable executed');
  const m = meaning(bytes, depth, step);
  const n = m.source.length;
  state.memory = new Uint8Array(2 * n + 8);
  state.memory.set(m.source, 3);
  state.memory.set(m.watermarked, 3 + n);
  return new WatermarkingProcess(m.format, new ImageModel(m.width, m.height, state.memory.subarray(3, 3 + n)), new ImageModel(m.width, m.height, state.memory.subarray(3 + n, 3 + 2 * n)));
}
export function scramble() { state.memory.fill(0x11); }
export default function init() { return state.init(); }
export const initSync = () => {};
