//! C01-C07: embedding and extraction on the real code against the reference model.
use crate::engine::*;
use crate::rm;
use ndarray::Array2;
use serde_json::json;
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub r: usize,
    pub c: usize,
    pub l: usize,
    pub depth_m: i64,
    pub family: usize,
    pub pattern: usize,
    pub len: usize,
}
impl Cfg {
    pub fn from(v: &[i64]) -> Cfg {
        Cfg { r: v[0] as usize, c: v[1] as usize, l: v[2] as usize, depth_m: v[3], family: v[4] as usize, pattern: v[5] as usize, len: v[6] as usize }
    }
    pub fn case(&self) -> Case {
        vec![self.r as i64, self.c as i64, self.l as i64, self.depth_m, self.family as i64, self.pattern as i64, self.len as i64]
    }
    pub fn depth(&self) -> f64 {
        self.depth_m as f64 / 1000.0
    }
    pub fn cap(&self) -> usize {
        rm::cap(self.r, self.c)
    }
    pub fn range(&self) -> Option<(u8, u8)> {
        let lo = rm::headroom(self.depth(), self.l).ceil();
        if lo <= 127.0 && self.depth() > (1u64 << (self.l + 1)) as f64 { Some((lo as u8, 255 - lo as u8)) } else { None }
    }
    pub fn image(&self) -> Array2<u8> {
        let s = 1 << self.l;
        let (lo, hi) = self.range().expect("headroom");
        let mut m = rm::image(self.family % 100, self.r * s, self.c * s, lo, hi, s);
        if self.family >= 100 {
            // blocks behind the stored data may hold anything, also saturated pixels
            let used = rm::stored(&self.payload(), self.cap()).len() * 8;
            for ((y, x), p) in m.indexed_iter_mut() {
                if (y / s) * self.c + x / s >= used {
                    *p = [0, 255, 1, 254][(y + 2 * x) % 4];
                }
            }
        }
        m
    }
    pub fn payload(&self) -> Vec<u8> {
        rm::content(self.pattern, self.len)
    }
    pub fn show(&self) -> String {
        format!(
            "image {}x{} (rows x columns, family {}), levels {}, depth {}, payload of {} bytes (pattern {}), capacity {} bytes",
            self.r << self.l, self.c << self.l, self.family, self.l, self.depth(), self.len, self.pattern, self.cap()
        )
    }
}
fn show(c: &Case) -> String {
    Cfg::from(c).show()
}

pub fn do_embed(img: &Array2<u8>, p: &[u8], d: f64, l: usize) -> Result<Array2<u8>, String> {
    guard(|| embedding::embed(img.clone(), p.to_vec(), d, l))
}
pub fn do_extract(img: &Array2<u8>, d: f64, l: usize) -> Result<Vec<u8>, String> {
    guard(|| embedding::extract(img.clone(), d, l))
}
fn class(cap: usize) -> &'static str {
    match rm::kn(cap) {
        None => "raw",
        Some((8, _)) => "TC128",
        Some((16, _)) => "TC256",
        Some((32, _)) => "TC512",
        Some((128, _)) => "TM2048",
        _ => "TM8192",
    }
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 { format!("{:?}", b) } else { format!("{:?}.. ({} bytes)", &b[..24], b.len()) }
}

/// LL dims with exactly this capacity in bytes
fn dims(cap: usize) -> (usize, usize) {
    let n = cap * 8;
    let mut best = (8, cap);
    let mut d = 8;
    while d * d <= n {
        if n % d == 0 {
            best = (d, n / d);
        }
        d += 1;
    }
    best
}
fn depths(l: usize) -> &'static [i64] {
    match l {
        1 => &[4250, 5000, 10000, 30000, 33300, 100000, 300000],
        2 => &[8500, 12500, 30000, 100000, 450000],
        3 => &[16500, 20000, 30000, 100000, 256000, 800000],
        4 => &[33000, 100000, 1000000],
        5 => &[70000, 100000, 2000000],
        6 => &[130000, 300000, 4000000],
        _ => &[260000, 600000, 8000000],
    }
}

fn geometry_sweep(t: Tier, out: &mut Vec<Cfg>) {
    let lim = |l: usize| match l {
        1 => t.pick(26, 44),
        2 => t.pick(14, 26),
        3 => t.pick(11, 18),
        4 => t.pick(10, 12),
        _ => 9,
    };
    for l in 1..=5usize {
        let n = lim(l);
        let mut g: Vec<(usize, usize)> = vec![];
        for r in 1..=n {
            for c in 1..=n {
                g.push((r, c));
            }
        }
        if l <= 3 {
            for x in [72, 73, 80, 96, 128, 136, 200, 256] {
                for y in 1..=t.pick(3, 6) {
                    g.push((x, y));
                    g.push((y, x));
                }
            }
        }
        for (r, c) in g {
            let m = match rm::max_payload(rm::cap(r, c)) {
                Some(m) => m,
                None => continue,
            };
            let mut lens = vec![0, 1, m / 2, m.saturating_sub(1), m];
            lens.sort();
            lens.dedup();
            for len in lens.into_iter().filter(|x| *x <= m) {
                for (family, d) in [(6, 0), (1, 1), (2, 1)] {
                    if l >= 4 && family != 6 {
                        continue;
                    }
                    out.push(Cfg { r, c, l, depth_m: depths(l)[d + 1], family, pattern: 5, len });
                }
            }
        }
    }
}
fn length_sweep(t: Tier, out: &mut Vec<Cfg>) {
    let caps = [9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024];
    for cap in caps {
        let m = rm::max_payload(cap).unwrap();
        let (r, c) = dims(cap);
        for len in 0..=m {
            for pattern in t.pick(vec![0, 5], vec![0, 2, 3, 5, 7]) {
                if t == Tier::Quick && pattern == 5 && len > 40 && len + 8 < m && !(250..262).contains(&len) {
                    continue;
                }
                out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 9, pattern, len });
            }
        }
    }
    // several large codewords, two-byte lengths
    for cap in t.pick(vec![1025, 2048, 3000, 4096], vec![1025, 2047, 2048, 3000, 4096, 8192]) {
        let m = rm::max_payload(cap).unwrap();
        let (r, c) = dims(cap);
        let mut lens: Vec<usize> = vec![0, 1, 250];
        for b in (0..=m).step_by(512) {
            for d in 0..8 {
                lens.push((b + 512).saturating_sub(d));
            }
        }
        for b in [255, 256, 257, 258, 511, 768, 1024, 1279, 1280, m, m - 1] {
            lens.push(b);
        }
        lens.retain(|x| *x <= m);
        lens.sort();
        lens.dedup();
        for len in lens {
            out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 9, pattern: 0, len });
        }
    }
    for (r, c, l) in t.pick(vec![(256, 256, 1)], vec![(256, 256, 1), (64, 1024, 1), (256, 256, 2), (128, 128, 3)]) {
        let m = rm::max_payload(rm::cap(r, c)).unwrap();
        for len in [0, 255, 256, 511, 2000, m - 1, m] {
            if len <= m {
                out.push(Cfg { r, c, l, depth_m: depths(l)[3], family: 9, pattern: 5, len });
            }
        }
    }
}
fn value_sweep(t: Tier, out: &mut Vec<Cfg>) {
    for v in 0..256 {
        for (r, c, lens) in [(8, 9, vec![1, 2, 5]), (8, 16, vec![1, 4]), (16, 16, vec![1, 12])] {
            for len in lens {
                out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 9, pattern: 100 + v, len });
            }
        }
    }
    for l in 1..=5usize {
        let (r, c) = [(0, 0), (11, 13), (16, 8), (9, 9), (10, 8), (8, 9)][l];
        let m = rm::max_payload(rm::cap(r, c)).unwrap();
        for d in depths(l) {
            for f in 0..rm::FAMILIES {
                for pattern in 0..rm::PATTERNS {
                    if l >= 4 && t == Tier::Quick && pattern > 2 {
                        continue;
                    }
                    out.push(Cfg { r, c, l, depth_m: *d, family: f, pattern, len: m });
                }
            }
        }
    }
    // every depth in a fine range
    for l in 1..=3usize {
        let lo = (1i64 << (l + 1)) * 1000 + 125;
        for k in 0..t.pick(120, 400) {
            for f in [8, 5] {
                out.push(Cfg { r: 9, c: 11, l, depth_m: lo + k * t.pick(2125, 625), family: f, pattern: 5, len: 8 });
            }
        }
    }
    // every flat grey level
    out.retain(|c| c.range().is_some());
}

/// what the payload says: every value at every place, every pair of bytes at the ends, runs at the ends
fn content_sweep(t: Tier, out: &mut Vec<Cfg>) {
    for (r, c, len) in [(8, 9, 5), (8, 16, 6), (16, 16, 14), (16, 25, 46), (8, 10, 6), (16, 32, 60)] {
        let len = len.min(rm::max_payload(rm::cap(r, c)).unwrap());
        let mut add = |pattern: usize| out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 9, pattern, len });
        for base in 0..t.pick(2, 3) {
            for i in 0..len {
                for v in 0..256 {
                    add(10_000 + base * 65536 + i * 256 + v);
                }
            }
        }
        for kind in 0..rm::RUNS {
            for n in 1..=len {
                add(3_000_000 + kind * 10_000 + n);
            }
        }
    }
    for (r, c, len) in t.pick(vec![(8, 9, 2), (8, 9, 5), (8, 16, 2)], vec![(8, 9, 2), (8, 9, 5), (8, 16, 2), (8, 16, 6), (16, 16, 2)]) {
        for n in 0..65536 {
            out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 0, pattern: 1_000_000 + n, len });
            if len > 2 {
                out.push(Cfg { r, c, l: 1, depth_m: 30000, family: 0, pattern: 2_000_000 + n, len });
            }
        }
    }
}

fn c01_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    value_sweep(t, &mut v);
    length_sweep(t, &mut v);
    geometry_sweep(t, &mut v);
    // up to the longest payload the headers can describe
    for (r, c) in t.pick(vec![(1032, 1032)], vec![(1032, 1032), (130, 8192), (8192, 130), (1025, 1040)]) {
        for len in t.pick(vec![8191, 8192, 16383, 16384, 32765, 32766, 32767, 32768, 32769, 49152, 65279, 65280, 65532, 65533], (0..=65533).step_by(1021).chain([16383, 16384, 32765, 32766, 32767, 32768, 65532, 65533]).collect()) {
            v.push(Cfg { r, c, l: 1, depth_m: 30000, family: 9, pattern: 5, len });
        }
    }
    content_sweep(t, &mut v);
    // blocks of 64 and 128 pixels
    for l in 6..=7 {
        for (r, c) in t.pick(vec![(9, 8), (8, 10)], vec![(9, 8), (8, 10), (3, 24), (24, 3), (12, 11), (16, 8)]) {
            let m = rm::max_payload(rm::cap(r, c)).unwrap();
            for d in depths(l) {
                for len in [0, 1, m] {
                    v.push(Cfg { r, c, l, depth_m: *d, family: 6, pattern: 5, len });
                }
            }
        }
    }
    v.retain(|c| c.range().is_some());
    v.iter().map(|c| c.case()).collect()
}
fn c01_run(case: &Case, x: &mut Ctx) -> R {
    let c = Cfg::from(case);
    let (img, p) = (c.image(), c.payload());
    let e = match do_embed(&img, &p, c.depth(), c.l) {
        Ok(e) => e,
        Err(m) => return fail("embed-fails", format!("embedding fails: {}", m)),
    };
    x.step(2);
    x.state(&(e.as_slice().map(|s| s.to_vec()), e.dim()));
    match do_extract(&e, c.depth(), c.l) {
        Ok(got) => ensure!(got == p, "round-trip", "embedded {} but extracted {}", short(&p), short(&got)),
        Err(m) => return fail("extract-fails", format!("extraction fails: {}", m)),
    }
    x.validated();
    x.outcome(&format!("{} levels {}", class(c.cap()), c.l));
    x.sample(|| format!("{}: extracted {}", c.show(), short(&p)));
    Ok(())
}

// ---------------------------------------------------------------- C02
fn c02_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    geometry_sweep(t, &mut v);
    v.retain(|c| c.family == 6);
    value_sweep(t, &mut v);
    let n = v.len();
    for i in 0..n {
        let c = v[i];
        if c.pattern < 100 && c.len > 0 {
            let m = rm::max_payload(c.cap()).unwrap();
            for len in [0, 1, m / 2] {
                v.push(Cfg { family: 100 + c.family, len, ..c });
            }
        }
    }
    v.sort_by_key(|c| c.case());
    v.dedup();
    v.retain(|c| c.range().is_some());
    v.iter().map(|c| c.case()).collect()
}
fn c02_run(case: &Case, x: &mut Ctx) -> R {
    let c = Cfg::from(case);
    let (img, p) = (c.image(), c.payload());
    let e = match do_embed(&img, &p, c.depth(), c.l) {
        Ok(e) => e,
        Err(m) => return fail("embed-fails", format!("embedding fails: {}", m)),
    };
    x.step(1);
    x.state(&(e.as_slice().map(|s| s.to_vec()), e.dim()));
    ensure!(e.dim() == img.dim(), "size", "size changed from {:?} to {:?}", img.dim(), e.dim());
    let bound = 0.75 * c.depth() / (1u64 << c.l) as f64 + 1.0;
    let used = rm::stored(&p, c.cap()).len() * 8;
    let s = 1 << c.l;
    let mut range: HashMap<usize, (i64, i64)> = HashMap::new();
    let mut biggest = 0;
    for ((y, xx), a) in img.indexed_iter() {
        let d = e[[y, xx]] as i64 - *a as i64;
        biggest = biggest.max(d.abs());
        let b = (y / s) * c.c + xx / s;
        ensure!(b < used || d == 0, "unused-block", "pixel ({},{}) of a block without data changed from {} to {}", y, xx, a, e[[y, xx]]);
        ensure!((d.abs() as f64) <= bound, "bound", "pixel ({},{}) changed from {} to {}, more than {}", y, xx, a, e[[y, xx]], bound);
        let q = range.entry(b).or_insert((d, d));
        q.0 = q.0.min(d);
        q.1 = q.1.max(d);
        ensure!(q.1 - q.0 <= 1, "uneven", "pixels of block {} moved by {} and {}", b, q.0, q.1);
    }
    x.validated();
    x.maximum("largest pixel change", biggest as u64);
    x.outcome(&format!("change {} level {}", biggest, c.l));
    x.sample(|| format!("{}: largest change {} <= {}, {} of {} blocks carry data", c.show(), biggest, bound, used, c.r * c.c));
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |r: usize, c: usize, len: usize| v.push(Cfg { r, c, l: 1, depth_m: 30000, family: 0, pattern: 7, len });
    for cap in 0..=t.pick(80, 140) {
        for len in 0..=cap + 6 {
            add(8, cap.max(1), len);
        }
    }
    for r in 1..=t.pick(14, 24) {
        for c in r..=t.pick(14, 24) {
            let m = rm::max_payload(rm::cap(r, c)).unwrap_or(0);
            for d in 0..6 {
                add(r, c, (m + 4).saturating_sub(d));
                add(c, r, (m + 4).saturating_sub(d));
            }
        }
    }
    for cap in [81, 100, 127, 128, 129, 143, 144, 191, 192, 255, 256, 257, 300, 384, 511, 512, 513, 600, 768, 1000, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 3071, 3072, 4096] {
        let (r, c) = (8, cap);
        let m = rm::max_payload(cap).unwrap();
        let mut lens = vec![0, 1, m.saturating_sub(2), m.saturating_sub(1), m, m + 1, m + 2, m + 3, m + 4, m + 5, cap.saturating_sub(5), cap - 4, cap - 3, cap - 2, cap - 1, cap, cap + 1, 2 * cap, 8 * cap, 65533, 65534, 65535, 65536, 65537, 65540, 70000];
        if let Some((k, _)) = rm::kn(cap) {
            for w in 1..=cap / k + 2 {
                for d in [w * k, w * k + 1, w * k - 1, (w * k).saturating_sub(3), (w * k).saturating_sub(4), (w * k).saturating_sub(5)] {
                    lens.push(d);
                }
            }
        }
        lens.sort();
        lens.dedup();
        for len in lens {
            if len > 4 * cap && len < 60000 && t == Tier::Quick && cap % 3 != 0 {
                continue;
            }
            add(r, c, len);
        }
    }
    // room for more than 65533 bytes
    for len in t.pick(vec![65533, 65534, 65535, 65536, 65537], vec![65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 131072]) {
        add(1032, 1032, len);
    }
    let mut v: Vec<Case> = v.iter().map(|c| c.case()).collect();
    v.sort_by_key(|c| (c[0] * c[1] > 100000, c.clone()));
    v.dedup();
    v.rotate_left(0);
    v
}
fn c03_run(case: &Case, x: &mut Ctx) -> R {
    let c = Cfg::from(case);
    let (img, p) = (c.image(), c.payload());
    let fits = rm::fits(c.len, c.cap());
    let e = do_embed(&img, &p, c.depth(), c.l);
    x.step(1);
    x.state(&(c.r, c.c, c.len));
    match (fits, e) {
        (true, Err(m)) => return fail("refused-fitting", format!("a payload that fits is refused: {}", m)),
        (false, Ok(e)) => {
            let back = do_extract(&e, c.depth(), c.l).unwrap_or_default();
            return fail("accepted-oversize", format!("a payload that does not fit is accepted; {} bytes read back", back.len()));
        }
        (true, Ok(e)) => {
            let back = match do_extract(&e, c.depth(), c.l) {
                Ok(b) => b,
                Err(m) => return fail("extract-fails", format!("accepted, but extraction fails: {}", m)),
            };
            ensure!(back == p, "truncated", "accepted, but {} bytes come back as {}", p.len(), short(&back));
            x.step(1);
            x.outcome(&format!("accepted {}", class(c.cap())));
        }
        (false, Err(_)) => x.outcome(&format!("refused {}", if c.cap() < 9 { "too small" } else if c.len + 2 > 65535 { "too long for its header" } else { class(c.cap()) })),
    }
    x.validated();
    x.sample(|| format!("{}: {}", c.show(), if fits { "accepted and read back" } else { "refused" }));
    Ok(())
}

// ---------------------------------------------------------------- C04
// case: cfg + [kind, block, sign, permille]
const KINDS: usize = 7;
fn c04_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let geos: &[(usize, usize, usize, &[i64])] = &[
        (9, 8, 1, &[10000, 30000]),
        (8, 16, 1, &[30000]),
        (8, 12, 2, &[30000, 100000]),
        (9, 8, 3, &[30000, 100000]),
        (16, 16, 1, &[100000]),
        (9, 8, 4, &[100000, 1000000]),
        (6, 12, 5, &[200000]),
        (8, 9, 6, &[300000]),
    ];
    for (r, c, l, ds) in geos {
        if *l == 6 && t == Tier::Quick {
            continue;
        }
        for d in ds.iter() {
            for family in t.pick(vec![0, 6], vec![0, 3, 5, 6, 7, 8]) {
                for pattern in t.pick(vec![3, 5], vec![0, 1, 2, 3, 5]) {
                    let m = rm::max_payload(rm::cap(*r, *c)).unwrap();
                    let base = Cfg { r: *r, c: *c, l: *l, depth_m: *d, family, pattern, len: m };
                    for kind in 0..KINDS {
                        let blocks = if kind < 3 { r * c } else { 1 };
                        for b in 0..blocks {
                            for sign in [1, -1] {
                                for permille in [999, 600] {
                                    let mut k = base.case();
                                    k.extend([kind as i64, b as i64, sign, permille]);
                                    v.push(k);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // sessions: every history of embeddings and distortions up to a length
    for (r, c, l, d) in [(9, 8, 1, 20000), (8, 16, 1, 30000), (8, 12, 2, 40000), (9, 8, 3, 80000), (16, 16, 1, 24000), (20, 13, 1, 20000), (13, 20, 2, 40000), (9, 8, 4, 160000)] {
        for family in t.pick(vec![0, 6, 8], vec![0, 3, 5, 6, 7, 8, 9]) {
            let m = rm::max_payload(rm::cap(r, c)).unwrap();
            let mut k = Cfg { r, c, l, depth_m: d, family, pattern: 5, len: m }.case();
            k.extend([SESSION, t.pick(4, 6), 0, 999]);
            v.push(k);
        }
    }
    // end to end on a larger image with a real code, whole-image distortions
    for (r, c, l, d) in [(32, 32, 3, 100000), (64, 64, 1, 60000), (26, 26, 3, 100000), (256, 256, 1, 60000), (64, 300, 2, 100000), (300, 64, 2, 100000), (16, 16, 5, 400000)] {
        for kind in 3..KINDS {
            for sign in [1, -1] {
                let mut k = Cfg { r, c, l, depth_m: d, family: 9, pattern: 5, len: rm::max_payload(rm::cap(r, c)).unwrap() }.case();
                k.extend([kind as i64, 0, sign, 999]);
                v.push(k);
            }
        }
    }
    v
}
/// distorts so that each block's coefficient moves by at most `margin`
fn distort(e: &Array2<u8>, c: &Cfg, kind: usize, block: usize, sign: i64, margin: f64) -> (Array2<u8>, f64) {
    let s = 1usize << c.l;
    let budget = (margin * s as f64).floor() as i64; // of the block sum
    let mut o = e.clone();
    let mut worst = 0.0f64;
    for b in 0..c.r * c.c {
        let on = match kind {
            0 | 1 | 2 => b == block,
            _ => true,
        };
        if !on {
            continue;
        }
        let sg = match kind {
            5 => if (b + block) % 2 == 0 { sign } else { -sign },
            _ => sign,
        };
        let (by, bx) = (b / c.c * s, b % c.c * s);
        let mut left = budget;
        let mut moved = 0i64;
        match kind {
            0 | 3 | 5 => {
                // everything evenly over the block
                let q = left / (s * s) as i64;
                let mut rem = left - q * (s * s) as i64;
                for y in 0..s {
                    for x in 0..s {
                        let a = q + if rem > 0 { 1 } else { 0 };
                        rem -= 1;
                        let p = &mut o[[by + y, bx + x]];
                        let n = (*p as i64 + sg * a).clamp(0, 255);
                        moved += n - *p as i64;
                        *p = n as u8;
                    }
                }
            }
            1 | 4 => {
                // spikes: as much as possible in single pixels, starting from a corner
                for i in 0..s * s {
                    let (y, x) = if sign > 0 { (i / s, i % s) } else { (s - 1 - i / s, s - 1 - i % s) };
                    let p = &mut o[[by + y, bx + x]];
                    let room = if sg > 0 { 255 - *p as i64 } else { *p as i64 };
                    let a = left.min(room);
                    left -= a;
                    moved += sg * a;
                    *p = (*p as i64 + sg * a) as u8;
                }
            }
            _ => {
                // strong noise whose block sum cancels, plus one budgeted spike
                for i in 0..s * s / 2 {
                    let (y1, x1) = ((2 * i) / s, (2 * i) % s);
                    let (y2, x2) = ((2 * i + 1) / s, (2 * i + 1) % s);
                    let a = o[[by + y1, bx + x1]] as i64;
                    let d = o[[by + y2, bx + x2]] as i64;
                    let (up, down) = if sg > 0 { (255 - a, d) } else { (a, 255 - d) };
                    let m = up.min(down).min(60 + (i as i64 * 13) % 50);
                    o[[by + y1, bx + x1]] = (a + sg * m) as u8;
                    o[[by + y2, bx + x2]] = (d - sg * m) as u8;
                }
            }
        }
        worst = worst.max((moved as f64 / s as f64).abs());
    }
    (o, worst)
}
const SESSION: i64 = 100;
/// all histories of embeddings of two payloads and of distortions up to a length; after an embedding,
/// and after one distortion since, the payload must be readable
fn c04_session(case: &Case, x: &mut Ctx) -> R {
    let c = Cfg::from(case);
    let (s, longest, d) = (1usize << c.l, case[8] as usize, c.depth());
    let need = rm::headroom(d, c.l).ceil() as u8;
    let payloads = [c.payload(), rm::payload(2, c.len / 2), vec![]];
    let margin = (d / 4.0 - (1u64 << (c.l - 1)) as f64) * 0.999;
    let kinds: [(usize, usize, i64); 4] = [(3, 0, 1), (3, 0, -1), (5, 0, 1), (2, 0, 1)];
    let start = rm::image(c.family, c.r * s, c.c * s, need.max(100), 155, s);
    // (image, payload last embedded, distorted since)
    let mut seen = std::collections::HashSet::new();
    let mut level = vec![(start, None::<usize>, true, vec![])];
    for depth in 0..longest {
        let mut next: Vec<(Array2<u8>, Option<usize>, bool, Vec<String>)> = vec![];
        for (img, last, distorted, h) in level {
            if img.iter().all(|p| *p >= need && *p <= 255 - need) {
                for (i, p) in payloads.iter().enumerate() {
                    let h: Vec<String> = h.iter().cloned().chain([format!("embed payload {}", i)]).collect();
                    match do_embed(&img, p, d, c.l) {
                        Ok(e) => next.push((e, Some(i), false, h)),
                        Err(m) => return fail("embed-fails", format!("embedding fails after {:?}: {}", h, m)),
                    }
                }
            }
            if !distorted {
                for k in kinds {
                    let (o, _) = distort(&img, &c, k.0, k.1, k.2, margin);
                    next.push((o, last, true, h.iter().cloned().chain([format!("distort {:?}", k)]).collect()));
                }
            }
        }
        level = vec![];
        for (img, last, distorted, h) in next {
            x.step(1);
            let key: Vec<u8> = img.iter().cloned().collect();
            x.state(&(&key, last, distorted));
            if !seen.insert((key, last, distorted)) {
                continue;
            }
            let p = &payloads[last.expect("embedded")];
            match do_extract(&img, d, c.l) {
                Ok(got) => ensure!(got == *p, "session", "after {:?} extraction gives {} instead of {}", h, short(&got), short(p)),
                Err(m) => return fail("extract-fails", format!("after {:?} extraction fails: {}", h, m)),
            }
            x.validated();
            level.push((img, last, distorted, h));
        }
        x.maximum("longest session", depth as u64 + 1);
    }
    x.outcome("session");
    x.sample(|| format!("{}: {} states of a session", c.show(), seen.len()));
    Ok(())
}
fn c04_run(case: &Case, x: &mut Ctx) -> R {
    if case[7] == SESSION {
        return c04_session(case, x);
    }
    let c = Cfg::from(case);
    let (kind, block, sign, pm) = (case[7] as usize, case[8] as usize, case[9], case[10]);
    let (img, p) = (c.image(), c.payload());
    let e = match do_embed(&img, &p, c.depth(), c.l) {
        Ok(e) => e,
        Err(m) => return fail("embed-fails", format!("embedding fails: {}", m)),
    };
    let margin = (c.depth() / 4.0 - (1u64 << (c.l - 1)) as f64) * pm as f64 / 1000.0;
    let (o, moved) = distort(&e, &c, kind, block, sign, margin);
    assert!(moved < c.depth() / 4.0 - (1u64 << (c.l - 1)) as f64);
    x.step(2);
    x.state(&o.iter().cloned().collect::<Vec<u8>>());
    let changed = o != e;
    match do_extract(&o, c.depth(), c.l) {
        Ok(got) => ensure!(got == p, "distorted", "a distortion of {} (margin {}) turns {} into {}", moved, margin, short(&p), short(&got)),
        Err(m) => return fail("extract-fails", format!("after a distortion of {} extraction fails: {}", moved, m)),
    }
    x.validated();
    x.outcome(&format!("kind {} levels {} {}", kind, c.l, if changed { "changed" } else { "unchanged" }));
    x.sample(|| format!("{}; distortion kind {} block {} sign {} moves a coefficient by {}", c.show(), kind, block, sign, moved));
    Ok(())
}

// ---------------------------------------------------------------- C05
// case: [r, c, l, family, opset, max_states]
fn c05_ops(set: usize, cap: usize) -> Vec<(Vec<u8>, f64)> {
    let m = rm::max_payload(cap).unwrap();
    let d = match set / 10 {
        0 => 30.0,
        1 => 100.0,
        _ => 47.3,
    };
    let a = vec![
        (rm::payload(5, m), d),
        (rm::payload(2, 1), d),
        (vec![], d),
        (rm::payload(7, m / 2), d),
        (rm::payload(1, m), d),
        (rm::payload(3, m.saturating_sub(1)), d),
    ];
    match set % 10 {
        0 => a,
        1 => {
            // one foreign depth
            let mut b = a[..4].to_vec();
            b.push((rm::payload(6, m), d * 0.61));
            b.push((rm::payload(2, m / 2), d * 1.3));
            b
        }
        _ => a[..3].to_vec(),
    }
}
fn c05_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for (r, c, l) in [(9, 8, 1), (8, 16, 1), (8, 9, 2), (16, 16, 1), (9, 8, 3), (20, 13, 1), (8, 16, 3)] {
        for family in t.pick(vec![0, 3, 5, 7, 8], vec![0, 3, 4, 5, 6, 7, 8, 9]) {
            for set in [0, 10, 20, 1, 11] {
                v.push(vec![r, c, l, family, set, t.pick(60, 600)]);
            }
        }
    }
    v
}
fn c05_show(k: &Case) -> String {
    format!("image {}x{} family {}, levels {}, operation set {}, up to {} image states", k[0] << k[2], k[1] << k[2], k[3], k[2], k[4], k[5])
}
fn c05_run(k: &Case, x: &mut Ctx) -> R {
    let (r, c, l) = (k[0] as usize, k[1] as usize, k[2] as usize);
    let ops = c05_ops(k[4] as usize, rm::cap(r, c));
    let one_depth = ops.iter().all(|o| o.1 == ops[0].1);
    let dmax = ops.iter().map(|o| o.1).fold(0.0, f64::max);
    // room for several foreign depths
    let lo = ((rm::headroom(dmax, l) * if one_depth { 1.0 } else { 2.4 }).ceil() as u8).min(120);
    let s = 1usize << l;
    let start = rm::image(k[3] as usize, r * s, c * s, lo, 255 - lo, s);
    let bound = 0.75 * dmax / s as f64 + 1.0;
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut frontier: VecDeque<(Array2<u8>, Option<usize>, Vec<usize>)> = VecDeque::new();
    seen.insert(start.iter().cloned().collect(), 0);
    frontier.push_back((start.clone(), None, vec![]));
    let mut maxdepth = 0;
    let mut capped = false;
    while let Some((img, last, hist)) = frontier.pop_front() {
        for (i, (p, d)) in ops.iter().enumerate() {
            let mut h = hist.clone();
            h.push(i);
            let e = match do_embed(&img, p, *d, l) {
                Ok(e) => e,
                Err(m) => return fail("embed-fails", format!("embedding fails after history {:?}: {}", h, m)),
            };
            x.step(1);
            let got = do_extract(&e, *d, l);
            ensure!(got.as_ref() == Ok(p), "last-wins", "after the embeddings {:?} (of {:?}) the image yields {:?} instead of {}", h, ops.iter().map(|o| (o.0.len(), o.1)).collect::<Vec<_>>(), got.map(|g| short(&g)), short(p));
            x.validated();
            if one_depth {
                for (a, b) in e.iter().zip(start.iter()) {
                    let df = (*a as i64 - *b as i64).abs();
                    ensure!(df as f64 <= bound, "drift", "after the embeddings {:?} a pixel is {} away from the original, more than {}", h, df, bound);
                    x.maximum("largest distance from the original", df as u64);
                }
            }
            if last == Some(i) {
                for (a, b) in e.iter().zip(img.iter()) {
                    ensure!((*a as i64 - *b as i64).abs() <= 1, "not-idempotent", "embedding the same payload again ({:?}) changes a pixel from {} to {}", h, b, a);
                }
                x.outcome(if e == img { "again: identical" } else { "again: rounding" });
            }
            let key: Vec<u8> = e.iter().cloned().collect();
            x.state(&(k[..5].to_vec(), key.clone()));
            maxdepth = maxdepth.max(h.len());
            if !seen.contains_key(&key) {
                if seen.len() >= k[5] as usize {
                    capped = true;
                } else {
                    seen.insert(key, h.len());
                    frontier.push_back((e, Some(i), h));
                }
            } else if one_depth {
                x.count("transitions into known states", 1);
            }
        }
    }
    x.maximum("longest history", maxdepth as u64);
    x.outcome(if capped { "state cap reached" } else { "all reachable image states visited" });
    x.count(if capped { "graphs with state cap" } else { "graphs closed" }, 1);
    x.sample(|| format!("{}: {} image states, longest history {}, {}", c05_show(k), seen.len(), maxdepth, if capped { "capped" } else { "closed" }));
    Ok(())
}

// ---------------------------------------------------------------- C06
// case: [h, w, l, kind, a, b]; kind 0: all unit matrices, 1: structured, 2: pairs
fn c06_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for l in 1..=t.pick(4, 5i64) {
        let s = 1i64 << l;
        let n = t.pick(32, 64);
        for a in 1..=n / s {
            for b in 1..=n / s {
                let (h, w) = (a * s, b * s);
                if h * w <= t.pick(640, 2048) {
                    v.push(vec![h, w, l, 0, 0, 0]);
                }
                for kind in 1..=6 {
                    v.push(vec![h, w, l, kind, 0, 0]);
                }
            }
        }
    }
    for (h, w, l) in [(208, 208, 3), (168, 256, 3), (256, 168, 3), (8, 512, 3), (512, 8, 3), (64, 64, 6), (128, 64, 6), (256, 256, 8), (512, 512, 3), (2, 1024, 1), (1024, 2, 1), (512, 384, 7), (2, 65534, 1), (2, 65536, 1), (2, 65584, 1), (65584, 2, 1), (4, 131076, 2), (131076, 4, 2), (32, 64, 5), (64, 32, 5), (128, 128, 7), (512, 512, 9)] {
        for kind in 1..=6 {
            if h * w > 100_000 && kind != 3 && kind != 6 {
                continue;
            }
            v.push(vec![h, w, l, kind, 0, 0]);
        }
    }
    v
}
fn c06_show(k: &Case) -> String {
    format!("{}x{} matrix, {} levels, {}", k[0], k[1], k[2], ["every unit matrix", "grey ramp", "signed fractions", "mixed magnitudes", "checkerboard", "sums of two unit matrices", "random-like bytes"][k[3] as usize])
}
fn c06_one(m: &Array2<f64>, l: usize, x: &mut Ctx) -> R {
    let f = guard(|| embedding::verif_hooks::dwt_2d(m.clone(), l, false)).map_err(|e| Fail { key: "fails".into(), msg: format!("the forward transform fails: {}", e) })?;
    let scale = m.iter().fold(1e-300, |a: f64, b| a.max(b.abs()));
    ensure!(f.dim() == m.dim(), "shape", "shape {:?} becomes {:?}", m.dim(), f.dim());
    let want = rm::haar(m, l);
    let tol = 1e-9 * scale * (1u64 << l) as f64;
    for ((p, a), b) in f.indexed_iter().zip(want.iter()) {
        ensure!((a - b).abs() <= tol, "definition", "coefficient {:?} is {} instead of {}", p, a, b);
    }
    let back = guard(|| embedding::verif_hooks::dwt_2d(f.clone(), l, true)).map_err(|e| Fail { key: "fails".into(), msg: format!("the inverse transform fails: {}", e) })?;
    for ((p, a), b) in back.indexed_iter().zip(m.iter()) {
        ensure!((a - b).abs() <= tol, "reconstruction", "entry {:?} comes back as {} instead of {}", p, a, b);
    }
    // the inverse is checked on its own input space, too
    let g = guard(|| embedding::verif_hooks::dwt_2d(m.clone(), l, true)).map_err(|e| Fail { key: "fails".into(), msg: format!("the inverse transform fails: {}", e) })?;
    let again = rm::haar(&g, l);
    for ((p, a), b) in again.indexed_iter().zip(m.iter()) {
        ensure!((a - b).abs() <= tol * 4.0, "inverse", "inverse then transform: entry {:?} is {} instead of {}", p, a, b);
    }
    let (e0, e1) = (m.iter().map(|a| a * a).sum::<f64>(), f.iter().map(|a| a * a).sum::<f64>());
    ensure!((e0 - e1).abs() <= 1e-9 * e0.max(1e-300), "energy", "energy {} becomes {}", e0, e1);
    x.step(3);
    x.validated();
    Ok(())
}
fn c06_run(k: &Case, x: &mut Ctx) -> R {
    let (h, w, l) = (k[0] as usize, k[1] as usize, k[2] as usize);
    x.state(&k);
    match k[3] {
        0 => {
            for i in 0..h * w {
                let mut m = Array2::zeros([h, w]);
                m[[i / w, i % w]] = 1.0;
                c06_one(&m, l, x)?;
                x.state(&(h, w, l, i));
            }
        }
        5 => {
            // linearity, decided on pairs of unit matrices with different weights
            for i in 0..(h * w).min(64) {
                let j = (i * 7 + 3) % (h * w);
                let mut m = Array2::zeros([h, w]);
                m[[i / w, i % w]] += 200.0;
                m[[j / w, j % w]] -= 0.375;
                c06_one(&m, l, x)?;
            }
        }
        kind => {
            let m = Array2::from_shape_fn([h, w], |(y, xx)| {
                let z = rm::mix(y as u64, xx as u64, kind as u64);
                match kind {
                    1 => (y * 3 + xx) as f64,
                    2 => (z % 2001) as f64 / 16.0 - 62.0,
                    3 => [1e-6, 1.0, 1e6, -1e3, 0.0][(z % 5) as usize],
                    4 => if (y + xx) % 2 == 0 { 255.0 } else { 0.0 },
                    _ => (z % 256) as f64,
                }
            });
            c06_one(&m, l, x)?;
        }
    }
    x.outcome(&format!("levels {} {}", l, if h == w { "square" } else if h > w { "tall" } else { "wide" }));
    x.sample(|| c06_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Cfg> = vec![];
    let mut add = |r: usize, c: usize, l: usize, depth_m: i64, family: usize, pattern: usize, len: usize| v.push(Cfg { r, c, l, depth_m, family, pattern, len });
    let lens = |m: usize| {
        let mut a = vec![0, 1, 2, m / 3, m / 2, m.saturating_sub(1), m];
        a.retain(|x| *x <= m);
        a.sort();
        a.dedup();
        a
    };
    for cap in (9..=t.pick(140, 300)).chain([255, 256, 257, 384, 511, 512, 513, 600, 1023, 1024, 1025, 1500, 2048, 3072]) {
        if let Some(m) = rm::max_payload(cap) {
            for len in lens(m) {
                for (r, c) in [(8, cap), (cap, 8), dims(cap)] {
                    add(r, c, 1, 30000, 9, 5, len);
                }
            }
        }
    }
    for l in 1..=3usize {
        for r in 1..=t.pick(12, 20) {
            for c in 1..=t.pick(12, 20) {
                if let Some(m) = rm::max_payload(rm::cap(r, c)) {
                    for len in [1.min(m), m] {
                        add(r, c, l, depths(l)[2], 6, 0, len);
                    }
                }
            }
        }
    }
    for (r, c, l) in [(8, 9, 1), (8, 16, 1), (16, 16, 2), (9, 11, 3), (64, 64, 1)] {
        let m = rm::max_payload(rm::cap(r, c)).unwrap();
        for p in (0..rm::PATTERNS).chain(100..356) {
            if r * c > 2000 && p >= 104 {
                continue;
            }
            add(r, c, l, 30000, 9, p, m);
        }
        for f in 0..rm::FAMILIES {
            for d in depths(l) {
                add(r, c, l, *d, f, 5, m);
            }
        }
    }
    for (r, c, len) in [(8, 9, 5), (8, 16, 6), (16, 25, 40)] {
        let len = len.min(rm::max_payload(rm::cap(r, c)).unwrap());
        for n in 0..256 * len {
            add(r, c, 1, 30000, 9, 10_000 + n, len);
        }
        for kind in 0..rm::RUNS {
            for n in 1..=len {
                add(r, c, 1, 30000, 9, 3_000_000 + kind * 10_000 + n, len);
            }
        }
    }
    for n in 0..65536 {
        add(8, 9, 1, 30000, 0, 1_000_000 + n, 2);
    }
    for len in [1, 255, 256, 257, 508, 509, 1000, 4000] {
        add(256, 256, 1, 30000, 9, 5, len);
    }
    for len in [1, 4096, 32767, 32768, 65533] {
        add(1032, 1032, 1, 30000, 9, 5, len);
    }
    for l in 4..=7usize {
        for (r, c) in [(8, 9), (9, 8), (3, 24), (24, 3), (12, 11), (8, 16)] {
            let m = rm::max_payload(rm::cap(r, c)).unwrap();
            for len in [0, 1, m] {
                add(r, c, l, depths(l)[1], 6, 0, len);
            }
        }
    }
    v.retain(|c| c.range().is_some());
    let mut v: Vec<Case> = v.iter().map(|c| c.case()).collect();
    v.sort();
    v.dedup();
    v
}
fn c07_run(case: &Case, x: &mut Ctx) -> R {
    let c = Cfg::from(case);
    let (img, p) = (c.image(), c.payload());
    let e = match do_embed(&img, &p, c.depth(), c.l) {
        Ok(e) => e,
        Err(m) => return fail("embed-fails", format!("embedding fails: {}", m)),
    };
    x.step(2);
    // what is in the image, bit by bit
    let want = rm::stored(&p, c.cap());
    let got = rm::read_bytes(&e, c.depth(), c.l);
    for (i, w) in want.iter().enumerate() {
        ensure!(got[i] == *w, "layout", "stored byte {} of {} is {:#04x} instead of {:#04x}", i, want.len(), got[i], w);
    }
    let co = rm::coefficients(&e, c.l);
    let tol = (1u64 << (c.l - 1)) as f64 + 1e-6;
    for (i, b) in rm::bits(&want).iter().enumerate() {
        let q = co[[i / c.c, i % c.c]] / c.depth() - if *b { 0.25 } else { -0.25 };
        ensure!((q - q.round()).abs() * c.depth() <= tol, "margin", "the block of bit {} lies {} away from its level", i, (q - q.round()).abs() * c.depth());
    }
    // the independent reader reads this image
    ensure!(rm::unstored(&got, c.cap()).as_ref() == Some(&p), "reader", "an independent reader gets {:?}", rm::unstored(&got, c.cap()).map(|b| short(&b)));
    // this reader reads an independently written image
    let o = rm::write_bytes(&img, &want, c.depth(), c.l);
    match do_extract(&o, c.depth(), c.l) {
        Ok(g) => ensure!(g == p, "foreign", "an independently written image with {} is read as {}", short(&p), short(&g)),
        Err(m) => return fail("foreign-fails", format!("reading an independently written image fails: {}", m)),
    }
    x.state(&o.iter().cloned().collect::<Vec<u8>>());
    x.validated();
    x.outcome(&format!("{} levels {}", class(c.cap()), c.l));
    x.sample(|| format!("{}: {} stored bytes equal, both readers agree", c.show(), want.len()));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "Product of geometries (all small shapes, every code class), level counts, depths, image families, payload patterns and all payload lengths up to capacity; each case embeds with the real code, extracts with the real code and compares with the payload.",
            cases: c01_cases, run: c01_run, describe: show,
            bounds: |t| json!({"coefficient_grid_levels1": t.pick("all r,c <= 26", "all r,c <= 44"), "levels": "1..7", "lengths": "all 0..max for 24 capacities <= 1024 bytes, all codeword boundaries up to 8192 bytes, powers of two up to the longest describable payload (65533 bytes)", "values": "all 256 byte values, 8 patterns; every value at every place of six payloads, every pair of bytes at both ends, runs of eight values at both ends", "depths": "up to 7 per level count plus a fine sweep"}),
            assumptions: &["pixel alphabet: ten structured families inside the stated headroom", "other payload contents are not enumerated; writing and reading treat each bit alone (layout is decided by C07)"],
            timeout: 120, min_outcomes: 10,
        },
        Check {
            id: "C02",
            rule: "Same product; every pixel of the image returned by embedding is compared with the original, including blocks behind the data that hold saturated pixels.",
            cases: c02_cases, run: c02_run, describe: show,
            bounds: |t| json!({"coefficient_grid_levels1": t.pick("all r,c <= 26", "all r,c <= 44"), "levels": "1..5", "families": "10, each also with saturated unused blocks"}),
            assumptions: &["number of blocks that carry data is taken from the reference layout"],
            timeout: 120, min_outcomes: 10,
        },
        Check {
            id: "C03",
            rule: "Every capacity up to the bound times every payload length up to capacity+6, plus all lengths around codeword, capacity and 16-bit boundaries of larger capacities; acceptance and read-back compared with the reference capacity rule.",
            cases: c03_cases, run: c03_run, describe: show,
            bounds: |t| json!({"capacities_exhaustive": t.pick("0..80 bytes", "0..140 bytes"), "larger": "30 capacities up to 4096 bytes and one of 133128 bytes", "lengths": "0..131072"}),
            assumptions: &["refusal is a panic, as everywhere in this code base"],
            timeout: 120, min_outcomes: 6,
        },
        Check {
            id: "C04",
            rule: "After embedding, every block position x distortion kind (even, spike, cancelling noise; one block, all blocks, alternating signs) x sign x strength (60% and 99.9% of the bound) is applied and extracted. Sessions: every history of embeddings and distortions up to a length, states deduplicated, extraction after each step.",
            cases: c04_cases, run: c04_run, describe: |k| if k[7] == SESSION { format!("{}; all sessions of up to {} embeddings and distortions", show(k), k[8]) } else { format!("{}; distortion kind {} at block {} sign {} at {} permille of the margin", show(k), k[7], k[8], k[9], k[10]) },
            bounds: |_| json!({"positions": "every block of 8 (quick: 7) geometries, levels 1..6", "whole_image": "also 7 larger geometries", "sessions": "all histories of 3 embeddings and 4 distortions up to 4 (thorough: 6) steps, 8 geometries"}),
            assumptions: &["distortions move a block evenly, in spikes from a corner or in cancelling pairs"],
            timeout: 120, min_outcomes: 10,
        },
        Check {
            id: "C05",
            rule: "Breadth-first search of the graph whose states are images and whose transitions are real embed calls with each (payload, depth) of an alphabet; states deduplicated by their pixels; invariants evaluated on every transition.",
            cases: c05_cases, run: c05_run, describe: c05_show,
            bounds: |t| json!({"states_per_graph": t.pick(60, 600), "operations": "3 to 6 (payload, depth) pairs", "graphs": "7 geometries x image families x 5 operation sets"}),
            assumptions: &["the state is the image alone: embed has no other input (call-history independence is C27)"],
            timeout: 300, min_outcomes: 2,
        },
        Check {
            id: "C06",
            rule: "Every shape up to the bound and every level count it allows: all unit matrices, pairs of unit matrices and structured matrices are transformed forward and back by the real code and compared with the textbook transform.",
            cases: c06_cases, run: c06_run, describe: c06_show,
            bounds: |t| json!({"shapes": t.pick("all multiples of 2^levels up to 32x32, levels 1..4, plus 12 large", "all multiples of 2^levels up to 64x64, levels 1..5, plus 12 large"), "basis": t.pick("all unit matrices of shapes up to 640 entries", "up to 2048 entries")}),
            assumptions: &["reaches the crate-private transform through a re-export guarded by cfg(sia_verif)", "tolerance 1e-9 relative"],
            timeout: 120, min_outcomes: 6,
        },
        Check {
            id: "C07",
            rule: "For every capacity class and boundary, geometry, length and content of the alphabet: the image written by the real code is read block by block by the reference reader and compared with the reference encoder, and an image written by the reference writer is read by the real code.",
            cases: c07_cases, run: c07_run, describe: show,
            bounds: |t| json!({"capacities": t.pick("9..140 and all code boundaries to 8192 bytes", "9..300 and all code boundaries to 8192 bytes"), "shapes": t.pick("all r,c <= 12 at levels 1..3, six at levels 4..7", "all r,c <= 20 at levels 1..3, six at levels 4..7")}),
            assumptions: &["the third-party LDPC code is shared by both sides and trusted"],
            timeout: 120, min_outcomes: 6,
        },
    ]
}
