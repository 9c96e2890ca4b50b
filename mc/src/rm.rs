//! Reference model, written from the published layout and textbook definitions, independently of
//! the code under test. The only thing shared with it is the third-party LDPC code itself.
use labrador_ldpc::LDPCCode;
use ndarray::Array2;

// ---------------------------------------------------------------- layout
/// bytes an image of r x c lowest-frequency coefficients offers
pub fn cap(r: usize, c: usize) -> usize {
    r * c / 8
}
pub fn code(cap: usize) -> Option<LDPCCode> {
    match cap {
        16 => Some(LDPCCode::TC128),
        32 => Some(LDPCCode::TC256),
        64 | 128 => Some(LDPCCode::TC512),
        256 | 512 => Some(LDPCCode::TM2048),
        c if c >= 1024 => Some(LDPCCode::TM8192),
        _ => None,
    }
}
/// (data bytes, codeword bytes) of one word
pub fn kn(cap: usize) -> Option<(usize, usize)> {
    match cap {
        16 => Some((8, 16)),
        32 => Some((16, 32)),
        64 | 128 => Some((32, 64)),
        256 | 512 => Some((128, 256)),
        c if c >= 1024 => Some((512, 1024)),
        _ => None,
    }
}
pub fn encoded_len(data: usize, cap: usize) -> usize {
    match kn(cap) {
        None => data + 2,
        Some((k, n)) => (data + 2 + k - 1) / k * n,
    }
}
/// largest payload an image of this capacity can hold
pub fn max_payload(cap: usize) -> Option<usize> {
    if cap < 9 {
        return None;
    }
    let inner = match kn(cap) {
        None => cap,
        Some((k, n)) => cap / n * k,
    };
    if inner < 4 { None } else { Some((inner - 4).min(65533)) }
}
pub fn fits(len: usize, cap: usize) -> bool {
    cap >= 9 && len + 2 <= 65535 && encoded_len(len + 2, cap) <= cap
}
/// big-endian header, words zero padded, each encoded
pub fn code_encode(data: &[u8], cap: usize) -> Vec<u8> {
    let mut b = vec![(data.len() >> 8) as u8, (data.len() & 255) as u8];
    b.extend_from_slice(data);
    match code(cap) {
        None => b,
        Some(code) => {
            let (k, n) = kn(cap).unwrap();
            assert!(code.k() == 8 * k && code.n() == 8 * n);
            let mut out = vec![];
            for i in (0..b.len()).step_by(k) {
                let mut w = vec![0u8; k];
                let e = (i + k).min(b.len());
                w[..e - i].copy_from_slice(&b[i..e]);
                let mut cw = vec![0u8; n];
                code.copy_encode(&w, &mut cw);
                out.extend_from_slice(&cw);
            }
            out
        }
    }
}
/// systematic code: the data bytes of error-free codewords
pub fn code_decode_clean(bytes: &[u8], cap: usize) -> Option<Vec<u8>> {
    let mut d = vec![];
    match kn(cap) {
        None => d.extend_from_slice(bytes),
        Some((k, n)) => {
            for w in bytes.chunks(n) {
                if w.len() == n {
                    d.extend_from_slice(&w[..k]);
                }
            }
        }
    }
    if d.len() < 2 {
        return None;
    }
    let l = ((d[0] as usize) << 8) | d[1] as usize;
    d.get(2..2 + l).map(|x| x.to_vec())
}
/// bytes stored in the image for a payload
pub fn stored(payload: &[u8], cap: usize) -> Vec<u8> {
    let mut d = vec![(payload.len() & 255) as u8, (payload.len() >> 8) as u8];
    d.extend_from_slice(payload);
    code_encode(&d, cap)
}
pub fn unstored(bytes: &[u8], cap: usize) -> Option<Vec<u8>> {
    let d = code_decode_clean(bytes, cap)?;
    if d.len() < 2 {
        return None;
    }
    let l = ((d[1] as usize) << 8) | d[0] as usize;
    d.get(2..2 + l).map(|x| x.to_vec())
}
pub fn bits(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
pub fn from_bits(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | ((*x as u8) << i))).collect()
}

// ---------------------------------------------------------------- image blocks
/// exact block sums; coefficient = sum / 2^levels
pub fn block_sums(img: &Array2<u8>, levels: usize) -> Array2<i64> {
    let s = 1usize << levels;
    let (h, w) = img.dim();
    let mut o = Array2::zeros([h / s, w / s]);
    for ((y, x), p) in img.indexed_iter() {
        o[[y / s, x / s]] += *p as i64;
    }
    o
}
pub fn coefficients(img: &Array2<u8>, levels: usize) -> Array2<f64> {
    block_sums(img, levels).mapv(|s| s as f64 / (1u64 << levels) as f64)
}
/// bit a coefficient stands for, with its distance from the nearest decision border
pub fn bit_of(c: f64, depth: f64) -> (bool, f64) {
    let q = c / depth;
    let f = q - q.floor(); // [0,1): bit 1 in [0,.5), bit 0 in [.5,1)
    let d = [f, (f - 0.5).abs(), 1.0 - f].iter().cloned().fold(1.0, f64::min);
    (f < 0.5, d * depth)
}
pub fn read_bytes(img: &Array2<u8>, depth: f64, levels: usize) -> Vec<u8> {
    let c = coefficients(img, levels);
    let n = c.len() / 8 * 8;
    let b: Vec<bool> = c.iter().take(n).map(|c| bit_of(*c, depth).0).collect();
    from_bits(&b)
}
/// independent writer: moves each block to the nearest multiple of depth plus/minus a quarter.
pub fn write_bytes(img: &Array2<u8>, bytes: &[u8], depth: f64, levels: usize) -> Array2<u8> {
    let c = coefficients(img, levels);
    let s = 1usize << levels;
    let cols = c.dim().1;
    let mut o = img.clone();
    for (i, bit) in bits(bytes).iter().enumerate() {
        let (r, k) = (i / cols, i % cols);
        let target = ((c[[r, k]] / depth).round() + if *bit { 0.25 } else { -0.25 }) * depth;
        // spread the exact integer block sum evenly over the block
        let want = (target * s as f64).round() as i64;
        let have: i64 = (c[[r, k]] * s as f64).round() as i64;
        let diff = want - have;
        let n = (s * s) as i64;
        let (q, rem) = (diff.div_euclid(n), diff.rem_euclid(n));
        for y in 0..s {
            for x in 0..s {
                let e = q + if ((y * s + x) as i64) < rem { 1 } else { 0 };
                let p = &mut o[[r * s + y, k * s + x]];
                let v = *p as i64 + e;
                assert!((0..=255).contains(&v), "reference writer out of range");
                *p = v as u8;
            }
        }
    }
    o
}
/// how far pixels must stay from 0 and 255
pub fn headroom(depth: f64, levels: usize) -> f64 {
    0.75 * depth / (1u64 << levels) as f64 + 1.0
}

// ---------------------------------------------------------------- wavelet
/// orthonormal multi-level Haar transform
pub fn haar(m: &Array2<f64>, levels: usize) -> Array2<f64> {
    let mut o = m.clone();
    let (mut h, mut w) = m.dim();
    for _ in 0..levels {
        let t = o.clone();
        for y in 0..h / 2 {
            for x in 0..w / 2 {
                let (a, b, c, d) = (t[[2 * y, 2 * x]], t[[2 * y, 2 * x + 1]], t[[2 * y + 1, 2 * x]], t[[2 * y + 1, 2 * x + 1]]);
                o[[y, x]] = (a + b + c + d) / 2.0;
                o[[y, x + w / 2]] = (a - b + c - d) / 2.0;
                o[[y + h / 2, x]] = (a + b - c - d) / 2.0;
                o[[y + h / 2, x + w / 2]] = (a - b - c + d) / 2.0;
            }
        }
        h /= 2;
        w /= 2;
    }
    o
}

// ---------------------------------------------------------------- Zernike
fn binomial(n: u64, k: u64) -> i128 {
    (0..k.min(n - k) as i128).fold(1, |b, i| b * (n as i128 - i) / (i + 1))
}
/// exact integer coefficients of the radial polynomial, as (power, coefficient)
pub fn radial_coefficients(n: u64, m: u64) -> Vec<(i32, f64)> {
    (0..=(n - m) / 2)
        .map(|s| {
            let c = binomial(n - s, s) * binomial(n - 2 * s, (n - m) / 2 - s);
            ((n - 2 * s) as i32, if s % 2 == 0 { c as f64 } else { -(c as f64) })
        })
        .collect()
}
/// magnitudes of the moments of order 2*amount-1, repetitions 1,3,..
pub fn features(img: &Array2<u8>, amount: usize) -> Vec<f64> {
    let (h, w) = img.dim();
    let d = h.max(w);
    let n = (2 * amount - 1) as u64;
    let pi = std::f64::consts::PI;
    (0..amount)
        .map(|i| {
            let m = (2 * i + 1) as u64;
            let rc = radial_coefficients(n, m);
            let (mut re, mut im) = (0.0f64, 0.0f64);
            for ((y, x), p) in img.indexed_iter() {
                if *p == 0 {
                    continue;
                }
                // centres of the pixels of the covering square, scaled into the unit circle
                let u = (2.0 * y as f64 - (d as f64 - 1.0)) / ((d as f64 - 1.0) * std::f64::consts::SQRT_2);
                let v = (2.0 * x as f64 - (d as f64 - 1.0)) / ((d as f64 - 1.0) * std::f64::consts::SQRT_2);
                let r = (u * u + v * v).sqrt();
                let t = v.atan2(u);
                // Horner over r^2
                let mut acc = 0.0;
                for (_, c) in rc.iter() {
                    acc = acc * r * r + c;
                }
                let rad = acc * r.powi(m as i32);
                re += *p as f64 * rad * (m as f64 * t).cos();
                im -= *p as f64 * rad * (m as f64 * t).sin();
            }
            (n as f64 + 1.0) / pi * (re * re + im * im).sqrt() / (h * w) as f64
        })
        .collect()
}

// ---------------------------------------------------------------- test images
/// deterministic mixing function, used to build structured data (not to sample)
pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F) ^ c.wrapping_mul(0x165667B19E3779F9);
    z ^= z >> 29;
    z = z.wrapping_mul(0xbf58476d1ce4e5b9);
    z ^= z >> 32;
    z = z.wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub const FAMILIES: usize = 10;
/// images with all pixels within [lo, hi]
pub fn image(family: usize, h: usize, w: usize, lo: u8, hi: u8, block: usize) -> Array2<u8> {
    let span = (hi - lo) as f64;
    Array2::from_shape_fn([h, w], |(y, x)| match family {
        0 => ((lo as u16 + hi as u16) / 2) as u8,
        1 => lo,
        2 => hi,
        3 => lo + (span * x as f64 / (w.max(2) - 1) as f64) as u8,
        4 => lo + (span * y as f64 / (h.max(2) - 1) as f64) as u8,
        5 => if (x + y) % 2 == 0 { lo } else { hi },
        6 => lo + (mix(1, (y / block) as u64, (x / block) as u64) % (hi as u64 - lo as u64 + 1)) as u8,
        7 => lo + (mix(2, y as u64, x as u64) % (hi as u64 - lo as u64 + 1)) as u8,
        8 => {
            // consecutive blocks take consecutive grey levels: every residue modulo the depth
            let k = (y / block) * (w / block) + x / block;
            lo + (k % (hi as usize - lo as usize + 1)) as u8
        }
        _ => {
            let fy = (y as f64 / 23.0).cos();
            let fx = (x as f64 / 17.0).sin();
            lo + (span * (0.5 + 0.5 * fx * fy)) as u8
        }
    })
}
pub const PATTERNS: usize = 8;
pub fn payload(pattern: usize, len: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match pattern {
            0 => i as u8,
            1 => 0,
            2 => 255,
            3 => 0x80 >> (i % 8),
            4 => b"Hello world! "[i % 13],
            5 => mix(7, i as u64, len as u64) as u8,
            6 => 0xAA,
            _ => 255 - i as u8,
        })
        .collect()
}
/// contents by number: below 100 the patterns above, from 100 a constant, and structured families
pub fn content(pattern: usize, len: usize) -> Vec<u8> {
    match pattern {
        0..=99 => payload(pattern, len),
        100..=355 => vec![(pattern - 100) as u8; len],
        // one byte of a base takes a value
        10_000..=999_999 => {
            let (n, base) = ((pattern - 10_000) % 65536, (pattern - 10_000) / 65536);
            let mut p = payload([5, 1, 2][base], len);
            let (i, v) = (n / 256, n % 256);
            if i < len {
                p[i] = v as u8;
            }
            p
        }
        // all pairs of bytes at the start, or at the end
        1_000_000..=2_999_999 => {
            let n = pattern % 1_000_000;
            let mut p = payload(5, len);
            let at = if pattern < 2_000_000 { 0 } else { len.saturating_sub(2) };
            for (i, v) in [n / 256, n % 256].into_iter().enumerate() {
                if at + i < len {
                    p[at + i] = v as u8;
                }
            }
            p
        }
        // a run of one value at the start or at the end
        _ => {
            let (n, kind) = (pattern % 10_000, (pattern - 3_000_000) / 10_000);
            let v = [0u8, 255, 0x20, 0x0A, 0x80, 0x01, 0x0D, 0x7F][kind / 2];
            let mut p = payload(5, len);
            for i in 0..n.min(len) {
                p[if kind % 2 == 0 { i } else { len - 1 - i }] = v;
            }
            p
        }
    }
}
pub const RUNS: usize = 16;
/// how far rounding may move the features: the size of the terms of the radial polynomials, which cancel
pub fn feature_rounding(img: &Array2<u8>, amount: usize) -> Vec<f64> {
    let (h, w) = img.dim();
    let d = h.max(w) as f64;
    let n = (2 * amount - 1) as u64;
    (0..amount)
        .map(|i| {
            let rc = radial_coefficients(n, (2 * i + 1) as u64);
            let mut sum = 0.0;
            for ((y, x), p) in img.indexed_iter() {
                if *p != 0 {
                    let r2 = ((2.0 * y as f64 - d + 1.0).powi(2) + (2.0 * x as f64 - d + 1.0).powi(2)) / (2.0 * (d - 1.0).powi(2));
                    sum += *p as f64 * rc.iter().map(|(k, c)| c.abs() * r2.powf(*k as f64 / 2.0)).sum::<f64>();
                }
            }
            // a power of order n may be off by a relative error of some n roundings
            (n as f64 + 1.0) * sum / (h * w) as f64 * f64::EPSILON * (n as f64 + 8.0)
        })
        .collect()
}
/// the moment of one order and repetition, as (real, imaginary, rounding allowance)
pub fn moment(img: &Array2<u8>, n: u64, m: u64) -> (f64, f64, f64) {
    let (h, w) = img.dim();
    let d = h.max(w) as f64;
    let rc = radial_coefficients(n, m);
    let (mut re, mut im, mut err) = (0.0f64, 0.0f64, 0.0f64);
    for ((y, x), p) in img.indexed_iter() {
        if *p == 0 {
            continue;
        }
        // twice the offset from the middle, an exact integer; the middle itself has radius 0
        let (a, b) = (2.0 * y as f64 - (d - 1.0), 2.0 * x as f64 - (d - 1.0));
        let r = (a * a + b * b).sqrt() / ((d - 1.0) * std::f64::consts::SQRT_2);
        let t = if a == 0.0 && b == 0.0 { 0.0 } else { b.atan2(a) };
        let mut acc = 0.0;
        let mut abs = 0.0;
        for (_, c) in rc.iter() {
            acc = acc * r * r + c;
            abs = abs * r * r + c.abs();
        }
        let low = r.powi(m as i32);
        re += *p as f64 * acc * low * (m as f64 * t).cos();
        im -= *p as f64 * acc * low * (m as f64 * t).sin();
        err += *p as f64 * abs * low;
    }
    let f = (n as f64 + 1.0) / std::f64::consts::PI / (h * w) as f64;
    (f * re, f * im, f * err * f64::EPSILON * (8.0 * n as f64 + 64.0))
}
