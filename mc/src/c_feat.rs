//! C11-C15: perturbation bits, quantization and image features.
use crate::engine::*;
use crate::rm;
use bitvec::prelude::*;
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use ndarray::Array2;
use serde_json::json;
use three_bit_quantization::*;

type Bits = BitVec<u8, Lsb0>;
pub fn bv(b: &[bool]) -> Bits {
    let mut v = Bits::new();
    for x in b {
        v.push(*x);
    }
    v
}
pub fn unbv(b: &Bits) -> Vec<bool> {
    b.iter().map(|x| *x).collect()
}

// ---------------------------------------------------------------- C11
// case: [len, kind, param]; kind 0: all contents with top bits fixed to param, 1: structured
fn c11_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for len in 0..=t.pick(13i64, 17) {
        let hi = (len - 10).max(0);
        for p in 0..1i64 << hi {
            v.push(vec![len, 0, p]);
        }
    }
    for len in 0..=t.pick(256i64, 600) {
        for kind in 1..=6 {
            v.push(vec![len, kind, 0]);
        }
    }
    for len in [300i64, 511, 512, 513, 1000, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 32767, 32768, 65534, 65535, 65536, 65537, 65544, 100_000, 131_075, 524_287, 524_288, 524_289].into_iter().chain(t.pick(vec![], (601..4200).collect())) {
        for kind in 1..=5 {
            v.push(vec![len, kind, 0]);
        }
    }
    v
}
fn c11_show(k: &Case) -> String {
    format!("{} bits, {}", k[0], if k[1] == 0 { format!("all contents with leading part {:b}", k[2]) } else { format!("structured content {}", k[1]) })
}
fn c11_one(b: &[bool], x: &mut Ctx) -> R {
    let want = rm::from_bits(b);
    let n = b.len();
    let make = |variant: usize| -> Bits {
        match variant {
            0 => bv(b),
            1 => {
                // dead bits behind the end are set
                let mut v = bv(b);
                for _ in 0..(8 - n % 8) % 8 + 8 {
                    v.push(true);
                }
                v.truncate(n);
                v
            }
            _ => {
                // starts in the middle of a byte
                let mut v = bv(&[true, true, true]);
                v.extend(b.iter());
                v[3..].to_bitvec()
            }
        }
    };
    for variant in 0..3 {
        let v = make(variant);
        let by = guard(|| perturbation_vector_as_bytes(&v)).map_err(|m| Fail { key: "pack-fails".into(), msg: format!("packing {} bits {:?} (form {}) fails: {}", n, &b[..n.min(64)], variant, m) })?;
        x.step(1);
        ensure!(by.len() == (n + 7) / 8, "size", "{} bits are packed into {} bytes", n, by.len());
        let mut got = rm::bits(&by);
        got.truncate(n);
        ensure!(got == b, "pack", "{} bits {:?} (form {}) are packed to {:?}", n, &b[..n.min(64)], variant, &by[..by.len().min(16)]);
    }
    x.state(&(n, &want));
    for tail in [vec![], vec![0u8], vec![255, 255], vec![1, 2, 3]] {
        for dirt in [0u8, 0xFF] {
            let mut y = want.clone();
            if n % 8 != 0 {
                let i = y.len() - 1;
                y[i] |= dirt << (n % 8);
            }
            y.extend_from_slice(&tail);
            let back = guard(|| perturbation_vector_from_bytes(&y, n)).map_err(|m| Fail { key: "unpack-fails".into(), msg: format!("unpacking {} bits of {:?} fails: {}", n, &y[..y.len().min(16)], m) })?;
            x.step(1);
            ensure!(unbv(&back) == b, "unpack", "{} bits {:?} packed as {:?} come back as {} bits {:?}", n, &b[..n.min(64)], &y[..y.len().min(16)], back.len(), &unbv(&back)[..back.len().min(64)]);
        }
    }
    x.validated();
    Ok(())
}
fn c11_run(k: &Case, x: &mut Ctx) -> R {
    let n = k[0] as usize;
    if k[1] == 0 {
        let low = n.min(10);
        for c in 0..1u64 << low {
            let w = c | (k[2] as u64) << low;
            let b: Vec<bool> = (0..n).map(|i| w >> i & 1 == 1).collect();
            c11_one(&b, x)?;
        }
        x.outcome(&format!("{} bits, all contents", n));
    } else {
        if k[1] == 6 {
            for i in 0..n {
                let b: Vec<bool> = (0..n).map(|j| i == j).collect();
                c11_one(&b, x)?;
            }
        } else {
            let b: Vec<bool> = (0..n)
                .map(|i| match k[1] {
                    1 => true,
                    2 => i % 2 == 0,
                    3 => i % 3 == 0,
                    4 => rm::mix(4, i as u64, n as u64) & 1 == 1,
                    _ => i + 1 == n,
                })
                .collect();
            c11_one(&b, x)?;
        }
        x.outcome(&format!("remainder {} modulo 8", n % 8));
    }
    x.sample(|| c11_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C12, C13
const STEPS: [f64; 27] = [
    1.0, 0.5, 0.25, 0.1, 0.3, 0.03, 1.125, 3.0, 100.0, 0.001, 0.7, 2.0, 1.9, 0.125, 0.256, 12.5, 1e-12, 1e-6, 3e-5, 7.0, 255.0, 4096.0, 12345.678, 65536.0, 1e6, 1e9, 1e-30,
];
fn fracs(fine: bool) -> Vec<f64> {
    let mut f = vec![0.0, 1e-9, 0.25, 0.5 - 1e-9, 0.5, 0.5 + 1e-9, 0.75, 1.0 - 1e-9, 0.999, 0.001, 0.499, 0.501];
    for i in 0..if fine { 64 } else { 16 } {
        f.push(i as f64 / if fine { 64.0 } else { 16.0 });
    }
    f
}
fn features_grid(step: f64, q: i64, fine: bool) -> Vec<f64> {
    let mut v: Vec<f64> = fracs(fine).iter().map(|f| step * (q as f64 + f)).collect();
    // exact neighbours of the borders, and products rounded differently
    for b in [step * q as f64, step * (q as f64 + 0.5), (q as f64) * step] {
        v.push(b);
        v.push(f64::from_bits(b.to_bits().wrapping_add(1)));
        if b != 0.0 {
            v.push(f64::from_bits(b.to_bits() - 1));
        }
    }
    v.retain(|x| x.is_finite() && x.abs() < 1e13);
    v
}
// cells beyond the range of 32-bit numbers
const FAR: [i64; 12] = [1 << 24, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 32) - 3, 3_000_000_000, 1 << 35];
fn qs(t: Tier) -> Vec<i64> {
    let mut v: Vec<i64> = (-t.pick(9, 40)..=t.pick(13, 40)).collect();
    v.extend([-1000, -257, -129, 100, 127, 128, 129, 255, 256, 1023, 1024, 65535, 65536, 1_000_003]);
    v
}
// case: [step index, q, kind]; kind 0 noise grid, 1 vectors
fn c12_cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for s in 0..STEPS.len() as i64 {
        for q in qs(t).into_iter().chain(FAR) {
            v.push(vec![s, q, 0]);
        }
    }
    for s in 0..STEPS.len() as i64 {
        for n in (0..=24).chain([31, 32, 33, 63, 64, 85, 86, 100, 128, 300, 1000, 2731, 8192, 21845, 21846, 30000]).chain(t.pick(25..25, 25..300)) {
            v.push(vec![s, n, 1]);
        }
    }
    v
}
fn c12_show(k: &Case) -> String {
    if k[2] == 0 { format!("step {}, features in the cell {}, all noises of the grid", STEPS[k[0] as usize], k[1]) } else { format!("step {}, vectors of {} features", STEPS[k[0] as usize], k[1]) }
}
fn quant(f: &[f64], step: f64) -> Result<(Vec<i64>, Bits), Fail> {
    guard(|| three_bit_quantization(&f.to_vec(), step)).map_err(|m| Fail { key: "quantize-fails".into(), msg: format!("quantizing {:?} with step {} fails: {}", &f[..f.len().min(4)], step, m) })
}
fn dequant(f: &[f64], b: &Bits, step: f64) -> Result<Vec<i64>, Fail> {
    guard(|| three_bit_dequantization(&f.to_vec(), b, step)).map_err(|m| Fail { key: "restore-fails".into(), msg: format!("restoring {:?} with step {} fails: {}", &f[..f.len().min(4)], step, m) })
}
const MARGIN: f64 = 1.0 - 1.0 / 1048576.0;
fn noises(fine: bool) -> Vec<f64> {
    let mut v = vec![0.0, MARGIN, -MARGIN, 0.999, -0.999, 1e-9, -1e-9, 0.5, -0.5, 0.5 + 1e-9, 0.5 - 1e-9, -0.5 - 1e-9, -0.5 + 1e-9];
    let n = if fine { 64 } else { 20 };
    for i in 1..n {
        v.push(i as f64 / n as f64 + 1e-5);
        v.push(-(i as f64) / n as f64 - 1e-5);
        v.push(i as f64 / n as f64);
        v.push(-(i as f64) / n as f64);
    }
    v
}
fn c12_run(k: &Case, x: &mut Ctx) -> R {
    let step = STEPS[k[0] as usize];
    let fine = x.tier == Tier::Thorough;
    if k[2] == 0 {
        for f in features_grid(step, k[1], fine) {
            let (q, b) = quant(&[f], step)?;
            for n in noises(fine) {
                let g = f + n * step;
                if (g - f).abs() > step * if k[1].abs() > 1 << 20 { 0.999 } else { MARGIN } {
                    continue;
                }
                let r = dequant(&[g], &b, step)?;
                x.step(1);
                ensure!(r == q, "not-restored", "feature {:e} (step {}) quantized to {:?} with bits {:?}; with noise {:e} it is restored as {:?}", f, step, q, unbv(&b), g - f, r);
                x.validated();
                let moved = (g / step).floor() as i64 - q[0];
                x.outcome(&format!("cell moved by {}", moved));
            }
            x.state(&(k[0], f.to_bits()));
        }
    } else {
        let n = k[1] as usize;
        for variant in 0..6u64 {
            let mut f = vec![];
            let mut g = vec![];
            for i in 0..n {
                let z = rm::mix(variant, i as u64, k[0] as u64);
                let a = step * ((z % 23) as f64 - 11.0 + ((z >> 8) % 64) as f64 / 64.0);
                let d = match variant {
                    0 => 0.0,
                    1 => 0.99,
                    2 => -0.99,
                    3 => if i % 2 == 0 { 0.97 } else { -0.97 },
                    4 => if i + 1 == n { 0.9 } else { 0.0 },
                    _ => ((z >> 20) % 199) as f64 / 100.0 - 0.99,
                };
                f.push(a);
                g.push(a + d * step);
            }
            let (q, b) = quant(&f, step)?;
            let r = dequant(&g, &b, step)?;
            x.step(2);
            ensure!(q.len() == n, "amount", "{} features are quantized to {} values", n, q.len());
            ensure!(r == q, "not-restored", "{} features (variant {}, step {}) are not restored: {:?} instead of {:?}", n, variant, step, &r[..r.len().min(8)], &q[..q.len().min(8)]);
            x.validated();
            x.state(&(k, variant));
        }
        x.outcome("vectors");
    }
    x.sample(|| c12_show(k));
    Ok(())
}
fn c13_run(k: &Case, x: &mut Ctx) -> R {
    let step = STEPS[k[0] as usize];
    let fine = x.tier == Tier::Thorough;
    if k[2] == 0 {
        let mut drifts = vec![2.0 + 1e-6, 2.001, 2.25, 2.5, 2.75, 2.999, 3.0, 3.001, 3.5, 3.999, 4.0, 4.001, 4.5, 4.999, 5.0, 5.5, 6.0, 6.999, 7.0, 7.5, 8.0, 8.5, 10.0, 11.999, 12.0, 12.5, 16.0, 64.0, 255.0, 256.0, 1000.0];
        if fine {
            for i in 0..200 {
                drifts.push(2.0 + 1e-6 + i as f64 / 16.0);
            }
        }
        for f in features_grid(step, k[1], fine) {
            let (q, b) = quant(&[f], step)?;
            let e = (f / step).floor();
            ensure!(q == vec![e as i64], "floor", "feature {:e} with step {} is quantized to {:?} instead of {}", f, step, q, e);
            ensure!(b.len() == 3, "bits", "{} bits are stored for one feature", b.len());
            x.state(&(k[0], f.to_bits()));
            for d in drifts.iter() {
                for g in [f + d * step, f - d * step] {
                    if (g - f).abs() <= 2.0 * step * (1.0 + 1e-7) {
                        continue;
                    }
                    let r = dequant(&[g], &b, step)?;
                    x.step(1);
                    ensure!(r != q, "hidden", "feature {:e} (step {}) moved by {:e} is still restored as {:?}", f, step, g - f, r);
                    x.validated();
                    x.outcome(&format!("off by {}", (r[0] - q[0]).clamp(-20, 20)));
                }
            }
        }
    } else {
        // independence of positions: a vector behaves like its elements
        let n = k[1] as usize;
        for variant in 0..6u64 {
            let f: Vec<f64> = (0..n).map(|i| step * ((rm::mix(variant, i as u64, 77) % 4001) as f64 / 100.0 - 20.0)).collect();
            let (q, b) = quant(&f, step)?;
            ensure!(q.len() == n && b.len() == 3 * n, "amount", "{} features give {} values and {} bits", n, q.len(), b.len());
            let mut single = vec![];
            let bits = unbv(&b);
            for (i, a) in f.iter().enumerate() {
                let (q1, b1) = quant(&[*a], step)?;
                ensure!(q1[0] == q[i], "position", "feature {} of {} ({:e}, step {}) is quantized to {} instead of {}", i, n, a, step, q[i], q1[0]);
                ensure!(unbv(&b1) == bits[3 * i..3 * i + 3], "position-bits", "the bits of feature {} of {} differ from those of the same feature alone", i, n);
                single.push(b1);
            }
            x.step(1 + n as u64);
            // one position drifts far, the others by small noise
            let all: Vec<usize> = if n <= 300 { (0..n.min(if variant < 2 { n } else { 3 })).collect() } else { vec![0, n / 2, n - 1] };
            for p in all {
                let g: Vec<f64> = f.iter().enumerate().map(|(i, a)| a + step * if i == p { if variant % 2 == 0 { 2.6 } else { -3.3 } } else { 0.4 - 0.8 * (i % 2) as f64 }).collect();
                let r = dequant(&g, &b, step)?;
                x.step(1);
                ensure!(r.len() == n, "amount", "{} features are restored to {} values", n, r.len());
                ensure!(r[p] != q[p], "hidden", "feature {} of {} moved by more than two steps and is still restored as {}", p, n, r[p]);
                for i in 0..n {
                    let r1 = dequant(&[g[i]], &single[i], step)?;
                    ensure!(r1[0] == r[i], "dependent", "feature {} of {} is restored as {} in the vector and as {} alone", i, n, r[i], r1[0]);
                }
                x.validated();
            }
            x.state(&(k, variant));
        }
        x.outcome("vectors");
    }
    x.sample(|| c12_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C14, C15
pub fn feats(img: &Array2<u8>, n: usize) -> Result<Vec<f64>, Fail> {
    guard(|| calculate_features(img, FeaturesType::MomentsZernike, n)).map_err(|m| Fail { key: "fails".into(), msg: format!("calculating {} features of a {:?} image fails: {}", n, img.dim(), m) })
}
fn close(a: &[f64], b: &[f64], scale: f64) -> Option<usize> {
    (0..a.len()).find(|i| !((a[*i] - b[*i]).abs() <= 1e-6 * scale.max(b[*i].abs()).max(1e-9)))
}
// case: [h, w, n, kind, a]
fn c14_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let nmax = 11i64;
    for h in 1..=t.pick(9i64, 14) {
        for w in 1..=t.pick(9i64, 14) {
            if h * w > 1 {
                for n in 1..=nmax {
                    if h.max(w) > 7 && n > 4 && n % 2 == 0 && t == Tier::Quick {
                        continue;
                    }
                    v.push(vec![h, w, n, 0, 0]);
                    v.push(vec![h, w, n, 1, 0]);
                    v.push(vec![h, w, n, 2, 0]);
                }
            }
        }
    }
    for (h, w) in [(1i64, 2i64), (2, 1), (1, 16), (16, 1), (16, 16), (15, 16), (16, 15), (17, 17), (31, 33), (32, 32), (24, 40), (64, 64), (65, 64), (8, 100), (100, 8), (127, 127), (128, 128), (129, 130)] {
        for n in [1, 2, 3, 5, 8, 11] {
            if h.max(w) > 70 && n > 3 && t == Tier::Quick && n != 11 {
                continue;
            }
            for kind in 2..=5 {
                v.push(vec![h, w, n, kind, 0]);
            }
        }
    }
    for (h, w) in [(208i64, 208i64), (256, 168), (200, 256), (255, 257), (257, 255), (256, 256)] {
        for n in t.pick(vec![1, 3], vec![1, 2, 3, 5, 11]) {
            for kind in [2, 3] {
                v.push(vec![h, w, n, kind, 0]);
            }
        }
    }
    // many features: the factorials leave the integers of 64, then of 128 bits
    for (h, w) in t.pick(vec![(2i64, 2i64), (3, 4), (5, 3), (6, 6)], vec![(2, 2), (3, 4), (5, 3), (6, 6), (9, 7), (12, 12), (5, 16)]) {
        for n in 12..=t.pick(26, 32i64) {
            for kind in [0, 2, 3] {
                v.push(vec![h, w, n, kind, 0]);
            }
        }
    }
    for n in t.pick(vec![1], vec![1, 3, 11]) {
        v.push(vec![512, 512, n, 3, 0]);
        v.push(vec![513, 511, n, 3, 0]);
        v.push(vec![400, 520, n, 2, 0]);
    }
    for (h, w) in [(1i64, 3000i64), (3000, 1), (40, 1500), (2049, 17), (1025, 1023), (700, 1100)] {
        for n in t.pick(vec![1, 2], vec![1, 2, 4, 7]) {
            v.push(vec![h, w, n, 3, 0]);
        }
    }
    v.sort_by_key(|k| -(k[0].max(k[1]).pow(2) * k[2] * k[2]) * if k[3] == 0 { k[0] * k[1] } else { 1 });
    v
}
fn c14_show(k: &Case) -> String {
    format!("{}x{} image, {} features, {}", k[0], k[1], k[2], ["every single pixel", "pairs of pixels", "ramp", "noise", "bright border", "one bright pixel off centre"][k[3] as usize])
}
fn c14_run(k: &Case, x: &mut Ctx) -> R {
    let (h, w, n) = (k[0] as usize, k[1] as usize, k[2] as usize);
    let mut one = |img: &Array2<u8>, x: &mut Ctx| -> R {
        let got = feats(img, n)?;
        let want = rm::features(img, n);
        x.step(1);
        ensure!(got.len() == n, "amount", "{} features asked for, {} given", n, got.len());
        let scale = img.iter().map(|p| *p as f64).sum::<f64>() * 2.0 * n as f64 / (h * w) as f64;
        // beyond 11 features the rounding of the terms, which cancel, exceeds the general tolerance
        let rounding = if n > 11 { rm::feature_rounding(img, n) } else { vec![0.0; n] };
        if let Some(i) = close(&got, &want, scale * 0.02).and_then(|_| (0..n).find(|i| !((got[*i] - want[*i]).abs() <= 1e-6 * (scale * 0.02).max(want[*i].abs()).max(1e-9) + rounding[*i]))) {
            return fail("definition", format!("feature {} of the image with {} non-zero pixels (first at {:?}) is {} instead of {}", i, img.iter().filter(|p| **p != 0).count(), img.indexed_iter().find(|p| *p.1 != 0).map(|p| p.0), got[i], want[i]));
        }
        x.validated();
        x.state(&(img.dim(), img.iter().cloned().collect::<Vec<u8>>(), n));
        x.outcome(if got.iter().all(|a| *a < 1e-9) { "all zero" } else { "non-zero" });
        Ok(())
    };
    match k[3] {
        0 => {
            for i in 0..h * w {
                let mut m = Array2::zeros([h, w]);
                m[[i / w, i % w]] = [255u8, 1, 100][i % 3];
                one(&m, x)?;
            }
            one(&Array2::zeros([h, w]), x)?;
        }
        1 => {
            for i in 0..h * w {
                let j = (i + 1 + i % 5) % (h * w);
                let mut m = Array2::zeros([h, w]);
                m[[i / w, i % w]] = 200u8;
                m[[j / w, j % w]] = 90;
                one(&m, x)?;
            }
        }
        kind => {
            let m = Array2::from_shape_fn([h, w], |(y, xx)| match kind {
                2 => ((y * 7 + xx * 3) % 256) as u8,
                3 => rm::mix(y as u64, xx as u64, 5) as u8,
                4 => if y == 0 || xx == 0 || y == h - 1 || xx == w - 1 { 255 } else { 3 },
                _ => if y == h / 3 && xx == w - 1 - w / 4 { 255 } else { 0 },
            });
            one(&m, x)?;
        }
    }
    x.outcome(&format!("{} features", n));
    x.sample(|| c14_show(k));
    Ok(())
}

// case: [d, n, kind, param]
fn c15_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in 1..=t.pick(5, 11) {
        for p in 0..81 {
            v.push(vec![2, n, 0, p]);
        }
    }
    // all images over {0,255} of 3x3
    for n in [1, 2, 3, 5, 11] {
        for p in 0..512 {
            v.push(vec![3, n, 1, p]);
        }
    }
    if t == Tier::Thorough {
        for n in [2, 11] {
            for p in 0..1 << 12 {
                v.push(vec![4, n, 1, p * 16 + p % 7]);
            }
        }
    }
    for d in (2..=t.pick(20, 40)).chain([31, 32, 33, 63, 64, 65, 127, 128]) {
        for n in 1..=11 {
            if d > 16 && ![1, 3, 11].contains(&n) {
                continue;
            }
            for kind in 2..=6 {
                if d > 100 && n == 11 && t == Tier::Quick {
                    continue;
                }
                v.push(vec![d, n, kind, 0]);
            }
        }
    }
    for d in [208, 255, 256, 512, 513, 1025] {
        for kind in [2, 4] {
            if d < 1000 || kind == 2 {
                v.push(vec![d, 1, kind, 0]);
            }
        }
    }
    // every factor, square and not; every constant image
    for (h, w) in [(2i64, 3i64), (3, 2), (1, 2), (5, 1), (4, 4), (7, 9), (16, 5), (12, 31)] {
        for n in t.pick(vec![1i64, 2, 5, 11], (1..=16).collect()) {
            for kind in 7..=9 {
                v.push(vec![h, n, kind, w]);
            }
        }
    }
    for d in (2..=t.pick(7i64, 12)).chain([16, 33]) {
        for n in [1, 3, 11] {
            v.push(vec![d, n, 10, d]);
        }
    }
    v
}
fn c15_show(k: &Case) -> String {
    if k[2] >= 7 {
        return format!("{}x{} image, {} features, {}", k[0], k[3], k[1], if k[2] == 10 { "each constant" } else { "each factor" });
    }
    format!("{}x{} image, {} features, content kind {} parameter {}", k[0], k[0], k[1], k[2], k[3])
}
fn sym(m: &Array2<u8>, s: usize) -> Array2<u8> {
    let d = m.dim().0;
    Array2::from_shape_fn([d, d], |(y, x)| {
        let (mut y, mut x) = (y, x);
        if s & 4 != 0 {
            std::mem::swap(&mut y, &mut x);
        }
        if s & 1 != 0 {
            y = d - 1 - y;
        }
        if s & 2 != 0 {
            x = d - 1 - x;
        }
        m[[y, x]]
    })
}
/// multiplied by every factor which leaves the pixels below 256, or every constant image
fn c15_factors(k: &Case, x: &mut Ctx) -> R {
    let (h, n, w) = (k[0] as usize, k[1] as usize, k[3] as usize);
    if k[2] == 10 {
        for c in 0..256 {
            let f = feats(&Array2::from_elem([h, w], c as u8), n)?;
            x.step(1);
            ensure!(f.len() == n && f.iter().all(|a| a.abs() < 1e-6 * (c as f64 + 1.0) * (n * n) as f64), "constant", "an image of the constant {} has the features {:?}", c, f);
            x.validated();
            x.state(&(h, n, c));
        }
        x.outcome("constant");
        return Ok(());
    }
    let top = [1u64, 5, 25][k[2] as usize - 7];
    let m = Array2::from_shape_fn([h, w], |(y, xx)| (rm::mix(y as u64 + 3, xx as u64, 8) % (top + 1)) as u8);
    let f = feats(&m, n)?;
    let scale = m.iter().map(|p| *p as f64).sum::<f64>() * 2.0 * n as f64 / (h * w) as f64 * 0.02;
    for z in 0..=255 / top as usize {
        let g = feats(&m.mapv(|p| p * z as u8), n)?;
        x.step(1);
        let want: Vec<f64> = f.iter().map(|a| a * z as f64).collect();
        ensure!(g.len() == n, "amount", "{} features asked for, {} given", n, g.len());
        if let Some(i) = (0..n).find(|i| !((g[*i] - want[*i]).abs() <= 1e-6 * (scale * z as f64).max(want[*i].abs()).max(1e-9) * if n > 11 { 1e6 } else { 1.0 })) {
            return fail("scaling", format!("feature {} of the {}x{} image is {} and, for pixels {} times as bright, {}", i, h, w, f[i], z, g[i]));
        }
        x.validated();
        x.state(&(h, w, n, z, top));
    }
    x.outcome("every factor");
    Ok(())
}
fn c15_run(k: &Case, x: &mut Ctx) -> R {
    if k[2] >= 7 {
        return c15_factors(k, x);
    }
    let (d, n) = (k[0] as usize, k[1] as usize);
    let m = Array2::from_shape_fn([d, d], |(y, xx)| {
        let i = y * d + xx;
        match k[2] {
            0 => [0u8, 40, 85][(k[3] as usize / 3usize.pow(i as u32)) % 3],
            1 => if k[3] >> i & 1 == 1 { 85 } else { 0 },
            2 => (rm::mix(y as u64, xx as u64, 6) % 86) as u8,
            3 => ((y * 2 + xx) % 60) as u8,
            4 => if y == 0 && xx == d / 2 { 85 } else { 0 },
            5 => if y + xx < d { 70 } else { 5 },
            _ => 60,
        }
    });
    let f = feats(&m, n)?;
    ensure!(f.len() == n, "amount", "{} features asked for, {} given", n, f.len());
    x.step(1);
    x.state(&(d, n, m.iter().cloned().collect::<Vec<u8>>()));
    let scale = m.iter().map(|p| *p as f64).sum::<f64>() * 2.0 * n as f64 / (d * d) as f64 * 0.02;
    for s in 1..8 {
        if d > 64 && s > 3 && n > 3 || d > 1000 && s > 1 && s != 4 {
            continue;
        }
        let g = feats(&sym(&m, s), n)?;
        x.step(1);
        if let Some(i) = close(&g, &f, scale) {
            return fail("symmetry", format!("feature {} is {} and, after symmetry {} (1 upside down, 2 left-right, 4 transposed, combined), {}", i, f[i], s, g[i]));
        }
    }
    for z in [2u8, 3] {
        let g = feats(&m.mapv(|p| p * z), n)?;
        x.step(1);
        let want: Vec<f64> = f.iter().map(|a| a * z as f64).collect();
        if let Some(i) = close(&g, &want, scale * z as f64) {
            return fail("scaling", format!("feature {} is {} and, for pixels {} times as bright, {}", i, f[i], z, g[i]));
        }
    }
    if k[2] == 6 || m.iter().all(|p| *p == m[[0, 0]]) {
        ensure!(f.iter().all(|a| a.abs() < 1e-6 * 60.0), "constant", "a constant image has the features {:?}", f);
        x.outcome("constant");
    } else {
        x.outcome(if f.iter().all(|a| *a < 1e-9) { "all zero" } else { "non-zero" });
    }
    x.validated();
    x.outcome(&format!("{} features", n));
    x.sample(|| c15_show(k));
    Ok(())
}

// ---------------------------------------------------------------- C32
fn mom(img: &Array2<u8>, n: usize, m: usize) -> Result<(f64, f64), Fail> {
    use moments::MomentFeaturesCalculator;
    let c = guard(|| zernike::ZernikeFeaturesCalculator {}.calculate_moment(img, m, n)).map_err(|e| Fail { key: "fails".into(), msg: format!("the moment of order {} and repetition {} of a {:?} image fails: {}", n, m, img.dim(), e) })?;
    Ok((c.re, c.im))
}
// [h, w, order, kind]
fn c32_cases(t: Tier) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let top = t.pick(7i64, 10);
    for h in 1..=top {
        for w in 1..=top {
            if h * w > 1 {
                for n in 0..=t.pick(12i64, 16) {
                    for kind in 0..3 {
                        v.push(vec![h, w, n, kind]);
                    }
                }
            }
        }
    }
    for (h, w) in [(2i64, 2i64), (3, 3), (3, 5), (4, 4)] {
        for n in 13..=t.pick(36i64, 60) {
            v.push(vec![h, w, n, 0]);
            v.push(vec![h, w, n, 1]);
        }
    }
    for (h, w) in [(16i64, 16i64), (17, 17), (16, 23), (31, 12), (64, 64), (65, 40), (100, 101)] {
        for n in t.pick(vec![0i64, 1, 2, 5, 8, 12], (0..=21).collect()) {
            v.push(vec![h, w, n, 1]);
            v.push(vec![h, w, n, 2]);
        }
    }
    for (h, w) in [(256i64, 256i64), (600, 400), (1, 2000), (1030, 9), (512, 512), (3000, 3)] {
        for n in t.pick(vec![0i64, 1, 2, 5], (0..=12).collect()) {
            v.push(vec![h, w, n, 2]);
        }
    }
    v.sort_by_key(|k| -(k[0].max(k[1]).pow(2) * (k[2] + 1) * (k[2] + 1)) * if k[3] == 0 { k[0] * k[1] } else { 1 });
    v
}
fn c32_show(k: &Case) -> String {
    format!("moments of order {} and every repetition of {}x{} images: {}", k[2], k[0], k[1], ["every single pixel", "noise, all eight turned and mirrored copies", "ramp"][k[3] as usize])
}
fn c32_run(k: &Case, x: &mut Ctx) -> R {
    let (h, w, n) = (k[0] as usize, k[1] as usize, k[2] as usize);
    let one = |img: &Array2<u8>, x: &mut Ctx| -> Result<Vec<(f64, f64)>, Fail> {
        let mut all = vec![];
        for m in (n % 2..=n).step_by(2) {
            let got = mom(img, n, m)?;
            let (re, im, err) = rm::moment(img, n as u64, m as u64);
            x.step(1);
            let tol = err + 1e-9;
            ensure!((got.0 - re).abs() <= tol && (got.1 - im).abs() <= tol, "definition", "the moment of order {} and repetition {} of the {:?} image with {} non-zero pixels is {} + {}i instead of {} + {}i", n, m, img.dim(), img.iter().filter(|p| **p != 0).count(), got.0, got.1, re, im);
            x.validated();
            all.push(got);
            x.outcome(if m == 0 { "repetition 0" } else if got.0.abs() + got.1.abs() < 1e-9 { "zero" } else { "non-zero" });
        }
        x.state(&(img.dim(), img.iter().cloned().collect::<Vec<u8>>(), n));
        Ok(all)
    };
    match k[3] {
        0 => {
            for i in 0..h * w {
                let mut m = Array2::zeros([h, w]);
                m[[i / w, i % w]] = [255u8, 1, 100][i % 3];
                one(&m, x)?;
            }
            one(&Array2::zeros([h, w]), x)?;
        }
        1 => {
            let m = Array2::from_shape_fn([h, w], |(y, xx)| rm::mix(y as u64, xx as u64, 5) as u8);
            let base = one(&m, x)?;
            if h == w {
                // a quarter turn multiplies by a power of i, a mirror conjugates (up to such a power): sizes stay
                for s in 1..8 {
                    let t = one(&sym(&m, s), x)?;
                    for (j, (a, b)) in base.iter().zip(&t).enumerate() {
                        let (p, q) = (a.0.hypot(a.1), b.0.hypot(b.1));
                        let err = rm::moment(&m, n as u64, (n % 2 + 2 * j) as u64).2;
                        ensure!((p - q).abs() <= 4.0 * err + 1e-9, "turned", "repetition {}: size {} instead of {} after symmetry {}", n % 2 + 2 * j, q, p, s);
                    }
                }
            }
        }
        _ => {
            one(&Array2::from_shape_fn([h, w], |(y, xx)| ((y * 7 + xx * 3) % 256) as u8), x)?;
        }
    }
    x.outcome(&format!("order {}", n));
    x.sample(|| c32_show(k));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            rule: "Every bit string up to the bound and structured strings of every length, each in three memory forms (plain, with dirty dead bits, starting inside a byte), packed and unpacked with clean and dirty padding and trailing bytes.",
            cases: c11_cases, run: c11_run, describe: c11_show,
            bounds: |t| json!({"all_contents_up_to_bits": t.pick(13, 17), "structured_lengths": t.pick("0..256 and 24 larger to 524289", "0..4200 and 24 larger to 524289")}),
            assumptions: &[], timeout: 120, min_outcomes: 10,
        },
        Check {
            id: "C12",
            rule: "Product of steps, cells, positions inside the cell (including both borders and the middle with their floating-point neighbours) and noises below one step; plus vectors of every length up to the bound.",
            cases: c12_cases, run: c12_run, describe: c12_show,
            bounds: |t| json!({"steps": STEPS.len(), "cells": t.pick("-9..13 and 14 far ones", "-40..40 and 14 far ones"), "noise_grid": t.pick(89, 265), "margin": "1 - 2^-20 of a step"}),
            assumptions: &["noise is bounded by (1 - 2^-20) steps, so that floating-point rounding of the sum itself is not counted against the code"],
            timeout: 120, min_outcomes: 4,
        },
        Check {
            id: "C13",
            rule: "The same grid with drifts of more than two steps in both directions, the floor rule and the number of bits at every grid point, and vectors compared element by element with single features, with each position in turn drifting.",
            cases: c12_cases, run: c13_run, describe: c12_show,
            bounds: |t| json!({"steps": STEPS.len(), "drifts": t.pick(31, 231)}),
            assumptions: &["drifts exceed two steps by a relative 1e-7"], timeout: 120, min_outcomes: 6,
        },
        Check {
            id: "C14",
            rule: "Every size up to the bound and every n up to 11: all single-pixel images (a basis), pairs of pixels, and structured images; plus larger sizes; features of the real code compared with an independent implementation using exact integer polynomial coefficients.",
            cases: c14_cases, run: c14_run, describe: c14_show,
            bounds: |t| json!({"sizes": t.pick("all h,w <= 9", "all h,w <= 14"), "larger": "24 sizes up to 520, 6 up to 3000 on a side", "n": t.pick("1..11, on tiny images 1..26", "1..11, on small images 1..32")}),
            assumptions: &["relative tolerance 1e-6; images of a single pixel are excluded (the unit circle is undefined)"],
            timeout: 300, min_outcomes: 5,
        },
        Check {
            id: "C15",
            rule: "All images over a small grey alphabet at 2x2 and 3x3 (thorough: part of 4x4) and structured images of every size up to the bound, under all eight symmetries and brightness factors 2 and 3.",
            cases: c15_cases, run: c15_run, describe: c15_show,
            bounds: |t| json!({"all_images": "2x2 over 3 greys, 3x3 over 2 greys", "sizes": t.pick("2..20 and 14 larger to 1025", "2..40 and 14 larger to 1025"), "factors": "0..255 for values 0 and 1, 0..51, 0..10", "constants": "all 256"}),
            assumptions: &["relative tolerance 1e-6"], timeout: 300, min_outcomes: 4,
        },
        Check {
            id: "C32",
            rule: "Every size up to the bound, every order and every repetition of the same parity: all single-pixel images (a basis, the moment being linear), structured images and their eight turned and mirrored copies; the complex moments of the real code compared with an implementation using exact integer polynomial coefficients.",
            cases: c32_cases, run: c32_run, describe: c32_show,
            bounds: |t| json!({"sizes": t.pick("all h,w <= 7", "all h,w <= 10"), "orders": t.pick("0..12, on tiny images 0..36", "0..16, on tiny images 0..60"), "larger": "7 sizes up to 101, 6 up to 3000 on a side"}),
            assumptions: &["tolerance computed from the size of the cancelling terms", "orders and repetitions of different parity, where the polynomial is zero by definition, are left open", "images of a single pixel are excluded"],
            timeout: 300, min_outcomes: 12,
        },
    ]
}
